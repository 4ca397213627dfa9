// Running one invocation in isolation, choice streams, violations.
#pragma once
#include "sys.h"
#include <jansson.h>

namespace sim {
extern u64 g_world_clock;              // simulated ns since start, over all invocations of a scenario
void rt_prepare();                     // once per OS process
Outcome run_isolated(const SchedSpec& spec, std::function<int()> app, std::function<void(std::string&)> extra_save = nullptr, std::function<void(const char*&)> extra_load = nullptr);
int call_app(std::function<int()> app);  // on the main fiber, hooks on

struct Violation { std::string prop, cls, msg; };

// per-invocation decisions for exact replay
struct InvDec { std::map<u64, u32> sched, mem, faults; };

struct Ctx {
	u64 seed = 1; Rng rng{1};
	std::vector<u32> w; size_t pos = 0; bool fixed = false; // choice stream
	bool replay = false; std::vector<InvDec> dec; size_t inv = 0; // schedule replay
	std::vector<InvDec> rec;           // decisions taken
	std::vector<Violation> viols; std::set<std::string> want; std::string family; std::string tier = "quick"; bool verbose = false;
	RunStats tot; u64 invocations = 0, crashes = 0; std::set<u64> sigs; std::map<std::string, u64> counters; u64 hash = 1469598103934665603ull;
	u32 pick(u32 n) { // uniform in [0,n), 0 is the simplest
		u32 v; if(pos < w.size()) v = n ? w[pos] % n : 0; else if(fixed) v = 0; else v = n ? (u32)rng.below(n) : 0;
		if(pos < w.size()) w[pos] = v; else w.push_back(v); ++pos; return v; }
	bool chance(u32 num, u32 den) { return pick(den) >= den - num; } // 0 -> false
	void viol(const std::string& p, const std::string& c, const std::string& m) {
		for(auto& v : viols) if(v.prop == p && v.cls == c) return;
		viols.push_back({p, c, m}); }
	void mixs(const std::string& s) { for(char c : s) hash = (hash ^ (u8)c) * 0x100000001b3ull; }
	void mixu(u64 v) { hash = (hash ^ v) * 0x100000001b3ull; hash ^= hash >> 31; }
};
// choose a schedule; returns spec with strategy etc. drawn from the stream
SchedSpec choose_sched(Ctx& c, bool want_race, bool simple = false);
Outcome run_inv(Ctx& c, SchedSpec spec, std::function<int()> app, std::function<void(std::string&)> sv = nullptr, std::function<void(const char*&)> ld = nullptr);
std::string hex(u64 v);
void ser_s(std::string& o, const std::string& s); std::string de_s(const char*& p); void ser_u(std::string& o, u64 v); u64 de_u(const char*& p);
}
