// Search, minimisation and replay.
#include "scen.h"
#include <sys/personality.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <sstream>
#include <fstream>

namespace sim {
static std::vector<Scenario>& reg() { static std::vector<Scenario> v; return v; }
const std::vector<Scenario>& scenarios() { return reg(); }
void add_scenario(const Scenario& s) { reg().push_back(s); }
__attribute__((weak)) void build_init();
__attribute__((weak)) void unit_init();

static double wallclock() { struct timeval t; gettimeofday(&t, nullptr); return (double)t.tv_sec + 1e-6 * (double)t.tv_usec; }
static const Scenario* find_scn(const std::string& n) { for(auto& s : reg()) if(n == s.name) return &s; return nullptr; }
static bool covers(const Scenario& s, const std::string& p) { std::istringstream i(s.props); std::string x; while(i >> x) if(x == p) return true; return false; }

static Ctx base_ctx(const Scenario& s, u64 seed, const std::string& tier, const std::set<std::string>& want) { Ctx c; c.seed = seed; c.rng.reseed(seed); c.family = s.name; c.tier = tier; c.want = want; return c; }
static const Violation* hit(const Ctx& c) { for(auto& v : c.viols) if(c.want.count(v.prop)) return &v; return nullptr; }
static const Violation* hit(const Ctx& c, const std::string& p, const std::string& cls) { for(auto& v : c.viols) if(v.prop == p && v.cls == cls) return &v; return nullptr; }

static json_t* jdec(const std::map<u64, u32>& m) { json_t* a = json_array(); for(auto& e : m) { json_array_append_new(a, json_integer((json_int_t)e.first)); json_array_append_new(a, json_integer(e.second)); } return a; }
static void undec(json_t* a, std::map<u64, u32>& m) { for(size_t i = 0; i + 1 < json_array_size(a); i += 2) m[(u64)json_integer_value(json_array_get(a, i))] = (u32)json_integer_value(json_array_get(a, i + 1)); }

struct Case { std::string scn, tier, prop, cls, msg; u64 seed = 0, hash = 0; std::vector<u32> w; std::vector<InvDec> dec; };
static void save_case(const Case& k, const std::string& path) {
	json_t* j = json_object(); json_object_set_new(j, "property", json_string(k.prop.c_str())); json_object_set_new(j, "class", json_string(k.cls.c_str())); json_object_set_new(j, "message", json_string(k.msg.c_str())); json_object_set_new(j, "scenario", json_string(k.scn.c_str())); json_object_set_new(j, "tier", json_string(k.tier.c_str())); json_object_set_new(j, "seed", json_string(std::to_string(k.seed).c_str())); json_object_set_new(j, "hash", json_string(hex(k.hash).c_str()));
	json_t* w = json_array(); for(u32 x : k.w) json_array_append_new(w, json_integer(x)); json_object_set_new(j, "world", w); json_t* d = json_array(); size_t ns = 0, nf = 0, nm = 0;
	for(auto& i : k.dec) { json_t* o = json_object(); json_object_set_new(o, "sched", jdec(i.sched)); json_object_set_new(o, "mem", jdec(i.mem)); json_object_set_new(o, "faults", jdec(i.faults)); json_array_append_new(d, o); ns += i.sched.size(); nm += i.mem.size(); nf += i.faults.size(); } json_object_set_new(j, "invocations", d);
	json_object_set_new(j, "summary", json_string((std::to_string(k.w.size()) + " world choices, " + std::to_string(ns) + " schedule decisions, " + std::to_string(nm) + " preemptions between memory accesses, " + std::to_string(nf) + " faults").c_str()));
	if(json_dump_file(j, path.c_str(), JSON_INDENT(1)) != 0) fprintf(stderr, "cannot write %s\n", path.c_str()); json_decref(j);
}
static bool load_case(Case& k, const std::string& path) {
	json_t* j = json_load_file(path.c_str(), 0, nullptr); if(!j) return false; auto s = [&](const char* n) { const char* v = json_string_value(json_object_get(j, n)); return std::string(v ? v : ""); };
	k.prop = s("property"); k.cls = s("class"); k.msg = s("message"); k.scn = s("scenario"); k.tier = s("tier"); k.seed = strtoull(s("seed").c_str(), nullptr, 10); k.hash = strtoull(s("hash").c_str(), nullptr, 16); size_t i; json_t* v;
	json_array_foreach(json_object_get(j, "world"), i, v) k.w.push_back((u32)json_integer_value(v)); json_array_foreach(json_object_get(j, "invocations"), i, v) { InvDec d; undec(json_object_get(v, "sched"), d.sched); undec(json_object_get(v, "mem"), d.mem); undec(json_object_get(v, "faults"), d.faults); k.dec.push_back(d); } json_decref(j); return true;
}
static Ctx run_case(const Case& k, bool verbose = false) { auto s = find_scn(k.scn); Ctx c = base_ctx(*s, k.seed, k.tier, {k.prop}); c.w = k.w; c.fixed = true; c.replay = true; c.dec = k.dec; c.verbose = verbose; s->fn(c); return c; }

static void minimise(Case& k, double budget) {
	double end = wallclock() + budget; auto s = find_scn(k.scn);
	// phase 1: the world, schedules drawn again from the same seed
	auto test_w = [&](const std::vector<u32>& w, std::vector<u32>& used, std::vector<InvDec>& rec, std::string& msg, u64& h) { Ctx c = base_ctx(*s, k.seed, k.tier, {k.prop}); c.w = w; c.fixed = true; s->fn(c); auto v = hit(c, k.prop, k.cls); if(!v) return false; used.assign(c.w.begin(), c.w.begin() + (long)std::min(c.pos, c.w.size())); rec = c.rec; msg = v->msg; h = c.hash; return true; };
	std::vector<u32> used; std::vector<InvDec> rec; std::string msg; u64 h;
	auto accept = [&]() { k.w = used; while(!k.w.empty() && k.w.back() == 0) k.w.pop_back(); k.dec = rec; k.msg = msg; k.hash = h; };
	if(test_w(k.w, used, rec, msg, h)) {
		double e1 = wallclock() + budget * 0.6; accept();
		for(bool again = true; again && wallclock() < e1;) { again = false;
			for(size_t len = std::max<size_t>(1, k.w.size() / 2); len >= 1 && wallclock() < e1; len /= 2) {
				for(size_t at = 0; at < k.w.size() && wallclock() < e1;) { auto w = k.w; bool nz = false; for(size_t i = at; i < std::min(at + len, w.size()); ++i) { if(w[i]) nz = true; w[i] = 0; } if(nz && test_w(w, used, rec, msg, h)) { accept(); again = true; } else { w = k.w; w.erase(w.begin() + (long)at, w.begin() + (long)std::min(at + len, w.size())); if(w.size() < k.w.size() && test_w(w, used, rec, msg, h) && used.size() <= k.w.size() + 4) { size_t before = k.w.size(); accept(); if(k.w.size() < before) { again = true; continue; } } } at += len; }
			} }
	}
	// phase 2: the decisions
	Ctx c0 = run_case(k); if(!hit(c0, k.prop, k.cls)) return;
	auto try_dec = [&](const std::vector<InvDec>& d) { Case t = k; t.dec = d; Ctx c = run_case(t); auto v = hit(c, k.prop, k.cls); if(!v) return false; k.dec = d; k.msg = v->msg; k.hash = c.hash; return true; };
	for(size_t i = 0; i < k.dec.size() && wallclock() < end; ++i) for(int part = 0; part < 3; ++part) {
		auto get = [&](InvDec& d) -> std::map<u64, u32>& { return part == 0 ? d.mem : part == 1 ? d.sched : d.faults; };
		size_t n = get(k.dec[i]).size(); if(!n) continue;
		{ auto d = k.dec; get(d[i]).clear(); if(try_dec(d)) continue; }
		for(size_t len = std::max<size_t>(1, n / 2); wallclock() < end; len = len / 2) {
			for(size_t at = 0; at < get(k.dec[i]).size() && wallclock() < end;) { auto d = k.dec; auto& m = get(d[i]); auto a = m.begin(); std::advance(a, (long)at); auto b = a; for(size_t z = 0; z < len && b != m.end(); ++z) ++b; m.erase(a, b); if(!try_dec(d)) at += len; }
			if(len == 1) break; } }
}

static int cmd_search(int argc, char** argv) {
	std::set<std::string> want; u64 seed = 1, from = 0, stride = 1, maxruns = ~0ull; double budget = 10, minb = 20; std::string tier = "quick", out, only; bool all = false;
	for(int i = 0; i < argc; ++i) { std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); }; if(a == "--props") { std::istringstream s(v()); std::string x; while(std::getline(s, x, ',')) want.insert(x); } else if(a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if(a == "--from") from = strtoull(v().c_str(), 0, 10); else if(a == "--stride") stride = strtoull(v().c_str(), 0, 10); else if(a == "--time") budget = atof(v().c_str()); else if(a == "--min") minb = atof(v().c_str()); else if(a == "--runs") maxruns = strtoull(v().c_str(), 0, 10); else if(a == "--tier") tier = v(); else if(a == "--out") out = v(); else if(a == "--only") only = v(); else if(a == "--keep-going") all = true; }
	std::vector<const Scenario*> tab; for(auto& s : reg()) { bool rel = false; for(auto& p : want) if(covers(s, p)) rel = true; if(s.deep && tier == "quick") rel = false; if(!only.empty()) rel = only == s.name; if(rel) for(int k = 0; k < s.weight; ++k) tab.push_back(&s); }
	if(tab.empty()) { fprintf(stderr, "no scenario\n"); return 70; }
	double t0 = wallclock(); RunStats tot; u64 runs = 0, inv = 0, crashes = 0, nondet = 0, recheck = 0, nontriv = 0; std::set<u64> sigs, worlds; std::map<std::string, u64> cnt, per; std::vector<std::string> samples; std::vector<Case> found; std::set<std::string> seen;
	for(u64 i = from; runs < maxruns && wallclock() - t0 < budget; i += stride) {
		u64 sd = Rng::mix(seed * 0x9e3779b97f4a7c15ull + i); Rng r(sd ^ 77); auto s = tab[r.below(tab.size())]; Ctx c = base_ctx(*s, sd, tier, want); s->fn(c); ++runs; per[s->name]++;
		inv += c.invocations; crashes += c.crashes; auto& t = c.tot; tot.points += t.points; tot.accesses += t.accesses; tot.switches += t.switches; tot.mem_preempts += t.mem_preempts; tot.simtime += t.simtime; tot.fibers += t.fibers; tot.procs += t.procs; for(int k = 0; k < F_MAX; ++k) tot.fault_count[k] += t.fault_count[k]; tot.maxready = std::max(tot.maxready, t.maxready); for(auto& e : c.counters) cnt[e.first] += e.second; for(u64 g : c.sigs) sigs.insert(g); if(t.switches > 4 && t.maxready > 1) { u64 hw = 14695981039346656037ull; for(u32 x : c.w) hw = Rng::mix(hw ^ x); hw ^= c.hash; if(worlds.insert(hw).second) nontriv++; }
		if(samples.size() < 3 && runs % 7 == 3) samples.push_back("seed " + std::to_string(sd) + " scenario " + s->name + ": " + std::to_string(c.invocations) + " invocations, " + std::to_string(t.points) + " scheduling points, " + std::to_string(t.switches) + " switches, " + std::to_string(t.procs) + " processes, history hash " + hex(c.hash));
		if(runs % 40 == 5) { Ctx d = base_ctx(*s, sd, tier, want); s->fn(d); ++recheck; if(d.hash != c.hash) { ++nondet; fprintf(stderr, "nondeterminism: scenario %s seed %lu\n", s->name, sd); } }
		if(auto v = hit(c)) {
			std::string key = v->prop + "/" + v->cls; if(seen.count(key)) continue; 
			Case k; k.scn = s->name; k.tier = tier; k.seed = sd; k.prop = v->prop; k.cls = v->cls; k.msg = v->msg; k.w = c.w; k.dec = c.rec; k.hash = c.hash;
			if(all) { seen.insert(key); printf("FOUND %s %s seed=%lu scn=%s: %s\n", k.prop.c_str(), k.cls.c_str(), sd, s->name, k.msg.c_str()); fflush(stdout); for(auto& z : c.viols) if(want.count(z.prop) && seen.insert(z.prop + "/" + z.cls).second) printf("  ALSO %s %s: %s\n", z.prop.c_str(), z.cls.c_str(), z.msg.c_str()); if(!out.empty()) save_case(k, out + "." + k.prop + "." + k.cls + ".case.json"); continue; }
			Case orig = k; if(minb > 0) minimise(k, minb); Ctx a = run_case(k), b = run_case(k); bool ok = hit(a, k.prop, k.cls) && a.hash == b.hash; if(!ok) { k = orig; Ctx a2 = run_case(k), b2 = run_case(k); ok = hit(a2, k.prop, k.cls) && a2.hash == b2.hash; k.hash = a2.hash; } else k.hash = a.hash;
			if(!ok) { fprintf(stderr, "a violation of %s (%s) at seed %lu does not replay exactly: %s\n", k.prop.c_str(), k.cls.c_str(), sd, k.msg.c_str()); ++nondet; continue; }
			found.push_back(k); break; }
	}
	json_t* j = json_object(); auto I = [&](const char* n, u64 v) { json_object_set_new(j, n, json_integer((json_int_t)v)); };
	I("runs", runs); I("invocations", inv); I("crashes", crashes); I("points", tot.points); I("accesses", tot.accesses); I("switches", tot.switches); I("mem_preempts", tot.mem_preempts); I("simtime_ns", tot.simtime); I("threads", tot.fibers); I("processes", tot.procs); I("max_ready", tot.maxready); I("nondet", nondet); I("rechecked", recheck); I("nontrivial", nontriv); json_object_set_new(j, "wall", json_real(wallclock() - t0));
	json_t* f = json_object(); for(int k = 1; k < F_MAX; ++k) if(tot.fault_count[k]) json_object_set_new(f, fault_names[k], json_integer((json_int_t)tot.fault_count[k])); json_object_set_new(j, "faults", f); json_t* cn = json_object(); for(auto& e : cnt) json_object_set_new(cn, e.first.c_str(), json_integer((json_int_t)e.second)); json_object_set_new(j, "counters", cn); json_t* ps = json_object(); for(auto& e : per) json_object_set_new(ps, e.first.c_str(), json_integer((json_int_t)e.second)); json_object_set_new(j, "scenarios", ps);
	json_t* sg = json_array(); for(u64 g : sigs) json_array_append_new(sg, json_string(hex(g).c_str())); json_object_set_new(j, "sigs", sg); json_t* sm = json_array(); for(auto& x : samples) json_array_append_new(sm, json_string(x.c_str())); json_object_set_new(j, "samples", sm);
	if(!found.empty()) { std::string rp = out + ".replay.json"; save_case(found[0], rp); json_object_set_new(j, "violation", json_string(found[0].prop.c_str())); json_object_set_new(j, "class", json_string(found[0].cls.c_str())); json_object_set_new(j, "message", json_string(found[0].msg.c_str())); json_object_set_new(j, "replay", json_string(rp.c_str())); json_object_set_new(j, "vseed", json_string(std::to_string(found[0].seed).c_str())); json_object_set_new(j, "scenario", json_string(found[0].scn.c_str())); }
	if(!out.empty()) json_dump_file(j, (out + ".json").c_str(), JSON_COMPACT); else { json_object_del(j, "sigs"); I("distinct_sigs", sigs.size()); char* s = json_dumps(j, JSON_INDENT(1)); puts(s); free(s); }
	return 0;
}
static int cmd_replay(int argc, char** argv) {
	Case k; if(argc < 1 || !load_case(k, argv[0])) { fprintf(stderr, "cannot read the replay file\n"); return 70; } bool v = argc > 1 && !strcmp(argv[1], "-v");
	if(!find_scn(k.scn)) { fprintf(stderr, "unknown scenario\n"); return 70; }
	Ctx c = run_case(k, v); auto h = hit(c, k.prop, k.cls); if(!h) { printf("no violation\n"); for(auto& x : c.viols) printf("  other: %s %s %s\n", x.prop.c_str(), x.cls.c_str(), x.msg.c_str()); return 0; }
	printf("%s: %s\nhistory hash %s%s\n", k.prop.c_str(), h->msg.c_str(), hex(c.hash).c_str(), c.hash == k.hash ? " (identical to the recorded one)" : " (DIFFERS from the recorded one)"); return 1;
}
static int cmd_one(int argc, char** argv) { // one scenario seed [-v]
	auto s = find_scn(argv[0]); if(!s) return 70; u64 sd = strtoull(argv[1], 0, 10); Ctx c = base_ctx(*s, sd, "quick", {}); c.verbose = argc > 2; s->fn(c); for(auto& v : c.viols) printf("%s %s: %s\n", v.prop.c_str(), v.cls.c_str(), v.msg.c_str()); printf("hash %s\n", hex(c.hash).c_str()); return 0;
}
}
int main(int argc, char** argv) {
	if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); perror("execv"); return 70; }
	using namespace sim; rt_prepare(); if(build_init) build_init(); if(unit_init) unit_init(); if(argc < 2) return 70; std::string a = argv[1];
	if(a == "search") return cmd_search(argc - 2, argv + 2); if(a == "replay") return cmd_replay(argc - 2, argv + 2); if(a == "one") return cmd_one(argc - 2, argv + 2); return 70;
}
