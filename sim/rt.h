// Deterministic simulation runtime: fibers, scheduler, decisions, race detector.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>

namespace sim {

using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t; using u8 = uint8_t;

// ---------------------------------------------------------------- PRNG
struct Rng {
	u64 s[2];
	explicit Rng(u64 seed = 1) { reseed(seed); }
	static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	void reseed(u64 seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x1234567); }
	u64 next() { u64 a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
	u64 below(u64 n) { return n ? (next() >> 11) % n : 0; }
	bool chance(u64 num, u64 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- findings and events
struct Finding { std::string cls; std::string msg; };
enum EvKind : int { EV_NONE, EV_PROC_START, EV_PROC_EXIT, EV_LAUNCH_FAIL, EV_FS_CREATE, EV_FS_WRITE, EV_FS_UNLINK, EV_FS_MKDIR,
	EV_FS_RENAME, EV_FS_OTHER, EV_FAULT, EV_STDOUT, EV_STDERR, EV_MAIN_EXIT, EV_CRASH, EV_NOTE, EV_REAPED, EV_IDLE };
struct Event { u64 seq; u64 t; int kind; int pid; int fiber; i64 n; std::string a, b; };

// ---------------------------------------------------------------- fibers
using VC = std::vector<u32>;
struct Fiber {
	int id = 0, pid = 0;
	void* sp = nullptr; char* stack = nullptr; size_t stacksz = 0;
	enum St { Ready, Blocked, Done } st = Ready;
	const char* why = ""; const void* obj = nullptr; u64 wake = 0; bool timed = false; bool timedout = false;
	std::function<void()> entry;
	void* ret = nullptr; bool detached = false, joined = false; std::vector<Fiber*> joiners;
	int depth = 1; int err = 0; void* eh[2] = {nullptr, nullptr}; void* once[2] = {nullptr, nullptr}; std::string tls;
	VC vc; i64 prio = 0; bool daemon = false; bool in_cond = false; bool canceled = false;
	u64 starve_until = 0; u64 consec = 0;
	std::map<unsigned, void*> spec;
	std::string name; int rwheld = 0;
};

struct SyncVC { VC vc; };

enum FaultKind : int { F_NONE, F_OPEN, F_READ, F_SHORT, F_STAT, F_OPENDIR, F_READDIR, F_PIPE, F_FORK, F_EXEC, F_THREAD, F_SPURIOUS, F_UNLINK, F_CRASH, F_CLOCKJUMP, F_STALL, F_SHORTW, F_OUT, F_ALLOC, F_MAX };
extern const char* const fault_names[F_MAX];

struct Limits { u64 max_points = 3000000; u64 max_access = 400000000; };

// what the driver asks for in one simulated invocation
struct SchedSpec {
	u64 seed = 1;                 // search seed for schedule/faults
	bool replay = false;          // use the maps below instead of the seed
	std::map<u64, u32> sched, mem; // sparse decisions
	std::map<u64, u32> faults;     // fault point -> kind
	int strategy = 0;             // 0 random walk,1 pct,2 switch always,3 starve,4 sequential,5 low rate, 6 starve-workers
	u32 mem_interval = 0;         // mean number of accesses between memory level preemptions (0: none)
	bool race = false;
	u64 fault_mask = 0;           // enabled fault kinds
	u32 fault_den = 0;            // 1/den chance per fault point
	u64 fault_at = 0;             // the n-th enabled hard fault point fails (0: by chance)
	std::string fault_only;       // hard faults for this file only
	u32 fault_max = 0;            // max number of "hard" faults
	u32 short_den = 0;            // chance for short reads
	u64 crash_at = 0;             // point number at which the program is killed (0: never)
	bool crash_all = false;       // kill recipes too
	bool crash_clean = true;      // killed recipes clean up their partial outputs
	u32 pipe_cap = 65536;
	u64 mtime_gran = 1;
};

struct RunStats {
	u64 points = 0, accesses = 0, switches = 0, mem_preempts = 0, simtime = 0, sig = 0, faultpoints = 0, fault_cands = 0;
	u64 fault_count[F_MAX] = {}; u64 fibers = 0, procs = 0; u64 maxready = 0;
	u64 probes[16] = {};
};

struct Outcome {
	std::vector<Finding> findings; std::vector<Event> events; RunStats st;
	std::map<u64, u32> sched, mem, faults; // decisions taken
	int exit_status = -1;   // wait status style of the main program: code, or 1000+sig, -1 not finished
	bool crashed = false;   // by injection
	std::string out, err;
};

// ---------------------------------------------------------------- the simulator state
struct Sim {
	bool active = false;
	SchedSpec spec; Outcome oc;
	Rng srng{1}, frng{2}, mrng{3};
	std::vector<Fiber*> fibers; std::vector<Fiber*> ready; Fiber* cur = nullptr; Fiber* mainf = nullptr;
	u64 clock = 0; u64 seq = 0; u64 hardfaults = 0; u32 fault_arg = 0; u64 fault_cand = 0;
	std::vector<u64> pct_change; bool ended = false; bool stopping = false;
	void* boot_sp = nullptr; i64 lowprio = 0; int starve_mode_target = -1;
	u64 next_mem = ~0ull; bool no_preempt = false; bool draining = false;
	Limits lim;
	std::function<void*()> boot_req; // run on the boot stack, returns the stack pointer to resume
};
extern Sim S;
extern "C" { extern int g_hook; extern u64 g_acc, g_acc_next; extern int g_race; extern int g_child; }

struct Rt { Rt(); ~Rt(); };              // enter the runtime (hooks off)

Fiber* spawn_fiber(int pid, std::function<void()> entry, const char* name);
void point(const char* kind);            // scheduling point
void block(const char* why, const void* obj);  // current fiber blocks until woken
bool block_until(const char* why, const void* obj, u64 t); // false: timed out
void wake(Fiber* f);
void sleep_until(u64 t, const char* why);
bool fault(FaultKind k, const char* what); // ask the fault plan
void finding(const std::string& cls, const std::string& msg);
u64 event(int kind, int pid, std::string a = "", std::string b = "", i64 n = 0);
[[noreturn]] void end_run(const char* why); // abandon the run
[[noreturn]] void fiber_exit();
void release(SyncVC& s); void acquire(const SyncVC& s);
SyncVC& syncvc(const void* addr);
void run_all(std::function<void()> mainfn, int pid); // run until everything is quiet
void rt_init();                          // once per process, before sim
u64 now();
void vc_spawn(Fiber* child); void vc_join(Fiber* child);
bool on_fiber_stack(const void* p);
void probe(int k);
std::string where();
void kill_fiber(Fiber* f); void mem_arm();
extern "C" void sim_switch(void** save, void* to);
void save_ctx(Fiber* f); void load_ctx(Fiber* f);

// child mode (fork): see sys.cpp
void undo_log(void* p, size_t n);
void shadow_clear(const void* p, size_t n);
void* arena_alloc(size_t n, size_t al); bool arena_free(void* p); bool in_arena(const void* p);
}
