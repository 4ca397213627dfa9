// Runtime core: fibers, scheduler, decisions, allocator, race detector, TSan ABI.
#include "rt.h"
#include <execinfo.h>
#include <csignal>
#include <sys/mman.h>
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <new>
#include <jansson.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end;

namespace sim {
Sim S;
const char* const fault_names[F_MAX] = {"none", "open_error", "read_error", "short_read", "stat_error", "opendir_error", "readdir_error",
	"pipe_error", "fork_error", "exec_error", "thread_create_error", "spurious_wakeup", "unlink_error", "crash", "clock_jump", "stall", "short_write", "output_error", "out_of_memory"};

extern "C" { int g_hook = 0; u64 g_acc = 0, g_acc_next = ~0ull; int g_race = 0; int g_child = 0; }

static constexpr uintptr_t BASE = 0x100000000000ull, HEAPSZ = 1ull << 30, STKSZ = 256 << 10, NSTK = 2048, STKTOT = STKSZ * NSTK;
static constexpr uintptr_t SHADOW = 0x180000000000ull, STATE = 0x190000000000ull;
static uintptr_t heap_ptr; static size_t nstk;
static uintptr_t glob_lo, glob_hi; static u64* glob_shadow;
static char* tls_ptr; static size_t tls_sz; static std::string tls_init;

static void* json_mem(size_t); static void json_release(void*);
void die(const char* m) { fprintf(stderr, "sim: fatal: %s\n", m); _exit(70); }

static int phdr_cb(dl_phdr_info* i, size_t, void*) {
	for(int k = 0; k < i->dlpi_phnum; ++k) if(i->dlpi_phdr[k].p_type == PT_TLS) {
		tls_ptr = (char*)i->dlpi_tls_data; tls_sz = i->dlpi_phdr[k].p_memsz;
		tls_init.assign((char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz); tls_init.resize(tls_sz, 0);
	}
	return 1; // only the executable (first)
}

void rt_init() {
	static bool done; if(done) return; done = true;
	auto m = [](uintptr_t a, size_t n) { void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if(p != (void*)a) die("mmap"); };
	m(BASE, HEAPSZ + STKTOT); m(SHADOW, (HEAPSZ + STKTOT) * 4); m(STATE, HEAPSZ / 16);
	heap_ptr = BASE + 64; nstk = 0;
	glob_lo = (uintptr_t)&__data_start & ~7ull; glob_hi = (uintptr_t)&_end;
	dl_iterate_phdr(phdr_cb, nullptr);
	json_set_alloc_funcs(json_mem, json_release);
	__libc_single_threaded = 0;
}

// ---------------------------------------------------------------- runtime entry
Rt::Rt() { if(S.active && S.cur) { ++S.cur->depth; g_hook = 0; } }
Rt::~Rt() { if(S.active && S.cur) { if(--S.cur->depth == 0) g_hook = 1; } }

u64 now() { return S.clock; }
void probe(int k) { S.oc.st.probes[k]++; }

static void sig_mix(u64 v) { S.oc.st.sig = (S.oc.st.sig ^ v) * 0x100000001b3ull; S.oc.st.sig ^= S.oc.st.sig >> 29; }

u64 event(int kind, int pid, std::string a, std::string b, i64 n) {
	u64 s = ++S.seq; u64 h = 1469598103934665603ull;
	for(char c : a) h = (h ^ (u8)c) * 0x100000001b3ull;
	for(char c : b) h = (h ^ (u8)c) * 0x100000001b3ull;
	sig_mix(h ^ (u64)kind * 31 ^ (u64)pid << 8 ^ (u64)n << 20);
	S.oc.events.push_back({s, S.clock, kind, pid, S.cur ? S.cur->id : -1, n, std::move(a), std::move(b)});
	return s;
}

void finding(const std::string& cls, const std::string& msg) {
	int n = 0; for(auto& f : S.oc.findings) if(f.cls == cls) ++n;
	if(n < 3) S.oc.findings.push_back({cls, msg});
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch(void** save, void* to);
extern "C" void sim_tramp();
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
	.cfi_startproc
	.cfi_undefined rip
	call sim_entry
	ud2
	.cfi_endproc
)");

void save_ctx(Fiber* f) {
	f->err = errno; memcpy(f->eh, __cxxabiv1::__cxa_get_globals(), 16);
	f->once[0] = std::__once_callable; f->once[1] = (void*)std::__once_call;
	if(tls_sz) f->tls.assign(tls_ptr, tls_sz);
}
void load_ctx(Fiber* f) {
	errno = f->err; memcpy(__cxxabiv1::__cxa_get_globals(), f->eh, 16);
	std::__once_callable = f->once[0]; std::__once_call = (void (*)())f->once[1];
	if(tls_sz) memcpy(tls_ptr, f->tls.data(), tls_sz);
}
static void switch_to(Fiber* f) {
	Fiber* c = S.cur; if(f == c) return;
	S.oc.st.switches++;
	save_ctx(c); S.cur = f; load_ctx(f);
	sim_switch(&c->sp, f->sp);
	// back
	g_hook = 0;
}

static void start_fiber_body() noexcept { S.cur->entry(); }
extern "C" void sim_entry() { g_hook = 0; start_fiber_body(); fiber_exit(); }

static void ready_insert(Fiber* f) {
	auto i = std::lower_bound(S.ready.begin(), S.ready.end(), f, [](Fiber* a, Fiber* b) { return a->id < b->id; });
	if(i == S.ready.end() || *i != f) S.ready.insert(i, f);
}
static void ready_erase(Fiber* f) {
	auto i = std::lower_bound(S.ready.begin(), S.ready.end(), f, [](Fiber* a, Fiber* b) { return a->id < b->id; });
	if(i != S.ready.end() && *i == f) S.ready.erase(i);
}

Fiber* spawn_fiber(int pid, std::function<void()> entry, const char* name) {
	if(nstk + 1 >= NSTK) { finding("resource", "too many threads"); end_run("threads"); }
	auto f = new Fiber; f->id = (int)S.fibers.size(); f->pid = pid; f->entry = std::move(entry); f->name = name;
	f->stack = (char*)(BASE + HEAPSZ + STKSZ * nstk++); f->stacksz = STKSZ;
	u64* sp = (u64*)(f->stack + STKSZ - 64);
	*--sp = 0; *--sp = 0; *--sp = (u64)(void*)sim_tramp; for(int i = 0; i < 6; ++i) *--sp = 0;
	f->sp = sp; f->tls = tls_init; f->depth = 1;
	f->prio = (i64)(S.srng.next() >> 20); f->starve_until = S.oc.st.points;
	S.fibers.push_back(f); f->vc.assign(f->id + 1, 0); f->vc[f->id] = 1;
	ready_insert(f); S.oc.st.fibers++;
	return f;
}

[[noreturn]] void end_run(const char*) {
	S.ended = true; g_hook = 0; void* dummy; sim_switch(&dummy, S.boot_sp); __builtin_unreachable();
}

static std::string describe_blocked() {
	std::string r; int n = 0;
	for(auto f : S.fibers) if(f->st == Fiber::Blocked && n++ < 12) { r += " [" + f->name + "#" + std::to_string(f->id) + " pid " + std::to_string(f->pid) + " waits for " + f->why + "]"; }
	return r;
}

// ---------------------------------------------------------------- scheduling
static void wake_timers() {
	for(auto f : S.fibers) if(f->st == Fiber::Blocked && f->timed && f->wake <= S.clock) { f->timedout = true; f->timed = false; f->st = Fiber::Ready; ready_insert(f); }
}

static u32 strategy_choice(std::vector<Fiber*> const& c, bool cur_ready) {
	auto& R = S.srng; u32 n = (u32)c.size();
	switch(S.spec.strategy) {
		case 0: if(cur_ready && !R.chance(1, 4)) return 0; return (u32)R.below(n);
		case 1: {
			if(!S.pct_change.empty() && S.oc.st.points >= S.pct_change.back()) { S.pct_change.pop_back(); S.cur->prio = --S.lowprio; }
			u32 b = 0; for(u32 i = 1; i < n; ++i) if(c[i]->prio > c[b]->prio) b = i; return b; }
		case 2: return (u32)R.below(n);
		case 3: {
			if(S.starve_mode_target < 0 || R.chance(1, 200)) S.starve_mode_target = (int)R.below(S.fibers.size());
			std::vector<u32> ok; for(u32 i = 0; i < n; ++i) if(c[i]->id != S.starve_mode_target) ok.push_back(i);
			if(ok.empty()) return 0; return ok[R.below(ok.size())]; }
		case 4: return 0;
		case 5: if(cur_ready && !R.chance(1, 40)) return 0; return (u32)R.below(n);
		case 6: case 7: { // prefer program threads (6) or recipe processes (7)
			std::vector<u32> ok; for(u32 i = 0; i < n; ++i) if((c[i]->pid == S.mainf->pid) == (S.spec.strategy == 6)) ok.push_back(i);
			if(ok.empty() || R.chance(1, 50)) return (u32)R.below(n);
			if(cur_ready && ok[0] == 0 && !R.chance(1, 3)) return 0; return ok[R.below(ok.size())]; }
		case 8: { // main thread first / newest first
			u32 b = 0; for(u32 i = 1; i < n; ++i) if(c[i]->id > c[b]->id) b = i; if(R.chance(1, 10)) return (u32)R.below(n); return b; }
		case 9: { u32 b = 0; for(u32 i = 1; i < n; ++i) if(c[i]->id < c[b]->id) b = i; if(R.chance(1, 10)) return (u32)R.below(n); return b; }
	}
	return 0;
}

static void candidates(std::vector<Fiber*>& c, bool cur_ready) {
	c.clear(); if(cur_ready) c.push_back(S.cur); else for(auto f : S.ready) if(f == S.cur) c.push_back(f); // (it slept, and its time has come)
	int id = S.cur ? S.cur->id : -1;
	for(auto f : S.ready) if(f->id > id) c.push_back(f);
	for(auto f : S.ready) if(f->id < id) c.push_back(f);
}

static void limits_check() {
	if(S.oc.st.points > S.lim.max_points || g_acc > S.lim.max_access) { finding("hang", "step budget exhausted:" + describe_blocked()); end_run("livelock"); }
}

void crash_now();   // sys.cpp

size_t running_steps(int pp); // sys.cpp
// nothing can run until time passes: how many recipes are at work? (not recorded while the program itself waits for a timer)
static void idle_event() {
	for(auto f : S.fibers) if(f->st == Fiber::Blocked && f->timed && f->pid == S.mainf->pid) return;
	i64 n = (i64)running_steps(S.mainf->pid); auto& ev = S.oc.events;
	if(!ev.empty() && ev.back().kind == EV_IDLE && ev.back().n == n) return;
	event(EV_IDLE, S.mainf->pid, "", "", n);
}
static void reschedule(bool cur_ready, const char* kind) {
	static std::vector<Fiber*> c;
	for(;;) {
		if(S.stopping) end_run("stop");
		u64 p = ++S.oc.st.points; S.clock += 1000 + (p & 7) * 100;
		limits_check();
		wake_timers();
		if(S.spec.crash_at && p >= S.spec.crash_at && !S.oc.crashed && S.mainf->st != Fiber::Done) { crash_now(); cur_ready = cur_ready && S.cur->st == Fiber::Ready; }
		if(S.ready.empty()) {
			u64 best = ~0ull; for(auto f : S.fibers) if(f->st == Fiber::Blocked && f->timed) best = std::min(best, f->wake);
			// time-limited waits alone, again and again, while nothing else happens: nobody will ever wake
			if(best != ~0ull) { static size_t seen; static u32 idle; size_t now = S.oc.events.size() + S.fibers.size(); if(now != seen) { seen = now; idle = 0; } else if(++idle > 20000) best = ~0ull; }
			if(best == ~0ull) {
				bool any = false, maikeblocked = false;
				for(auto f : S.fibers) if(f->st == Fiber::Blocked) { any = true; if(f->pid == S.mainf->pid) maikeblocked = true; }
				if(maikeblocked) finding("hang", "deadlock:" + describe_blocked());
				else if(any) finding("stuck_process", "process never finishes:" + describe_blocked());
				end_run("quiet");
			}
			if(best > S.clock) idle_event();
			S.clock = std::max(S.clock, best); cur_ready = false; continue;
		}
		if(S.ready.size() > S.oc.st.maxready) S.oc.st.maxready = S.ready.size();
		candidates(c, cur_ready);
		u32 ch = 0;
		if(c.size() > 1) {
			if(S.spec.replay) { auto i = S.spec.sched.find(p); if(i != S.spec.sched.end()) ch = i->second % (u32)c.size(); }
			else ch = strategy_choice(c, cur_ready);
			// bounded unfairness: nobody that is ready waits for ever
			if((p & 255) == 0) for(u32 i = 0; i < c.size(); ++i) if(c[i] != S.cur && p - c[i]->starve_until > 60000) { ch = i; break; }
			if(ch) S.oc.sched[p] = ch;
		}
		Fiber* n = c[ch]; n->starve_until = p;
		sig_mix((u64)n->id + 77);
		(void)kind;
		if(n != S.cur) switch_to(n);
		return;
	}
}

void point(const char* kind) {
	if(!S.active || g_child || S.ended || S.no_preempt) return;
	Fiber* me = S.cur;
	reschedule(true, kind);
	if(me->st == Fiber::Done) reschedule(false, "dead"); // killed meanwhile (does not return)
}
void block(const char* why, const void* obj) {
	Fiber* f = S.cur; f->st = Fiber::Blocked; f->why = why; f->obj = obj; ready_erase(f); f->timedout = false;
	reschedule(false, why);
}
bool block_until(const char* why, const void* obj, u64 t) {
	Fiber* f = S.cur; f->timed = true; f->wake = t; block(why, obj); bool to = f->timedout; f->timed = false; f->timedout = false; return !to;
}
void wake(Fiber* f) { if(f->st == Fiber::Blocked) { f->st = Fiber::Ready; f->timed = false; f->timedout = false; ready_insert(f); } }
void sleep_until(u64 t, const char* why) { if(t > S.clock) block_until(why, nullptr, t); else point("sleep0"); }

void kill_fiber(Fiber* f) { if(f->st != Fiber::Done) { f->st = Fiber::Done; f->timed = false; ready_erase(f); } }

[[noreturn]] void fiber_exit() {
	Fiber* f = S.cur; f->st = Fiber::Done; ready_erase(f);
	for(auto j : f->joiners) wake(j);
	f->joiners.clear();
	reschedule(false, "exit"); __builtin_unreachable();
}

void mem_arm() {
	if(S.spec.replay) { auto i = S.spec.mem.upper_bound(g_acc); g_acc_next = i == S.spec.mem.end() ? ~0ull : i->first; }
	else if(S.spec.mem_interval) { u64 iv = S.spec.mem_interval; g_acc_next = g_acc + 1 + S.mrng.below(2 * iv); }
	else g_acc_next = ~0ull;
	g_acc_next = std::min(g_acc_next, S.lim.max_access + 1);
}

static void mem_event() {
	Rt rt; u64 at = g_acc;
	if(g_child || S.ended) { mem_arm(); return; }
	limits_check();
	static std::vector<Fiber*> c; candidates(c, true);
	u32 ch = 0;
	if(c.size() > 1) {
		if(S.spec.replay) { auto i = S.spec.mem.find(at); if(i != S.spec.mem.end()) ch = i->second % (u32)c.size(); }
		else if(S.spec.mem_interval) ch = (u32)S.mrng.below(c.size());
	}
	if(ch) {
		S.oc.mem[at] = ch; S.oc.st.mem_preempts++; Fiber* n = c[ch]; n->starve_until = S.oc.st.points; sig_mix(at ^ (u64)n->id << 40);
		Fiber* me = S.cur; mem_arm(); switch_to(n);
		if(me->st == Fiber::Done) reschedule(false, "dead");
		return;
	}
	mem_arm();
}

bool fault(FaultKind k, const char* what) {
	if(!S.active || S.ended) return false;
	u64 i = ++S.oc.st.faultpoints; bool hit = false;
	bool soft = k == F_SHORT || k == F_SPURIOUS || k == F_SHORTW, sel = soft || S.spec.fault_only.empty() || S.spec.fault_only == what;
	if(S.spec.replay) { auto it = S.spec.faults.find(i); hit = it != S.spec.faults.end() && (it->second & 255) == (u32)k; if(hit) S.fault_arg = it->second >> 8; }
	else if(sel && S.spec.fault_mask >> k & 1) {
		if(soft) hit = S.spec.short_den && S.frng.chance(1, S.spec.short_den);
		else hit = S.hardfaults < S.spec.fault_max && (S.spec.fault_at ? ++S.fault_cand == S.spec.fault_at : S.spec.fault_den && S.frng.chance(1, S.spec.fault_den));
		if(hit) S.fault_arg = (u32)(S.frng.next() >> 44);
	}
	if(hit) {
		if(!soft) { S.hardfaults++; event(EV_FAULT, S.cur ? S.cur->pid : 0, fault_names[k], what, k); }
		S.oc.faults[i] = (u32)k | S.fault_arg << 8; S.oc.st.fault_count[k]++;
	}
	if(!soft && sel && (S.spec.fault_mask >> k & 1)) S.oc.st.fault_cands++;
	return hit;
}

// ---------------------------------------------------------------- happens-before
static void vc_join_into(VC& a, const VC& b) { if(a.size() < b.size()) a.resize(b.size(), 0); for(size_t i = 0; i < b.size(); ++i) if(b[i] > a[i]) a[i] = b[i]; }
void release(SyncVC& s) { if(!g_race || g_child) return; Fiber* f = S.cur; vc_join_into(s.vc, f->vc); f->vc[f->id]++; }
void acquire(const SyncVC& s) { if(!g_race || g_child) return; vc_join_into(S.cur->vc, s.vc); }
static std::map<const void*, SyncVC>* g_sync;
SyncVC& syncvc(const void* a) { if(!g_sync) g_sync = new std::map<const void*, SyncVC>; return (*g_sync)[a]; }
void vc_spawn(Fiber* c) { Fiber* f = S.cur; if(!f) return; vc_join_into(c->vc, f->vc); f->vc[f->id]++; }
void vc_join(Fiber* c) { vc_join_into(S.cur->vc, c->vc); }

// ---------------------------------------------------------------- arena
bool in_arena(const void* p) { return (uintptr_t)p - BASE < HEAPSZ; }
bool on_fiber_stack(const void* p) { return (uintptr_t)p - (BASE + HEAPSZ) < STKTOT; }
void* arena_alloc(size_t n, size_t al) {
	if(al < 16) al = 16;
	uintptr_t p = (heap_ptr + 16 + al - 1) & ~(al - 1);
	size_t r = (n + 15) & ~15ull; if(r == 0) r = 16;
	if(p + r + 32 > BASE + HEAPSZ) return nullptr;
	*(u64*)(p - 8) = n; *(u64*)(p - 16) = 0x51a110c51a110cull;
	heap_ptr = p + r + 16;
	memset((void*)(STATE + ((p - BASE) >> 4)), 1, r >> 4);
	return (void*)p;
}
static std::string sym(const void* pc) {
	Dl_info i; if(pc && dladdr(pc, &i) && i.dli_sname) { int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string r = st == 0 ? d : i.dli_sname; free(d); if(r.size() > 160) r = r.substr(0, 160) + "..."; return r; }
	return "?";
}
bool arena_free(void* p) {
	if(!in_arena(p)) return false;
	uintptr_t a = (uintptr_t)p; u8* st = (u8*)(STATE + ((a - BASE) >> 4));
	if(*(u64*)(a - 16) != 0x51a110c51a110cull || *st != 1) { Rt rt; finding("lifetime", "invalid or double delete in " + sym(__builtin_return_address(1))); return true; }
	if(!g_child) { size_t r = (*(u64*)(a - 8) + 15) & ~15ull; if(!r) r = 16; memset(st, 2, r >> 4); }
	return true;
}

// ---------------------------------------------------------------- race detection
struct Slot { static u64 mk(u32 clk, u32 tid, u8 mask, bool w, bool at) { return (u64)clk << 32 | (u64)tid << 16 | (u64)mask << 8 | (u64)w << 1 | (u64)at << 2 | 1; } };
void shadow_clear(const void* p, size_t n) {
	if(!g_race) return; uintptr_t a = (uintptr_t)p;
	if(a - BASE < HEAPSZ + STKTOT) memset((void*)(SHADOW + ((a - BASE) >> 3) * 32), 0, ((n + 7) >> 3) * 32);
}

static void race_granule(uintptr_t a, u8 mask, bool write, bool at, const void* pc) {
	u64* c;
	if(a - BASE < HEAPSZ + STKTOT) c = (u64*)(SHADOW + ((a - BASE) >> 3) * 32);
	else if(a - glob_lo < glob_hi - glob_lo) {
		if(!glob_shadow) glob_shadow = (u64*)calloc(((glob_hi - glob_lo) >> 3) + 2, 32);
		c = glob_shadow + ((a - glob_lo) >> 3) * 4;
	} else return;
	Fiber* f = S.cur; u32 tid = f->id; u32 clk = f->vc[tid];
	int empty = -1, same = -1;
	for(int i = 0; i < 4; ++i) {
		u64 s = c[i]; if(!s) { if(empty < 0) empty = i; continue; }
		u32 st = s >> 16 & 0xffff; u8 sm = s >> 8 & 0xff; bool sw = s >> 1 & 1, sa = s >> 2 & 1;
		if(st == tid) { if(sm == mask && (write || !sw) && sa == at) same = i; continue; }
		if((sm & mask) && (write || sw) && !(at && sa)) {
			u32 sc = s >> 32; u32 known = st < f->vc.size() ? f->vc[st] : 0;
			if(sc > known) {
				Rt rt;
				Fiber* o = S.fibers[st];
				finding("race", std::string(write ? "write" : "read") + (at ? "(atomic)" : "") + " by " + f->name + " in " + sym(pc) + " conflicts with " + (sw ? "write" : "read") + " by " + o->name);
				c[i] = 0;
			}
		}
	}
	int k = same >= 0 ? same : empty >= 0 ? empty : (int)(g_acc & 3);
	c[k] = Slot::mk(clk, tid, mask, write, at);
}

static void lifetime_bad(uintptr_t a, bool write, const void* pc, const char* what) {
	Rt rt; finding("lifetime", std::string(write ? "write to " : "read of ") + what + " in " + sym(pc) + " by " + S.cur->name); (void)a;
}

static inline void access_(void* p, size_t n, bool write, bool at, const void* pc) {
	uintptr_t a = (uintptr_t)p;
	if(write && g_child) undo_log(p, n);
	if(a - BASE < HEAPSZ) {
		u8 st = *(u8*)(STATE + ((a - BASE) >> 4));
		if(st != 1) lifetime_bad(a, write, pc, st == 2 ? "freed memory" : "memory outside of any allocation");
	} else if(a - (BASE + HEAPSZ) < STKTOT) {
		size_t k = (a - (BASE + HEAPSZ)) / STKSZ;
		if(k < S.fibers.size()) { Fiber* o = S.fibers[k]; if(o != S.cur && (o->st == Fiber::Done || a + 128 < (uintptr_t)o->sp)) lifetime_bad(a, write, pc, "a dead stack frame"); }
	}
	if(g_race && !g_child) {
		while(n) { size_t off = a & 7, k = std::min<size_t>(8 - off, n); race_granule(a & ~7ull, (u8)(((1u << k) - 1) << off), write, at, pc); a += k; n -= k; }
	}
	if(++g_acc >= g_acc_next) mem_event();
}

void undo_reset(); 
} // namespace sim

using namespace sim;
#define HOOK if(__builtin_expect(!g_hook, 0)) return
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { HOOK; access_(p, n, false, false, PC); } \
	void __tsan_write##n(void* p) { HOOK; access_(p, n, true, false, PC); } \
	void __tsan_unaligned_read##n(void* p) { HOOK; access_(p, n, false, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { HOOK; access_(p, n, true, false, PC); } \
	void __tsan_volatile_read##n(void* p) { HOOK; access_(p, n, false, false, PC); } \
	void __tsan_volatile_write##n(void* p) { HOOK; access_(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { HOOK; if(n) access_(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { HOOK; if(n) access_(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { HOOK; access_(p, 8, *p != v, false, PC); }
void __tsan_vptr_read(void** p) { HOOK; access_(p, 8, false, false, PC); }

static void at_pre(void* p, size_t n, bool w, const void* pc) {
	if(!g_hook) return;
	access_(p, n, w, true, pc);
	{ Rt rt; point("atomic"); }
}
static void at_acq(void* p, int mo) { if(!g_hook || !g_race || mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) return; Rt rt; acquire(syncvc(p)); }
static void at_rel(void* p, int mo, bool rmw) {
	if(!g_hook || !g_race || g_child) return; Rt rt; auto& s = syncvc(p);
	bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	if(!rmw) s.vc.clear();           // a plain store ends the release sequence
	if(rel) release(s);
}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_pre((void*)p, sizeof(T), false, PC); at_acq((void*)p, mo); return *p; } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_rel((void*)p, mo, false); *p = v; } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = (T)(o & v); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = (T)(o | v); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = (T)(o ^ v); return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { at_pre((void*)p, sizeof(T), true, PC); at_acq((void*)p, mo); at_rel((void*)p, mo, true); T o = *p; *p = (T)~(o & v); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { at_pre((void*)p, sizeof(T), true, PC); if(*p == *e) { at_acq((void*)p, mo); at_rel((void*)p, mo, true); *p = v; return 1; } at_acq((void*)p, fmo); *e = *p; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { if(g_hook) { Rt rt; auto& s = syncvc(nullptr); acquire(s); release(s); point("fence"); } }
void __tsan_atomic_signal_fence(int) {}

// memory intrinsics called by instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if(g_hook && n) { access_((void*)s, n, false, false, PC); access_(d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(g_hook && n) { access_((void*)s, n, false, false, PC); access_(d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if(g_hook && n) access_(d, n, true, false, PC); return __real_memset(d, c, n); }

// libjansson is not instrumented: calls from the program count as accesses to the node they are given (bytes 4..7 of a json_t
// are padding and stand for its content; the type in bytes 0..3 and the reference count in 8..15 are accessed by inlined code)
#define JN(j, w, pc) do { if(g_hook && (j) && in_arena(j)) access_((char*)(j) + 4, 4, w, false, pc); } while(0)
json_t* __real_json_object_get(const json_t*, const char*); json_t* __real_json_array_get(const json_t*, size_t); size_t __real_json_array_size(const json_t*);
void* __real_json_object_iter(json_t*); void* __real_json_object_iter_next(json_t*, void*);
static void json_touch(json_t* j, bool w, const void* pc, int d = 0) {
	if(!g_hook || !j || d > 64) return;
	JN(j, w, pc); if(w && in_arena(j)) access_(j, 4, true, false, pc);
	int h = g_hook;
	if(json_is_array(j)) { size_t n = __real_json_array_size(j); for(size_t i = 0; i < n; ++i) json_touch(__real_json_array_get(j, i), w, pc, d + 1); }
	else if(json_is_object(j)) for(void* i = __real_json_object_iter(j); i; i = __real_json_object_iter_next(j, i)) json_touch(json_object_iter_value(i), w, pc, d + 1);
	g_hook = h;
}
#define JR(ret, name, params, args, node, w) ret __real_##name params; ret __wrap_##name params { JN(node, w, PC); return __real_##name args; }
#define JDEEP(ret, name, params, args, node) ret __real_##name params; ret __wrap_##name params { json_touch((json_t*)(node), false, PC); return __real_##name args; }
#define JNEW(name, params, args) json_t* __real_##name params; json_t* __wrap_##name params { json_t* r = __real_##name args; json_touch(r, true, PC); return r; }
JR(json_t*, json_object_get, (const json_t* j, const char* k), (j, k), j, false)
JR(size_t, json_object_size, (const json_t* j), (j), j, false)
JR(void*, json_object_iter, (json_t* j), (j), j, false)
JR(void*, json_object_iter_at, (json_t* j, const char* k), (j, k), j, false)
JR(void*, json_object_iter_next, (json_t* j, void* i), (j, i), j, false)
JR(json_t*, json_array_get, (const json_t* j, size_t i), (j, i), j, false)
JR(size_t, json_array_size, (const json_t* j), (j), j, false)
JR(const char*, json_string_value, (const json_t* j), (j), j, false)
JR(size_t, json_string_length, (const json_t* j), (j), j, false)
JR(json_int_t, json_integer_value, (const json_t* j), (j), j, false)
JR(double, json_real_value, (const json_t* j), (j), j, false)
JR(double, json_number_value, (const json_t* j), (j), j, false)
JR(int, json_object_set_new, (json_t* j, const char* k, json_t* v), (j, k, v), j, true)
JR(int, json_object_set_new_nocheck, (json_t* j, const char* k, json_t* v), (j, k, v), j, true)
JR(int, json_object_del, (json_t* j, const char* k), (j, k), j, true)
JR(int, json_object_clear, (json_t* j), (j), j, true)
JR(int, json_object_iter_set_new, (json_t* j, void* i, json_t* v), (j, i, v), j, true)
JR(int, json_array_append_new, (json_t* j, json_t* v), (j, v), j, true)
JR(int, json_array_set_new, (json_t* j, size_t i, json_t* v), (j, i, v), j, true)
JR(int, json_array_insert_new, (json_t* j, size_t i, json_t* v), (j, i, v), j, true)
JR(int, json_array_remove, (json_t* j, size_t i), (j, i), j, true)
JR(int, json_array_clear, (json_t* j), (j), j, true)
JR(int, json_string_set, (json_t* j, const char* v), (j, v), j, true)
JR(int, json_integer_set, (json_t* j, json_int_t v), (j, v), j, true)
JR(int, json_real_set, (json_t* j, double v), (j, v), j, true)
#define JUPD(name) int __real_##name(json_t*, json_t*); int __wrap_##name(json_t* a, json_t* b) { json_touch(b, false, PC); JN(a, true, PC); return __real_##name(a, b); }
JUPD(json_object_update) JUPD(json_object_update_existing) JUPD(json_object_update_missing) JUPD(json_object_update_recursive) JUPD(json_array_extend)
JDEEP(json_t*, json_copy, (json_t* j), (j), j)
JDEEP(json_t*, json_deep_copy, (const json_t* j), (j), j)
JDEEP(int, json_dump_callback, (const json_t* j, json_dump_callback_t f, void* d, size_t fl), (j, f, d, fl), j)
int __real_json_equal(const json_t*, const json_t*); int __wrap_json_equal(const json_t* a, const json_t* b) { json_touch((json_t*)a, false, PC); json_touch((json_t*)b, false, PC); return __real_json_equal(a, b); }
JNEW(json_object, (), ()) JNEW(json_array, (), ()) JNEW(json_string, (const char* s), (s)) JNEW(json_stringn, (const char* s, size_t n), (s, n))
JNEW(json_integer, (json_int_t v), (v)) JNEW(json_real, (double v), (v))
JNEW(json_load_callback, (json_load_callback_t f, void* d, size_t fl, json_error_t* e), (f, d, fl, e))
// the caller releases this one with free()
char* __real_json_dumps(const json_t*, size_t); char* __wrap_json_dumps(const json_t* j, size_t fl) { json_touch((json_t*)j, false, PC); int h = g_hook; g_hook = 0; char* r = __real_json_dumps(j, fl); g_hook = h; return r; }
}

// ---------------------------------------------------------------- allocation
static void segv_trace(int) { void* a[40]; int n = backtrace(a, 40); for(int i = 0; i < n; ++i) fprintf(stderr, "ST %p\n", a[i]); _exit(99); }
static bool no_memory() { if(!g_hook || g_child || !(S.spec.fault_mask >> F_ALLOC & 1) || !S.active || S.fibers.size() < 2) return false; /* not while the configuration is read: the program falls back to the defaults then */ Rt rt; if(!fault(F_ALLOC, "memory")) return false; if(getenv("SIM_BT")) { static char alt[65536]; stack_t ss{alt, 0, sizeof alt}; sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_handler = segv_trace; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); void* a[40]; int n = backtrace(a, 40); for(int i = 0; i < n; ++i) fprintf(stderr, "BT %p\n", a[i]); } return true; }
static void* do_new(size_t n, size_t al) {
	if(g_hook) { void* p = arena_alloc(n, al); if(p) { __builtin_memset(p, 0xbe, n > 256 ? 256 : n); return p; } }
	void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
	if(!p) { fprintf(stderr, "sim: out of memory\n"); _exit(70); }
	return p;
}
static void do_delete(void* p) { if(!p) return; if(arena_free(p)) return; free(p); }
void* operator new(size_t n) { if(no_memory()) throw std::bad_alloc{}; return do_new(n, 16); }
void* operator new[](size_t n) { if(no_memory()) throw std::bad_alloc{}; return do_new(n, 16); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { if(no_memory()) return nullptr; return do_new(n, 16); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { if(no_memory()) return nullptr; return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { if(no_memory()) throw std::bad_alloc{}; return do_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

namespace sim {
static void* json_mem(size_t n) { return do_new(n, 16); }
static void json_release(void* p) { do_delete(p); }
void run_all(std::function<void()> mainfn, int pid) {
	S.srng.reseed(S.spec.seed * 3 + 1); S.frng.reseed(S.spec.seed * 3 + 2); S.mrng.reseed(S.spec.seed * 3 + 3);
	if(S.spec.strategy == 1 && !S.spec.replay) {
		int d = 1 + (int)S.srng.below(5); for(int i = 0; i < d; ++i) S.pct_change.push_back(1 + S.srng.below(1ull << (6 + S.srng.below(9))));
		std::sort(S.pct_change.rbegin(), S.pct_change.rend());
	}
	g_race = S.spec.race; g_acc = 0; mem_arm(); u64 clock0 = S.clock;
	S.active = true;
	Fiber boot; boot.depth = 1; S.cur = nullptr;
	S.mainf = spawn_fiber(pid, mainfn, "main");
	Fiber* f = S.mainf; f->starve_until = 0;
	int e = errno; save_ctx(&boot);
	S.cur = f; load_ctx(f);
	sim_switch(&S.boot_sp, f->sp);
	while(S.boot_req) { auto r = std::move(S.boot_req); S.boot_req = nullptr; void* to = r(); sim_switch(&S.boot_sp, to); }
	g_hook = 0; S.active = false; S.cur = nullptr; load_ctx(&boot); errno = e;
	S.oc.st.accesses = g_acc; S.oc.st.simtime = S.clock - clock0;
}
}
