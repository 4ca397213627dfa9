#include <exception>
#include "world.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <signal.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>

namespace sim {
u64 g_world_clock = 0;
static char* shm; static const size_t SHM = 256u << 20;
void ser_s(std::string& o, const std::string& s) { u32 n = (u32)s.size(); o.append((char*)&n, 4); o += s; }
std::string de_s(const char*& p) { u32 n; memcpy(&n, p, 4); p += 4; std::string r(p, n); p += n; return r; }
void ser_u(std::string& o, u64 v) { o.append((char*)&v, 8); }
u64 de_u(const char*& p) { u64 v; memcpy(&v, p, 8); p += 8; return v; }
static void ser_m(std::string& o, const std::map<u64, u32>& m) { ser_u(o, m.size()); for(auto& e : m) { ser_u(o, e.first); ser_u(o, e.second); } }
static void de_m(const char*& p, std::map<u64, u32>& m) { u64 n = de_u(p); while(n--) { u64 a = de_u(p); m[a] = (u32)de_u(p); } }
std::string hex(u64 v) { char b[20]; snprintf(b, sizeof b, "%016lx", (unsigned long)v); return b; }

void rt_prepare() {
	rt_init(); json_object_seed(1);
	if(!shm) { shm = (char*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(shm == MAP_FAILED) { perror("mmap"); _exit(70); } }
}
static void ser_oc(std::string& o, const Outcome& c) {
	ser_u(o, c.findings.size()); for(auto& f : c.findings) { ser_s(o, f.cls); ser_s(o, f.msg); }
	ser_u(o, c.events.size()); for(auto& e : c.events) { ser_u(o, e.seq); ser_u(o, e.t); ser_u(o, (u64)e.kind); ser_u(o, (u64)e.pid); ser_u(o, (u64)e.fiber); ser_u(o, (u64)e.n); ser_s(o, e.a); ser_s(o, e.b); }
	o.append((const char*)&c.st, sizeof c.st); ser_m(o, c.sched); ser_m(o, c.mem); ser_m(o, c.faults);
	ser_u(o, (u64)c.exit_status); ser_u(o, c.crashed); ser_s(o, c.out); ser_s(o, c.err);
}
static void de_oc(const char*& p, Outcome& c) {
	u64 n = de_u(p); while(n--) { Finding f; f.cls = de_s(p); f.msg = de_s(p); c.findings.push_back(f); }
	n = de_u(p); while(n--) { Event e; e.seq = de_u(p); e.t = de_u(p); e.kind = (int)de_u(p); e.pid = (int)de_u(p); e.fiber = (int)de_u(p); e.n = (i64)de_u(p); e.a = de_s(p); e.b = de_s(p); c.events.push_back(std::move(e)); }
	memcpy(&c.st, p, sizeof c.st); p += sizeof c.st; de_m(p, c.sched); de_m(p, c.mem); de_m(p, c.faults);
	c.exit_status = (int)(i64)de_u(p); c.crashed = de_u(p); c.out = de_s(p); c.err = de_s(p);
}
int call_app(std::function<int()> app) { std::set_terminate([]() { abort(); }); --S.cur->depth; g_hook = 1; int rc = app(); g_hook = 0; ++S.cur->depth; return rc; }

Outcome run_isolated(const SchedSpec& spec, std::function<int()> app, std::function<void(std::string&)> sv, std::function<void(const char*&)> ld) {
	fflush(stdout); fflush(stderr); *(u64*)shm = 0;
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); _exit(70); }
	if(pid == 0) {
		struct rlimit rl = {300, 300}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
		S.spec = spec; S.clock = g_world_clock; K.fs.gran = spec.mtime_gran; kern_start();
		run_all([&]() { int rc = call_app(app); main_exit(rc & 255); }, MAIN_PID);
		if(S.oc.exit_status == -1 && S.oc.findings.empty()) S.oc.findings.push_back({"hang", "the program did not finish"});
		std::string o; ser_u(o, S.clock); K.fs.save(o); ser_oc(o, S.oc); if(sv) sv(o);
		if(o.size() + 16 > SHM) { fprintf(stderr, "sim: result too large\n"); _exit(70); }
		memcpy(shm + 8, o.data(), o.size()); *(u64*)shm = o.size(); _exit(0);
	}
	int st = 0; if(waitpid(pid, &st, 0) < 0) { perror("waitpid"); _exit(70); }
	Outcome oc;
	if(*(u64*)shm) { const char* p = shm + 8; g_world_clock = de_u(p); K.fs.load(p); de_oc(p, oc); if(ld) ld(p); }
	else if(WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGXCPU) { oc.findings.push_back({"segv", std::string("the program is killed by ") + strsignal(WTERMSIG(st))}); oc.exit_status = 1000 + WTERMSIG(st); }
	else { fprintf(stderr, "sim: simulator process ended abnormally (status %x)\n", st); _exit(WIFEXITED(st) ? WEXITSTATUS(st) ? WEXITSTATUS(st) : 70 : 70); }
	return oc;
}

SchedSpec choose_sched(Ctx& c, bool want_race, bool simple) {
	SchedSpec s; static const int strat[] = {4, 0, 1, 2, 3, 5, 6, 7, 8, 9, 0, 1}; s.strategy = strat[c.pick(12)];
	static const u32 mi[] = {0, 0, 0, 5000, 700, 100}; s.mem_interval = mi[c.pick(6)];
	s.race = want_race ? true : false; static const u32 caps[] = {65536, 4096, 8192, 4096, 100000}; s.pipe_cap = caps[c.pick(5)]; if(simple) { s.pipe_cap = 65536; }
	s.fault_mask = 1ull << F_SHORT | 1ull << F_SPURIOUS; static const u32 sd[] = {0, 0, 8, 2}; s.short_den = sd[c.pick(4)];
	static const u64 gr[] = {1, 1000000, 4000000, 1000000000ull}; s.mtime_gran = gr[c.pick(4)];
	return s;
}
Outcome run_inv(Ctx& c, SchedSpec spec, std::function<int()> app, std::function<void(std::string&)> sv, std::function<void(const char*&)> ld) {
	size_t k = c.inv++; spec.seed = Rng::mix(c.seed * 1000003 + k); spec.replay = c.replay;
	if(c.replay && k < c.dec.size()) { spec.sched = c.dec[k].sched; spec.mem = c.dec[k].mem; spec.faults = c.dec[k].faults; }
	Outcome o = run_isolated(spec, app, sv, ld);
	InvDec d; d.sched = o.sched; d.mem = o.mem; d.faults = o.faults; c.rec.push_back(std::move(d));
	c.invocations++; auto& t = c.tot; t.points += o.st.points; t.accesses += o.st.accesses; t.switches += o.st.switches; t.mem_preempts += o.st.mem_preempts; t.simtime += o.st.simtime; t.fibers += o.st.fibers; t.procs += o.st.procs; t.faultpoints += o.st.faultpoints;
	for(int i = 0; i < F_MAX; ++i) t.fault_count[i] += o.st.fault_count[i]; for(int i = 0; i < 16; ++i) t.probes[i] += o.st.probes[i]; if(o.st.maxready > t.maxready) t.maxready = o.st.maxready; if(o.crashed) c.crashes++;
	bool flt = o.crashed; for(int i = 1; i < F_MAX; ++i) if(o.st.fault_count[i]) flt = true; if(flt || (o.st.switches > 0 && o.st.maxready > 1)) c.sigs.insert(o.st.sig); c.mixu(o.st.sig); c.mixu((u64)o.exit_status); c.mixs(o.out); c.mixs(o.err); for(auto& f : o.findings) { c.mixs(f.cls); }
	return o;
}
}
