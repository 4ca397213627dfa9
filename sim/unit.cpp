// Component scenarios: thread pool, waiting primitives, byte queue, process execution. Histories against small reference models.
#include "scen.h"
#include "unit_api.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <signal.h>
#include <unistd.h>

extern "C" { __attribute__((weak)) int u_event_app(); __attribute__((weak)) int u_counter_app(); __attribute__((weak)) int u_fifo_app(); __attribute__((weak)) int u_pool_app(); __attribute__((weak)) int u_result_app(); __attribute__((weak)) int u_exec_app(); }

namespace sim {
using std::string; using std::vector; using std::map; using std::set;
static vector<u32> par; static vector<string> text;
extern "C" {
unsigned u_par(int i) { return i >= 0 && (size_t)i < par.size() ? par[(size_t)i] : 0; }
void u_ev(const char* w, long a, long b) { Rt rt; event(EV_NOTE, (int)b, w, "", a); }
void u_evs(const char* w, long a, const void* p, size_t n) { Rt rt; event(EV_NOTE, 0, w, string((const char*)p, n), a); }
void u_text(int i, char* b, size_t n) { Rt rt; snprintf(b, n, "%s", text[(size_t)i].c_str()); }
void u_pause(unsigned k) { if(!k) return; Rt rt; sleep_until(now() + k * 1000ull, "pause"); }
unsigned char u_byte(unsigned job, unsigned stream, size_t off) { return (unsigned char)(job * 37 + stream * 101 + off * 7 + off / 251 + (off >> 11)); }
}
struct H { u64 seq; string w; long a, b; string s; int fiber; };
static vector<H> hist(const Outcome& o) { vector<H> r; for(auto& e : o.events) if(e.kind == EV_NOTE) r.push_back({e.seq, e.a, (long)e.n, (long)e.pid, e.b, e.fiber}); return r; }
static void show(Ctx& c, const Outcome& o) { if(!c.verbose) return; fprintf(stderr, "params:"); for(u32 x : par) fprintf(stderr, " %u", x); fprintf(stderr, "\n"); for(auto& e : o.events) fprintf(stderr, "%5lu t=%lu thread %d kind %d: %s %ld %d (%zu bytes)%s\n", e.seq, e.t, e.fiber, e.kind, e.a.c_str(), (long)e.n, e.pid, e.b.size(), e.kind == EV_FAULT ? e.b.c_str() : ""); for(auto& f : o.findings) fprintf(stderr, "FINDING %s: %s\n", f.cls.c_str(), f.msg.c_str()); }
static Outcome go(Ctx& c, SchedSpec s, int (*app)()) { K.fs = Vfs{}; g_world_clock = 0; K.fs.cwd = "/w"; K.fs.mkdirs("/w", K.base_time); K.fs.put("/w/child", "#!sim child\n", 0755, K.base_time); K.fs.put("/w/plain", "text\n", 0644, K.base_time); K.fs.put("/w/odd", "text\n", 0755, K.base_time); Outcome o = run_inv(c, s, [app]() { return app(); }); show(c, o); return o; }
static bool bad(Ctx& c, const Outcome& o, const string& prop, const string& ctx, bool allow_deadlock = false) {
	bool r = false; for(auto& f : o.findings) {
		if(f.cls == "race" || f.cls == "lifetime") { c.viol("C16", f.cls, ctx + ": " + f.msg); if(f.cls == "lifetime") c.viol(prop, f.cls, ctx + ": " + f.msg); r = true; }
		else if(f.cls == "hang" && allow_deadlock && f.msg.compare(0, 8, "deadlock") == 0) continue;
		else { c.viol(prop, f.cls, ctx + ": " + f.msg); r = true; } }
	return r; }
static SchedSpec usched(Ctx& c) { auto s = choose_sched(c, true); static const u32 mi[] = {0, 0, 200, 30, 8, 3}; s.mem_interval = mi[c.pick(6)]; s.mtime_gran = 1; return s; }

// ---------------------------------------------------------------- linearizability of small histories
struct Op { u64 inv, ret; long op, r; };
static bool linear(const vector<Op>& ops, u64 init, std::function<bool(const Op&, u64&)> step, std::function<bool(const Op&, u64)> enabled) {
	size_t n = ops.size(); set<std::pair<u64, u64>> seen; 
	std::function<bool(u64, u64)> rec = [&](u64 done, u64 st) -> bool {
		if(!seen.insert({done, st}).second) return false; bool all = true; u64 minret = ~0ull;
		for(size_t i = 0; i < n; ++i) if(!(done >> i & 1) && ops[i].ret != ~0ull) { all = false; minret = std::min(minret, ops[i].ret); }
		if(all) { bool ok = true; for(size_t i = 0; i < n; ++i) if(!(done >> i & 1) && enabled(ops[i], st)) ok = false; if(ok) return true; }
		for(size_t i = 0; i < n; ++i) if(!(done >> i & 1) && ops[i].ret != ~0ull && ops[i].inv < minret) { u64 s = st; if(step(ops[i], s) && rec(done | 1ull << i, s)) return true; }
		return false; };
	return rec(0, init);
}
static vector<Op> ops_of(const vector<H>& h) { vector<Op> r; map<long, size_t> open; for(auto& e : h) { if(e.w == "inv") { open[e.a] = r.size(); r.push_back({e.seq, ~0ull, e.b, 0}); } else if(e.w == "ret") { auto& o = r[open[e.a]]; o.ret = e.seq; o.r = e.b; } } return r; }
static string tell(const vector<Op>& ops, std::function<string(const Op&)> nm) { string s; vector<std::pair<u64, string>> v; for(size_t i = 0; i < ops.size(); ++i) { v.push_back({ops[i].inv, nm(ops[i]) + "#" + std::to_string(i) + "("}); if(ops[i].ret != ~0ull) v.push_back({ops[i].ret, ")#" + std::to_string(i)}); } std::sort(v.begin(), v.end()); for(auto& x : v) s += " " + x.second; return s; }
static u32 pz(Ctx& c) { static const u32 p[] = {0, 0, 1, 3, 10}; return p[c.pick(5)]; }

static void s_event(Ctx& c) {
	par.clear(); u32 nt = 2 + c.pick(3); par.push_back(nt); u32 waits = 0; for(u32 k = 0; k < nt; ++k) { u32 n = 1 + c.pick(4); par.push_back(n); u32 role = c.pick(3); for(u32 i = 0; i < n; ++i) { u32 op = role == 0 ? 0 : role == 1 ? 1 : c.pick(2); waits += op; par.push_back(op); par.push_back(pz(c)); } }
	auto o = go(c, usched(c), u_event_app); string ctx = "event set/wait"; if(bad(c, o, "C14", ctx, true)) return; auto ops = ops_of(hist(o));
	for(auto& x : ops) if(x.op == 0 && x.ret == ~0ull) { c.viol("C14", "stuck", ctx + ": set() never returns"); return; }
	if(!linear(ops, 0, [](const Op& x, u64& s) { if(x.op == 0) { s = 1; return true; } if(!s) return false; s = 0; return true; }, [](const Op& x, u64 s) { return x.op == 1 && s; })) c.viol("C14", "event", ctx + ": a waiter is released without a signal, or a signal is lost:" + tell(ops, [](const Op& x) { return x.op ? "wait" : "set"; }));
	bool p = false; for(auto& x : ops) if(x.ret == ~0ull) p = true; c.counters[p ? "event_runs_with_unsatisfied_waits" : "event_runs_all_released"]++;
}
static void s_counter(Ctx& c) {
	par.clear(); u32 init = c.pick(3); par.push_back(init); u32 nt = 2 + c.pick(3); par.push_back(nt); size_t total = 0;
	u32 fin = c.pick(4); for(u32 k = 0; k < nt; ++k) { u32 n = std::min<u32>(1 + c.pick(4), 15 - (u32)total); total += n; par.push_back(n); u32 role = c.pick(4);
		for(u32 i = 0; i < n; ++i) { u32 op = role == 0 ? c.pick(2) + (c.chance(1, 5) ? 20 : 0) : role == 1 ? 2 + fin : role == 2 ? (c.chance(1, 2) ? 2 + c.pick(4) : 10 + c.pick(4)) : c.pick(2); par.push_back(op); par.push_back(pz(c)); } }
	auto o = go(c, usched(c), u_counter_app); string ctx = "signaling counter"; if(bad(c, o, "C14", ctx, true)) return; auto ops = ops_of(hist(o)); if(ops.size() > 20) return;
	for(auto& x : ops) if(!(x.op >= 2 && x.op < 10) && x.ret == ~0ull) { c.viol("C14", "stuck", ctx + ": an operation that does not wait never returns"); return; }
	if(!linear(ops, init, [](const Op& x, u64& s) { long k = x.op; if(k >= 20) k -= 20; if(x.op >= 10 && x.op < 20) return (x.r != 0) == (s == (u64)(x.op - 10)); if(k == 0) { ++s; return true; } if(k == 1) { --s; return true; } return s == (u64)(k - 2); }, [](const Op& x, u64 s) { return x.op >= 2 && x.op < 10 && s == (u64)(x.op - 2); }))
		c.viol("C14", "counter", ctx + " (initially " + std::to_string(init) + "): a waiter is released at the wrong value or not released:" + tell(ops, [](const Op& x) { return x.op % 20 == 0 ? string("inc") : x.op % 20 == 1 ? string("dec") : x.op < 10 ? "wait" + std::to_string(x.op - 2) : "is" + std::to_string(x.op - 10) + "?" + std::to_string(x.r); }));
	bool p = false; for(auto& x : ops) if(x.ret == ~0ull) p = true; c.counters[p ? "counter_runs_with_unsatisfied_waits" : "counter_runs_all_released"]++;
}
static void s_fifo(Ctx& c) {
	par.clear(); u32 nw = c.pick(7), nr = 1 + c.pick(4); par = {nw, nr}; size_t tot = 0; static const u32 sz[] = {1, 2, 5, 64, 100, 4096, 4097, 10000}; for(u32 i = 0; i < nw; ++i) { u32 n = sz[c.pick(8)]; tot += n; par.push_back(n); par.push_back(pz(c)); } for(u32 i = 0; i < nr; ++i) { u32 k = sz[c.pick(8)]; if(tot / k > 3000) k = 64; par.push_back(k); par.push_back(pz(c)); }
	auto o = go(c, usched(c), u_fifo_app); string ctx = "byte queue with one writer and one reader"; if(bad(c, o, "C14", ctx)) return; string got; bool end = false; size_t written = 0, rd = 0; bool stopped = false;
	for(auto& e : hist(o)) { if(e.w == "overrun") { c.viol("C14", "overrun", ctx + ": more bytes returned than asked for"); return; } if(e.w == "write") written += (size_t)e.a; if(e.w == "stop") stopped = true; if(e.w == "read") { rd += (size_t)e.a; if(e.a == 0) { end = true; if(!stopped) c.viol("C14", "early_end", ctx + ": end of stream before stop()"); } if(rd > written) c.viol("C14", "invented", ctx + ": bytes are read that were not written"); } if(e.w == "got") got = e.s; }
	if(!end) { c.viol("C14", "no_end", ctx + ": no end of stream after stop()"); return; } if(got.size() != tot) { c.viol("C14", "bytes", ctx + ": " + std::to_string(tot) + " bytes written, " + std::to_string(got.size()) + " read"); return; }
	for(size_t i = 0; i < tot; ++i) if((u8)got[i] != u_byte(7, 0, i)) { c.viol("C14", "bytes", ctx + ": byte " + std::to_string(i) + " of " + std::to_string(tot) + " differs"); return; }
	c.counters["fifo_bytes"] += tot;
}
static void s_result(Ctx& c) {
	par.clear(); u32 g = c.pick(4); par = {g, c.pick(2), pz(c), pz(c)}; for(u32 i = 0; i < g; ++i) par.push_back(pz(c));
	auto o = go(c, usched(c), u_result_app); string ctx = "asynchronous result"; if(bad(c, o, "C14", ctx)) return; bool setd = false; size_t got = 0;
	for(auto& e : hist(o)) { if(e.w == "set_inv") setd = true; if(e.w == "got") { ++got; if(!setd) c.viol("C14", "early", ctx + ": a reader gets a value before one was set"); if(e.b != (par[1] ? -42 : 17)) { c.viol("C14", "value", ctx + ": a reader gets a wrong value"); c.viol("C13", "value", ctx + ": a reader gets a wrong value"); } } if(e.w == "destroyed" && !setd) c.viol("C14", "early", ctx + ": destroyed before the value was set"); }
	if(got != g) c.viol("C14", "lost", ctx + ": a reader never returned");
}
// ---------------------------------------------------------------- thread pool
static void s_pool(Ctx& c) {
	par.clear(); u32 workers = 1 + c.pick(4), nprod = 1 + c.pick(3), n = 1 + c.pick(c.chance(1, 4) ? 20 : 9), getters = c.pick(3), takes = c.chance(1, 2) ? c.pick(3) : 0, order = c.pick(8); bool barrier = c.chance(1, 3) && n >= 2; u32 group = barrier ? 2 + c.pick(std::min(workers, n) - 1 ? std::min(workers, n) - 1 : 1) : 0; if(group > workers || group > n) group = 0;
	par = {workers, nprod, n, getters, takes, order, group, 0}; par[7] = pz(c); vector<u32> kind(n), parent(n); u32 gleft = group;
	for(u32 i = 0; i < n; ++i) { u32 p = i && c.chance(2, 5) ? 1 + c.pick(i) : 0, k = gleft ? (p = 0, --gleft, 5u) : c.pick(5); kind[i] = k; parent[i] = p; par.push_back(k); par.push_back(pz(c)); par.push_back(p); par.push_back(c.pick(3)); }
	auto s = usched(c); bool tf = c.chance(1, 6); if(tf) { s.fault_mask |= 1ull << F_THREAD; s.fault_at = 1 + c.pick(workers); s.fault_max = 1; if(getters || nprod) { /* threads of the workload start after the pool */ } }
	auto o = go(c, s, u_pool_app); string ctx = "thread pool with " + std::to_string(workers) + " workers"; auto h = hist(o); if(bad(c, o, "C13", ctx)) return;
	vector<int> started(n), ended(n), added(n); map<int, set<int>> addfib; bool nopool = false, destroyed = false, destroying = false; int mainf = -1; long cnt = 0; struct Win { int id; u64 b, e; bool taken; }; vector<Win> win; map<int, size_t> open; vector<std::pair<u64, std::pair<u64, long>>> tk; u64 tinv = 0; set<int> producers;
	for(auto& e : h) {
		if(open.count(e.fiber) && e.w != "throw") { win[open[e.fiber]].e = e.seq; open.erase(e.fiber); }
		if(e.w == "nopool") nopool = true; else if(e.w == "pool") { cnt = e.a; mainf = e.fiber; producers.insert(e.fiber); } else if(e.w == "add") { added[e.a]++; if(!parent[e.a]) producers.insert(e.fiber); }
		else if(e.w == "start") { if(++started[e.a] > 1) { c.viol("C13", "twice", ctx + ": a task is executed twice"); return; } if(!added[e.a]) { c.viol("C13", "invented", ctx + ": a task is executed that was not added"); return; } if(destroyed) { c.viol("C13", "late", ctx + ": a task is executed after the pool was destroyed"); return; } if(producers.count(e.fiber)) { c.viol("C13", "caller", ctx + ": a task is executed by the thread that added it"); return; } }
		else if(e.w == "end") ended[e.a]++; else if(e.w == "throw" && kind[e.a] == 1) { open[e.fiber] = win.size(); win.push_back({(int)e.a, e.seq, ~0ull, false}); }
		else if(e.w == "destroy") destroying = true; else if(e.w == "destroyed") { destroyed = true; for(u32 i = 0; i < n; ++i) if(added[i] && !ended[i]) { c.viol("C13", "lost", ctx + ": the pool was destroyed, but an added task has not been executed"); return; } }
		else if(e.w == "got") { if(kind[e.a] == 3) { c.viol("C13", "result", ctx + ": the result of a throwing task is a value"); return; } if(kind[e.a] == 2 && e.b != e.a * 7 + 1) { c.viol("C13", "result", ctx + ": a task's result is wrong"); return; } if(!ended[e.a]) { c.viol("C13", "early", ctx + ": a result is available before its task finished"); c.viol("C14", "early", ctx + ": a result is available before its task finished"); return; } }
		else if(e.w == "gotex") { if(kind[e.a] != 3 || e.b != e.a) { c.viol("C13", "result", ctx + ": a waiter gets the exception of another task"); return; } }
		else if(e.w == "gotbad" || e.w == "gotother") { c.viol("C13", "result", ctx + ": a task's result is wrong"); return; }
		else if(e.w == "take_inv") tinv = e.seq; else if(e.w == "take") tk.push_back({tinv, {e.seq, e.a}});
	}
	u64 nf = o.st.fault_count[F_THREAD]; if(nopool) { if(!nf) c.viol("C13", "nopool", ctx + ": the pool cannot be created"); return; } if(!nf && cnt != (long)workers) { c.viol("C13", "count", ctx + ": has " + std::to_string(cnt) + " workers"); return; }
	for(u32 i = 0; i < n; ++i) if(!ended[i]) { c.viol("C13", "lost", ctx + ": a task was never executed"); return; }
	u64 prev = 0; for(auto& t : tk) { long id = t.second.second;
		if(id == -2) { c.viol("C13", "exception", ctx + ": a foreign exception is reported"); return; }
		if(id == -1) { for(auto& w : win) if(!w.taken && w.b > prev && w.e < t.first) { c.viol("C13", "exception", ctx + ": the exception of a task is lost"); return; } }
		else { Win* x = nullptr; for(auto& w : win) if(w.id == id) x = &w; if(!x || x->b > t.second.first) { c.viol("C13", "exception", ctx + ": an exception is reported that no task has thrown yet"); return; } if(x->taken) { c.viol("C13", "exception", ctx + ": an exception is reported twice"); return; } x->taken = true; for(auto& w : win) if(!w.taken && w.b > prev && w.e < x->b) { c.viol("C13", "exception", ctx + ": a later exception replaces the first one"); return; } }
		prev = t.second.first; }
	c.counters["pool_tasks"] += n; c.counters["pool_exceptions_taken"] += tk.size(); if(group) c.counters["pool_barriers"]++;
}
// ---------------------------------------------------------------- processes
struct COp { char k; u32 a, b; };
static string pat(u32 job, u32 st, size_t off, size_t n) { string s(n, 0); for(size_t i = 0; i < n; ++i) s[i] = (char)u_byte(job, st, off + i); return s; }
static int prog_child(Proc& p) { // j<job> then operations
	u32 job = 0; size_t off[3] = {0, 0, 0}; const char* s = p.argv.size() > 1 ? p.argv[1].c_str() : ""; auto num = [&]() { u32 v = 0; while(*s >= '0' && *s <= '9') v = v * 10 + (u32)(*s++ - '0'); return v; };
	while(*s) { char k = *s++; u32 a = num(), b = 0; if(*s == ',') { ++s; b = num(); } if(*s == ' ') ++s;
		switch(k) { case 'j': job = a; break;
			case 'o': case 'e': { int fd = k == 'o' ? 1 : 2; if(!p.fds.count(fd)) break; string d = pat(job, (u32)fd, off[fd], a); off[fd] += a; size_t q = 0; while(q < d.size()) { size_t z = b ? std::min<size_t>(b, d.size() - q) : d.size() - q; long r = p_write(p, fd, d.data() + q, z); if(r <= 0) { event(EV_NOTE, fd, "wfail", "", (i64)job); return 99; } q += (size_t)r; } break; }
			case 'r': { if(!p.fds.count(0)) break; string got; char buf[5000]; bool eof = false; while(got.size() < (a ? a : ~0u)) { long r = p_read(p, 0, buf, std::min({b ? (size_t)b : sizeof buf, a ? a - got.size() : sizeof buf, sizeof buf})); if(r < 0) break; if(r == 0) { eof = true; break; } got.append(buf, (size_t)r); } event(EV_NOTE, eof, "stdin", got, (i64)job); break; }
			case 'c': p_close(p, (int)a); break; case 's': sleep_until(now() + a * 1000ull, "work"); break; case 'x': return (int)a; case 'k': throw ProcKilled{(int)a}; } }
	return 0;
}
static void s_exec(Ctx& c) {
	par.clear(); text.clear(); u32 nt = 1 + (c.chance(3, 4) ? c.pick(3) : 0), nj = 1 + c.pick(4); par = {nt, nj}; struct J { u32 api, nin; int exe; vector<COp> ops; size_t out = 0, err = 0; int st = 0; long rd = -1; bool eof = false; bool bad = false; u32 extra = 0; }; vector<J> js;
	bool badl = c.chance(1, 3); static const u32 sz[] = {0, 1, 17, 200, 4095, 4096, 4097, 8192, 9000, 30000, 65536, 70000, 140000};
	for(u32 j = 0; j < nj; ++j) { J x; x.api = c.pick(5); if(x.api == 4) x.api = 0; if(c.chance(1, 2)) x.api = c.chance(1, 2) ? 0 : 1; x.nin = x.api == 0 ? sz[c.pick(13)] : 0; x.exe = badl && c.chance(1, 2) ? 1 + (int)c.pick(4) : 0; if(badl && c.chance(1, 8)) x.extra = 140000; x.bad = x.exe || x.extra; string prog = "j" + std::to_string(j);
		u32 no = c.pick(6); bool o1 = true, o2 = true, in = true; bool ended = false; auto addop = [&](char k, u32 a, u32 b) { x.ops.push_back({k, a, b}); prog += string(" ") + k + std::to_string(a) + (b ? "," + std::to_string(b) : ""); };
		for(u32 i = 0; i < no && !ended; ++i) switch(c.pick(9)) { case 0: case 1: { u32 n = sz[c.pick(13)]; addop('o', n, c.chance(1, 3) ? 1 + c.pick(5000) + n / 50 : 0); if(o1) x.out += n; break; } case 2: case 3: { u32 n = sz[c.pick(13)]; addop('e', n, c.chance(1, 3) ? 1 + c.pick(5000) + n / 50 : 0); if(o2) x.err += n; break; }
			case 4: case 5: { if(x.rd >= 0) break; u32 n = c.chance(1, 3) ? 1 + c.pick(9000) : 0; addop('r', n, c.chance(1, 2) ? 100 + c.pick(5000) : 0); if(in) { x.rd = n ? (long)std::min(n, x.nin) : (long)x.nin; x.eof = !n || n > x.nin; } break; }
			case 6: { u32 f = c.pick(3); addop('c', f, 0); if(f == 0) in = false; if(f == 1) o1 = false; if(f == 2) o2 = false; break; } case 7: addop('s', pz(c) + c.pick(50), 0); break; case 8: { if(c.chance(1, 2)) break; static const u32 sg[] = {SIGKILL, SIGTERM, SIGSEGV, SIGABRT}; u32 g = sg[c.pick(4)]; addop('k', g, 0); x.st = 1000 + (int)g; ended = true; break; } }
		if(!ended) { static const u32 cd[] = {0, 0, 0, 1, 2, 3, 77, 126, 127, 128, 137, 255}; x.st = (int)cd[c.pick(12)]; addop('x', (u32)x.st, 0); }
		static const char* ex[] = {"/w/child", "/w/missing", "/w/plain", "/w", "/w/nodir/child"}; text.push_back(x.exe == 0 && c.chance(1, 3) ? "./child" : ex[x.exe]); text.push_back(prog); par.push_back(c.pick(nt)); par.push_back(x.api); par.push_back(x.nin); par.push_back((u32)text.size() - 2); par.push_back((u32)text.size() - 1); par.push_back(pz(c)); par.push_back(x.extra); js.push_back(x); }
	auto s = usched(c); static const int fk[] = {F_PIPE, F_FORK, F_EXEC, F_THREAD}; if(c.chance(1, 3)) { s.fault_mask |= 1ull << fk[c.pick(nt == 1 ? 4 : 3)]; s.fault_at = 1 + c.pick(4 * nj); s.fault_max = 1 + c.pick(2); }
	auto o = go(c, s, u_exec_app); string ctx = "running " + std::to_string(nj) + " child processes from " + std::to_string(nt) + " threads"; auto h = hist(o);
	for(auto& f : o.findings) { string m = ctx + ": " + f.msg; if(f.cls == "race" || f.cls == "lifetime") c.viol("C16", f.cls, m); else if(f.cls == "stuck_process" || f.cls == "fork_child_escape") c.viol("C12", f.cls, m); else { if(f.cls == "badfd") c.viol("C16", f.cls, m); c.viol("C12", f.cls, m); c.viol("C11", f.cls, m); } } if(!o.findings.empty()) return;
	u64 nfault = o.st.fault_count[F_PIPE] + o.st.fault_count[F_FORK] + o.st.fault_count[F_EXEC] + o.st.fault_count[F_THREAD]; map<long, string> out, err; map<long, long> st; set<long> exc, excother; map<long, H> in; map<long, long> fl; set<int> startp, reap;
	for(auto& e : o.events) { if(e.kind == EV_PROC_START) { startp.insert(e.pid); if(e.n) c.viol("C12", "inherit", ctx + ": a child inherits private descriptors"); } if(e.kind == EV_REAPED) reap.insert(e.pid); if(e.kind == EV_MAIN_EXIT && !e.a.empty()) c.viol("C12", "leak", ctx + ": left behind: " + e.a); }
	for(auto& e : h) { if(e.w == "out") out[e.a] = e.s; else if(e.w == "err") err[e.a] = e.s; else if(e.w == "status") st[e.a] = e.b; else if(e.w == "failed") fl[e.a] = e.b; else if(e.w == "exc") { exc.insert(e.a); if(e.b) excother.insert(e.a); } else if(e.w == "stdin") in[e.a] = e; else if(e.w == "wfail") c.viol("C11", "write", ctx + ": the output of a child is cut off"); }
	for(int p : startp) if(!reap.count(p)) { c.viol("C12", "unreaped", ctx + ": a child is never waited for"); break; }
	size_t excok = 0;
	for(u32 j = 0; j < nj; ++j) { auto& x = js[j]; string w = ctx + ": child " + std::to_string(j) + " (" + text[2 * j + 1] + ")";
		if(exc.count(j)) { if(!x.bad || x.api == 3) ++excok; if(x.api == 3) c.viol("C11", "dry", w + ": not started (dry run), but an error is reported"); continue; }
		if(!st.count(j)) { c.viol("C11", "lost", w + ": never returned"); continue; }
		if(x.api == 3) { if(st[j] != 0 || out[j].size() || err[j].size()) c.viol("C11", "dry", w + ": a dry run has a result"); continue; }
		if(x.bad) { c.viol("C12", "launch", w + ": cannot be started, but status " + std::to_string(st[j]) + " is returned"); continue; }
		if(st[j] != x.st) c.viol("C11", "status", w + ": ended with " + std::to_string(x.st) + " (1000 + signal), reported as " + std::to_string(st[j]));
		if(fl[j] != (x.st != 0)) c.viol("C11", "failed", w + ": ended with " + std::to_string(x.st) + ", failed() says " + std::to_string(fl[j]));
		auto cmp = [&](const char* n, u32 sid, const string& got, size_t want) { if(got != pat(j, sid, 0, want)) c.viol("C11", n, w + ": wrote " + std::to_string(want) + " bytes to its " + n + ", " + std::to_string(got.size()) + " bytes arrived" + (got.size() == want ? ", but they differ" : "")); }; cmp("stdout", 1, out[j], x.out); cmp("stderr", 2, err[j], x.err);
		if(x.rd >= 0) { auto it = in.find(j); if(it == in.end() || it->second.s != pat(j, 0, 0, (size_t)x.rd)) c.viol("C11", "stdin", w + ": should read " + std::to_string(x.rd) + " bytes from its standard input, got " + (it == in.end() ? string("nothing") : std::to_string(it->second.s.size()))); else if(x.eof && !it->second.b) c.viol("C11", "stdin", w + ": does not see the end of its standard input"); }
		c.counters["children"]++; c.counters["child_bytes"] += x.out + x.err; }
	for(long j : exc) if(excother.count(j)) c.viol("C12", "exception", ctx + ": a failed launch throws something that is not a std::exception");
	size_t okf = 0; for(u32 j = 0; j < nj; ++j) if(!js[j].bad) ++okf; if(excok > nfault) c.viol("C11", "spurious", ctx + ": an error is reported for a child that could be started"); if(nfault > exc.size()) c.viol("C12", "swallowed", ctx + ": a failing system call in a launch is not reported"); c.counters["failed_launches"] += exc.size();
}
void unit_init() {
	programs["child"] = prog_child;
	if(u_event_app) add_scenario({"event", s_event, "C14 C16", 3}); if(u_counter_app) add_scenario({"counter", s_counter, "C14 C16", 4}); if(u_fifo_app) add_scenario({"fifo", s_fifo, "C14 C15 C16", 3}); if(u_result_app) add_scenario({"result", s_result, "C13 C14 C16", 2}); if(u_pool_app) add_scenario({"pool", s_pool, "C13 C14 C16", 6}); if(u_exec_app) add_scenario({"exec", s_exec, "C11 C12 C16", 6});
}
}
