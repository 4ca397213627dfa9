// Whole-program scenarios: generated projects, recipe stand-ins, oracles.
#include "model.h"
#include "scen.h"
#include <algorithm>
#include <cstring>
#include <signal.h>
#include <unistd.h>

extern "C" int maike_main(int argc, char** argv);

namespace sim {
string cfg_canon(const MNode& n);

// ================================================================ recipes
struct Plan { int code = 0, sig = 0, leftover = 0; u32 out = 0, err = 0; u64 dur = 0; bool rd = false, early = false; int chunk = 0; bool out_first = false; int chunks = 2; };
struct World {
	u64 salt = 0; int noise = 0; map<string, Plan> plan; int tags_fail = 0; string tags_victim; int conf_fail = 0; string conf_victim; bool stdin_all = false; u64 durmax = 0; u64 gran = 1;
};
static World Wd;
static Plan plan_of(const string& src) {
	auto i = Wd.plan.find(src); Plan p; if(i != Wd.plan.end()) p = i->second; u64 h = Rng::mix(hashs(src) ^ Wd.salt); auto b = [&](u64 n) { h = Rng::mix(h); return h % n; };
	p.dur = Wd.durmax ? b(4) ? b(Wd.durmax) : b(Wd.durmax * 20) : 0; p.chunks = 1 + (int)b(4);
	static const u32 sz[] = {0, 0, 10, 200, 5000, 9000, 70000, 150000}; int lim = Wd.noise == 0 ? 1 : Wd.noise == 1 ? 4 : Wd.noise == 2 ? 6 : 8; p.out = sz[b(lim)]; p.err = sz[b(lim)]; p.chunk = b(3) == 0 ? 7 + (int)b(5000) : 0; p.rd = Wd.stdin_all || b(4) == 0; p.early = b(6) == 0; p.out_first = b(2); return p;
}
static string noise_text(const string& src, char ch, u32 n) { string s; if(!n) return s; u64 h = hashs(src) ^ (u64)ch; int k = 0; while(s.size() < n) { s += string(1, ch) + hex(h) + " line " + std::to_string(k++) + " of " + src + "\n"; if((h >> 8) % 2 && k % 3 == 1) s += string("\0\x80\xff %s%n\r\t'\n\n\0", 15); } if(n % 3 == 0) return s; if(s.size() > n) s.resize(n); return s; }
static void put(Proc& p, int fd, const string& s, int chunk) { size_t o = 0; while(o < s.size()) { size_t k = chunk ? std::min<size_t>((size_t)chunk, s.size() - o) : s.size() - o; long r = p_write(p, fd, s.data() + o, k); if(r <= 0) return; o += (size_t)r; } }
static string exe_marker(const string& text, const char* key) { size_t i = 0; string k = string("# ") + key + " "; while(i < text.size()) { size_t j = text.find('\n', i); if(j == string::npos) j = text.size(); if(text.compare(i, k.size(), k) == 0) return text.substr(i + k.size(), j - i - k.size()); i = j + 1; } return ""; }

static string blanks(u64 h) { static const int n[] = {0, 0, 0, 3, 100, 1500, 4096, 9000}; return string((size_t)n[(h >> 20) % 8], "\n \t"[(h >> 24) % 3]); }
static int prog_configure(Proc& p) {
	json_t* j = json_loads(p.argv[2].c_str(), 0, nullptr); if(!j) { put(p, 2, "bad request\n", 0); return 64; }
	string text; p_readfile(p, p.exe, text); string cm = exe_marker(text, "CONFIGURE"); int mode = cm.empty() ? 0 : atoi(cm.c_str()); u64 h = Rng::mix(hashs(p.exe) ^ Wd.salt);
	int rc = 0; string out;
	if(mode == 1 || mode == 2) { string rel = p.exe; /* as the model names it */ auto sl = rel.rfind('/'); string nm = rel.substr(sl + 1); for(const char* d : {"tools/", "alt/"}) if(rel.find(string("/") + d) != string::npos) nm = d + nm; string v = text.substr(text.find("v ") + 2); v = v.substr(0, v.find('\n')); json_object_set_new(j, "configured", json_string((nm + " v" + v).c_str())); if(mode == 2) out = string(4090 + h % 20, '\n'); out += jdump(j); if(mode == 2 && h % 2) out += string(9000, ' '); }
	else if(mode == 3) out = "";
	if(Wd.conf_fail && p.exe == Wd.conf_victim) switch(Wd.conf_fail) { case 1: rc = 3; break; case 2: out = "{\"configured\":\"x\",\"a\":{"; break; case 3: json_decref(j); throw ProcKilled{SIGSEGV}; case 4: out = "[1"; rc = 0; break; case 5: out = "not json"; break; }
	if(!out.empty() && Wd.conf_fail && p.exe == Wd.conf_victim) out = blanks(h) + out;
	put(p, 1, out, h % 3 == 0 ? 100 : 0); json_decref(j); return rc;
}
static int prog_tags(Proc& p) {
	json_t* j = json_loads(p.argv[2].c_str(), 0, nullptr); const char* sf = j ? json_string_value(json_object_get(j, "source_file")) : nullptr; if(!sf) { put(p, 2, "bad request\n", 0); return 64; }
	string src = sf; json_decref(j); string text; if(!p_readfile(p, src, text)) return 65; string out; bool big = false;
	size_t nb = text.find_first_not_of(" \n"); if(nb != string::npos && text[nb] == '{') { json_t* f = json_loads(text.c_str(), 0, nullptr); if(auto g = json_object_get(f, "GT")) out = json_string_value(g); if(auto g = json_object_get(f, "GTB")) { out = json_string_value(g); big = true; } json_decref(f); }
	else for(const char* pre : {"// ", "# "}) for(const char* mk : {"GT ", "GTB "}) { string k = string(pre) + mk; size_t i = text.compare(0, k.size(), k) == 0 ? 0 : text.find("\n" + k); if(i == string::npos) continue; if(i) ++i; size_t e = text.find('\n', i); out = text.substr(i + k.size(), e - i - k.size()); big = mk[2] == 'B'; }
	if(Wd.tags_fail == 2 && sfs::path(src).lexically_normal() == sfs::path(Wd.tags_victim).lexically_normal()) { size_t e = out.find_last_not_of(" \n"); out = e == string::npos || e == 0 ? "{\"dependencies\":[" : out.substr(0, std::max<size_t>(1, (e + 1) / 2)); }
	u64 h = Rng::mix(hashs(src) ^ Wd.salt ^ 5); if(big) { string q = string(4096 * (h % 3) + h % 7, ' ') + "\n"; size_t c = out.find(','); if(c != string::npos && h % 2) out = out.substr(0, c + 1) + q + out.substr(c + 1); else out = q + out; out += string(5000, '\n'); }
	int rc = 0;
	if(Wd.tags_fail && sfs::path(src).lexically_normal() == sfs::path(Wd.tags_victim).lexically_normal()) switch(Wd.tags_fail) { case 1: rc = 2; break; case 3: put(p, 1, out, 0); throw ProcKilled{SIGTERM}; case 4: out = blanks(h) + "garbage"; break; }
	if(Wd.tags_fail == 2 && sfs::path(src).lexically_normal() == sfs::path(Wd.tags_victim).lexically_normal()) out = blanks(h) + out;
	put(p, 1, out, h % 3 == 0 ? 50 + (int)(h % 4000) : 0); return rc;
}
static int prog_compile(Proc& p) {
	json_t* j = json_loads(p.argv[2].c_str(), 0, nullptr); const char* sf = j ? json_string_value(json_object_get(j, "source_file")) : nullptr; if(!sf) { put(p, 2, "bad request\n", 0); return 64; }
	string src = sf; Plan pl = plan_of(src); string exe; p_readfile(p, p.exe, exe); string cfg = canon(json_object_get(j, "compiler_cfg"));
	if(pl.rd) { char b[64]; while(p_read(p, 0, b, sizeof b) > 0) {} } else if(pl.early) p_close(p, 0);
	if(pl.out_first) { put(p, 1, noise_text(src, 'o', pl.out), pl.chunk); put(p, 2, noise_text(src, 'e', pl.err), pl.chunk); }
	if(pl.dur) sleep_until(now() + pl.dur, "recipe work");
	bool dir = K.fs.get(K.fs.abs(src)) && K.fs.get(K.fs.abs(src))->dir; string text = "D"; if(!dir && !p_readfile(p, src, text)) { put(p, 2, "cannot read " + src + "\n", 0); return 1; }
	vector<std::pair<string, string>> deps; size_t k; json_t* v; int rc = 0;
	json_array_foreach(json_object_get(j, "dependencies"), k, v) {
		string r = json_string_value(json_object_get(v, "ref")), o = json_string_value(json_object_get(v, "origin")), c;
		if(o == "system" || o == "pkg-config") c = "S"; else { auto n = K.fs.get(K.fs.abs(r)); if(!n) { put(p, 2, "missing input " + r + "\n", 0); rc = 1; c = "?"; } else if(n->dir) c = "D"; else p_readfile(p, r, c); } deps.push_back({r, c}); }
	if(rc) { json_decref(j); return rc; }
	string h = step_hash(exe, cfg, src, text, deps); bool bad = pl.code || pl.sig;
	json_array_foreach(json_object_get(j, "targets"), k, v) { string t = json_string_value(v);
		if(dir) { if(bad) break; if(!p_mkdirs(p, t)) rc = 1; continue; }
		string out = "OUT " + t + "\n" + h + "\n"; if(bad) { if(pl.leftover == 0) break; if(pl.leftover == 1) out = out.substr(0, out.size() / 2); else if(pl.leftover == 2) out = "WRONG " + out; }
		if(!p_writefile(p, t, out, pl.chunks, pl.dur / 8)) { put(p, 2, "cannot write " + t + "\n", 0); rc = 1; break; } }
	json_decref(j);
	if(!pl.out_first) { put(p, 1, noise_text(src, 'o', pl.out), pl.chunk); put(p, 2, noise_text(src, 'e', pl.err), pl.chunk); }
	if(pl.early) { p_close(p, 1); p_close(p, 2); if(pl.dur) sleep_until(now() + pl.dur, "recipe work"); }
	if(pl.sig) throw ProcKilled{pl.sig}; return rc ? rc : pl.code;
}
static int prog(Proc& p) {
	if(p.argv.size() < 3) return 64; if(p.argv[1] == "configure") return prog_configure(p); if(p.argv[1] == "get_tags") return prog_tags(p); if(p.argv[1] == "compile") return prog_compile(p); return 64;
}

// ================================================================ observation
struct Step { string src, exe; json_t* req = nullptr; int pid = 0; u64 start = 0, end = ~0ull; int status = -1; };
struct Obs { vector<Step> tags, confs; vector<Step> steps; map<string, vector<int>> by; u64 first_compile = ~0ull, first_fault = ~0ull, last_fault = 0, crash = ~0ull; set<int> started, reaped; vector<std::pair<string, u64>> launch_fail; bool inherit = false; string inherit_who; u64 prep_fail = 0; vector<std::pair<u64, i64>> idle; i64 atonce = 0; };
static Obs observe(const Outcome& o) {
	Obs r; map<int, int> open; map<int, string> noted; i64 now_running = 0;
	for(auto& e : o.events) switch(e.kind) {
		case EV_PROC_START: r.started.insert(e.pid); if(e.n) { r.inherit = true; r.inherit_who = e.a; } if(e.a == "compile") { r.atonce = std::max(r.atonce, ++now_running); Step s; s.pid = e.pid; s.start = e.seq; s.req = json_loads(e.b.c_str(), 0, nullptr); const char* q = s.req ? json_string_value(json_object_get(s.req, "source_file")) : nullptr; s.src = q ? q : "?"; if(r.first_compile == ~0ull) r.first_compile = e.seq; open[e.pid] = (int)r.steps.size(); r.by[s.src].push_back((int)r.steps.size()); r.steps.push_back(s); } else if(e.a == "get_tags" || e.a == "configure") { Step s; s.pid = e.pid; s.req = json_loads(e.b.c_str(), 0, nullptr); if(e.a == "get_tags") { const char* q = s.req ? json_string_value(json_object_get(s.req, "source_file")) : nullptr; s.src = q ? q : "?"; r.tags.push_back(s); } else r.confs.push_back(s); } break;
		case EV_NOTE: { for(auto v : {&r.tags, &r.confs}) for(auto& s : *v) if(s.pid == e.pid && s.exe.empty()) s.exe = e.a; auto i = open.find(e.pid); if(i != open.end() && r.steps[i->second].exe.empty()) r.steps[i->second].exe = e.a; break; }
		case EV_PROC_EXIT: { auto i = open.find(e.pid); if(i != open.end()) { --now_running; r.steps[i->second].end = e.seq; r.steps[i->second].status = (int)e.n; } else if(e.n) r.prep_fail++; break; }
		case EV_LAUNCH_FAIL: r.launch_fail.push_back({e.a, e.seq}); break;
		case EV_FAULT: if(r.first_fault == ~0ull) r.first_fault = e.seq; r.last_fault = e.seq; break;
		case EV_REAPED: r.reaped.insert(e.pid); break;
		case EV_IDLE: r.idle.push_back({e.seq, e.n}); break;
		case EV_CRASH: r.crash = e.seq; break;
	}
	return r;
}

struct Opts { int workers = 1; bool force = false, dry = false; int level = 0; vector<string> targets; vector<string> extra; bool list = false, graph = false; bool ansi = false, plain = false; string build_id; };
struct Run { Outcome o; Obs b; Vfs before; Opts op; set<int> expect_run; bool have_expect = false; };

static vector<string> make_args(const Proj& p, const Opts& op) {
	vector<string> a{"maike2"}; if(op.workers) a.push_back("--num-workers=" + std::to_string(op.workers)); if(p.exp_src) a.push_back("--source-dir=" + p.srcdir); if(p.exp_tgt) a.push_back("--target-dir=" + p.tgtdir);
	if(op.force) a.push_back("--force-rebuild"); if(op.dry) a.push_back("--dry-run"); static const char* lv[] = {"", "errors", "source_file_info", "compilation_command"}; if(op.level) a.push_back(string("--log-level=") + lv[op.level]); if(op.ansi) a.push_back("--log-output-format=ansi_term"); else if(op.plain) a.push_back("--log-output-format=plain_text");
	if(!op.targets.empty()) { string s; for(auto& t : op.targets) s += (s.empty() ? "" : ",") + t; a.push_back("--targets=" + s); } for(auto& x : config_args(p)) a.push_back(x); if(op.list) a.push_back("--list-targets"); if(op.graph) a.push_back("--print-dep-graph"); for(auto& x : op.extra) a.push_back(x); return a;
}
static Run run_maike(Ctx& c, const Proj& p, const Opts& op, SchedSpec sp) {
	Run r; r.op = op; r.before = K.fs.clone(); auto args = make_args(p, op); sp.race = true; sp.mtime_gran = Wd.gran;
	g_world_clock += 1000;
	r.o = run_inv(c, sp, [&]() { static char* av[32]; int n = 0; for(auto& a : args) av[n++] = (char*)a.c_str(); av[n] = nullptr; return maike_main(n, av); });
	r.b = observe(r.o);
	if(c.verbose) { fprintf(stderr, "---- run:"); for(auto& a : args) fprintf(stderr, " %s", a.c_str()); fprintf(stderr, "\nexit %d crashed %d points %lu\n-- out\n%s-- err\n%s", r.o.exit_status, r.o.crashed, r.o.st.points, r.o.out.substr(0, 6000).c_str(), r.o.err.substr(0, 3000).c_str()); for(auto& f : r.o.findings) fprintf(stderr, "FINDING %s: %s\n", f.cls.c_str(), f.msg.c_str()); for(auto& e : r.o.events) if(getenv("SIM_EV")) fprintf(stderr, "EV %d pid %d n %ld [%s] [%s]\n", (int)e.kind, (int)e.pid, (long)e.n, e.a.c_str(), e.b.substr(0,200).c_str()); else if(e.kind == EV_FAULT || e.kind == EV_LAUNCH_FAIL) fprintf(stderr, "FAULT %s %s\n", e.a.c_str(), e.b.c_str()); }
	return r;
}

// ================================================================ oracles
static string q(const string& s) { string r; for(char ch : s.substr(0, 300)) r += (unsigned char)ch < 32 ? '?' : ch; return r; }
static bool clean_end(const Run& r) { return r.o.exit_status >= 0 && r.o.exit_status < 1000; }

// things that must hold for any invocation whatsoever
static void universal(Ctx& c, const Proj& p, const Model& m, const Run& r, const char* ctx, const vector<string>& own = {}) {
	for(auto& f : r.o.findings) {
		if(f.cls == "hang" || f.cls == "segv" || f.cls == "abort" || f.cls == "sigpipe") for(auto& x : own) c.viol(x, f.cls, string(ctx) + ": " + f.msg);
		if(f.cls == "hang") c.viol("C07", "hang", string(ctx) + ": " + f.msg);
		else if(f.cls == "race" || f.cls == "lifetime") c.viol("C16", f.cls, string(ctx) + ": " + f.msg);
		else if(f.cls == "badfd") { c.viol("C16", f.cls, string(ctx) + ": " + f.msg); c.viol("C12", f.cls, string(ctx) + ": " + f.msg); }
		else if(f.cls == "segv") { c.viol("C16", f.cls, string(ctx) + ": " + f.msg); c.viol("C07", f.cls, string(ctx) + ": " + f.msg); }
		else if(f.cls == "abort" || f.cls == "sigpipe") c.viol("C07", f.cls, string(ctx) + ": " + f.msg);
		else if(f.cls == "stuck_process" || f.cls == "fork_child_escape") { c.viol("C12", f.cls, string(ctx) + ": " + f.msg); }
	}
	if(r.b.inherit) c.viol("C12", "inherit", string(ctx) + ": a child running '" + r.b.inherit_who + "' inherits private descriptors of the build program");
	if(!r.o.crashed && clean_end(r)) { for(int pid : r.b.started) if(!r.b.reaped.count(pid)) { c.viol("C12", "unreaped", string(ctx) + ": a finished child process is never waited for"); break; }
		for(auto& e : r.o.events) if(e.kind == EV_MAIN_EXIT) { if(e.a.size()) c.viol("C12", "leak", string(ctx) + ": left behind at exit: " + e.a); } }
	{ i64 nw = r.op.workers ? r.op.workers : K.nproc; if(r.b.atonce > nw) c.viol("C23", "too_many", string(ctx) + ": " + std::to_string(r.b.atonce) + " steps run at the same time on " + std::to_string(nw) + " workers"); }
	// C22: the program's own effects on the file system
	set<string> failed_targets; for(auto& s : r.b.steps) if(s.status != 0) { auto n = m.get(s.src); if(n) for(auto& t : n->targets) failed_targets.insert(p.vpath(t)); }
	if(!r.b.launch_fail.empty() || r.b.first_fault != ~0ull) for(auto& n : m.nodes) if(n.task() && !r.b.by.count(n.path)) for(auto& t : n.targets) failed_targets.insert(p.vpath(t));
	for(auto& s : r.b.steps) if(s.status == 0) { auto n = m.get(s.src); if(n) for(auto& t : n->targets) failed_targets.erase(p.vpath(t)); }
	for(auto& e : r.o.events) if(e.pid == MAIN_PID && (e.kind == EV_FS_CREATE || e.kind == EV_FS_WRITE || e.kind == EV_FS_UNLINK || e.kind == EV_FS_MKDIR || e.kind == EV_FS_RENAME || e.kind == EV_FS_OTHER)) {
		if(e.kind == EV_FS_UNLINK && failed_targets.count(e.a)) continue;
		c.viol("C22", "touch", string(ctx) + ": the build program itself changes " + e.a); if(r.op.dry) c.viol("C17", "touch", string(ctx) + ": a dry run changes " + e.a); }
	for(auto& e : r.o.events) if((e.kind == EV_FS_CREATE || e.kind == EV_FS_WRITE || e.kind == EV_FS_UNLINK || e.kind == EV_FS_MKDIR) && e.pid != MAIN_PID) { // a recipe wrote what it was told to: must be a declared target
		bool ok = false; for(auto& n : m.nodes) for(auto& t : n.targets) { string v = p.vpath(t); if(v == e.a || (e.kind == EV_FS_MKDIR && v.compare(0, e.a.size(), e.a) == 0)) ok = true; }
		if(!ok) { c.viol("C22", "undeclared", string(ctx) + ": a recipe was told to write " + e.a + ", which no source file declares"); c.viol("C21", "undeclared", string(ctx) + ": a recipe was told to write " + e.a); } }
}

// the workers are used (C23): never more steps at once than workers, and none waits for nothing while a worker is idle
static void workers_used(Ctx& c, const Proj& p, const Model& m, const Run& r, const char* ctx) {
	(void)p; if(r.o.crashed || r.op.dry || r.op.targets.size() > 1 || r.b.first_fault != ~0ull) return; i64 nw = r.op.workers ? r.op.workers : K.nproc;
	for(auto& s : r.b.steps) {
		auto it = m.idx.find(s.src); if(it == m.idx.end()) continue; u64 can = r.b.first_compile; bool ok = true;
		for(int d : m.nodes[it->second].closure) { auto b = r.b.by.find(m.nodes[d].path); if(b == r.b.by.end()) continue; for(int k : b->second) { auto& t = r.b.steps[k]; if(t.status != 0) ok = false; can = std::max(can, t.end); } }
		if(!ok || can >= s.start) continue;
		for(auto& i : r.b.idle) if(i.first > can && i.first < s.start && i.second < nw) { c.viol("C23", "idle", string(ctx) + ": " + s.src + " waits although everything it depends on is finished and only " + std::to_string(i.second) + " steps run on " + std::to_string(nw) + " workers"); return; }
	}
}

// ordering of the steps (C01), no step twice
static void order(Ctx& c, const Proj& p, const Model& m, const Run& r, const set<int>& expect, bool have_expect, const char* ctx) {
	for(auto& s : r.b.steps) {
		auto it = m.idx.find(s.src); if(it == m.idx.end() || !m.nodes[it->second].task()) { c.viol("C21", "unknown_step", string(ctx) + ": a recipe is run for " + q(s.src) + ", which declares no target"); c.viol("C08", "unknown_step", string(ctx) + ": a recipe is run for " + q(s.src)); continue; }
		for(int d : m.nodes[it->second].closure) { auto& n = m.nodes[d]; if(!n.task()) continue; auto b = r.b.by.find(n.path);
			if(b == r.b.by.end()) { if(have_expect && expect.count(d)) { c.viol("C01", "dep_not_run", string(ctx) + ": " + s.src + " started although " + n.path + ", which is out of date, was never run"); if(r.op.targets.size()) c.viol("C19", "dep_not_run", string(ctx) + ": " + n.path + " needed by " + s.src + " is not built"); } continue; }
			for(int k : b->second) { auto& t = r.b.steps[k]; if(t.start > s.start && r.op.targets.size() > 1) continue; // a later pass for another named target
				if(!(t.end < s.start)) c.viol("C01", "order", string(ctx) + ": " + s.src + " started before its dependency " + n.path + " had finished");
				else if(t.status != 0) { c.viol("C05", "dependent_started", string(ctx) + ": " + s.src + " started although its dependency " + n.path + " failed"); c.viol("C01", "dependent_started", string(ctx) + ": " + s.src + " started although its dependency " + n.path + " failed"); } } }
		for(auto& lf : r.b.launch_fail) { for(int d : m.nodes[it->second].closure) if(m.nodes[d].task() && recipe_exe(p, m.nodes[d]) == p.vpath(lf.first) && lf.second < s.start && !r.b.by.count(m.nodes[d].path) && have_expect && expect.count(d)) c.viol("C05", "dependent_started", string(ctx) + ": " + s.src + " started although the recipe of " + m.nodes[d].path + " could not be started"); }
	}
	for(auto& b : r.b.by) if(b.second.size() > 1 && r.op.targets.size() <= 1) { c.viol("C02", "twice", string(ctx) + ": the recipe of " + b.first + " is run " + std::to_string(b.second.size()) + " times"); c.viol("C04", "twice", string(ctx) + ": the recipe of " + b.first + " is run " + std::to_string(b.second.size()) + " times"); }
}
// the requests (C21)
static void requests(Ctx& c, const Proj& p, const Model& m, const Run& r, const char* ctx) {
	string bi; set<string> asked;
	for(auto& s : r.b.tags) { auto it = m.idx.find(sfs::path(s.src).lexically_normal().string()); if(it == m.idx.end() || m.nodes[it->second].file < 0 || !p.files[m.nodes[it->second].file].get_tags) { c.viol("C21", "tags", string(ctx) + ": tags are asked for " + q(s.src) + ", which does not want that"); continue; } auto& n = m.nodes[it->second];
		if(!asked.insert(n.path).second) c.viol("C08", "loaded_twice", string(ctx) + ": the tags of " + n.path + " are asked for twice"); if(s.exe != recipe_exe(p, n)) c.viol("C21", "tags", string(ctx) + ": the tags of " + n.path + " are asked from " + s.exe + " instead of " + recipe_exe(p, n)); string cfg = canon(json_object_get(s.req, "compiler_cfg")); if(cfg != cfg_canon(n)) c.viol("C21", "tags", string(ctx) + ": the tags of " + n.path + " are asked with the settings " + q(cfg) + " instead of " + q(cfg_canon(n))); }
	{ map<std::pair<string, string>, int> left; for(auto& x : m.configures) left[x]++; for(auto& s : r.b.confs) { string cf = canon(s.req); if(--left[{s.exe, cf}] < 0) c.viol("C21", "configure", string(ctx) + ": " + s.exe + " is asked to configure " + q(cf) + ", which is not what the project says"); } }
	for(auto& s : r.b.steps) {
		auto it = m.idx.find(s.src); if(it == m.idx.end()) continue; auto& n = m.nodes[it->second]; auto bad = [&](const string& w) { c.viol("C21", w.substr(0, w.find(':')), string(ctx) + ": request for " + s.src + ": " + w); };
		if(s.exe != recipe_exe(p, n)) bad("recipe: run by " + s.exe + " instead of " + recipe_exe(p, n));
		string cfg = canon(json_object_get(s.req, "compiler_cfg")); if(cfg != cfg_canon(n)) { bad("compiler_cfg: got " + q(cfg) + " expected " + q(cfg_canon(n))); c.viol("C15", "cfg", string(ctx) + ": " + s.src + " gets settings " + q(cfg) + " instead of " + q(cfg_canon(n))); }
		vector<string> ts; size_t k; json_t* v; json_array_foreach(json_object_get(s.req, "targets"), k, v) ts.push_back(json_string_value(v) ? json_string_value(v) : "?"); auto a = ts, b = n.targets; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if(a != b) bad("targets: wrong list");
		vector<string> names; map<string, size_t> pos; bool dup = false;
		json_array_foreach(json_object_get(s.req, "dependencies"), k, v) { const char* rf = json_string_value(json_object_get(v, "ref")); string nm = rf ? rf : "?"; if(pos.count(nm)) dup = true; pos[nm] = k; names.push_back(nm);
			auto di = m.idx.find(nm); if(di == m.idx.end()) continue; // origin and properties of one of the edges that lead to it
			bool ok = false; const char* org = json_string_value(json_object_get(v, "origin")); auto match = [&](const MNode& from) { for(auto& e : from.edges) if(e.to == di->second && org && e.origin == org) { bool pr = true; json_t* props = json_object_get(v, "props"); (void)props; size_t cnt = 0; for(auto& x : e.props) { json_t* w = json_object_get(v, x.first.c_str()); if(!w && props) w = json_object_get(props, x.first.c_str()); if(!w || !json_string_value(w) || x.second != json_string_value(w)) pr = false; ++cnt; } if(pr) ok = true; } };
			match(n); for(int d : n.closure) match(m.nodes[d]); if(!ok) bad("dependency_entry: " + nm + " given as " + q(canon(v))); }
		if(dup) bad("dependencies: one is listed twice");
		set<string> want; for(int d : n.closure) want.insert(m.nodes[d].path); for(auto& x : names) if(!want.count(x)) { bad("dependencies: unexpected " + x); break; } for(auto& x : want) if(!pos.count(x)) { bad("dependencies: " + x + " is missing"); c.viol("C15", "dep", string(ctx) + ": " + s.src + " loses dependency " + x); break; }
		for(int d : n.closure) for(auto& e : m.nodes[d].edges) { auto x = pos.find(m.nodes[d].path), y = pos.find(e.name); if(x != pos.end() && y != pos.end() && y->second > x->second) { bad("dependencies_order: " + e.name + " listed after " + m.nodes[d].path); goto done; } }
		done:
		json_t* id = json_object_get(s.req, "task_id"); if(!json_is_integer(id) || json_integer_value(id) != it->second) { bad("task_id: " + canon(id) + " instead of " + std::to_string(it->second)); c.viol("C08", "task_id", string(ctx) + ": step number of " + s.src + " is " + canon(id) + " instead of " + std::to_string(it->second)); }
		json_t* info = json_object_get(s.req, "build_info"); const char* sd = json_string_value(json_object_get(info, "source_dir")); const char* td = json_string_value(json_object_get(info, "target_dir")); if(!sd || !td || sfs::path(sd).lexically_normal() != sfs::path(p.srcdir).lexically_normal() || sfs::path(td).lexically_normal() != sfs::path(p.tgtdir).lexically_normal()) bad("build_info: wrong directories " + q(canon(info)));
		string all = canon(info); if(bi.empty()) bi = all; else if(bi != all) bad("build_info: differs between steps of one build");
		const char* bid = json_string_value(json_object_get(info, "build_id")); if(!r.op.build_id.empty() && (!bid || r.op.build_id != bid)) bad("build_info: build id is not the one asked for");
		const char* lf = json_string_value(json_object_get(s.req, "log_format")); if(!lf || string(lf) != (r.op.ansi ? "ansi_term" : "plain_text")) bad(string("log_format: ") + (lf ? lf : "none"));
	}
}
static bool contents(Ctx& c, const Proj& p, const Model& m, const set<int>* only, vector<string>& badlist) {
	Expect e(p, m); bool ok = true;
	for(size_t i = 0; i < m.nodes.size(); ++i) { auto& n = m.nodes[i]; if(!n.task() || (only && !only->count((int)i))) continue;
		for(auto& t : n.targets) { auto f = K.fs.get(p.vpath(t)); if(!f) { badlist.push_back("target " + t + " of " + n.path + " does not exist"); ok = false; } else if(n.dir) { if(!f->dir) { badlist.push_back(t + " is not a directory"); ok = false; } } else { if(f->dir || f->data != e.target((int)i, t)) { badlist.push_back("target " + t + " of " + n.path + " does not have the content of a clean build"); ok = false; } } } }
	(void)c; return ok;
}
// the log (C18)
static void logcheck(Ctx& c, const Proj& p, const Model& m, const Run& r, const set<int>* only, bool success, const char* ctx) {
	if(r.o.crashed || !clean_end(r) || r.op.list || r.op.graph) return; (void)p;
	auto bad = [&](const string& w) { c.viol("C18", "log", string(ctx) + ": " + w); };
	const string& o = r.o.out; size_t i = 0; int lvl = r.op.level ? r.op.level : 2;
	while(i < o.size() && o[i] == '#') { size_t j = o.find('\n', i); if(j == string::npos) break; i = j + 1; }
	map<string, int> seen; vector<string> printed;
	if(lvl >= 2) while(i < o.size()) {
		if(o[i] == '\n') { ++i; continue; }
		if(lvl == 3) { // skip the command: shell words up to " #"
			size_t k = i; bool inq = false; for(; k < o.size(); ++k) { if(inq) { if(o[k] == '\'') inq = false; } else if(o[k] == '\'') inq = true; else if(o[k] == '\\') ++k; else if(o[k] == '#' && k && o[k - 1] == ' ') break; else if(o[k] == '\n') break; } if(k >= o.size() || o[k] != '#') { bad("unintelligible command record near '" + q(o.substr(i, 80)) + "'"); return; } i = k + 1; }
		size_t e = o.find('\n', i); if(e == string::npos) e = o.size(); string line = o.substr(i, e - i); i = e < o.size() ? e + 1 : e;
		// " <id> | <mark> | <path> | a | b"
		size_t a = line.find(" | "), l1 = line.rfind(" | "), l0 = l1 == string::npos ? l1 : line.rfind(" | ", l1 - 1); size_t b = a == string::npos ? a : line.find(" | ", a + 3);
		if(line.empty() || line[0] != ' ' || a == string::npos || b == string::npos || l0 == string::npos || l0 < b) { bad("malformed record '" + q(line) + "'"); return; }
		string id = line.substr(1, a - 1), mark = line.substr(a + 3, b - a - 3), path = l0 == b ? string() : line.substr(b + 3, l0 - b - 3), t1 = line.substr(l0 + 3, l1 - l0 - 3);
		auto it = m.idx.find(path); if(it == m.idx.end() || !m.nodes[it->second].task()) { bad("record for unknown step '" + q(path) + "'"); return; }
		if(id != std::to_string(it->second)) { bad("record of " + path + " has number " + id + " instead of " + std::to_string(it->second)); c.viol("C08", "task_id", string(ctx) + ": step number of " + path + " is " + id); }
		int nth = seen[path]++; if(nth && r.op.targets.size() <= 1) bad("two records for " + path);
		auto st = r.b.by.find(path); bool ran = st != r.b.by.end(); bool upd = t1 == "-";
		if(!r.op.dry) { if(ran && r.op.targets.size() <= 1) { int s = r.b.steps[st->second[0]].status; if(upd) bad("step " + path + " was run but is logged as up to date"); bool okm = mark == "\xe2\x9c\x93"; if(okm != (s == 0)) { bad("step " + path + (s ? " failed" : " succeeded") + " but is logged otherwise"); if(s) c.viol("C05", "logged_ok", string(ctx) + ": failed step " + path + " is logged as successful"); } }
			else if(!ran && !upd) bad("step " + path + " was not run but is logged as run");
			if(ran && !upd) { Plan pl = plan_of(path); string nz = noise_text(path, 'o', pl.out); string exp; bool nl = true; for(char ch : nz) { if(nl) { exp += " ... "; nl = false; } exp += ch; nl = ch == '\n'; }
				if(o.compare(i, exp.size(), exp) != 0) { int s = r.b.steps[st->second[0]].status; if(s == 0 || !exp.empty()) { size_t z = 0; while(i + z < o.size() && z < exp.size() && o[i + z] == exp[z]) ++z; bool full_failure = false; auto& S0 = r.b.steps[st->second[0]]; full_failure = S0.status != 0 && !Wd.plan.count(path); if(!full_failure) { bad("output of step " + path + " is cut, altered or mixed after " + std::to_string(z) + " of " + std::to_string(exp.size()) + " bytes"); c.viol("C11", "stdout", string(ctx) + ": standard output of " + path + " is not delivered exactly"); } return; } } else { i += exp.size(); if(!exp.empty() && exp.back() != '\n' && i < o.size() && o[i] != '\n') bad("the record that follows " + path + " starts in the middle of a line"); } } }
	}
	if(lvl >= 2 && success) { for(size_t k = 0; k < m.nodes.size(); ++k) if(m.nodes[k].task() && (!only || only->count((int)k)) && !seen.count(m.nodes[k].path)) { bad("no record for " + m.nodes[k].path); break; } }
	if(lvl >= 2) for(auto& s : r.b.steps) if(!seen.count(s.src) && s.status >= 0 && m.idx.count(s.src)) { bad("step " + s.src + " ran but has no record"); break; }
	if(!r.op.dry) for(auto& s : r.b.steps) { if(s.status != 0 && !Wd.plan.count(s.src)) continue; Plan pl = plan_of(s.src); string nz = noise_text(s.src, 'e', pl.err); if(!nz.empty() && r.o.err.find(nz) == string::npos) { bad("error output of step " + s.src + " is cut, altered or mixed"); c.viol("C11", "stderr", string(ctx) + ": standard error of " + s.src + " is not delivered exactly"); break; }
		if(lvl == 1) { string no = noise_text(s.src, 'o', pl.out), exp; bool nl = true; for(char ch : no) { if(nl) { exp += " ... "; nl = false; } exp += ch; nl = ch == '\n'; } if(!exp.empty() && o.find(exp) == string::npos) { bad("output of step " + s.src + " is cut, altered or mixed"); c.viol("C11", "stdout", string(ctx) + ": standard output of " + s.src + " is not delivered exactly"); break; } } }
}
static string not_ok(const Run& r) { if(r.o.crashed) return "was killed"; if(r.o.exit_status == -1) return "did not finish"; if(r.o.exit_status >= 1000) return "ended abnormally (signal " + std::to_string(r.o.exit_status - 1000) + ")"; return "exited with status " + std::to_string(r.o.exit_status) + ": " + q(r.o.err.size() > 200 ? r.o.err.substr(r.o.err.size() - 200) : r.o.err); }

// a build in which nothing is made to fail
static void good_build(Ctx& c, const Proj& p, const Model& m, Run& r, const char* ctx, vector<string> props, const set<int>* only, bool was_clean) {
	universal(c, p, m, r, ctx, props); auto exp = run_set(p, m, r.before, r.op.force, only); bool known = r.op.targets.size() <= 1;
	order(c, p, m, r, exp, known, ctx); requests(c, p, m, r, ctx);
	if(r.o.exit_status != 0) { for(auto& x : props) c.viol(x, "fails", string(ctx) + ": a consistent project without faults: the build " + not_ok(r)); c.viol("C10", "rejected", string(ctx) + ": a consistent project without faults: the build " + not_ok(r)); bool any = false; for(auto& s : r.b.steps) if(s.status) any = true; if(!any && clean_end(r)) c.viol("C05", "false_failure", string(ctx) + ": no step failed, but the build " + not_ok(r)); }
	else {
		vector<string> bl; if(!contents(c, p, m, only, bl)) for(auto& x : props) c.viol(x, "content", string(ctx) + ": exit 0, but " + bl[0]);
		for(auto& s : r.b.steps) if(s.status != 0) { c.viol("C05", "swallowed", string(ctx) + ": the recipe of " + s.src + " failed, but the build exits with success"); for(auto& x : props) c.viol(x, "swallowed", string(ctx) + ": the recipe of " + s.src + " failed, but the build exits with success"); }
		if(known) for(size_t i = 0; i < m.nodes.size(); ++i) { bool ran = r.b.by.count(m.nodes[i].path), e = exp.count((int)i); if(ran && !e) { bool outside = only && !only->count((int)i); if(outside) c.viol("C19", "unneeded", string(ctx) + ": step " + m.nodes[i].path + " is run although no named target depends on it"); else c.viol("C04", "needless", string(ctx) + ": step " + m.nodes[i].path + " is run although it is up to date"); }
			if(!ran && e) { c.viol(was_clean ? "C02" : "C03", "skipped", string(ctx) + ": step " + m.nodes[i].path + " is out of date but is not run"); if(only) c.viol("C19", "skipped", string(ctx) + ": needed step " + m.nodes[i].path + " is not run"); if(r.op.force) c.viol("C02", "skipped", string(ctx) + ": step " + m.nodes[i].path + " is not run in a forced rebuild"); } }
		else if(only) for(auto& b : r.b.by) { auto it = m.idx.find(b.first); if(it != m.idx.end() && !only->count(it->second)) c.viol("C19", "unneeded", string(ctx) + ": step " + b.first + " is run although no named target depends on it"); }
	}
	workers_used(c, p, m, r, ctx); if(r.b.atonce > 1) c.counters["parallel_builds"]++; c.counters["idle_moments"] += r.b.idle.size();
	logcheck(c, p, m, r, only, r.o.exit_status == 0, ctx);
	c.counters["steps"] += r.b.steps.size();
}

// ================================================================ scenarios
static int size_of(Ctx& c) { static const int a[] = {4, 6, 10, 16}, b[] = {6, 10, 20, 40}; return (c.tier == "quick" ? a : b)[c.pick(4)]; }
static void world(Ctx& c, Proj& p, int size) {
	K.fs = Vfs(); K.fs.cwd = "/w"; g_world_clock = 0; Wd = World(); Wd.salt = c.pick(65536); Wd.noise = (int)c.pick(4); static const u64 dm[] = {0, 1000, 1000000, 1000000000ull}; Wd.durmax = dm[c.pick(4)]; static const u64 gr[] = {1, 1, 4000000, 1000000000ull}; Wd.gran = gr[c.pick(4)]; Wd.stdin_all = c.chance(1, 6);
	K.dirseed = c.pick(1000); K.dt_unknown = c.chance(1, 4); K.nproc = 1 + (int)c.pick(4); K.fs.gran = Wd.gran;
	gen_project(c, p, size); u64 sp = c.chance(1, 2) ? 600000000000ull : 0; install(p, (K.base_time - 1000000000000ull) / Wd.gran * Wd.gran, sp / Wd.gran * Wd.gran);
	if(sp) for(auto& e : K.fs.m) e.second->mtime -= e.second->mtime % Wd.gran;
}
static u64 ed_now() { u64 t = K.base_time + g_world_clock; return t - t % Wd.gran; }
static Opts opts(Ctx& c, bool simple = false) {
	Opts o; static const int wk[] = {1, 2, 3, 4, 8, 0, 2, 3}; o.workers = wk[c.pick(8)]; o.level = (int)c.pick(4); o.ansi = c.chance(1, 8); o.plain = c.chance(1, 6); if(c.chance(1, 6)) { o.build_id = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"; }
	if(!simple) o.force = c.chance(1, 8); return o;
}
static SchedSpec sched(Ctx& c) { SchedSpec s = choose_sched(c, true); s.mtime_gran = Wd.gran; return s; }
static string nonecho(const string& err) { string r; size_t i = 0; while(i < err.size()) { size_t j = err.find('\n', i); if(j == string::npos) j = err.size(); string l = err.substr(i, j - i); if(l.compare(0, 2, "--") != 0 && l.compare(0, 1, "#") != 0) r += l + "\n"; i = j + 1; } return r; }
static bool has_message(const Run& r) { for(char ch : nonecho(r.o.err)) if(!isspace((unsigned char)ch)) return true; return false; }
static void advance(Ctx& c) { static const u64 d[] = {3000000000ull, 1, 5000000, 1500000000ull, 0}; g_world_clock += d[c.pick(5)]; }

// one edit to the project; returns a description
static string edit(Ctx& c, Proj& p) {
	Proj old = p; Model om = build_model(p); string what; vector<size_t> act; for(size_t i = 0; i < p.files.size(); ++i) if(!p.files[i].removed && !p.files[i].use_raw) act.push_back(i);
	auto commit = [&](size_t i) -> bool {
		Model m = build_model(p); bool bad = !m.ok;
		if(!bad) for(auto& n : m.nodes) { auto o = om.get(n.path); if(!o || !n.task() || !o->task()) continue; if(cfg_canon(n) != cfg_canon(*o) || recipe_exe(p, n) != recipe_exe(old, *o)) { // the settings may only change through something the step depends on
			bool via = n.file == (int)i; if(!via) for(int d : n.closure) if(m.nodes[d].file == (int)i) via = true; if(!via && !n.dir) bad = true; } }
		if(bad) { p = old; return false; } put_file(p, p.files[i], ed_now()); return true; };
	u32 k = c.pick(12); if(act.empty()) return "nothing"; size_t i = act[c.pick((u32)act.size())]; auto& f = p.files[i];
	vector<string> tg; for(auto& n : om.nodes) if(n.task() && !n.dir) for(auto& t : n.targets) if(K.fs.get(p.vpath(t))) tg.push_back(t);
	switch(k) {
		default: f.version++; if(commit(i)) return "modify " + old.files[i].rel; return "nothing";
		case 3: { auto n = K.fs.get(p.vpath(p.rel2path(f.rel))); if(n) n->mtime = ed_now(); return "touch " + f.rel; }
		case 4: if(!tg.empty()) { string t = tg[c.pick((u32)tg.size())]; K.fs.erase(p.vpath(t)); return "delete " + t; } return "nothing";
		case 5: { MFile g; g.kind = c.chance(1, 2) ? K_CXX : K_HDR; g.get_tags = p.loaders["cxx"].get_tags; string d = p.recursive ? p.dirs[c.pick((u32)p.dirs.size())] : string(); string base = "new" + std::to_string(p.files.size()); g.rel = (d.empty() ? "" : d + "/") + base + kind_ext(g.kind); if(g.kind == K_CXX) { MTarget t; t.name = base + ".o"; g.targets.push_back(t); } for(auto& h : p.files) if(h.kind == K_HDR && !h.removed && !h.use_raw && c.chance(1, 3)) g.inc.push_back(h.rel); p.files.push_back(g); if(commit(p.files.size() - 1)) return "add " + g.rel; return "nothing"; }
		case 6: { if(f.inc.empty()) return "nothing"; f.inc.erase(f.inc.begin() + (long)c.pick((u32)f.inc.size())); f.version++; if(commit(i)) return "drop an include of " + old.files[i].rel; return "nothing"; }
		case 7: { if(f.kind != K_CXX && f.kind != K_HDR && f.kind != K_TEST) return "nothing"; vector<string> hs; for(auto& h : p.files) if(h.kind == K_HDR && !h.removed && !h.use_raw) hs.push_back(h.rel); if(hs.empty()) return "nothing"; f.inc.push_back(hs[c.pick((u32)hs.size())]); f.version++; if(commit(i)) return "add an include to " + old.files[i].rel; return "nothing"; }
		case 8: { auto& dv = !f.deps.empty() ? f.deps : f.extra; if(dv.empty()) return "nothing"; dv.erase(dv.begin() + (long)c.pick((u32)dv.size())); f.version++; if(commit(i)) return "drop a dependency of " + old.files[i].rel; return "nothing"; }
		case 9: { vector<size_t> rc; for(size_t q : act) if(p.files[q].kind == K_RCP || p.files[q].kind == K_EXT) rc.push_back(q); if(rc.empty()) return "nothing"; i = rc[c.pick((u32)rc.size())]; p.files[i].version++; if(commit(i)) return "modify recipe " + old.files[i].rel; return "nothing"; }
		case 10: { if(f.kind != K_CXX && f.kind != K_RULE) return "nothing"; MTarget t; t.name = "more" + std::to_string(f.version) + "_" + std::to_string(i) + ".m"; f.targets.push_back(t); f.version++; if(commit(i)) return "add a target to " + old.files[i].rel; return "nothing"; }
		case 11: { string d = p.vpath(p.tgtdir); for(auto it = K.fs.m.begin(); it != K.fs.m.end();) if(it->first == d || it->first.compare(0, d.size() + 1, d + "/") == 0) it = K.fs.m.erase(it); else ++it; return "delete the target directory"; }
	}
}
static void note(Ctx& c, const string& s) { if(c.verbose) fprintf(stderr, "==== %s\n", s.c_str()); c.counters["edits"]++; }
static void quick_build(Ctx& c, Proj& p, const Model& m, const char* ctx, vector<string> props, bool clean = false) { Opts o = opts(c, true); auto s = sched(c); if(o.build_id.size()) { o.extra.push_back("--build-id=" + o.build_id); } Run r = run_maike(c, p, o, s); good_build(c, p, m, r, ctx, props, nullptr, clean); }

static void s_clean(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); Opts o = opts(c); if(o.build_id.size()) o.extra.push_back("--build-id=" + o.build_id); auto s = sched(c); Run r = run_maike(c, p, o, s); good_build(c, p, m, r, "clean build", {"C02"}, nullptr, true);
	if(r.o.exit_status != 0) return; if(c.chance(1, 3)) { advance(c); quick_build(c, p, m, "build again", {"C03"}); }
}
static void s_incr(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return;
	u32 rounds = 1 + c.pick(3);
	for(u32 k = 0; k < rounds && c.viols.empty(); ++k) {
		advance(c); u32 ne = c.pick(4); for(u32 e = 0; e < ne; ++e) note(c, edit(c, p)); m = build_model(p);
		if(c.chance(1, 5)) { vector<string> ts; for(auto& t : m.target_of) { string v = sfs::path(t.first).lexically_relative(p.tgtdir).string(); if(v != "." && v.find_first_of(",[]{}=\\") == string::npos) ts.push_back(v); } Opts o = opts(c, true); o.build_id.clear(); if(ts.empty()) continue; string t = ts[c.pick((u32)ts.size())]; o.targets = {t}; auto nd = needed(m, sfs::path(p.tgtdir + "/" + t).lexically_normal()); Run r = run_maike(c, p, o, sched(c)); good_build(c, p, m, r, "build of one target", {"C19", "C03"}, &nd, false); continue; }
		quick_build(c, p, m, "build after edits", {"C03"});
	}
}
// a build in which the named steps fail
static void failing_build(Ctx& c, Proj& p, const Model& m, Run& r, const char* ctx, const set<int>& victims) {
	universal(c, p, m, r, ctx, {"C05"}); auto exp = run_set(p, m, r.before, r.op.force, nullptr); order(c, p, m, r, exp, true, ctx); requests(c, p, m, r, ctx);
	bool any = false; vector<string> failed; for(auto& s : r.b.steps) if(s.status != 0) { any = true; failed.push_back(s.src); } for(auto& l : r.b.launch_fail) { any = true; failed.push_back(l.first); }
	bool must = false; for(int v : victims) if(exp.count(v)) must = true;
	if(must && !any && clean_end(r)) { if(r.o.exit_status == 0) c.viol("C05", "skipped", string(ctx) + ": an out-of-date step that fails was not even tried, but the build exits with success"); else c.viol("C05", "false_failure", string(ctx) + ": no step failed, but the build " + not_ok(r)); }
	if(any && r.o.exit_status == 0) c.viol("C05", "swallowed", string(ctx) + ": " + failed[0] + " failed, but the build exits with success");
	if(any && clean_end(r) && r.o.exit_status != 0) { bool named = false; string e = r.o.err; for(auto& s : r.b.steps) { string nz = noise_text(s.src, 'e', plan_of(s.src).err); if(nz.empty()) continue; size_t at = e.find(nz); if(at != string::npos) e.erase(at, nz.size()); } for(auto& f : failed) if(e.find(f) != string::npos) named = true; if(!r.b.launch_fail.empty()) for(int v : victims) if(e.find(m.nodes[v].path) != string::npos) named = true; if(!named) c.viol("C05", "not_named", string(ctx) + ": the error output names none of the failed steps: " + q(nonecho(e))); }
	if(!any && !must && r.o.exit_status != 0 && clean_end(r)) c.viol("C05", "false_failure", string(ctx) + ": no step failed, but the build " + not_ok(r));
	// what succeeded is in place
	Expect ex(p, m); for(auto& s : r.b.steps) if(s.status == 0) { auto it = m.idx.find(s.src); if(it == m.idx.end()) continue; auto& n = m.nodes[it->second]; for(auto& t : n.targets) { auto f = K.fs.get(p.vpath(t)); if(!f) { c.viol("C22", "lost", string(ctx) + ": target " + t + " of the successful step " + s.src + " is gone"); c.viol("C05", "lost", string(ctx) + ": target " + t + " of the successful step " + s.src + " is gone"); } else if(!n.dir && f->data != ex.target(it->second, t)) c.viol("C02", "content", string(ctx) + ": target " + t + " of the successful step " + s.src + " is wrong"); } }
	for(size_t i = 0; i < m.nodes.size(); ++i) if(m.nodes[i].task() && !r.b.by.count(m.nodes[i].path)) for(auto& t : m.nodes[i].targets) if(r.before.get(p.vpath(t)) && !K.fs.get(p.vpath(t)) && !victims.count((int)i)) c.viol("C22", "lost", string(ctx) + ": target " + t + " of a step that was not run is gone");
	logcheck(c, p, m, r, nullptr, false, ctx); c.counters["failing_builds"]++;
}
static void s_fail(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p);
	if(c.chance(1, 3)) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); for(u32 k = 1 + c.pick(3); k--;) note(c, edit(c, p)); m = build_model(p); }
	u32 rounds = 1 + (c.chance(1, 4) ? 1 : 0);
	for(u32 rd = 0; rd < rounds && c.viols.empty(); ++rd) {
		Opts o = opts(c); o.build_id.clear(); auto exp = run_set(p, m, K.fs, o.force, nullptr); vector<int> cand; for(int i : exp) cand.push_back(i); if(cand.empty()) { for(size_t i = 0; i < m.nodes.size(); ++i) if(m.nodes[i].task()) cand.push_back((int)i); }
		set<int> vic; u32 nv = 1 + c.pick(3); Wd.plan.clear(); vector<std::pair<string, int>> chm;
		for(u32 k = 0; k < nv; ++k) { int v = cand[c.pick((u32)cand.size())]; auto& n = m.nodes[v]; bool ext = n.recipe.empty() && n.file >= 0;
			if(ext && c.chance(1, 2)) { auto f = K.fs.get(p.vpath(n.path)); if(f && (f->mode & 0111)) { chm.push_back({n.path, f->mode}); f->mode = 0644; vic.insert(v); } continue; }
			Plan pl; static const int codes[] = {1, 2, 255, 128, 127, 64}; static const int sigs[] = {SIGSEGV, SIGKILL, SIGTERM, SIGABRT}; if(c.chance(1, 3)) pl.sig = sigs[c.pick(4)]; else pl.code = codes[c.pick(6)]; pl.leftover = (int)c.pick(4); if(pl.leftover == 3) pl.leftover = 2; Wd.plan[n.path] = pl; vic.insert(v); }
		auto s = sched(c); Run r = run_maike(c, p, o, s); failing_build(c, p, m, r, "build with failing steps", vic);
		for(auto& x : chm) { auto f = K.fs.get(p.vpath(x.first)); if(f) f->mode = x.second; } Wd.plan.clear(); advance(c); if(c.chance(1, 4)) { note(c, edit(c, p)); m = build_model(p); }
	}
	if(!c.viols.empty()) return; quick_build(c, p, m, "build after failing builds", {"C06"});
}
static void s_crash(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p);
	if(c.chance(1, 2)) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); for(u32 k = 1 + c.pick(3); k--;) note(c, edit(c, p)); m = build_model(p); }
	u32 n = 1 + c.pick(2); u64 pts = 0; Opts o = opts(c); o.build_id.clear();
	{ Vfs snap = K.fs.clone(); u64 clk = g_world_clock; auto s = choose_sched(c, true); s.strategy = 0; s.mem_interval = 0; Run r = run_maike(c, p, o, s); good_build(c, p, m, r, "build without faults", {"C02"}, nullptr, false); pts = r.o.st.points; K.fs = snap.clone(); g_world_clock = clk; if(!c.viols.empty()) return; }
	for(u32 k = 0; k < n && c.viols.empty(); ++k) {
		auto s = sched(c); u32 at = c.pick(1000); s.crash_at = 1 + (u64)at * pts / 1000; s.crash_all = c.chance(1, 2); s.crash_clean = true; Run r = run_maike(c, p, o, s); universal(c, p, m, r, "build that is killed", {}); auto exp = run_set(p, m, r.before, o.force, nullptr); if(r.o.crashed) { c.counters["crashed_builds"]++; r.b = observe(r.o); for(auto& st : r.b.steps) (void)st; } order(c, p, m, r, exp, !r.o.crashed, "build that is killed"); requests(c, p, m, r, "build that is killed"); advance(c); }
	if(!c.viols.empty()) return; if(c.chance(1, 4)) { note(c, edit(c, p)); m = build_model(p); }
	quick_build(c, p, m, "build after a killed build", {"C06"});
}
static bool load_fault(const Event& e) {
	if(e.kind != EV_FAULT) return false; switch(e.n) { case F_OPEN: case F_OPENDIR: case F_READDIR: return true; case F_READ: return true; case F_EXEC: return e.b.size() > 8 && (e.b.find(" configure") != string::npos || e.b.find(" get_tags") != string::npos); } return false;
}
static void s_fault(Ctx& c) {
	Proj p; world(c, p, c.tier == "quick" ? 3 + (int)c.pick(8) : size_of(c)); Model m = build_model(p);
	static const int kinds[] = {F_OPEN, F_READ, F_STAT, F_OPENDIR, F_READDIR, F_PIPE, F_FORK, F_EXEC, F_THREAD}; u64 mask = 0; u32 mode = c.pick(14); if(mode > 10) mode = 2; bool ages = mode == 2 && c.chance(2, 3); string only;
	if(ages || c.chance(1, 4)) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); for(u32 k = 1 + c.pick(3); k--;) { string e = edit(c, p); note(c, e); for(const char* pre : {"modify ", "touch ", "modify recipe "}) if(e.compare(0, strlen(pre), pre) == 0) { string f = e.substr(strlen(pre)); if(p.find(f) >= 0) only = p.rel2path(f); } } m = build_model(p); } if(!ages || c.chance(1, 3)) only = ""; if(mode < 9) mask = 1ull << kinds[mode]; else for(int k : kinds) mask |= 1ull << k;
	Opts o = opts(c); o.build_id.clear(); if(ages) o.force = false; u64 cand = 0; bool at = c.chance(7, 8);
	if(at) { Vfs snap = K.fs.clone(); u64 clk = g_world_clock; SchedSpec s; s.strategy = 4; s.fault_mask = mask; s.fault_only = only; Run r = run_maike(c, p, o, s); good_build(c, p, m, r, "build without faults", {"C02"}, nullptr, false); cand = r.o.st.fault_cands; K.fs = snap.clone(); g_world_clock = clk; if(!c.viols.empty()) return; }
	auto s = sched(c); s.fault_mask |= mask; s.fault_only = only; if(at) { s.fault_at = 1 + (cand ? (u64)c.pick(4096) * cand / 4096 : 0); s.fault_max = 1; } else { static const u32 dn[] = {200, 50, 10, 3}; s.fault_den = dn[c.pick(4)]; s.fault_max = 1 + c.pick(8); }
	Run r = run_maike(c, p, o, s); const char* ctx = "build with a system fault"; bool lf = false, any = false, cfgf = false; string what; u64 first_load = ~0ull;
	for(auto& e : r.o.events) if(e.kind == EV_FAULT) { any = true; if(what.empty()) what = e.a + " " + e.b; if(e.b.find("maikeconfig") != string::npos && (e.n == F_OPEN || e.n == F_READ || e.n == F_STAT)) cfgf = true; if(load_fault(e)) { lf = true; first_load = std::min(first_load, e.seq); } }
	vector<string> own; if(lf) own = {"C09"}; else own = {"C05"}; universal(c, p, m, r, ctx, own); if(any) c.counters["faulted_builds"]++;
	if(!cfgf) {
		auto exp = run_set(p, m, r.before, o.force, nullptr); order(c, p, m, r, exp, true, ctx); size_t nv0 = c.viols.size(); requests(c, p, m, r, ctx); bool early = lf; for(auto& e : r.o.events) if(e.kind == EV_FAULT && e.n == F_STAT && e.seq < r.b.first_compile) early = true;
		if(early && c.viols.size() > nv0) { string w = c.viols[nv0].msg; c.viol("C09", "altered", w + " (" + what + ")"); }
		if(clean_end(r)) {
			bool stepfail = false; for(auto& x : r.b.steps) if(x.status) stepfail = true;
			if(r.o.exit_status == 0) { vector<string> bl; if(!contents(c, p, m, nullptr, bl)) { if(early && !lf) c.viol("C09", "silent", string(ctx) + " (" + what + "): exit 0, but " + bl[0]); c.viol(lf ? "C09" : "C05", "silent", string(ctx) + " (" + what + "): exit 0, but " + bl[0]); c.viol("C02", "silent", string(ctx) + " (" + what + "): exit 0, but " + bl[0]); if(!lf) c.viol("C03", "silent", string(ctx) + " (" + what + "): exit 0, but " + bl[0]); } if(stepfail || !r.b.launch_fail.empty()) c.viol("C05", "swallowed", string(ctx) + " (" + what + "): a step failed, but the build exits with success"); }
			else { if(!has_message(r)) c.viol(lf ? "C09" : "C05", "no_message", string(ctx) + " (" + what + "): exit status " + std::to_string(r.o.exit_status) + " without any message"); if(!any && !stepfail) c.viol("C02", "fails", string(ctx) + ": no fault happened, but the build " + not_ok(r)); }
			if(lf && mode < 9 && !r.b.steps.empty()) for(auto& x : r.b.steps) if(x.start > first_load && (r.o.exit_status != 0)) { c.viol("C09", "step", string(ctx) + " (" + what + "): loading the project failed, but the step " + x.src + " is run"); break; }
		}
		logcheck(c, p, m, r, nullptr, r.o.exit_status == 0, ctx);
	}
	if(!c.viols.empty() || cfgf) return; advance(c); quick_build(c, p, m, "build after a system fault", {"C06"});
}
static void rejected(Ctx& c, Proj& p, const Model& m, Run& r, const char* prop, const string& what) {
	universal(c, p, m, r, what.c_str(), {prop}); if(!clean_end(r)) return;
	if(r.o.exit_status == 0) c.viol(prop, "accepted", what + ": accepted, exit status 0"); else if(!has_message(r)) c.viol(prop, "no_message", what + ": rejected without any message");
	if(!r.b.steps.empty()) c.viol(prop, "step", what + ": the step " + r.b.steps[0].src + " is run"); c.counters["bad_projects"]++;
}
static void s_inconsistent(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m0 = build_model(p); bool warm = c.chance(1, 3); if(warm) { quick_build(c, p, m0, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); }
	vector<int> prod; for(size_t i = 0; i < m0.nodes.size(); ++i) if(m0.nodes[i].task() && m0.nodes[i].file >= 0 && m0.nodes[i].targets.size()) prod.push_back((int)i);
	string want, what; Proj old = p;
	if(c.chance(1, 8)) { // the configuration refers to what does not exist
		json_t* j = json_loads(render_config(p, -1).c_str(), 0, nullptr); json_t* mc = json_object_get(j, "maikeconfig"); json_t* ld = json_object_get(mc, "source_file_info_loaders"); u32 z = c.pick(3); vector<string> ks; const char* kk; json_t* v; string bad = c.chance(1, 2) ? "no/such/recipe" : "mk.pyx";
		if(z == 0) json_object_set_new(json_object_get(mc, "dir_compiler"), "recipe", json_string(bad.c_str())); else if(z == 1) { json_object_foreach(ld, kk, v) { const char* rc = json_string_value(json_object_get(json_object_get(v, "compiler"), "recipe")); if(rc && rc[0]) ks.push_back(kk); } if(ks.empty()) { json_decref(j); return; } json_object_set_new(json_object_get(json_object_get(ld, ks[c.pick((u32)ks.size())].c_str()), "compiler"), "recipe", json_string(bad.c_str())); }
		else { json_t* fl = json_object_get(json_object_get(mc, "source_tree_loader"), "file_info_loaders"); json_object_foreach(fl, kk, v) ks.push_back(kk); if(ks.empty()) { json_decref(j); return; } json_object_set_new(fl, ks[c.pick((u32)ks.size())].c_str(), json_string("noloader")); }
		p.cfg_split = 0; K.fs.put(p.vpath(p.rel2path("maikeconfig.json")), jdump(j), 0644, ed_now()); json_decref(j); c.counters["defect_config"]++; Opts o = opts(c); o.build_id.clear(); o.list = c.chance(1, 8); auto s = sched(c); Run r = run_maike(c, p, o, s); rejected(c, p, m0, r, "C10", z == 2 ? "a configuration that refers to a loader that does not exist" : "a configuration that refers to a recipe that does not exist"); return; }
	for(int tries = 0; tries < 12 && want.empty(); ++tries) {
		u32 k = c.pick(6); p = old; int fi; if(prod.empty()) k = 3; if(k == 5) { // what made a file that others need is gone, the file itself may still be there
			fi = m0.nodes[prod[c.pick((u32)prod.size())]].file; auto& f = p.files[fi]; if(f.use_raw) continue; u32 z = c.pick(3); if(z == 0 && !f.targets.empty() && f.kind != K_GEN && f.kind != K_GREP) f.targets.erase(f.targets.begin() + (long)c.pick((u32)f.targets.size())); else f.removed = true; Model m = build_model(p); if(m.ok || m.why != "unresolved") continue; want = m.why; if(f.removed) K.fs.erase(p.vpath(p.rel2path(f.rel))); else { f.version++; put_file(p, f, ed_now()); } break; } MDep d; d.origin = "generated";
		auto trel = [&](int n) { return sfs::path(m0.nodes[n].targets[c.pick((u32)m0.nodes[n].targets.size())]).lexically_relative(p.tgtdir).string(); };
		auto addto = [&](MFile& f, const MDep& d) { if(f.kind == K_GEN || f.kind == K_GREP || f.kind == K_PLAIN || f.kind == K_RCP || f.use_raw) return false; u32 z = c.pick(4); if(f.get_tags && z == 0) f.gt_deps.push_back(d); else if(z == 1 && !f.targets.empty()) f.targets[0].deps.push_back(d); else if(z == 2 && (f.kind == K_HDR || f.kind == K_CXX)) f.extra.push_back(d); else f.deps.push_back(d); return true; };
		if(k <= 1) { int a = prod[c.pick((u32)prod.size())]; fi = m0.nodes[a].file; vector<int> dep; for(int q : prod) if(q != a) for(int x : m0.nodes[q].closure) if(x == a) dep.push_back(q); if(dep.empty() || k == 1) { int b = prod[c.pick((u32)prod.size())]; d.ref = trel(b); } else d.ref = trel(dep[c.pick((u32)dep.size())]); if(!addto(p.files[fi], d)) continue; what = "a project with a dependency cycle"; }
		else if(k == 2 || k == 3) { vector<size_t> fs; for(size_t i = 0; i < p.files.size(); ++i) if(!p.files[i].use_raw) fs.push_back(i); fi = (int)fs[c.pick((u32)fs.size())]; d.ref = "no/such/thing.zz"; d.origin = c.chance(1, 2) ? "generated" : "project"; if(k == 3 && c.chance(1, 2) && (p.files[fi].kind == K_CXX || p.files[fi].kind == K_HDR)) p.files[fi].inc.push_back(c.chance(1, 2) ? "nothere.hpp" : "./nothere.gen.hpp"); else if(!addto(p.files[fi], d)) continue; what = "a project that refers to something that does not exist"; }
		else { if(prod.size() < 2) continue; int a = prod[c.pick((u32)prod.size())], b = prod[c.pick((u32)prod.size())]; if(a == b) continue; fi = m0.nodes[a].file; auto& f = p.files[fi]; if(f.kind == K_GEN || f.kind == K_GREP || f.kind == K_PLAIN || f.kind == K_RCP) continue; string da = dirname_rel(f.rel), tb = trel(b); if(dirname_rel(tb) != da) continue; MTarget t; t.name = tb.substr(tb.rfind('/') == string::npos ? 0 : tb.rfind('/') + 1); if(f.get_tags && c.chance(1, 2)) f.gt_targets.push_back(t); else f.targets.push_back(t); what = "a project in which two files declare the same target"; }
		Model m = build_model(p); if(!m.ok && m.why != "recipe") { want = m.why; p.files[fi].version++; put_file(p, p.files[fi], ed_now()); }
	}
	if(want.empty()) { c.counters["no_defect_made"]++; return; }
	if(want == "cycle") what = "a project with a dependency cycle"; else if(want == "unresolved") what = "a project that refers to something that does not exist"; else what = "a project in which two files declare the same target";
	c.counters["defect_" + want]++; Opts o = opts(c); o.build_id.clear(); auto s = sched(c); Run r = run_maike(c, p, o, s); Model m = build_model(p); rejected(c, p, m0, r, "C10", what);
}
static void s_badmeta(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); string what; bool warm = c.chance(1, 5); if(warm) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); }
	u32 k = c.pick(5);
	if(k >= 3) { // a new file whose metadata is JSON but makes no sense
		static const int kinds[] = {K_CXX, K_TEST, K_APP, K_LIB, K_RULE, K_EXT, K_HDR}; MFile f; f.kind = kinds[c.pick(7)]; f.use_raw = true; f.exec = f.kind == K_EXT; string d = p.recursive ? p.dirs[c.pick((u32)p.dirs.size())] : string(); f.rel = (d.empty() ? "" : d + "/") + "odd" + kind_ext(f.kind);
		json_t* t = json_pack("{s:{s:s}}", "target", "name", "odd.zz"); json_t* o = t; bool tags = (f.kind == K_CXX || f.kind == K_RULE || f.kind == K_APP) && c.chance(1, 3); u32 z = c.pick(tags ? 8 : 11); static const char* dk[] = {"dependencies", "dependencies_extra"}; const char* dn = dk[c.pick(2)];
		if(tags) o = json_pack("{s:{s:s}}", "target", "name", "odd2.zz"); auto dep = [&](json_t* x) { json_t* a = json_array(); for(u32 n = c.pick(2); n--;) json_array_append_new(a, json_pack("{s:s,s:s}", "ref", "vector", "origin", "system")); json_array_append_new(a, x); return a; };
		switch(z) {
			case 0: json_object_set_new(o, dn, dep(json_pack("{s:s,s:s}", "ref", "vector", "origin", c.chance(1, 2) ? "System" : "nowhere"))); what = "an unknown origin"; break;
			case 1: json_object_set_new(o, dn, dep(json_pack("{s:s}", "origin", "system"))); what = "a dependency without a name"; break;
			case 2: json_object_set_new(o, dn, dep(c.chance(1, 2) ? json_string("vector") : json_pack("[s]", "vector"))); what = "a dependency of the wrong type"; break;
			case 3: json_object_set_new(o, dn, c.chance(1, 2) ? json_string("vector") : json_pack("{s:s}", "ref", "vector")); what = "dependencies that are not a list"; break;
			case 4: json_object_set_new(o, "targets", json_pack("[{s:s},{s:s}]", "name", "odd3.zz", "kind", "odd4.zz")); what = "a target without a name"; break;
			case 5: json_object_set_new(o, "targets", c.chance(1, 2) ? json_pack("{s:s}", "name", "odd3.zz") : json_string("odd3.zz")); what = "targets that are not a list"; break;
			case 6: json_object_set_new(o, "target", c.chance(1, 2) ? json_pack("[{s:s}]", "name", "odd3.zz") : json_string("odd3.zz")); what = "a target of the wrong type"; break;
			case 7: json_object_set_new(o, dn, dep(json_pack("{s:i,s:s}", "ref", 3, "origin", "system"))); what = "a dependency whose name is a number"; break;
			case 8: json_object_set_new(o, "rebuild", json_string(c.chance(1, 2) ? "Always" : "never")); what = "an unknown rebuild policy"; break;
			case 9: json_object_set_new(o, "compiler", json_pack("{s:s,s:{}}", "recipe", c.chance(1, 2) ? "no/such/recipe" : "cxx.pyx", "config")); what = "a recipe that does not exist"; break;
			default: json_object_set_new(o, "compiler", c.chance(1, 2) ? json_string("x") : json_pack("[]")); what = "a compiler of the wrong type"; break;
		}
		if(tags || f.kind == K_RULE) { if(!json_object_get(t, "compiler")) { json_t* cj = json_object(); string rc = p.dir_recipe; json_object_set_new(cj, "recipe", json_string(rc.c_str())); json_object_set_new(cj, "config", json_object()); if(tags) json_object_set_new(cj, "use_get_tags", json_integer(1)); json_object_set_new(t, "compiler", cj); } }
		string gt = tags ? jdump(o) : ""; if(getenv("SIM_NODEFECT")) { gt = "{}"; json_decref(t); t = json_pack("{s:{s:s}}", "target", "name", "odd.zz"); tags = false; } string js = jdump(t); switch(f.kind) { case K_CXX: case K_TEST: case K_HDR: f.raw = "//@ " + js + "\n" + (tags ? "// GT " + gt + "\n" : "") + "int x;\n"; break; case K_EXT: f.raw = "#!sim recipe\n#@ " + js + "\n"; break; default: if(tags) json_object_set_new(t, "GT", json_string(gt.c_str())); f.raw = jdump(t); } if(o != t) json_decref(o); json_decref(t);
		what = string("a source file (") + kind_ext(f.kind) + (tags ? ", tags from a recipe" : "") + ") with " + what; p.files.push_back(f); put_file(p, f, ed_now()); c.counters["odd_metadata"]++; }
	if(k == 1) { vector<string> rs; for(auto& l : p.loaders) if(!l.second.recipe.empty()) rs.push_back(l.second.recipe); rs.push_back(p.dir_recipe); for(auto& n : m.nodes) if(n.file >= 0 && p.files[n.file].has_comp && !p.files[n.file].c_recipe.empty()) rs.push_back(p.files[n.file].c_recipe); string r = rs[c.pick((u32)rs.size())]; int i = p.find(r); Wd.conf_victim = i >= 0 ? p.vpath(p.rel2path(r)) : "/sys/lib/maike2/recipes/" + r; Wd.conf_fail = 1 + (int)c.pick(5); what = "a recipe that fails to answer the configuration request (mode " + std::to_string(Wd.conf_fail) + ")"; }
	else if(k == 2) { vector<string> vs; for(auto& n : m.nodes) if(n.file >= 0 && p.files[n.file].get_tags) vs.push_back(n.path); if(vs.empty()) k = 0; else { Wd.tags_victim = vs[c.pick((u32)vs.size())]; Wd.tags_fail = 1 + (int)c.pick(4); what = "a recipe that fails to answer the tags request (mode " + std::to_string(Wd.tags_fail) + ")"; } }
	if(k == 0) { vector<int> fs; for(auto& n : m.nodes) if(n.file >= 0) { auto& f = p.files[n.file]; if(f.kind == K_RULE || f.kind == K_APP || f.kind == K_LIB || ((f.kind == K_CXX || f.kind == K_EXT || f.kind == K_TEST) && !f.targets.empty())) fs.push_back(n.file); } if(fs.empty()) return; auto& f = p.files[fs[c.pick((u32)fs.size())]]; f.noise = 0; string t = render(p, f); size_t b = t.find('{'), e = t.size(); if(f.kind == K_CXX || f.kind == K_TEST) { e = t.find("\n//@ }\n"); size_t l = t.find("\n", 0); if(e == string::npos) e = l; } else if(f.kind == K_EXT) { e = t.find("\n#@ }\n"); size_t l = t.find('\n', b); if(e == string::npos) e = l; } else { e = t.rfind('}'); }
		if(b == string::npos || e == string::npos || e <= b + 1) return; size_t cut = b + 1 + c.pick((u32)(e - b - 1)); f.raw = t.substr(0, cut); if(f.kind == K_RULE || f.kind == K_APP || f.kind == K_LIB) f.raw = blanks(c.pick(256) * 0x4000001ull << 20) + f.raw; u32 z = c.pick(3); if(z == 1 && f.kind != K_EXT) f.raw += "\n"; if(z == 2 && (f.kind == K_CXX || f.kind == K_TEST)) f.raw += "\nint x;\n"; f.use_raw = true; put_file(p, f, ed_now()); what = "a source file with truncated metadata"; }
	Opts o = opts(c); o.build_id.clear(); auto s = sched(c); if(c.chance(1, 6)) o.list = true; Run r = run_maike(c, p, o, s); rejected(c, p, m, r, "C09", what); bool text = k == 0 || (k == 1 && (Wd.conf_fail == 2 || Wd.conf_fail >= 4)) || (k == 2 && (Wd.tags_fail == 2 || Wd.tags_fail == 4)); if(text && clean_end(r) && r.o.exit_status == 0) c.viol("C15", "accepted", what + ": malformed text is taken for something else, exit status 0");
}
static string rest(const string& o) { size_t i = 0; while(i < o.size() && o[i] == '#') { size_t j = o.find('\n', i); if(j == string::npos) return ""; i = j + 1; } return o.substr(i); }
static void s_scan(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); bool graph = c.chance(1, 2); string first; u32 n = 2 + c.pick(2);
	string want; if(graph) { set<std::pair<sfs::path, sfs::path>> e; for(auto& x : m.nodes) for(auto& d : x.edges) e.insert({x.path, d.name}); for(auto& x : e) want += "\"" + x.first.string() + "\" -> \"" + x.second.string() + "\"\n"; }
	else { set<sfs::path> t; for(auto& x : m.target_of) t.insert(x.first); for(auto& x : t) want += x.lexically_relative(p.tgtdir).string() + "\n"; }
	for(u32 k = 0; k < n && c.viols.empty(); ++k) {
		if(k) { K.dirseed = c.pick(1000); K.dt_unknown = c.chance(1, 2); g_world_clock = 0; } Opts o = opts(c, true); o.build_id.clear(); o.level = 0; o.ansi = false; o.graph = graph; o.list = !graph; auto s = sched(c); Run r = run_maike(c, p, o, s); const char* ctx = graph ? "--print-dep-graph" : "--list-targets"; universal(c, p, m, r, ctx, {"C08"});
		if(!clean_end(r)) return; if(r.o.exit_status != 0) { c.viol("C08", "fails", string(ctx) + ": " + not_ok(r)); c.viol("C15", "fails", string(ctx) + ": " + not_ok(r)); c.viol("C10", "rejected", string(ctx) + ": a consistent project: " + not_ok(r)); return; }
		string out = rest(r.o.out), body; if(graph) { size_t i = 0; while(i < out.size()) { size_t j = out.find('\n', i); if(j == string::npos) j = out.size(); string l = out.substr(i, j - i); if(l.find("\" -> \"") != string::npos) body += l + "\n"; i = j + 1; } } else body = out;
		auto lines = [](const string& s) { vector<string> v; size_t i = 0; while(i < s.size()) { size_t j = s.find('\n', i); if(j == string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; };
		auto a = lines(body), b = lines(want); auto as = a, bs = b; std::sort(as.begin(), as.end()); std::sort(bs.begin(), bs.end());
		if(as != bs) { vector<string> mis, ext; std::set_difference(bs.begin(), bs.end(), as.begin(), as.end(), std::back_inserter(mis)); std::set_difference(as.begin(), as.end(), bs.begin(), bs.end(), std::back_inserter(ext)); string d = (mis.empty() ? "" : " missing " + mis[0]) + (ext.empty() ? "" : " unexpected " + ext[0]); c.viol("C08", "model", string(ctx) + " does not match what the files declare:" + d); c.viol("C15", "model", string(ctx) + " does not match what the files declare:" + d); }
		if(graph) { auto z = out.find_last_not_of(" \n\t;"); size_t h = out.find('{'), g = out.find("digraph"); if(g == string::npos || h == string::npos || g > h || h > out.find("\" -> \"") || z == string::npos || out[z] != '}') for(auto q : {"C08", "C25"}) c.viol(q, "form", string(ctx) + ": what is printed is not a complete graph description"); }
		if(k == 0) first = out; else if(first != out) c.viol("C08", "schedule", string(ctx) + " gives a different answer under another schedule or directory order");
		if(!r.b.steps.empty()) c.viol("C22", "step", string(ctx) + " runs a build step");
	}
}
static bool unquote(const string& s, size_t& i, vector<string>& words) { // POSIX words up to an unquoted # that starts a word
	while(true) { while(i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; if(i >= s.size() || s[i] == '\n') return false; if(s[i] == '#') return true; string w;
		while(i < s.size() && s[i] != ' ' && s[i] != '\t' && s[i] != '\n') { if(s[i] == '\'') { size_t j = s.find('\'', i + 1); if(j == string::npos) return false; w += s.substr(i + 1, j - i - 1); i = j + 1; } else if(s[i] == '\\' && i + 1 < s.size()) { w += s[i + 1]; i += 2; } else if(s[i] == '"') { ++i; while(i < s.size() && s[i] != '"') { if(s[i] == '\\' && i + 1 < s.size() && strchr("$`\"\\", s[i + 1])) ++i; w += s[i++]; } if(i >= s.size()) return false; ++i; } else if(strchr("$`;&|<>()*?[", s[i])) return false; else w += s[i++]; } words.push_back(w); }
}
static void s_dry(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); bool warm = c.chance(1, 3); if(warm) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); for(u32 k = c.pick(3); k--;) note(c, edit(c, p)); m = build_model(p); }
	Opts o = opts(c, true); o.level = 3; o.dry = true; o.force = warm ? c.chance(2, 3) : c.chance(1, 4); o.build_id = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"; o.extra = {"--build-id=" + o.build_id, "--start-time=1600000000"}; bool full = !warm || o.force;
	if(c.chance(1, 8)) o.level = (int)c.pick(3);
	auto s = sched(c); string fs0; K.fs.save(fs0); Run r = run_maike(c, p, o, s); const char* ctx = "dry run"; universal(c, p, m, r, ctx, {"C17"}); if(!clean_end(r)) return; c.counters["dry_runs"]++;
	if(r.o.exit_status != 0) c.viol("C17", "fails", string(ctx) + ": " + not_ok(r)); if(!r.b.steps.empty()) c.viol("C17", "runs", string(ctx) + ": the step " + r.b.steps[0].src + " is run"); string fs1; K.fs.save(fs1); if(fs0 != fs1) c.viol("C17", "touch", string(ctx) + ": the file system is changed");
	if(!c.viols.empty() || o.level != 3) return; string out = rest(r.o.out); size_t i = 0; map<string, vector<string>> cmds; map<string, size_t> pos;
	while(i < out.size()) {
		vector<string> w; if(!unquote(out, i, w)) { c.viol("C17", "quoting", string(ctx) + ": line is not a complete shell command near '" + q(out.substr(i, 60)) + "'"); return; } size_t e = out.find('\n', i); string line = out.substr(i + 1, e == string::npos ? e : e - i - 1); i = e == string::npos ? out.size() : e + 1;
		size_t a = line.find(" | "), b = a == string::npos ? a : line.find(" | ", a + 3), l1 = line.rfind(" | "), l0 = l1 == string::npos ? l1 : line.rfind(" | ", l1 - 1); if(b == string::npos || l0 == string::npos || l0 < b + 3) { c.viol("C17", "record", string(ctx) + ": malformed record '" + q(line) + "'"); return; } string path = line.substr(b + 3, l0 - b - 3), t1 = line.substr(l0 + 3, l1 - l0 - 3);
		if(t1 == "-") continue; // reported as up to date
		if(cmds.count(path)) { c.viol("C17", "twice", string(ctx) + ": the command of " + path + " is printed twice"); return; } cmds[path] = w; pos[path] = pos.size(); }
	if(!full) return;
	auto exp = run_set(p, m, K.fs, o.force, nullptr); for(int x : exp) if(!cmds.count(m.nodes[x].path)) { c.viol("C17", "missing", string(ctx) + ": no command for " + m.nodes[x].path); return; }
	for(auto& x : cmds) { auto it = m.idx.find(x.first); if(it == m.idx.end() || !exp.count(it->second)) { c.viol("C17", "extra", string(ctx) + ": a command is printed for " + x.first + ", which is not a step of the build"); return; } for(int d : m.nodes[it->second].closure) { auto z = pos.find(m.nodes[d].path); if(z != pos.end() && z->second > pos[x.first]) { c.viol("C17", "order", string(ctx) + ": the command of " + x.first + " is printed before that of " + z->first + ", which it depends on"); return; } } }
	o.dry = false; auto s2 = sched(c); advance(c); Run r2 = run_maike(c, p, o, s2); good_build(c, p, m, r2, "build after a dry run", {"C02"}, nullptr, !warm); if(r2.o.exit_status != 0) return;
	for(auto& st : r2.b.steps) { auto z = cmds.find(st.src); if(z == cmds.end()) { c.viol("C17", "missing", string(ctx) + ": the command of " + st.src + " was not printed"); return; } auto& w = z->second; json_t* j = w.size() == 3 ? json_loads(w[2].c_str(), 0, nullptr) : nullptr; if(w.size() != 3 || K.fs.abs(w[0]) != st.exe || w[1] != "compile" || !j || canon(j) != canon(st.req)) { c.viol("C17", "differs", string(ctx) + ": the command printed for " + st.src + " is not the one that is run"); } json_decref(j); }
}
static void s_targets(Ctx& c) {
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); bool warm = c.chance(1, 3); if(warm) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); for(u32 k = c.pick(3); k--;) note(c, edit(c, p)); m = build_model(p); }
	vector<string> ts; for(auto& t : m.target_of) { string v = sfs::path(t.first).lexically_relative(p.tgtdir).string(); if(v != "." && v.find_first_of(",[]{}=\\") == string::npos) ts.push_back(v); } if(ts.empty()) return;
	Opts o = opts(c); o.build_id.clear(); u32 n = 1 + (c.chance(1, 3) ? c.pick(3) : 0); bool unknown = c.chance(1, 8); set<int> nd; for(u32 k = 0; k < n; ++k) { string t = ts[c.pick((u32)ts.size())]; if(k && c.chance(1, 2)) { vector<string> same; for(auto& x : ts) if(x != o.targets.back() && sfs::path(x).filename() == sfs::path(o.targets.back()).filename()) same.push_back(x); if(!same.empty()) t = same[c.pick((u32)same.size())]; } o.targets.push_back(t); for(int x : needed(m, sfs::path(p.tgtdir + "/" + t).lexically_normal())) nd.insert(x); } if(unknown) o.targets.insert(o.targets.begin() + (long)c.pick((u32)o.targets.size() + 1), c.chance(1, 2) ? "no_such_target" : ts[0] + "x");
	auto s = sched(c); Run r = run_maike(c, p, o, s);
	if(unknown) { universal(c, p, m, r, "build of an unknown target", {"C19"}); if(clean_end(r)) { if(r.o.exit_status == 0) c.viol("C19", "unknown", "an unknown target is accepted"); else if(!has_message(r)) c.viol("C19", "unknown", "an unknown target is rejected without a message"); } order(c, p, m, r, {}, false, "build of an unknown target"); for(auto& b : r.b.by) { auto it = m.idx.find(b.first); if(it != m.idx.end() && !nd.count(it->second)) c.viol("C19", "unneeded", "step " + b.first + " is run although no named target depends on it"); } return; }
	good_build(c, p, m, r, "build of named targets", {"C19"}, &nd, !warm); if(c.chance(1, 4) && c.viols.empty()) { advance(c); quick_build(c, p, m, "build of everything afterwards", {"C03"}); }
}
static void s_config(Ctx& c) { // the configuration as the program sees it
	Proj p; world(c, p, size_of(c)); if(!p.cfg_split && c.chance(1, 2)) { p.cfg_split = 1 + (int)c.pick(1000); K.fs.put(p.vpath(p.rel2path("maikeconfig.json")), render_config(p), 0644, K.base_time - 1000000000000ull); K.fs.put("/w/.maikeconfig2.json", render_config(p, 1), 0644, K.base_time - 1000000000000ull); }
	Model m = build_model(p); string file = c.chance(1, 2) ? "/w/.dumped.json" : ".dumped.json"; bool dflt = c.chance(1, 4); int mode = (int)c.pick(2); u32 pad = c.chance(1, 3) ? 1 + c.pick(9000) : 0;
	auto dump = [&](const char* ctx, const string& arg, string& text) { Opts o; o.workers = 1 + (int)c.pick(3); o.extra = {"--configdump"}; if(!arg.empty()) o.extra.push_back(arg); auto s = sched(c); string fs0, fs1; K.fs.save(fs0); Run r = run_maike(c, p, o, s); universal(c, p, m, r, ctx, {"C25"}); if(!clean_end(r)) return false; c.counters["dumps"]++; text = r.o.out;
		if(r.o.exit_status != 0) { c.viol("C25", "fails", string(ctx) + ": " + not_ok(r)); return false; } K.fs.save(fs1); if(fs0 != fs1 || !r.b.steps.empty()) c.viol("C25", "effects", string(ctx) + ": printing the configuration runs a step or changes a file"); return true; };
	auto same = [&](const char* ctx, const string& a, const string& b) { json_t* x = json_loads(a.c_str(), 0, nullptr); json_t* y = json_loads(b.c_str(), 0, nullptr); bool ok = x && y && canon(x) == canon(y); if(!x) c.viol("C25", "syntax", string(ctx) + " is not JSON: " + q(a.substr(0, 80))); else if(!ok) { string cx = canon(x), cy = y ? canon(y) : ""; size_t i = 0; while(i < cx.size() && i < cy.size() && cx[i] == cy[i]) ++i; i = i > 40 ? i - 40 : 0; c.viol("C25", "differs", string(ctx) + ": '..." + q(cx.substr(i, 120)) + "' instead of '..." + q(cy.substr(i, 120)) + "'"); } json_decref(x); json_decref(y); return ok; };
	string d0, d1; if(dflt) { // the built-in configuration, asked for or because there is no other
		if(!dump("printing the default configuration", "--config-default", d0)) return; if(mode) { p.cfg_split = 0; K.fs.erase(p.vpath(p.rel2path("maikeconfig.json"))); if(!dump("printing the configuration without a file", "", d1) || !same("the configuration that is printed without a file", d1, d0)) return; } }
	else { if(!dump("printing the configuration", "", d0) || !same("the configuration that is printed", d0, render_config(p, -1))) return; }
	p.cfg_split = 0; p.cfg_file = file; K.fs.put(p.vpath(file), string(pad, pad % 2 ? ' ' : '\n') + d0, 0644, K.base_time - 1000000000000ull); string path = p.vpath(p.rel2path("maikeconfig.json")); if(c.chance(1, 2)) K.fs.put(path, "{\"maikeconfig\": {\"unrelated\": 1}}", 0644, K.base_time - 1000000000000ull);
	if(!dump("printing the configuration that was printed", "", d1) || !same("a printed configuration that is read and printed again", d1, d0) || dflt) return;
	quick_build(c, p, m, "build with the printed configuration", {"C25"}, true);
}
static void s_print(Ctx& c) { // what is asked for is printed completely, or the program says that it was not
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); static const char* op[] = {"--configdump", "--list-targets", "--print-dep-graph"}; u32 k = c.pick(3); const char* ctx = op[k]; Opts o; o.workers = 1 + (int)c.pick(3); o.extra = {ctx}; u64 cand = 0; string all;
	{ SchedSpec s; s.strategy = 4; s.fault_mask = 1ull << F_OUT; Run r = run_maike(c, p, o, s); universal(c, p, m, r, ctx, {"C25"}); if(!clean_end(r)) return; if(r.o.exit_status != 0) { c.viol("C25", "fails", string(ctx) + ": " + not_ok(r)); return; } cand = r.o.st.fault_cands; all = r.o.out; }
	g_world_clock = 0; auto s = sched(c); s.fault_mask |= 1ull << F_OUT; s.fault_at = 1 + (cand ? (u64)c.pick(4096) * cand / 4096 : 0); s.fault_max = 1; Run r = run_maike(c, p, o, s); universal(c, p, m, r, ctx, {"C25"}); if(!clean_end(r)) return; bool any = false; for(auto& e : r.o.events) if(e.kind == EV_FAULT) any = true; if(any) c.counters["lost_output"]++;
	if(any && r.o.exit_status == 0) c.viol("C25", "lost", string(ctx) + ": the output could not be written, but the exit status is 0"); if(any && r.o.exit_status != 0 && !has_message(r)) c.viol("C25", "no_message", string(ctx) + ": exit status " + std::to_string(r.o.exit_status) + " without any message"); if(!any && r.o.exit_status != 0) c.viol("C25", "fails", string(ctx) + ": " + not_ok(r));
}
static void s_load(Ctx& c) { // loading only, many workers: the interleavings of the loaders
	Proj p; world(c, p, size_of(c)); Model m = build_model(p); Opts o; static const int wk[] = {3, 4, 8, 2}; o.workers = wk[c.pick(4)]; o.list = true; auto s = sched(c); Run r = run_maike(c, p, o, s); universal(c, p, m, r, "--list-targets", {}); if(r.o.exit_status != 0 && clean_end(r)) c.viol("C08", "fails", "--list-targets: " + not_ok(r));
	if(!r.b.steps.empty()) c.viol("C22", "step", "--list-targets runs a build step");
}
// of a program that runs out of memory less is expected: no hang, no access to dead memory, no success that is none, no dependent step that starts, a good build afterwards
static void only(Ctx& c, const set<string>& keep) { vector<Violation> v; for(auto& x : c.viols) if(keep.count(x.prop)) v.push_back(x); c.viols = v; }
static void s_nomem(Ctx& c) { // an allocation fails somewhere in the program
	Proj p; world(c, p, c.tier == "quick" ? 3 + (int)c.pick(6) : size_of(c)); Model m = build_model(p); if(c.chance(1, 3)) { quick_build(c, p, m, "first build", {"C02"}, true); if(!c.viols.empty()) return; advance(c); for(u32 k = 1 + c.pick(3); k--;) note(c, edit(c, p)); m = build_model(p); }
	Opts o = opts(c); o.build_id.clear(); u64 cand = 0; const char* ctx = "build that runs out of memory";
	{ Vfs snap = K.fs.clone(); u64 clk = g_world_clock; SchedSpec s; s.strategy = 4; s.fault_mask = 1ull << F_ALLOC; Run r = run_maike(c, p, o, s); good_build(c, p, m, r, "build without faults", {"C02"}, nullptr, false); cand = r.o.st.fault_cands; K.fs = snap.clone(); g_world_clock = clk; if(!c.viols.empty()) return; }
	auto s = sched(c); s.fault_mask |= 1ull << F_ALLOC; s.fault_max = 1 + c.pick(2) * c.pick(8); u32 hi = c.pick(1024), lo = c.pick(1024); s.fault_at = 1 + (cand ? ((u64)hi << 10 | lo) * cand / 1048576 : 0); Run r = run_maike(c, p, o, s); bool any = r.o.st.fault_count[F_ALLOC] != 0; if(any) c.counters["failed_allocations"] += r.o.st.fault_count[F_ALLOC];
	bool dead = false; if(any) { vector<Finding> f; for(auto& x : r.o.findings) if(x.cls != "abort") f.push_back(x); else dead = true; r.o.findings = f; } // that the program then ends at once is allowed
	universal(c, p, m, r, ctx, {"C05"}); auto exp = run_set(p, m, r.before, o.force, nullptr); order(c, p, m, r, exp, true, ctx); requests(c, p, m, r, ctx); if(dead) c.counters["ended_at_once"]++;
	if(!dead && clean_end(r)) { if(r.o.exit_status == 0) { vector<string> bl; if(!contents(c, p, m, nullptr, bl)) { c.viol("C05", "silent", string(ctx) + ": exit 0, but " + bl[0]); c.viol("C02", "silent", string(ctx) + ": exit 0, but " + bl[0]); } } else if(!any) c.viol("C02", "fails", string(ctx) + ": nothing failed, but the build " + not_ok(r)); }
	only(c, {"C01", "C02", "C05", "C07", "C16"});
	if(!c.viols.empty()) return; advance(c); quick_build(c, p, m, "build after one that ran out of memory", {"C06"});
}
static void s_nomem_print(Ctx& c) { // the same, when something is to be printed
	Proj p; world(c, p, c.tier == "quick" ? 3 + (int)c.pick(6) : size_of(c)); Model m = build_model(p); static const char* op[] = {"--list-targets", "--print-dep-graph"}; const char* ctx = op[c.pick(2)]; Opts o; o.workers = 1 + (int)c.pick(3); o.extra = {ctx}; u64 cand = 0; string all;
	{ SchedSpec s; s.strategy = 4; s.fault_mask = 1ull << F_ALLOC; Run r = run_maike(c, p, o, s); universal(c, p, m, r, ctx, {"C25"}); if(!clean_end(r)) return; if(r.o.exit_status != 0) { c.viol("C25", "fails", string(ctx) + ": " + not_ok(r)); return; } cand = r.o.st.fault_cands; all = r.o.out; }
	g_world_clock = 0; auto s = sched(c); s.fault_mask |= 1ull << F_ALLOC; s.fault_max = 1 + c.pick(2) * c.pick(8); u32 hi = c.pick(1024), lo = c.pick(1024); s.fault_at = 1 + (cand ? ((u64)hi << 10 | lo) * cand / 1048576 : 0); Run r = run_maike(c, p, o, s); bool any = r.o.st.fault_count[F_ALLOC] != 0, dead = false; if(any) c.counters["failed_allocations"] += r.o.st.fault_count[F_ALLOC];
	if(any) { vector<Finding> f; for(auto& x : r.o.findings) if(x.cls != "abort") f.push_back(x); else dead = true; r.o.findings = f; } universal(c, p, m, r, ctx, {}); only(c, {"C07", "C16"}); if(dead || !clean_end(r)) return;
	if(r.o.exit_status == 0) { if(r.o.out != all) { c.viol("C25", "altered", string(ctx) + ": memory ran out, what is printed differs, but the exit status is 0"); c.viol("C09", "altered", string(ctx) + ": memory ran out, what is printed differs, but the exit status is 0"); } }
	else { if(!any) c.viol("C25", "fails", string(ctx) + ": " + not_ok(r)); if(!has_message(r)) c.viol("C25", "no_message", string(ctx) + ": exit status " + std::to_string(r.o.exit_status) + " without any message"); }
	only(c, {"C07", "C09", "C16", "C25"});
}
static Reg r15({"nomem_print", s_nomem_print, "C07 C09 C16 C25", 1, true});
static Reg r14({"nomem", s_nomem, "C05 C06 C07 C16 C02", 3, true});
static Reg r13({"load", s_load, "C16 C08 C12", 6});
static Reg r12({"print", s_print, "C25", 1});
static Reg r11({"config", s_config, "C25 C07 C15 C16", 2});
static Reg r1({"clean", s_clean, "C01 C02 C04 C05 C07 C08 C10 C11 C12 C15 C16 C18 C21 C22 C23", 4}), r2({"incr", s_incr, "C01 C03 C04 C07 C16 C18 C19 C21 C22 C23", 4}), r3({"fail", s_fail, "C01 C05 C06 C07 C11 C12 C16 C18 C22", 4}), r4({"crash", s_crash, "C06 C03 C22 C23", 3}), r5({"fault", s_fault, "C05 C06 C07 C09 C12 C16 C02 C22 C03", 4}), r6({"inconsistent", s_inconsistent, "C10 C07 C16", 3}), r7({"badmeta", s_badmeta, "C09 C07 C12 C15", 3}), r8({"scan", s_scan, "C08 C10 C15 C16 C21 C25", 3}), r9({"dry", s_dry, "C17 C21 C22 C07", 3}), r10({"targets", s_targets, "C19 C01 C04 C07 C21 C23", 3});
void build_init() { programs["recipe"] = prog; }
}
