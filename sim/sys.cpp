// Simulated kernel and interposition of libc/libpthread entry points.
#include "sys.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/utsname.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <unistd.h>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <algorithm>
#include <random>

namespace sim {
Kern K;
std::map<std::string, Program> programs;

// ================================================================ VFS
std::string Vfs::abs(const std::string& p) const {
	std::string s = p.empty() || p[0] != '/' ? cwd + "/" + p : p; std::vector<std::string> c; size_t i = 0;
	while(i <= s.size()) { size_t j = s.find('/', i); if(j == std::string::npos) j = s.size(); std::string e = s.substr(i, j - i); i = j + 1;
		if(e.empty() || e == ".") continue; if(e == "..") { if(!c.empty()) c.pop_back(); continue; } c.push_back(e); }
	std::string r; for(auto& e : c) { r += '/'; r += e; } return r.empty() ? "/" : r;
}
Node* Vfs::get(const std::string& p) const { auto i = m.find(p); return i == m.end() ? nullptr : i->second.get(); }
static std::string parent_of(const std::string& p) { auto i = p.rfind('/'); return i == 0 || i == std::string::npos ? "/" : p.substr(0, i); }
Node* Vfs::put(const std::string& p, const std::string& d, int mode, u64 mt) {
	mkdirs(parent_of(p), mt); auto& n = m[p]; if(!n) { n = std::make_shared<Node>(); n->ino = next_ino++; } n->data = d; n->mode = mode; n->mtime = mt; n->dir = false; return n.get();
}
Node* Vfs::mkdirs(const std::string& p, u64 mt) {
	auto i = m.find(p); if(i != m.end()) return i->second.get();
	if(p != "/") mkdirs(parent_of(p), mt);
	auto n = std::make_shared<Node>(); n->dir = true; n->mode = 0755; n->mtime = mt; n->ino = next_ino++; m[p] = n; return n.get();
}
bool Vfs::erase(const std::string& p) { return m.erase(p) > 0; }
std::vector<std::string> Vfs::list(const std::string& d) const {
	std::vector<std::string> r; std::string pre = d == "/" ? "/" : d + "/";
	for(auto i = m.lower_bound(pre); i != m.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) { std::string n = i->first.substr(pre.size()); if(!n.empty() && n.find('/') == std::string::npos) r.push_back(n); }
	return r;
}
bool Vfs::has_children(const std::string& p) const { std::string pre = p + "/"; auto i = m.lower_bound(pre); return i != m.end() && i->first.compare(0, pre.size(), pre) == 0; }
Vfs Vfs::clone() const { Vfs r = *this; for(auto& e : r.m) e.second = std::make_shared<Node>(*e.second); return r; }
static void ws(std::string& o, const std::string& s) { u32 n = (u32)s.size(); o.append((char*)&n, 4); o += s; }
static void wu(std::string& o, u64 v) { o.append((char*)&v, 8); }
static std::string rs(const char*& p) { u32 n; memcpy(&n, p, 4); p += 4; std::string r(p, n); p += n; return r; }
static u64 ru(const char*& p) { u64 v; memcpy(&v, p, 8); p += 8; return v; }
void Vfs::save(std::string& o) const { wu(o, m.size()); wu(o, next_ino); wu(o, gran); ws(o, cwd); for(auto& e : m) { ws(o, e.first); wu(o, e.second->ino); wu(o, e.second->dir); ws(o, e.second->data); wu(o, e.second->mtime); wu(o, e.second->mode); } }
void Vfs::load(const char*& p) { m.clear(); u64 n = ru(p); next_ino = ru(p); gran = ru(p); cwd = rs(p); while(n--) { std::string k = rs(p); auto x = std::make_shared<Node>(); x->ino = ru(p); x->dir = ru(p); x->data = rs(p); x->mtime = ru(p); x->mode = (int)ru(p); m[k] = x; } }

u64 wall() { return K.base_time + S.clock; }
u64 mtime_now() { u64 g = K.fs.gran ? K.fs.gran : 1; u64 t = wall(); return t - t % g; }
static void touch_dir(const std::string& p) { if(auto d = K.fs.get(p)) d->mtime = mtime_now(); }

// resolve for a syscall: 0 ok, else errno
static int resolve(const char* path, std::string& a, Node*& n, bool want_parent = false) {
	std::string s = path; if(s.empty()) return ENOENT;
	if(s.size() >= 4096) return ENAMETOOLONG;
	bool slash = s.back() == '/'; a = K.fs.abs(s);
	// walk parents
	for(size_t i = 1; i < a.size(); ++i) if(a[i] == '/') { if(i > 0) { auto d = K.fs.get(a.substr(0, i)); if(!d) return ENOENT; if(!d->dir) return ENOTDIR; } }
	n = K.fs.get(a); if(!n) return want_parent ? 0 : ENOENT;
	if(slash && !n->dir) return ENOTDIR;
	return 0;
}

// ================================================================ pipes and descriptors
static std::map<const void*, std::vector<Fiber*>> waitq;
static void wait_on(const char* why, const void* obj) { waitq[obj].push_back(S.cur); block(why, obj); }
static void wake_all(const void* obj) { auto i = waitq.find(obj); if(i == waitq.end()) return; auto v = std::move(i->second); waitq.erase(i); for(auto f : v) if(f->st == Fiber::Blocked && f->obj == obj) wake(f); }
static void unwait(const void* obj, Fiber* f) { auto i = waitq.find(obj); if(i == waitq.end()) return; auto& v = i->second; v.erase(std::remove(v.begin(), v.end(), f), v.end()); if(v.empty()) waitq.erase(i); }

Ofd::~Ofd() {
	if(!pipe) return;
	if(type == PipeR) --pipe->nr; else --pipe->nw;
	wake_all(pipe.get());
}
Proc* proc(int pid) { auto i = K.procs.find(pid); return i == K.procs.end() ? nullptr : i->second.get(); }
static Proc& me() { return *proc(S.cur->pid); }
static std::shared_ptr<Ofd> ofd(Proc& p, int fd) { auto i = p.fds.find(fd); return i == p.fds.end() ? nullptr : i->second.o; }
static int alloc_fd(Proc& p, std::shared_ptr<Ofd> o, bool cloexec, int from = 0) { int k = from; while(p.fds.count(k)) ++k; if((size_t)k >= K.fdmax) return -1; p.fds[k] = FdEnt{o, cloexec}; K.live_fds_max = std::max(K.live_fds_max, p.fds.size()); return k; }

void kern_start() {
	auto p = std::make_unique<Proc>(); p->pid = MAIN_PID; p->ppid = 1; p->cwd = K.fs.cwd;
	auto n = std::make_shared<Ofd>(); p->fds[0] = {n, false}; auto o = std::make_shared<Ofd>(); o->type = Ofd::Out; p->fds[1] = {o, false}; auto e = std::make_shared<Ofd>(); e->type = Ofd::Err; p->fds[2] = {e, false};
	K.procs[MAIN_PID] = std::move(p);
}
size_t open_fds(int pid) { auto p = proc(pid); return p ? p->fds.size() : 0; }
std::string fd_list(int pid) { std::string r; if(auto p = proc(pid)) for(auto& f : p->fds) { static const char* nm[] = {"file", "dir", "pipe-r", "pipe-w", "out", "err", "null"}; r += std::to_string(f.first) + ":" + nm[f.second.o->type] + " "; } return r; }
size_t zombies(int pp) { size_t n = 0; for(auto& e : K.procs) if(e.second->ppid == pp && e.second->st == Proc::Zombie) ++n; return n; }
size_t running_steps(int pp) { size_t n = 0; for(auto& e : K.procs) if(e.second->ppid == pp && e.second->st == Proc::Run && e.second->execed && e.second->argv.size() > 1 && e.second->argv[1] == "compile") ++n; return n; }
size_t running_children(int pp) { size_t n = 0; for(auto& e : K.procs) if(e.second->ppid == pp && e.second->st == Proc::Run) ++n; return n; }

static void proc_exit(Proc& p, int status) {
	for(auto& f : p.fds) if(f.second.o->type == Ofd::File) {}
	p.fds.clear(); p.status = status; p.st = Proc::Zombie;
	if(p.execed || !p.ops.empty()) event(EV_PROC_EXIT, p.pid, p.argv.size() > 1 ? p.argv[1] : "", p.exe, status);
	Proc* par = proc(p.ppid); if(!par || par->st != Proc::Run) p.st = Proc::Reaped;
	wake_all(&K.next_pid);
}

// generic read/write with blocking; returns -errno
static long do_read(Proc& p, int fd, char* b, size_t n, bool faults) {
	auto o = ofd(p, fd); if(!o) return -EBADF;
	switch(o->type) {
		case Ofd::PipeR: {
			auto pp = o->pipe;
			while(pp->size() == 0) { if(pp->nw == 0) return 0; if(n == 0) return 0; if(o->nb) return -EAGAIN; o.reset(); wait_on("pipe data", pp.get()); }
			size_t k = std::min(n, pp->size());
			memcpy(b, pp->buf.data() + pp->head, k); pp->head += k; if(pp->head == pp->buf.size()) { pp->buf.clear(); pp->head = 0; }
			wake_all(pp.get()); return (long)k; }
		case Ofd::File: {
			if(faults && (o->sticky_err || fault(F_READ, o->path.c_str()))) { o->sticky_err = true; return -EIO; }
			if(o->off >= o->node->data.size()) return 0;
			size_t k = std::min(n, o->node->data.size() - o->off);
			if(faults && k > 1 && fault(F_SHORT, o->path.c_str())) k = 1 + (size_t)(S.fault_arg % (k - 1));
			memcpy(b, o->node->data.data() + o->off, k); o->off += k; return (long)k; }
		case Ofd::Dir: return -EISDIR;
		case Ofd::Null: return 0;
		default: return -EBADF;
	}
}
static long do_write(Proc& p, int fd, const char* b, size_t n, bool faults) {
	auto o = ofd(p, fd); if(!o) return -EBADF;
	switch(o->type) {
		case Ofd::PipeW: {
			auto pp = o->pipe; size_t done = 0; if(n == 0) return 0;
			size_t lim = n;
			if(faults && n > 1 && fault(F_SHORTW, "pipe")) lim = 1 + (size_t)(S.fault_arg % (n - 1));
			while(done < lim) {
				if(pp->nr == 0) { if(done) return (long)done; return -EPIPE; }
				size_t room = pp->cap > pp->size() ? pp->cap - pp->size() : 0;
				if(room == 0 || (lim <= 4096 && done == 0 && room < lim && lim <= pp->cap)) { if(o->nb) return done ? (long)done : -EAGAIN; wait_on("pipe space", pp.get()); continue; }
				size_t k = std::min(room, lim - done); pp->buf.append(b + done, k); done += k; wake_all(pp.get());
			}
			return (long)done; }
		case Ofd::Out: S.oc.out.append(b, n); event(EV_STDOUT, p.pid, std::string(b, n)); return (long)n;
		case Ofd::Err: S.oc.err.append(b, n); event(EV_STDERR, p.pid, std::string(b, n)); return (long)n;
		case Ofd::File: {
			if(!o->wr) return -EBADF; auto& d = o->node->data; if(o->append) o->off = d.size(); if(d.size() < o->off) d.resize(o->off, 0);
			d.replace(o->off, std::min(n, d.size() - o->off), b, n); o->off += n; o->node->mtime = mtime_now(); event(EV_FS_WRITE, p.pid, o->path, "", (i64)n); return (long)n; }
		case Ofd::Null: return (long)n;
		default: return -EBADF;
	}
}
static int do_open(Proc& p, const char* path, int flags, int mode, std::shared_ptr<Ofd>& out) {
	std::string a; Node* n = nullptr; int e = resolve(path, a, n, true); if(e) return e;
	if(!n) {
		if(!(flags & O_CREAT)) return ENOENT;
		auto par = K.fs.get(parent_of(a)); if(!par) return ENOENT; if(!par->dir) return ENOTDIR;
		n = K.fs.put(a, "", mode & 0777, mtime_now()); touch_dir(parent_of(a)); event(EV_FS_CREATE, p.pid, a);
	} else {
		if((flags & O_CREAT) && (flags & O_EXCL)) return EEXIST;
		if(n->dir && (flags & O_ACCMODE) != O_RDONLY) return EISDIR;
		if(!n->dir && (flags & O_DIRECTORY)) return ENOTDIR;
		if(!n->dir && (flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { n->data.clear(); n->mtime = mtime_now(); event(EV_FS_WRITE, p.pid, a, "trunc"); }
	}
	out = std::make_shared<Ofd>(); out->type = n->dir ? Ofd::Dir : Ofd::File; out->path = a; out->node = K.fs.m[a]; out->wr = (flags & O_ACCMODE) != O_RDONLY; out->append = flags & O_APPEND;
	return 0;
}

// ================================================================ programs' operations
long p_read(Proc& p, int fd, char* b, size_t n) { point("p_read"); return do_read(p, fd, b, n, false); }
long p_write(Proc& p, int fd, const char* b, size_t n) {
	point("p_write"); long r = do_write(p, fd, b, n, false);
	if(r == -EPIPE && !p.sigpipe_ign) throw ProcKilled{SIGPIPE};
	return r;
}
void p_close(Proc& p, int fd) { point("p_close"); p.fds.erase(fd); }
bool p_readfile(Proc& p, const std::string& path, std::string& out) {
	point("p_open"); std::string a; Node* n; if(resolve(path.c_str(), a, n) || n->dir) return false;
	out = n->data; (void)p; return true;
}
bool p_writefile(Proc& p, const std::string& path, const std::string& data, int chunks, u64 pause) {
	point("p_create"); std::shared_ptr<Ofd> o; std::string a = K.fs.abs(path);
	p.partial.push_back(a);
	if(do_open(p, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644, o)) { p.partial.pop_back(); return false; }
	int fd = alloc_fd(p, o, false, 3); o.reset(); size_t off = 0; if(chunks < 1) chunks = 1;
	for(int i = 0; i < chunks; ++i) { size_t n = i + 1 == chunks ? data.size() - off : data.size() / chunks; point("p_write"); if(pause) sleep_until(S.clock + pause, "recipe work"); if(n) do_write(p, fd, data.data() + off, n, false); off += n; }
	p.fds.erase(fd); p.partial.pop_back(); return true;
}
static bool do_unlink(Proc& p, const std::string& a) {
	auto n = K.fs.get(a); if(!n || n->dir) return false; K.fs.erase(a); touch_dir(parent_of(a)); event(EV_FS_UNLINK, p.pid, a); return true;
}
bool p_unlink(Proc& p, const std::string& path) { point("p_unlink"); return do_unlink(p, K.fs.abs(path)); }
bool p_mkdirs(Proc& p, const std::string& path) {
	point("p_mkdir"); std::string a = K.fs.abs(path); auto n = K.fs.get(a); if(n) return n->dir;
	for(size_t i = 1; i <= a.size(); ++i) if(i == a.size() || a[i] == '/') { std::string q = a.substr(0, i); auto d = K.fs.get(q); if(d && !d->dir) return false; if(!d) { K.fs.mkdirs(q, mtime_now()); touch_dir(parent_of(q)); event(EV_FS_MKDIR, p.pid, q); } }
	return true;
}

// ================================================================ main process end and crash
static void kill_threads(int pid, bool except_cur) { for(auto f : S.fibers) if(f->pid == pid && !(except_cur && f == S.cur)) kill_fiber(f); }
void main_exit(int code) {
	Proc* m = proc(MAIN_PID); K.main_done = true; S.oc.exit_status = code; std::string left; // what the program still holds when it ends
	if(code < 1000) { for(auto& f : m->fds) if(f.first > 2) left += (left.empty() ? "descriptor " : ", ") + std::to_string(f.first); if(zombies(MAIN_PID)) left += " zombies:" + std::to_string(zombies(MAIN_PID)); if(running_children(MAIN_PID)) left += " running children:" + std::to_string(running_children(MAIN_PID)); int th = 0; for(auto f : S.fibers) if(f->pid == MAIN_PID && f != S.mainf && f != S.cur && !f->joined) ++th; if(th) left += " unjoined threads:" + std::to_string(th); }
	event(EV_MAIN_EXIT, MAIN_PID, left, "", code);
	kill_threads(MAIN_PID, true); m->st = Proc::Zombie; m->fds.clear();
	for(auto& e : K.procs) if(e.second->ppid == MAIN_PID && e.second->st == Proc::Zombie) e.second->st = Proc::Reaped;
}
void crash_now() {
	S.oc.crashed = true; S.oc.exit_status = 1000 + SIGKILL; S.oc.st.fault_count[F_CRASH]++; event(EV_CRASH, MAIN_PID); K.main_done = true;
	kill_threads(MAIN_PID, false); Proc* m = proc(MAIN_PID); m->st = Proc::Zombie; m->fds.clear();
	for(auto& e : K.procs) if(e.second->ppid == MAIN_PID) {
		Proc& p = *e.second; if(p.st == Proc::Zombie) { p.st = Proc::Reaped; continue; }
		if(p.st == Proc::Run && S.spec.crash_all) {
			if(p.fib) kill_fiber(p.fib); p.killed = true;
			if(S.spec.crash_clean) for(auto& f : p.partial) do_unlink(p, f);
			proc_exit(p, SIGKILL);
		}
	}
}

// ================================================================ fork
static struct { Fiber* f; Proc* child; std::string snap; char* lo; std::vector<std::pair<char*, std::string>> undo; int depth; int err; void* eh[2]; bool second; } fk;
void undo_log(void* p, size_t n) {
	char* c = (char*)p; if(c >= fk.f->stack && c < fk.f->stack + fk.f->stacksz) return;
	int h = g_hook; g_hook = 0; fk.undo.emplace_back(c, std::string(c, n)); g_hook = h;
}
static void run_child(Proc* p);
[[noreturn]] static void child_done() {
	Fiber* f = S.cur; g_hook = 0;
	S.boot_req = [f]() -> void* {
		for(auto i = fk.undo.rbegin(); i != fk.undo.rend(); ++i) memcpy(i->first, i->second.data(), i->second.size());
		fk.undo.clear(); memcpy(fk.lo, fk.snap.data(), fk.snap.size());
		f->sp = fk.lo; f->depth = fk.depth; f->err = fk.err; memcpy(f->eh, fk.eh, 16); load_ctx(f); g_child = 0; g_hook = 0; fk.second = true;
		return f->sp; };
	void* dummy; sim_switch(&dummy, S.boot_sp); __builtin_unreachable();
}
[[noreturn]] static void child_escape(const char* what) {
	finding("fork_child_escape", std::string("forked child calls ") + what + " instead of executing its program");
	fk.child->ops.push_back({ChildOp::Exit, 255}); child_done();
}
static pid_t do_fork() {
	point("fork");
	if(fault(F_FORK, "fork")) { errno = EAGAIN; return -1; }
	Proc& par = me(); auto np = std::make_unique<Proc>(); np->pid = K.next_pid++; np->ppid = par.pid; np->fds = par.fds; np->sigpipe_ign = par.sigpipe_ign; np->cwd = par.cwd;
	int pid = np->pid; fk.child = np.get(); K.procs[pid] = std::move(np); K.forks++; S.oc.st.procs++;
	Fiber* f = S.cur; fk.f = f; fk.second = false; fk.undo.clear();
	S.boot_req = [f]() -> void* { fk.lo = (char*)f->sp; fk.snap.assign(fk.lo, f->stack + f->stacksz - fk.lo); fk.depth = f->depth; save_ctx(f); fk.err = f->err; memcpy(fk.eh, f->eh, 16); return f->sp; };
	sim_switch(&f->sp, S.boot_sp);
	if(!fk.second) { g_child = 1; return 0; }
	Proc* c = proc(pid);
	c->fib = spawn_fiber(pid, [c]() { run_child(c); }, "process");
	point("forked");
	return pid;
}
static int exec_check(const char* path, char* const argv[]) {
	std::string a; Node* n; int e = resolve(path, a, n); if(e) return e;
	if(n->dir || !(n->mode & 0111)) return EACCES;
	size_t tot = 0; for(int i = 0; argv && argv[i]; ++i) { size_t l = strlen(argv[i]) + 1; if(l >= K.argmax) return E2BIG; tot += l; } if(tot > 16 * K.argmax) return E2BIG;
	if(n->data.compare(0, 5, "#!sim") != 0) return ENOEXEC;
	std::string nm = n->data.substr(6, n->data.find('\n') - 6); if(!programs.count(nm)) return ENOEXEC;
	static const int errs[] = {ENOMEM, EACCES, ETXTBSY, EIO, EMFILE};
	if(fault(F_EXEC, (std::string(path) + (argv && argv[0] && argv[1] ? std::string(" ") + argv[1] : "")).c_str())) return errs[S.fault_arg % 5];
	return 0;
}
static void run_child(Proc* p) {
	int status = 0;
	try {
		for(auto& op : p->ops) {
			point("child");
			switch(op.k) {
				case ChildOp::Close: p->fds.erase(op.a); break;
				case ChildOp::Dup2: if(p->fds.count(op.a) && op.a != op.b) { auto o = p->fds[op.a].o; p->fds[op.b] = FdEnt{o, false}; } break;
				case ChildOp::Cloexec: if(p->fds.count(op.a)) p->fds[op.a].cloexec = op.b & FD_CLOEXEC; break;
				case ChildOp::Write: { long r = do_write(*p, op.a, op.s.data(), op.s.size(), false); if(r == -EPIPE && !p->sigpipe_ign) throw ProcKilled{SIGPIPE}; break; }
				case ChildOp::Hang: for(;;) { block("a lock held by another thread of the parent at fork", p); }
				case ChildOp::Exit: status = (op.a & 255) << 8; throw ProcExit{status};
				case ChildOp::Exec: {
					for(auto i = p->fds.begin(); i != p->fds.end();) if(i->second.cloexec) i = p->fds.erase(i); else ++i;
					p->exe = K.fs.abs(op.s); p->argv = op.argv; p->execed = true;
					std::string extra; for(auto& f : p->fds) if(f.first > 2 && (f.second.o->type == Ofd::PipeR || f.second.o->type == Ofd::PipeW)) { p->inherited++; }
					event(EV_PROC_START, p->pid, p->argv.size() > 1 ? p->argv[1] : "", p->argv.size() > 2 ? p->argv[2] : "", (i64)p->inherited);
					event(EV_NOTE, p->pid, p->exe);
					auto n = K.fs.get(p->exe); std::string nm = n ? n->data.substr(6, n->data.find('\n') - 6) : "";
					auto pr = programs.find(nm); if(pr == programs.end()) throw ProcExit{127 << 8};
					int c = pr->second(*p); throw ProcExit{(c & 255) << 8}; }
			}
		}
	}
	catch(ProcExit& e) { status = e.code; }
	catch(ProcKilled& k) { status = k.sig; }
	point("p_exit");
	proc_exit(*p, status);
}
} // namespace sim

using namespace sim;
#define APP (g_hook)
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define NOCHILD(what) do { if(g_child) child_escape(what); } while(0)
static long seterr(long r) { if(r < 0) { errno = (int)-r; return -1; } return r; }

extern "C" {
// a forked child that throws leaves the code between fork and exec
[[noreturn]] void sim_cxa_throw(void* o, void* t, void (*d)(void*)) asm("__cxa_throw");
void sim_cxa_throw(void* o, void* t, void (*d)(void*)) {
	typedef void (*thr_t)(void*, void*, void (*)(void*)); static thr_t real = (thr_t)dlsym(RTLD_NEXT, "__cxa_throw");
	if(g_child) { Rt rt; child_escape("throw"); } real(o, t, d); __builtin_unreachable();
}
// ---------------------------------------------------------------- threads
typedef void* (*thr_fn)(void*);
int pthread_create(pthread_t* t, const pthread_attr_t*, thr_fn fn, void* arg) {
	if(!APP) { fprintf(stderr, "sim: thread outside simulation\n"); _exit(71); }
	Rt rt; NOCHILD("pthread_create"); point("thread_create"); K.thread_creates++;
	if(fault(F_THREAD, "pthread_create")) return EAGAIN;
	int pid = S.cur->pid;
	Fiber* f = spawn_fiber(pid, [fn, arg]() {
		Fiber* me = S.cur; --me->depth; g_hook = 1; void* r = nullptr;
		r = fn(arg);
		g_hook = 0; ++me->depth; me->ret = r;
	}, "thread");
	vc_spawn(f); *t = (pthread_t)(f->id + 1);
	point("thread_created"); return 0;
}
int pthread_join(pthread_t t, void** ret) {
	if(!APP) return ESRCH; Rt rt; NOCHILD("pthread_join"); point("join");
	size_t id = (size_t)t - 1; if(id >= S.fibers.size()) { finding("lifetime", "join of a thread that was never created"); return ESRCH; }
	Fiber* f = S.fibers[id];
	if(f == S.cur) return EDEADLK;
	if(f->joined || f->detached) { finding("lifetime", "thread joined twice"); return EINVAL; }
	f->joined = true;
	while(f->st != Fiber::Done) { f->joiners.push_back(S.cur); block("thread join", f); }
	if(g_race) vc_join(f); if(ret) *ret = f->ret; return 0;
}
int pthread_detach(pthread_t t) { if(!APP) return 0; Rt rt; size_t id = (size_t)t - 1; if(id < S.fibers.size()) S.fibers[id]->detached = true; return 0; }
pthread_t pthread_self() { if(!APP) { REAL(pthread_t, pthread_self, void); return real(); } return (pthread_t)(S.cur->id + 1); }
int pthread_setname_np(pthread_t, const char*) { return 0; }

// ---------------------------------------------------------------- mutexes (state lives in the object)
static void cw(int* p, int v) { if(g_child) undo_log(p, 4); *p = v; }
static int mtx_lock(pthread_mutex_t* m, bool try_) {
	int* w = (int*)m; int me = S.cur->id + 1;
	if(w[0] == me) { if((m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP) { cw(w + 1, w[1] + 1); return 0; } if(try_) return EBUSY; if((m->__data.__kind & 127) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; }
	while(w[0]) {
		if(try_) return EBUSY;
		if(g_child) { fk.child->ops.push_back({ChildOp::Hang}); child_done(); }
		probe(0); wait_on("mutex", m);
	}
	cw(w, me); cw(w + 1, 1); acquire(syncvc(m)); return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if(a) { int k = *(int*)a & 127; m->__data.__kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if(APP) { Rt rt; if(*(int*)m) finding("lifetime", "mutex destroyed while locked"); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if(!APP) return 0; Rt rt; point("lock"); return mtx_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if(!APP) return 0; Rt rt; point("trylock"); return mtx_lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { if(!APP) return 0; Rt rt; point("lock"); return mtx_lock(m, false); }
static void mtx_unlock(pthread_mutex_t* m) {
	int* w = (int*)m; if(w[0] != S.cur->id + 1) { finding("lifetime", "mutex unlocked by a thread that does not hold it"); return; }
	if(w[1] > 1) { cw(w + 1, w[1] - 1); return; }
	release(syncvc(m)); cw(w + 1, 0); cw(w, 0); if(!g_child) wake_all(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if(!APP) return 0; Rt rt; mtx_unlock(m); point("unlock"); return 0; }

// ---------------------------------------------------------------- condition variables
static std::map<const void*, std::vector<Fiber*>> condq; static u64 sigcount;
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
	NOCHILD("pthread_cond_wait"); point("cond_wait");
	Fiber* f = S.cur; int rc = 0;
	bool spurious = fault(F_SPURIOUS, "cond");
	if(*(int*)m != f->id + 1) finding("lifetime", "condition wait without holding the mutex");
	if(!spurious) condq[c].push_back(f);
	mtx_unlock(m);
	if(spurious) { probe(1); point("spurious"); }
	else if(deadline == ~0ull) block("condition variable", c);
	else if(!block_until("condition variable", c, deadline)) { auto& q = condq[c]; auto i = std::find(q.begin(), q.end(), f); if(i != q.end()) q.erase(i); rc = ETIMEDOUT; }
	mtx_lock(m, false); return rc;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(!APP) _exit(72); Rt rt; return cond_wait(c, m, ~0ull); }
static u64 to_clock(int clk, const struct timespec* ts) { u64 t = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; u64 off = clk == CLOCK_REALTIME ? K.base_time : 1000000000ull; return t > off ? t - off : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if(!APP) _exit(72); Rt rt; return cond_wait(c, m, to_clock(k, ts)); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if(!APP) _exit(72); Rt rt; return cond_wait(c, m, to_clock(CLOCK_REALTIME, ts)); }
int pthread_cond_signal(pthread_cond_t* c) {
	if(!APP) return 0; Rt rt; point("signal"); auto i = condq.find(c);
	if(i != condq.end() && !i->second.empty()) {
		size_t k = 0, n = i->second.size();
		if(n > 1) { u64 key = (1ull << 62) + ++sigcount; if(S.spec.replay) { auto d = S.spec.sched.find(key); if(d != S.spec.sched.end()) k = d->second % n; } else if(S.spec.strategy != 4) k = S.srng.below(n); if(k) S.oc.sched[key] = (u32)k; }
		Fiber* f = i->second[k]; i->second.erase(i->second.begin() + (long)k); wake(f); }
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { if(!APP) return 0; Rt rt; point("broadcast"); auto i = condq.find(c); if(i != condq.end()) { auto v = std::move(i->second); condq.erase(i); for(auto f : v) wake(f); } return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if(!APP) return 0; Rt rt; auto i = condq.find(c); if(i != condq.end()) { if(!i->second.empty()) finding("lifetime", "condition variable destroyed while a thread waits on it"); condq.erase(i); } return 0; }

// ---------------------------------------------------------------- rwlocks: word0 = writer+1, word1 = readers
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if(APP) { Rt rt; int* w = (int*)l; if(w[0] || w[1]) finding("lifetime", "rwlock destroyed while locked"); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if(!APP) return 0; Rt rt; point("rdlock"); int* w = (int*)l; if(w[0] == S.cur->id + 1) return EDEADLK; while(w[0]) { if(g_child) { fk.child->ops.push_back({ChildOp::Hang}); child_done(); } wait_on("rwlock", l); } cw(w + 1, w[1] + 1); acquire(syncvc(l)); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if(!APP) return 0; Rt rt; point("rdlock"); int* w = (int*)l; if(w[0]) return EBUSY; cw(w + 1, w[1] + 1); acquire(syncvc(l)); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if(!APP) return 0; Rt rt; point("wrlock"); int* w = (int*)l; if(w[0] == S.cur->id + 1) return EDEADLK; while(w[0] || w[1]) { if(g_child) { fk.child->ops.push_back({ChildOp::Hang}); child_done(); } wait_on("rwlock", l); } cw(w, S.cur->id + 1); acquire(syncvc(l)); acquire(syncvc((char*)l + 1)); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if(!APP) return 0; Rt rt; point("wrlock"); int* w = (int*)l; if(w[0] || w[1]) return EBUSY; cw(w, S.cur->id + 1); acquire(syncvc(l)); acquire(syncvc((char*)l + 1)); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
	if(!APP) return 0; Rt rt; int* w = (int*)l;
	if(w[0] == S.cur->id + 1) { release(syncvc(l)); cw(w, 0); } else if(w[1] > 0) { release(syncvc((char*)l + 1)); cw(w + 1, w[1] - 1); } else { finding("lifetime", "rwlock unlocked but not held"); return 0; }
	if(!g_child) wake_all(l); point("rwunlock"); return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
	int* w = (int*)o; if(*w == 2) { if(APP) { Rt rt; acquire(syncvc(o)); } return 0; }
	if(!APP) { *w = 2; fn(); return 0; }
	{ Rt rt; while(*w == 1) wait_on("once", o); if(*w == 2) { acquire(syncvc(o)); return 0; } *w = 1; }
	fn();
	{ Rt rt; *w = 2; release(syncvc(o)); wake_all(o); } return 0;
}
int sim_guard_acquire(char* g) asm("__cxa_guard_acquire");
int sim_guard_acquire(char* g) {
	if(!APP) { if(g[0]) return 0; g[1] = 1; return 1; }
	Rt rt; point("static_init"); while(g[1] && !g[0]) { if(g_child) { fk.child->ops.push_back({ChildOp::Hang}); child_done(); } wait_on("static initialisation", g); }
	if(g[0]) { acquire(syncvc(g)); return 0; } if(g_child) undo_log(g, 8); g[1] = 1; return 1;
}
void sim_guard_release(char* g) asm("__cxa_guard_release");
void sim_guard_release(char* g) { if(g_child) undo_log(g, 8); g[0] = 1; g[1] = 0; if(APP) { Rt rt; release(syncvc(g)); if(!g_child) wake_all(g); } }
void sim_guard_abort(char* g) asm("__cxa_guard_abort");
void sim_guard_abort(char* g) { if(g_child) undo_log(g, 8); g[1] = 0; if(APP) { Rt rt; if(!g_child) wake_all(g); } }

// ---------------------------------------------------------------- time
static void fill(struct timespec* t, u64 v) { t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull); }
int clock_gettime(clockid_t c, struct timespec* t) { if(!APP) return (int)syscall(SYS_clock_gettime, c, t); Rt rt; point("clock"); fill(t, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall() : S.clock + 1000000000ull); return 0; }
int gettimeofday(struct timeval* tv, void*) { if(!APP) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; } Rt rt; tv->tv_sec = (time_t)(wall() / 1000000000ull); tv->tv_usec = (long)(wall() % 1000000000ull / 1000); return 0; }
time_t time(time_t* p) { time_t r; if(!APP) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; } else { Rt rt; r = (time_t)(wall() / 1000000000ull); } if(p) *p = r; return r; }
int nanosleep(const struct timespec* a, struct timespec* b) { if(!APP) return (int)syscall(SYS_nanosleep, a, b); Rt rt; NOCHILD("nanosleep"); sleep_until(S.clock + (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec, "sleep"); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if(!APP) return (int)syscall(SYS_clock_nanosleep, c, fl, a, b); Rt rt; NOCHILD("nanosleep"); sleep_until(fl & TIMER_ABSTIME ? to_clock(c, a) : S.clock + (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec, "sleep"); return 0; }
int usleep(useconds_t us) { if(!APP) return 0; Rt rt; NOCHILD("usleep"); sleep_until(S.clock + us * 1000ull, "sleep"); return 0; }
unsigned sleep(unsigned s) { if(!APP) return 0; Rt rt; NOCHILD("sleep"); sleep_until(S.clock + s * 1000000000ull, "sleep"); return 0; }
int sched_yield() { if(!APP) return 0; Rt rt; point("yield"); return 0; }
int get_nprocs() { return K.nproc; }
int get_nprocs_conf() { return K.nproc; }
int uname(struct utsname* u) { if(!APP) return (int)syscall(SYS_uname, u); memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "simhost"); strcpy(u->release, "6.0"); strcpy(u->version, "1"); strcpy(u->machine, "x86_64"); return 0; }
int getentropy(void* b, size_t n) { if(!APP) return (int)syscall(SYS_getrandom, b, n, 0) < 0 ? -1 : 0; for(size_t i = 0; i < n; ++i) ((u8*)b)[i] = (u8)Rng::mix(K.rnd++); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned fl) { if(!APP) return syscall(SYS_getrandom, b, n, fl); for(size_t i = 0; i < n; ++i) ((u8*)b)[i] = (u8)Rng::mix(K.rnd++); return (ssize_t)n; }
unsigned arc4random() { return (unsigned)Rng::mix(K.rnd++); }

// ---------------------------------------------------------------- files
static int sim_open(const char* path, int flags, int mode) {
	Rt rt; NOCHILD("open"); point("open");
	if(fault(F_OPEN, path)) { static const int es[] = {EMFILE, EACCES, EIO, ENFILE}; errno = es[S.fault_arg % 4]; return -1; }
	std::shared_ptr<Ofd> o; int e = do_open(me(), path, flags, mode, o); if(e) { errno = e; return -1; }
	int fd = alloc_fd(me(), o, flags & O_CLOEXEC, 0); if(fd < 0) { errno = EMFILE; return -1; } return fd;
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if(!APP) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); return sim_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if(!APP) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); return sim_open(p, fl, m); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static std::string at_path(int dfd, const char* p) { if(p[0] == '/' || dfd == AT_FDCWD) return p; auto o = ofd(me(), dfd); return o ? o->path + "/" + p : p; }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if(!APP) return (int)syscall(SYS_openat, d, p, fl, m); std::string q; { Rt rt; q = at_path(d, p); } return sim_open(q.c_str(), fl, m); }
int __openat_2(int d, const char* p, int fl) { return openat(d, p, fl); }
int __open_2(const char* p, int fl) { return open(p, fl); }
ssize_t read(int fd, void* b, size_t n) {
	if(!APP) return syscall(SYS_read, fd, b, n); Rt rt; NOCHILD("read"); point("read");
	long r = do_read(me(), fd, (char*)b, n, true); if(r == -EBADF) finding("badfd", "read from a descriptor that is not open"); return seterr(r);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t off) { if(!APP) return syscall(SYS_pread64, fd, b, n, off); Rt rt; auto o = ofd(me(), fd); if(!o || o->type != Ofd::File) { errno = EBADF; return -1; } size_t s = o->off; o->off = (size_t)off; long r = do_read(me(), fd, (char*)b, n, true); o->off = s; return seterr(r); }
ssize_t write(int fd, const void* b, size_t n) {
	if(!APP) return syscall(SYS_write, fd, b, n); Rt rt;
	if(g_child) { fk.child->ops.push_back({ChildOp::Write, fd, 0, std::string((const char*)b, n)}); return (ssize_t)n; }
	point("write"); Proc& p = me(); long r = do_write(p, fd, (const char*)b, n, true);
	if(r == -EBADF) finding("badfd", "write to a descriptor that is not open");
	if(r == -EPIPE && !p.sigpipe_ign) { finding("sigpipe", "the program is killed by SIGPIPE"); main_exit(1000 + SIGPIPE); end_run("sigpipe"); }
	return seterr(r);
}
ssize_t writev(int fd, const struct iovec* v, int c) { if(!APP) return syscall(SYS_writev, fd, v, c); ssize_t t = 0; for(int i = 0; i < c; ++i) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if(r < 0) return t ? t : r; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
int close(int fd) {
	if(!APP) return (int)syscall(SYS_close, fd); Rt rt;
	if(g_child) { fk.child->ops.push_back({ChildOp::Close, fd}); return 0; }
	point("close"); Proc& p = me(); auto i = p.fds.find(fd);
	if(i == p.fds.end()) { if(fd >= 0) finding("badfd", "close of a descriptor that is not open (double close)"); errno = EBADF; return -1; }
	auto o = std::move(i->second.o); p.fds.erase(i); o.reset(); return 0;
}
off_t lseek(int fd, off_t o, int w) { if(!APP) return syscall(SYS_lseek, fd, o, w); Rt rt; auto f = ofd(me(), fd); if(!f) { errno = EBADF; return -1; } if(f->type != Ofd::File) { errno = ESPIPE; return -1; } f->off = (size_t)(w == SEEK_SET ? o : w == SEEK_CUR ? (off_t)f->off + o : (off_t)f->node->data.size() + o); return (off_t)f->off; }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
static void fill_stat(struct stat* st, Node* n) {
	memset(st, 0, sizeof *st); st->st_ino = n->ino; st->st_dev = 1; st->st_nlink = 1; st->st_mode = (mode_t)((n->dir ? S_IFDIR : S_IFREG) | n->mode); st->st_size = (off_t)n->data.size();
	st->st_mtim.tv_sec = (time_t)(n->mtime / 1000000000ull); st->st_mtim.tv_nsec = (long)(n->mtime % 1000000000ull); st->st_ctim = st->st_atim = st->st_mtim; st->st_blksize = 4096;
}
static int sim_stat(const char* p, struct stat* st) {
	Rt rt; NOCHILD("stat"); point("stat");
	if(fault(F_STAT, p)) { errno = S.fault_arg % 2 ? EIO : EACCES; return -1; }
	std::string a; Node* n; int e = resolve(p, a, n); if(e) { errno = e; return -1; } fill_stat(st, n); return 0;
}
int stat(const char* p, struct stat* st) { if(!APP) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); return sim_stat(p, st); }
int lstat(const char* p, struct stat* st) { if(APP && !strcmp(p, "/proc/self/exe")) { memset(st, 0, sizeof *st); st->st_mode = S_IFLNK | 0777; st->st_nlink = 1; return 0; } if(!APP) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); return sim_stat(p, st); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int fl) { if(!APP) return (int)syscall(SYS_newfstatat, d, p, st, fl); std::string q; { Rt rt; q = at_path(d, p); } return sim_stat(q.c_str(), st); }
int fstat(int fd, struct stat* st) {
	if(!APP) return (int)syscall(SYS_fstat, fd, st); Rt rt; auto o = ofd(me(), fd); if(!o) { errno = EBADF; return -1; }
	if(o->node) fill_stat(st, o->node.get()); else { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; } return 0;
}
int access(const char* p, int m) { if(!APP) return (int)syscall(SYS_access, p, m); struct stat st; if(sim_stat(p, &st)) return -1; if((m & X_OK) && !S_ISDIR(st.st_mode) && !(st.st_mode & 0111)) { errno = EACCES; return -1; } return 0; }
int faccessat(int d, const char* p, int m, int fl) { if(!APP) return (int)syscall(SYS_faccessat, d, p, m, fl); return access(p, m); }

struct SimDir { int fd; std::vector<std::string> names; size_t pos; std::string path; struct dirent ent; };
static DIR* sim_opendir(int fd) {
	auto o = ofd(me(), fd); if(!o || o->type != Ofd::Dir) { errno = ENOTDIR; return nullptr; }
	if(fault(F_OPENDIR, o->path.c_str())) { errno = EIO; return nullptr; }
	auto d = new SimDir{fd, K.fs.list(o->path), 0, o->path, {}}; Rng r(K.dirseed ^ std::hash<std::string>()(o->path));
	if(K.dirseed) for(size_t i = d->names.size(); i > 1; --i) std::swap(d->names[i - 1], d->names[r.below(i)]);
	size_t at = K.dirseed ? r.below(d->names.size() + 1) : 0; d->names.insert(d->names.begin() + (long)at, "."); at = K.dirseed ? r.below(d->names.size() + 1) : 1; d->names.insert(d->names.begin() + (long)at, "..");
	return (DIR*)d;
}
DIR* opendir(const char* p) {
	if(!APP) { REAL(DIR*, opendir, const char*); return real(p); }
	int fd = sim_open(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0); if(fd < 0) return nullptr; Rt rt; DIR* d = sim_opendir(fd); if(!d) { int e = errno; me().fds.erase(fd); errno = e; } return d;
}
DIR* fdopendir(int fd) { if(!APP) { REAL(DIR*, fdopendir, int); return real(fd); } Rt rt; return sim_opendir(fd); }
struct dirent* readdir(DIR* dd) {
	if(!APP) { REAL(struct dirent*, readdir, DIR*); return real(dd); }
	Rt rt; point("readdir"); auto d = (SimDir*)dd;
	if(d->pos >= d->names.size()) return nullptr;
	if(fault(F_READDIR, d->path.c_str())) { errno = EIO; return nullptr; }
	auto& nm = d->names[d->pos++]; memset(&d->ent, 0, sizeof d->ent); d->ent.d_ino = d->pos; strncpy(d->ent.d_name, nm.c_str(), 255);
	Node* n = nm == "." || nm == ".." ? nullptr : K.fs.get((d->path == "/" ? "" : d->path) + "/" + nm);
	d->ent.d_type = K.dt_unknown ? DT_UNKNOWN : (!n || n->dir) ? DT_DIR : DT_REG; return &d->ent;
}
struct dirent64* readdir64(DIR* dd) { return (struct dirent64*)readdir(dd); }
int closedir(DIR* dd) { if(!APP) { REAL(int, closedir, DIR*); return real(dd); } Rt rt; auto d = (SimDir*)dd; point("closedir"); me().fds.erase(d->fd); delete d; return 0; }
int dirfd(DIR* dd) { if(!APP) { REAL(int, dirfd, DIR*); return real(dd); } return ((SimDir*)dd)->fd; }
ssize_t readlink(const char* p, char* b, size_t n) {
	if(!APP) return syscall(SYS_readlink, p, b, n); Rt rt; point("readlink");
	if(!strcmp(p, "/proc/self/exe")) { size_t k = std::min(n, K.exe_path.size()); memcpy(b, K.exe_path.data(), k); return (ssize_t)k; }
	std::string a; Node* x; int e = resolve(p, a, x); errno = e ? e : EINVAL; return -1;
}
char* realpath(const char* p, char* out) {
	if(!APP) { REAL(char*, realpath, const char*, char*); return real(p, out); }
	Rt rt; std::string a; Node* n; int e = resolve(p, a, n); if(e) { errno = e; return nullptr; } if(!out) return strdup(a.c_str()); strcpy(out, a.c_str()); return out;
}
char* getcwd(char* b, size_t n) { if(!APP) { long r = syscall(SYS_getcwd, b, n); return r < 0 ? nullptr : b; } Rt rt; std::string& c = me().cwd; if(!b) return strdup(c.c_str()); if(n <= c.size()) { errno = ERANGE; return nullptr; } strcpy(b, c.c_str()); return b; }
int chdir(const char* p) { if(!APP) return (int)syscall(SYS_chdir, p); Rt rt; finding("chdir", "the program changes its working directory"); (void)p; return 0; }
static int sim_unlink(const char* p, bool dir, bool any) {
	Rt rt; NOCHILD("unlink"); point("unlink");
	if(fault(F_UNLINK, p)) { errno = EACCES; return -1; }
	std::string a; Node* n; int e = resolve(p, a, n); if(e) { errno = e; return -1; }
	if(n->dir) { if(!dir && !any) { errno = EISDIR; return -1; } if(K.fs.has_children(a)) { errno = ENOTEMPTY; return -1; } }
	else if(dir && !any) { errno = ENOTDIR; return -1; }
	K.fs.erase(a); touch_dir(parent_of(a)); event(EV_FS_UNLINK, S.cur->pid, a); return 0;
}
int unlink(const char* p) { if(!APP) return (int)syscall(SYS_unlink, p); return sim_unlink(p, false, false); }
int rmdir(const char* p) { if(!APP) return (int)syscall(SYS_rmdir, p); return sim_unlink(p, true, false); }
int remove(const char* p) { if(!APP) { REAL(int, remove, const char*); return real(p); } return sim_unlink(p, true, true); }
int unlinkat(int d, const char* p, int fl) { if(!APP) return (int)syscall(SYS_unlinkat, d, p, fl); std::string q; { Rt rt; q = at_path(d, p); } return sim_unlink(q.c_str(), fl & AT_REMOVEDIR, false); }
int mkdir(const char* p, mode_t m) {
	if(!APP) return (int)syscall(SYS_mkdir, p, m); Rt rt; NOCHILD("mkdir"); point("mkdir"); std::string a; Node* n; int e = resolve(p, a, n, true); if(e) { errno = e; return -1; } if(n) { errno = EEXIST; return -1; }
	K.fs.mkdirs(a, mtime_now()); touch_dir(parent_of(a)); event(EV_FS_MKDIR, S.cur->pid, a); return 0;
}
int rename(const char* p, const char* q) {
	if(!APP) return (int)syscall(SYS_rename, p, q); Rt rt; NOCHILD("rename"); point("rename"); std::string a, b; Node *n, *m; int e = resolve(p, a, n); if(!e) e = resolve(q, b, m, true); if(e) { errno = e; return -1; }
	auto np = K.fs.m[a]; K.fs.m.erase(a); K.fs.m[b] = np; event(EV_FS_RENAME, S.cur->pid, b, a); return 0;
}
int utimensat(int d, const char* p, const struct timespec ts[2], int fl) {
	if(!APP) return (int)syscall(SYS_utimensat, d, p, ts, fl); Rt rt; point("utimens"); std::string a; Node* n; int e = resolve(p, a, n); if(e) { errno = e; return -1; }
	u64 t = wall(); if(ts && ts[1].tv_nsec != UTIME_NOW) t = (u64)ts[1].tv_sec * 1000000000ull + (u64)ts[1].tv_nsec; if(!(ts && ts[1].tv_nsec == UTIME_OMIT)) n->mtime = t; event(EV_FS_OTHER, S.cur->pid, a, "utimens"); return 0;
}
int truncate(const char* p, off_t l) { if(!APP) return (int)syscall(SYS_truncate, p, l); Rt rt; std::string a; Node* n; int e = resolve(p, a, n); if(e) { errno = e; return -1; } n->data.resize((size_t)l); n->mtime = mtime_now(); event(EV_FS_WRITE, S.cur->pid, a, "truncate"); return 0; }
int chmod(const char* p, mode_t m) { if(!APP) return (int)syscall(SYS_chmod, p, m); Rt rt; std::string a; Node* n; int e = resolve(p, a, n); if(e) { errno = e; return -1; } n->mode = (int)m & 07777; event(EV_FS_OTHER, S.cur->pid, a, "chmod"); return 0; }
int fchmodat(int d, const char* p, mode_t m, int fl) { if(!APP) return (int)syscall(SYS_fchmodat, d, p, m, fl); return chmod(p, m); }
int symlink(const char* a, const char* b) { if(!APP) return (int)syscall(SYS_symlink, a, b); Rt rt; event(EV_FS_OTHER, S.cur->pid, b, "symlink"); errno = EPERM; return -1; }
int link(const char* a, const char* b) { if(!APP) return (int)syscall(SYS_link, a, b); Rt rt; event(EV_FS_OTHER, S.cur->pid, b, "link"); errno = EPERM; return -1; }
int isatty(int fd) { if(!APP) { REAL(int, isatty, int); return real(fd); } (void)fd; if(!K.tty) { errno = ENOTTY; return 0; } return 1; }

// ---------------------------------------------------------------- pipes, processes
static int sim_pipe(int* fds, int fl) {
	Rt rt; NOCHILD("pipe"); point("pipe");
	if(fault(F_PIPE, "pipe")) { errno = EMFILE; return -1; }
	auto p = std::make_shared<Pipe>(); p->cap = S.spec.pipe_cap; p->nr = p->nw = 1; p->id = K.next_pipe++;
	auto r = std::make_shared<Ofd>(); r->type = Ofd::PipeR; r->pipe = p; auto w = std::make_shared<Ofd>(); w->type = Ofd::PipeW; w->pipe = p; r->nb = w->nb = fl & O_NONBLOCK;
	bool ce = fl & O_CLOEXEC; int a = alloc_fd(me(), r, ce); int b = a < 0 ? -1 : alloc_fd(me(), w, ce);
	if(b < 0) { if(a >= 0) me().fds.erase(a); errno = EMFILE; return -1; }
	fds[0] = a; fds[1] = b; return 0;
}
int pipe(int* f) { if(!APP) return (int)syscall(SYS_pipe2, f, 0); return sim_pipe(f, 0); }
int pipe2(int* f, int fl) { if(!APP) return (int)syscall(SYS_pipe2, f, fl); return sim_pipe(f, fl); }
int dup2(int a, int b) {
	if(!APP) return (int)syscall(SYS_dup2, a, b); Rt rt; if(g_child) { fk.child->ops.push_back({ChildOp::Dup2, a, b}); return b; }
	point("dup2"); Proc& p = me(); auto i = p.fds.find(a); if(i == p.fds.end()) { errno = EBADF; return -1; } auto o = i->second.o; if(a != b) p.fds[b] = FdEnt{o, false}; return b;
}
int dup3(int a, int b, int fl) { if(!APP) return (int)syscall(SYS_dup3, a, b, fl); int r = dup2(a, b); if(r >= 0 && (fl & O_CLOEXEC)) { Rt rt; if(g_child) fk.child->ops.push_back({ChildOp::Cloexec, b, FD_CLOEXEC}); else me().fds[b].cloexec = true; } return r; }
int dup(int a) { if(!APP) return (int)syscall(SYS_dup, a); Rt rt; NOCHILD("dup"); auto o = ofd(me(), a); if(!o) { errno = EBADF; return -1; } return alloc_fd(me(), o, false); }
int fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); if(!APP) return (int)syscall(SYS_fcntl, fd, cmd, arg); Rt rt;
	if(g_child) { if(cmd == F_SETFD) fk.child->ops.push_back({ChildOp::Cloexec, fd, (int)arg}); return 0; }
	point("fcntl"); Proc& p = me(); auto i = p.fds.find(fd); if(i == p.fds.end()) { errno = EBADF; return -1; }
	switch(cmd) { case F_SETFD: i->second.cloexec = arg & FD_CLOEXEC; return 0; case F_GETFD: return i->second.cloexec ? FD_CLOEXEC : 0; case F_GETFL: return (i->second.o->type == Ofd::PipeW ? O_WRONLY : i->second.o->wr ? O_RDWR : 0) | (i->second.o->nb ? O_NONBLOCK : 0); case F_SETFL: i->second.o->nb = arg & O_NONBLOCK; return 0; case F_DUPFD: return alloc_fd(p, i->second.o, false, (int)arg); case F_DUPFD_CLOEXEC: return alloc_fd(p, i->second.o, true, (int)arg); default: return 0; }
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
pid_t fork() { if(!APP) { REAL(pid_t, fork, void); return real(); } Rt rt; NOCHILD("fork"); return do_fork(); }
pid_t vfork() { return fork(); }
int execve(const char* path, char* const argv[], char* const envp[]) {
	if(!APP) return (int)syscall(SYS_execve, path, argv, envp); Rt rt;
	if(!g_child) { finding("exec_self", "the program replaces itself"); end_run("exec"); }
	int e = exec_check(path, argv); if(e) { event(EV_LAUNCH_FAIL, fk.child->pid, path, "", e); errno = e; return -1; }
	ChildOp op{ChildOp::Exec}; op.s = path; for(int i = 0; argv[i]; ++i) op.argv.push_back(argv[i]); fk.child->ops.push_back(op); child_done();
}
int execv(const char* p, char* const a[]) { return execve(p, a, environ); }
int execvp(const char* p, char* const a[]) { return execve(p, a, environ); }
int execvpe(const char* p, char* const a[], char* const e[]) { return execve(p, a, e); }
static void app_exit(int c) { Rt rt; if(g_child) { fk.child->ops.push_back({ChildOp::Exit, c & 255}); child_done(); } main_exit(c & 255); fiber_exit(); }
void _exit(int c) { if(APP) app_exit(c); syscall(SYS_exit_group, c); __builtin_unreachable(); }
void _Exit(int c) { _exit(c); }
void exit(int c) { if(APP) app_exit(c); REAL(void, exit, int); real(c); __builtin_unreachable(); }
void __cxa_call_terminate(void*) { abort(); } // libstdc++ comes here when an exception leaves a noexcept function (gcc 13 passes an uninitialised pointer in places)
void abort() {
	if(APP || (S.active && S.cur)) { g_hook = 0; if(g_child) { fk.child->ops.push_back({ChildOp::Exit, 134}); child_done(); }
		finding("abort", "the program aborts (std::terminate, assertion or abort())"); main_exit(1000 + SIGABRT); end_run("abort"); }
	signal(SIGABRT, SIG_DFL); raise(SIGABRT); syscall(SYS_exit_group, 134); __builtin_unreachable();
}
pid_t waitpid(pid_t pid, int* st, int opt) {
	if(!APP) return (pid_t)syscall(SYS_wait4, pid, st, opt, nullptr); Rt rt; NOCHILD("waitpid"); point("waitpid");
	for(;;) {
		bool any = false;
		for(auto& e : K.procs) if(e.second->ppid == S.cur->pid && e.second->st != Proc::Reaped && (pid == -1 || pid == 0 || e.first == pid)) {
			any = true; if(e.second->st == Proc::Zombie) { e.second->st = Proc::Reaped; if(st) *st = e.second->status; event(EV_REAPED, e.first); return e.first; }
		}
		if(!any) { errno = ECHILD; return -1; }
		if(opt & WNOHANG) return 0;
		wait_on("child process exit", &K.next_pid);
	}
}
pid_t wait4(pid_t p, int* st, int o, struct rusage*) { return waitpid(p, st, o); }
int waitid(idtype_t t, id_t id, siginfo_t* si, int opt) {
	if(!APP) return (int)syscall(SYS_waitid, t, id, si, opt, nullptr); int st = 0; pid_t r;
	if(opt & WNOWAIT) { Rt rt; point("waitid"); for(;;) { Proc* z = nullptr; bool any = false; for(auto& e : K.procs) if(e.second->ppid == S.cur->pid && e.second->st != Proc::Reaped && (t == P_ALL || e.first == (int)id)) { any = true; if(e.second->st == Proc::Zombie) z = e.second.get(); } if(!any) { errno = ECHILD; return -1; } if(z) { r = z->pid; st = z->status; break; } if(opt & WNOHANG) { if(si) memset(si, 0, sizeof *si); return 0; } wait_on("child process exit", &K.next_pid); } }
	else r = waitpid(t == P_ALL ? -1 : (pid_t)id, &st, opt & WNOHANG);
	if(r < 0) return -1; if(si) { memset(si, 0, sizeof *si); if(r) { si->si_pid = r; si->si_signo = SIGCHLD; if(WIFEXITED(st)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS(st); } else { si->si_code = CLD_KILLED; si->si_status = WTERMSIG(st); } } } return 0;
}
pid_t wait(int* st) { return waitpid(-1, st, 0); }
int kill(pid_t pid, int sig) {
	if(!APP) return (int)syscall(SYS_kill, pid, sig); Rt rt; auto p = proc(pid); if(!p || p->st == Proc::Reaped) { errno = ESRCH; return -1; } if(sig == 0 || p->st != Proc::Run) return 0;
	event(EV_NOTE, pid, "killed by the program", "", sig); if(p->fib) kill_fiber(p->fib); p->killed = true; for(auto& f : p->partial) do_unlink(*p, f); proc_exit(*p, sig); return 0;
}
pid_t getpid() { if(!APP) return (pid_t)syscall(SYS_getpid); return S.cur->pid; }
typedef void (*sigh)(int);
sigh signal(int s, sigh h) { if(!APP) { REAL(sigh, signal, int, sigh); return real(s, h); } Rt rt; if(g_child) return SIG_DFL; if(s == SIGPIPE) me().sigpipe_ign = h == SIG_IGN; return SIG_DFL; }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) { if(!APP) { REAL(int, sigaction, int, const struct sigaction*, struct sigaction*); return real(s, a, o); } if(a && s == SIGPIPE && !g_child) { Rt rt; me().sigpipe_ign = a->sa_handler == SIG_IGN; } if(o) memset(o, 0, sizeof *o); return 0; }
int pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int sigprocmask(int how, const sigset_t* a, sigset_t* b) { if(!APP) return (int)syscall(SYS_rt_sigprocmask, how, a, b, 8); return 0; }
int poll(struct pollfd* f, nfds_t n, int to) {
	if(!APP) return (int)syscall(SYS_poll, f, n, to); Rt rt; NOCHILD("poll"); point("poll"); u64 dl = to < 0 ? ~0ull : S.clock + (u64)to * 1000000ull;
	for(;;) {
		int c = 0; for(nfds_t i = 0; i < n; ++i) { f[i].revents = 0; auto o = f[i].fd < 0 ? nullptr : ofd(me(), f[i].fd); if(f[i].fd < 0) continue; if(!o) f[i].revents = POLLNVAL; else if(o->type == Ofd::PipeR) { if(o->pipe->size()) f[i].revents |= POLLIN; if(!o->pipe->nw) f[i].revents |= POLLHUP; } else if(o->type == Ofd::PipeW) { if(!o->pipe->nr) f[i].revents |= POLLERR; else if(o->pipe->size() + std::min<size_t>(4096, o->pipe->cap) <= o->pipe->cap) f[i].revents |= POLLOUT; } else f[i].revents |= POLLIN | POLLOUT; f[i].revents &= (short)(f[i].events | POLLHUP | POLLERR | POLLNVAL); if(f[i].revents) ++c; }
		if(c || S.clock >= dl) return c; sleep_until(std::min(dl, S.clock + 2000000), "poll");
	}
}
int ppoll(struct pollfd* f, nfds_t n, const struct timespec* ts, const sigset_t* m) { if(!APP) return (int)syscall(SYS_ppoll, f, n, ts, m, 8); return poll(f, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
	if(!APP) return (int)syscall(SYS_select, n, r, w, x, tv); struct pollfd pf[64]; nfds_t k = 0; for(int i = 0; i < n && k < 64; ++i) { short e = 0; if(r && FD_ISSET(i, r)) e |= POLLIN; if(w && FD_ISSET(i, w)) e |= POLLOUT; if(e) pf[k++] = {i, e, 0}; }
	int c = poll(pf, k, tv ? (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1); if(c < 0) return c; if(r) FD_ZERO(r); if(w) FD_ZERO(w); if(x) FD_ZERO(x); c = 0;
	for(nfds_t i = 0; i < k; ++i) { if(pf[i].revents & POLLNVAL) { errno = EBADF; return -1; } if(r && (pf[i].events & POLLIN) && (pf[i].revents & (POLLIN | POLLHUP))) { FD_SET(pf[i].fd, r); ++c; } if(w && (pf[i].events & POLLOUT) && (pf[i].revents & (POLLOUT | POLLERR))) { FD_SET(pf[i].fd, w); ++c; } } return c;
}
long syscall_real(long n, ...);
// ---------------------------------------------------------------- stdio on the standard streams
static bool std_stream(FILE* f) { return f == stdout || f == stderr; }
static bool out_err;
static int sout(FILE* f, const char* b, size_t n) {
	Rt rt; if(g_child) { fk.child->ops.push_back({ChildOp::Write, f == stdout ? 1 : 2, 0, std::string(b, n)}); return (int)n; }
	point("stdio"); if(f == stdout && (out_err || (out_err = fault(F_OUT, "standard output")))) return (int)n; // the disk is full, and stays so
	Proc& p = me(); int fd = f == stdout ? 1 : 2; do_write(p, fd, b, n, false); return (int)n;
}
#define STD(f) (APP && std_stream(f))
int fputs(const char* s, FILE* f) { if(STD(f)) { sout(f, s, strlen(s)); return 1; } REAL(int, fputs, const char*, FILE*); return real(s, f); }
int puts(const char* s) { if(APP) { std::string t; { Rt rt; t = std::string(s) + "\n"; } sout(stdout, t.data(), t.size()); { Rt rt; std::string().swap(t); } return 1; } REAL(int, puts, const char*); return real(s); }
int fputc(int c, FILE* f) { if(STD(f)) { char ch = (char)c; sout(f, &ch, 1); return c; } REAL(int, fputc, int, FILE*); return real(c, f); }
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { if(STD(f)) { sout(f, (const char*)b, s * n); return n; } REAL(size_t, fwrite, const void*, size_t, size_t, FILE*); return real(b, s, n, f); }
int vfprintf(FILE* f, const char* fmt, va_list ap) {
	if(!STD(f)) { REAL(int, vfprintf, FILE*, const char*, va_list); return real(f, fmt, ap); }
	Rt rt; va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, fmt, c); va_end(c); std::vector<char> b((size_t)n + 1); vsnprintf(b.data(), b.size(), fmt, ap); sout(f, b.data(), (size_t)n); return n;
}
int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int fprintf(FILE* f, const char* fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int printf(const char* fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(stdout, fmt, a); va_end(a); return r; }
int __fprintf_chk(FILE* f, int, const char* fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int __printf_chk(int, const char* fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(stdout, fmt, a); va_end(a); return r; }
int __vfprintf_chk(FILE* f, int, const char* fmt, va_list a) { return vfprintf(f, fmt, a); }
int dprintf(int fd, const char* fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); return (int)write(fd, b, (size_t)std::min<int>(n, sizeof b - 1)); }
void perror(const char* s) { std::string m; { Rt rt; m = std::string(s) + ": error\n"; } sout(stderr, m.data(), m.size()); }
static std::map<FILE*, int>* fmap;
int fflush(FILE* f) { if(APP && (!f || std_stream(f))) { Rt rt; point("fflush"); if(out_err && f != stderr) { errno = ENOSPC; return EOF; } return 0; } REAL(int, fflush, FILE*); return real(f); }
void flockfile(FILE* f) { if(STD(f)) return; REAL(void, flockfile, FILE*); real(f); }
void funlockfile(FILE* f) { if(STD(f)) return; REAL(void, funlockfile, FILE*); real(f); }
int ferror(FILE* f) { if(STD(f)) return f == stdout && out_err; REAL(int, ferror, FILE*); return real(f); }
static ssize_t ck_r(void* c, char* b, size_t n) { int h = g_hook; g_hook = 1; ssize_t r = read((int)(intptr_t)c, b, n); g_hook = h; return r; }
static ssize_t ck_w(void* c, const char* b, size_t n) { int h = g_hook; g_hook = 1; ssize_t r = write((int)(intptr_t)c, b, n); g_hook = h; return r < 0 ? 0 : r; }
static int ck_s(void* c, off64_t* o, int w) { int h = g_hook; g_hook = 1; off_t r = lseek((int)(intptr_t)c, *o, w); g_hook = h; if(r < 0) return -1; *o = r; return 0; }
static int ck_c(void* c) { int h = g_hook; g_hook = 1; int r = close((int)(intptr_t)c); g_hook = h; return r; }
static FILE* sim_fdopen(int fd, const char* m) { Rt rt; cookie_io_functions_t io = {ck_r, ck_w, ck_s, ck_c}; FILE* f = fopencookie((void*)(intptr_t)fd, m, io); if(!fmap) fmap = new std::map<FILE*, int>; (*fmap)[f] = fd; return f; }
FILE* fopen(const char* p, const char* m) {
	if(!APP) { REAL(FILE*, fopen, const char*, const char*); return real(p, m); }
	int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY; if(m[0] == 'w') fl |= O_CREAT | O_TRUNC; if(m[0] == 'a') fl |= O_CREAT | O_APPEND; if(strchr(m, 'e')) fl |= O_CLOEXEC;
	int fd = sim_open(p, fl, 0644); if(fd < 0) return nullptr; return sim_fdopen(fd, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) { if(!APP) { REAL(FILE*, fdopen, int, const char*); return real(fd, m); } return sim_fdopen(fd, m); }
int fileno(FILE* f) { if(f == stdin) return 0; if(f == stdout) return 1; if(f == stderr) return 2; if(fmap) { auto i = fmap->find(f); if(i != fmap->end()) return i->second; } REAL(int, fileno, FILE*); return real(f); }
int fclose(FILE* f) { if(STD(f)) { if(f == stdout && out_err) { errno = ENOSPC; return EOF; } return 0; } if(fmap) { Rt rt; fmap->erase(f); } REAL(int, fclose, FILE*); int h = g_hook; int r = real(f); g_hook = h; return r; }
struct SpawnAct { int tag; int pad; int a, b; const char* path; int flags; mode_t mode; }; // glibc's layout: 0 close, 1 dup2, 2 open
struct SpawnActs { int room, used; SpawnAct* act; };
static int sim_spawn(pid_t* out, const char* path, const void* fa, char* const argv[]) {
	Rt rt; NOCHILD("posix_spawn"); point("fork"); int keep = errno;
	if(fault(F_FORK, "fork")) return EAGAIN;
	Proc& par = me(); auto np = std::make_unique<Proc>(); np->pid = K.next_pid++; np->ppid = par.pid; np->fds = par.fds; np->sigpipe_ign = par.sigpipe_ign; np->cwd = par.cwd; int pid = np->pid;
	auto l = (const SpawnActs*)fa; for(int i = 0; l && i < l->used; ++i) {
		auto& x = l->act[i];
		if(x.tag == 0) np->fds.erase(x.a);
		else if(x.tag == 1) { if(!np->fds.count(x.a)) return EBADF; auto o = np->fds[x.a].o; np->fds[x.b] = FdEnt{o, false}; }
		else if(x.tag == 2) { int fd = sim_open(x.path, x.flags, x.mode); if(fd < 0) { int e = errno; errno = keep; return e; } np->fds[x.a] = FdEnt{me().fds[fd].o, (x.flags & O_CLOEXEC) != 0}; me().fds.erase(fd); }
		else { finding("sim", "posix_spawn: an action the simulator does not know"); return ENOSYS; }
	}
	int e = exec_check(path, argv); if(e) { event(EV_LAUNCH_FAIL, pid, path, "", e); errno = keep; return e; }
	ChildOp op{ChildOp::Exec}; op.s = path; for(int i = 0; argv[i]; ++i) op.argv.push_back(argv[i]); np->ops.push_back(op);
	Proc* c = np.get(); K.procs[pid] = std::move(np); K.forks++; S.oc.st.procs++;
	c->fib = spawn_fiber(pid, [c]() { run_child(c); }, "process"); if(out) *out = pid; point("forked"); errno = keep; return 0;
}
int posix_spawn(pid_t* o, const char* p, const void* fa, const void*, char* const* a, char* const*) { return sim_spawn(o, p, fa, a); }
int posix_spawnp(pid_t* o, const char* p, const void* fa, const void*, char* const* a, char* const*) { return sim_spawn(o, p, fa, a); }
int system(const char*) { g_hook = 0; fprintf(stderr, "sim: system is not simulated\n"); syscall(SYS_exit_group, 73); return 0; }
FILE* popen(const char*, const char*) { g_hook = 0; fprintf(stderr, "sim: popen is not simulated\n"); syscall(SYS_exit_group, 73); return nullptr; }
}

// std::random_device without the CPU's generator
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return (unsigned)Rng::mix(K.rnd++); }
