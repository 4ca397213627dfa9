// Simulated kernel: virtual file system, descriptors, pipes, processes.
#pragma once
#include "rt.h"
#include <memory>

namespace sim {

struct Node { u64 ino = 0; bool dir = false; std::string data; u64 mtime = 0; int mode = 0644; };
using NodeP = std::shared_ptr<Node>;
struct Vfs {
	std::map<std::string, NodeP> m; u64 next_ino = 1; u64 gran = 1; std::string cwd = "/";
	std::string abs(const std::string& p) const;         // absolute, normalised
	Node* get(const std::string& p) const;               // by absolute normalised path
	Node* put(const std::string& p, const std::string& data, int mode, u64 mtime);
	Node* mkdirs(const std::string& p, u64 mtime);
	bool erase(const std::string& p);
	std::vector<std::string> list(const std::string& dir) const;
	bool has_children(const std::string& p) const;
	Vfs clone() const;
	void save(std::string& o) const; void load(const char*& p);
};

struct Pipe { std::string buf; size_t head = 0; size_t cap = 65536; int nr = 0, nw = 0; int id = 0; size_t size() const { return buf.size() - head; } };
struct Ofd {
	enum T { File, Dir, PipeR, PipeW, Out, Err, Null } type = Null;
	NodeP node; std::string path; size_t off = 0; bool wr = false, append = false, nb = false; std::shared_ptr<Pipe> pipe; bool sticky_err = false;
	~Ofd();
};
struct FdEnt { std::shared_ptr<Ofd> o; bool cloexec = false; };

struct ChildOp { enum K { Close, Dup2, Cloexec, Write, Exec, Exit, Hang } k; int a = 0, b = 0; std::string s; std::vector<std::string> argv; };
struct Proc {
	int pid = 0, ppid = 0; std::map<int, FdEnt> fds; enum St { Run, Zombie, Reaped } st = Run; int status = 0;
	bool sigpipe_ign = false; Fiber* fib = nullptr; std::vector<ChildOp> ops; std::string cwd;
	std::vector<std::string> argv; std::string exe; std::vector<std::string> partial; // outputs being written
	u64 inherited = 0; bool execed = false; int src = -1; bool killed = false;
};

struct Kern {
	Vfs fs; std::map<int, std::unique_ptr<Proc>> procs; int next_pid = 101; u64 base_time = 1600000000ull * 1000000000ull;
	int nproc = 4; bool dt_unknown = false; u64 dirseed = 0; bool tty = false; bool main_done = false; int next_pipe = 1; u64 rnd = 7;
	size_t argmax = 131072; size_t fdmax = 1024; size_t live_fds_max = 0; int forks = 0; std::set<int> bad_close;
	std::string exe_path = "/sys/bin/maike"; u64 thread_creates = 0; u64 mut_seq = 0;
};
extern Kern K;
constexpr int MAIN_PID = 100;

// program interpreter registered by the families
using Program = int (*)(Proc& p); // returns exit code
extern std::map<std::string, Program> programs;

void kern_start();                      // set up the main process
u64 wall();                             // simulated realtime in ns
u64 mtime_now();
// process-side operations (called by programs on their own fiber)
long p_read(Proc& p, int fd, char* b, size_t n);
long p_write(Proc& p, int fd, const char* b, size_t n);
void p_close(Proc& p, int fd);
bool p_readfile(Proc& p, const std::string& path, std::string& out);
bool p_writefile(Proc& p, const std::string& path, const std::string& data, int chunks, u64 pause);
bool p_unlink(Proc& p, const std::string& path);
bool p_mkdirs(Proc& p, const std::string& path);
struct ProcKilled { int sig; };
struct ProcExit { int code; };
void main_exit(int code);               // main program finished
size_t open_fds(int pid); size_t zombies(int ppid); size_t running_children(int ppid);
std::string fd_list(int pid);
}
