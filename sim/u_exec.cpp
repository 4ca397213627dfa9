// Workload on process execution.
#include <functional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "core/exec/execve.hpp"
#include "unit_api.h"
namespace {
struct Io {
	unsigned job; size_t nin, pos = 0; std::string out, err; bool bad = false;
	size_t operator()(std::byte* b, size_t n, Maike::Io::Redirector::StdIn) { size_t k = std::min(n, nin - pos); for(size_t i = 0; i < k; ++i) b[i] = (std::byte)u_byte(job, 0, pos + i); pos += k; return k; }
	size_t operator()(std::byte const* b, size_t n, Maike::Io::Redirector::StdOut) { out.append((char const*)b, n); return n; }
	size_t operator()(std::byte const* b, size_t n, Maike::Io::Redirector::StdErr) { err.append((char const*)b, n); return n; }
};
void status(int j, Maike::Exec::ExitStatus s) { u_ev("status", j, s.returnedFromMain() ? s.returnCode() : 1000 + s.signo()); u_ev("failed", j, failed(s)); }
}
extern "C" int u_exec_app() { // threads, jobs, then per job: thread, api, stdin size, text index of executable, of argument, pause, extra argument size
	int nt = u_par(0), nj = u_par(1); std::vector<std::thread> t;
	auto work = [nj](int k) { for(int j = 0; j < nj; ++j) { int b = 2 + 7 * j; if((int)u_par(b) != k) continue; u_pause(u_par(b + 5)); char buf[4096]; u_text(u_par(b + 3), buf, sizeof buf); Maike::fs::path exe{buf}; u_text(u_par(b + 4), buf, sizeof buf); std::vector<std::string> args{buf}; if(u_par(b + 6)) args.push_back(std::string(u_par(b + 6), 'x')); int api = u_par(b + 1);
		u_ev("run", j, api);
		try {
			if(api == 0) { Io io{(unsigned)j, u_par(b + 2)}; auto s = Maike::Exec::execve(exe, args, io); u_evs("out", j, io.out.data(), io.out.size()); u_evs("err", j, io.err.data(), io.err.size()); status(j, s); }
			else { auto r = api == 1 ? Maike::Exec::execve(exe, args) : Maike::Exec::execve(Maike::Exec::LocalExecve{api == 3}, Maike::Exec::Command{exe, args}); u_evs("out", j, r.stdout().data(), r.stdout().size()); u_evs("err", j, r.stderr().data(), r.stderr().size()); status(j, r.exitStatus()); if(failed(r) != failed(r.exitStatus())) u_ev("failed", j, 2); }
		} catch(std::exception const& e) { u_ev("exc", j, 0); } catch(...) { u_ev("exc", j, 1); } } };
	if(nt <= 1) { work(0); return 0; }
	for(int k = 0; k < nt; ++k) t.emplace_back(work, k);
	for(auto& x : t) x.join(); return 0;
}
