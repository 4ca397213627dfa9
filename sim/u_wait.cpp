// Workloads on the waiting primitives.
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
#include <stdexcept>
#include "core/sched/event.hpp"
#include "core/sched/signaling_counter.hpp"
#include "unit_api.h"

extern "C" int u_event_app() { // threads; per thread n ops: 0 set, 1 wait
	static Maike::Sched::Event e; int nt = u_par(0); std::vector<std::thread> t; int at = 1;
	for(int k = 0; k < nt; ++k) { int n = u_par(at), first = at + 1; at += 1 + 2 * n;
		t.emplace_back([k, n, first]() { for(int i = 0; i < n; ++i) { u_pause(u_par(first + 2 * i + 1)); int op = u_par(first + 2 * i); u_ev("inv", k, op); if(op == 0) e.set(); else e.waitAndReset(); u_ev("ret", k, op); } }); }
	for(auto& x : t) x.join(); return 0;
}
extern "C" int u_counter_app() { // ops: 0 ++, 1 --, 2.. wait(v - 2), 10.. == (v - 10)
	static Maike::Sched::SignalingCounter<size_t> c{u_par(0)}; int nt = u_par(1); std::vector<std::thread> t; int at = 2;
	for(int k = 0; k < nt; ++k) { int n = u_par(at), first = at + 1; at += 1 + 2 * n;
		t.emplace_back([k, n, first]() { for(int i = 0; i < n; ++i) { u_pause(u_par(first + 2 * i + 1)); int op = u_par(first + 2 * i); u_ev("inv", k, op); int r = 0;
			if(op == 0) ++c; else if(op == 1) --c; else if(op == 20) c.lock(); else if(op == 21) c.unlock(); else if(op < 10) c.wait(op - 2); else r = c == (size_t)(op - 10); u_ev("ret", k, r); } }); }
	for(auto& x : t) x.join(); return 0;
}
