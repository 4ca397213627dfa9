// Workload on the thread pool and asynchronous results.
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "core/sched/thread_pool.hpp"
#include "unit_api.h"
namespace {
using Pool = Maike::Sched::ThreadPool; using Res = Pool::TaskResult<int>; using Sres = Pool::TaskResult<std::string>;
struct Ex { int id; };
struct Task { int kind, pause, parent; }; // kinds: 0 plain 1 throws 2 int result 3 int result throws 4 string result 5 barrier
struct Ctx {
	std::vector<Task> t; std::vector<std::vector<int>> kids; std::deque<Res> ri; std::deque<Sres> rs; std::vector<int> slot; Pool* pool = nullptr;
	std::mutex bm; std::condition_variable bc; int arrived = 0, group = 0;
	void body(int i) { u_ev("start", i, 0); u_pause((unsigned)t[i].pause); for(int c : kids[i]) add(c);
		if(t[i].kind == 5) { std::unique_lock l{bm}; ++arrived; bc.notify_all(); bc.wait(l, [this]() { return arrived == group; }); }
		u_ev("end", i, 0); if(t[i].kind == 1 || t[i].kind == 3) { u_ev("throw", i, 0); throw Ex{i}; } }
	void add(int i) { u_ev("add", i, 0); auto own = std::make_unique<int>(i);
		switch(t[i].kind) { case 2: case 3: pool->addTask([this, own = std::move(own)]() { body(*own); return *own * 7 + 1; }, ri[slot[i]]); break;
			case 4: pool->addTask([this, own = std::move(own)]() { body(*own); return std::string((size_t)(*own * 5), 'a' + *own % 20); }, rs[slot[i]]); break;
			default: pool->addTask([this, own = std::move(own)]() { body(*own); }); } u_ev("added", i, 0); }
	void get(int i, bool take) { u_ev("get", i, take); try {
			if(t[i].kind == 4) { std::string v = take ? rs[slot[i]].take() : rs[slot[i]].get(); bool ok = v == std::string((size_t)(i * 5), 'a' + i % 20); u_ev(ok ? "got" : "gotbad", i, (long)v.size()); }
			else { int v = take ? ri[slot[i]].take() : ri[slot[i]].get(); u_ev("got", i, v); } }
		catch(Ex& e) { u_ev("gotex", i, e.id); } catch(...) { u_ev("gotother", i, 0); } }
};
}
extern "C" int u_pool_app() {
	int workers = u_par(0), nprod = u_par(1), n = u_par(2), getters = u_par(3), takes = u_par(4), order = u_par(5), group = u_par(6); int base = 8;
	Ctx c; for(int i = 0; i < n; ++i) { c.t.push_back({(int)u_par(base + 4 * i), (int)u_par(base + 4 * i + 1), (int)u_par(base + 4 * i + 2) - 1}); c.kids.emplace_back(); c.slot.push_back(-1); }
	for(int i = 0; i < n; ++i) { if(c.t[i].parent >= 0) c.kids[c.t[i].parent].push_back(i); if(c.t[i].kind == 2 || c.t[i].kind == 3) { c.slot[i] = (int)c.ri.size(); c.ri.emplace_back(); } else if(c.t[i].kind == 4) { c.slot[i] = (int)c.rs.size(); c.rs.emplace_back(); } }
	std::optional<Pool> pool;
	try { pool.emplace(Maike::ThreadCount{std::to_string(workers).c_str()}); }
	catch(std::exception const& e) { u_ev("nopool", 0, 0); for(auto& r : c.ri) r.set(0); for(auto& r : c.rs) r.set(std::string{}); return 0; }
	c.pool = &*pool; u_ev("pool", (long)pool->count(), 0); c.group = group; if(group > (int)pool->count()) { c.group = 0; for(auto& t : c.t) if(t.kind == 5) t.kind = 0; }
	std::vector<std::thread> th;
	for(int p = 0; p < nprod; ++p) th.emplace_back([p, n, nprod, base, &c]() { for(int i = 0; i < n; ++i) if(c.t[i].parent < 0 && (int)u_par(base + 4 * i + 3) % nprod == p) c.add(i); });
	std::vector<std::thread> gt;
	for(int g = 0; g < getters; ++g) gt.emplace_back([g, n, getters, &c]() { for(int i = 0; i < n; ++i) if(c.slot[i] >= 0) c.get((i * 3 + g) % n >= 0 && c.slot[(i * 3 + g) % n] >= 0 ? (i * 3 + g) % n : i, false); });
	auto take = [&]() { u_ev("take_inv", 0, 0); auto e = pool->takeLastException(); if(!e) { u_ev("take", -1, 0); return; } try { std::rethrow_exception(e); } catch(Ex& x) { u_ev("take", x.id, 0); } catch(...) { u_ev("take", -2, 0); } };
	for(int k = 0; k < takes; ++k) { u_pause(u_par(7)); take(); }
	for(auto& x : th) x.join(); u_ev("produced", 0, 0);
	if(order & 4) take();
	if(order & 1) { for(auto& x : gt) x.join(); gt.clear(); }
	u_ev("destroy", 0, 0); pool.reset(); u_ev("destroyed", 0, 0);
	for(auto& x : gt) x.join();
	for(int i = 0; i < n; ++i) if(c.slot[i] >= 0) c.get(i, order & 2);
	u_ev("finish", 0, 0);
	return 0;
}
extern "C" int u_result_app() { // an asynchronous result: setter, several getters, destruction
	int getters = u_par(0), exc = u_par(1); std::vector<std::thread> t; std::thread setter;
	{ Maike::Sched::AsyncTaskResult<int> r; 
	setter = std::thread{[&r, exc]() { u_pause(u_par(2)); u_ev("set_inv", 0, 0); if(exc) r.set(std::make_exception_ptr(Ex{42})); else r.set(17); }};
	for(int g = 0; g < getters; ++g) t.emplace_back([&r, g]() { u_pause(u_par(4 + g)); u_ev("get_inv", g, 0); try { int v = r.get(); u_ev("got", g, v); } catch(Ex& e) { u_ev("got", g, -e.id); } });
	u_pause(u_par(3)); for(auto& x : t) x.join();
	u_ev("destroy", 0, 0); } u_ev("destroyed", 0, 0); setter.join(); return 0;
}
