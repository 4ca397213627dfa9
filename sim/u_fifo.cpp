// Workload on the byte queue: one producer, one consumer.
#include <algorithm>
#include <memory>
#include <thread>
#include <vector>
#include "core/io/fifo.hpp"
#include "unit_api.h"
extern "C" int u_fifo_app() {
	std::vector<unsigned char> got; int nw = u_par(0), nr = u_par(1);
	{ Maike::Io::Fifo<unsigned char> f;
	std::thread prod{[&f, nw]() { size_t off = 0; for(int i = 0; i < nw; ++i) { u_pause(u_par(3 + 2 * i)); size_t n = u_par(2 + 2 * i); std::vector<unsigned char> b(n); for(size_t k = 0; k < n; ++k) b[k] = u_byte(7, 0, off + k); off += n; u_ev("write", (long)n, 0); f.write(b.data(), n); b.assign(n, 0xee); } u_ev("stop", 0, 0); f.stop(); }};
	std::thread cons{[&f, &got, nr, nw]() { int base = 2 + 2 * nw; for(int i = 0;; ++i) { size_t n = u_par(base + 2 * (i % nr)); u_pause(i < nr ? u_par(base + 2 * i + 1) : 0); std::vector<unsigned char> b(n + 1, 0xcc); size_t r = f.read(b.data(), n); if(r > n || b[n] != 0xcc) { u_ev("overrun", (long)r, (long)n); return; } u_ev("read", (long)r, (long)n); if(r == 0) return; got.insert(got.end(), b.begin(), b.begin() + (long)r); } }};
	prod.join(); cons.join(); }
	u_evs("got", 0, got.data(), got.size()); return 0;
}
