// What the instrumented unit workloads (u_*.cpp) may call; implemented in unit.cpp, outside the instrumentation.
#pragma once
#include <cstddef>
extern "C" {
unsigned u_par(int i);                                     // parameter i of this run
void u_ev(const char* what, long a, long b);               // history
void u_evs(const char* what, long a, const void* p, size_t n);
void u_text(int i, char* buf, size_t n);                   // text parameter i
void u_pause(unsigned k);                                  // k > 0: sleep k simulated microseconds
unsigned char u_byte(unsigned job, unsigned stream, size_t off);
}
