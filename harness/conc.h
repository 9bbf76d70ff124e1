// Common driver of the concurrent components: random/DFS schedules over small
// random programs; prints each distinct history once (one JSON array a line).
#ifndef VERIF_CONC_H
#define VERIF_CONC_H
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>

struct rng {
  uint64_t s;
  explicit rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 77) { next(); next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  int below(int n) { return (int)(next() % (uint64_t)n); }
  bool chance(int pct) { return below(100) < pct; }
};

struct op { int code; int a, b, c; };
typedef std::vector<op> script;

// --- implemented by each component driver ---
struct program {
  std::vector<script> thr;      // thread i+1 runs thr[i]
  int p1, p2;                   // component parameters
  bool strict;                  // timeouts fire only when nothing else can run
  int spurious, create_fail, sleep_eintr, epoch;
  int max_steps;                // livelock bound
  int extra_n;                  // thread tags used besides thr
  int unit;                     // microseconds in a unit of the history's time: 1, or 1000 for long timeouts
};
void gen_program(rng& g, program& p, bool small);
std::string header(const program& p);       // extra header members, e.g. "\"cap\":2"
void* make_object(const program& p);        // inside the run, on fiber 0
void exec_op(void* obj, const program& p, int t, const op& o);  // logs call/ret
void free_object(void* obj);
void before_end(void* obj) __attribute__((weak));  // after everything ended

// --- logging helpers ---
void ev_call(int t, const char* op, const std::vector<int>& a, int64_t tmo_us = -1);
void ev_ret(int t, const std::vector<int>& r);
inline std::vector<int> V() { return std::vector<int>(); }
inline std::vector<int> V(int a) { return std::vector<int>(1, a); }
inline std::vector<int> V(int a, int b) { std::vector<int> v(1, a); v.push_back(b); return v; }
inline std::vector<int> V(int a, int b, int c) { std::vector<int> v = V(a, b); v.push_back(c); return v; }
// timeouts and pauses, in ms
// timeouts of hours and days, in programs whose unit is 1000
inline void pick_unit(rng& g, program& p, bool small) { p.unit = !small && g.chance(8) ? 1000 : 1; }
inline int pick_ms(rng& g, const program& p) {
  static const int L[] = {1800000, 3700000, 7300000, 90000000}; if (p.unit == 1000 && g.chance(60)) return L[g.below(4)];
  if (g.chance(4)) return g.chance(50) ? -2 : -2500;     // as good as 0
  static const int T[] = {0, 5, 40, 250, 250, 500, 500, 750, 1000, 1500, 2250, 3700, 61000}; return T[g.below(13)];
}
inline int64_t tmo_us(int ms) { return ms < 0 ? 0 : ms * 1000LL; }
inline int pick_pause(rng& g) { static const int T[] = {3, 20, 100, 300, 300, 600, 900, 1200, 2000, 5000}; return T[g.below(10)]; }
#endif
