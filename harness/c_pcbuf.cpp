#include "conc.h"
#include "concurrent/pcbuf.h"
#include <unistd.h>
using pfi::concurrent::pcbuf;
enum { PUSH, POP, TPUSH, TPOP, SIZE, EMPTY, CLEAR, CAP, SLEEP };
void gen_program(rng& g, program& p, bool small) {
  p.p1 = 1 + g.below(small ? 2 : 3);
  bool big = !small && g.chance(4);     // a large buffer, filled and drained at length
  if (big) { static const int C[] = {5, 9, 17, 33, 70}; p.p1 = C[g.below(5)]; }
  p.strict = g.chance(50); pick_unit(g, p, small);
  p.spurious = small ? 0 : g.below(3);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3);
  int val = 1;
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 4);
    int bias = g.below(3);
    if (big) n = t == 0 ? p.p1 + 1 + g.below(8) : 1 + g.below(6), bias = t % 2;
    for (int i = 0; i < n; i++) {
      if (g.chance(25)) { op z = {SLEEP, pick_pause(g), 0, 0}; s.push_back(z); }
      int r = g.below(big && t == 0 ? 81 : 100); op o = {0, 0, 0, 0};
      if (r < 80) {
        bool push = big && t == 0 ? g.chance(97) : bias == 0 ? g.chance(80) : bias == 1 ? g.chance(20) : g.chance(50);
        bool timed = g.chance(35);
        o.code = push ? (timed ? TPUSH : PUSH) : (timed ? TPOP : POP);
        if (push) o.a = val++;
        if (timed) o.b = pick_ms(g, p);
      } else if (r < 86) o.code = SIZE; else if (r < 92) o.code = EMPTY; else if (r < 98) o.code = CLEAR; else o.code = CAP;
      s.push_back(o);
    }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { char b[32]; snprintf(b, sizeof b, "\"cap\":%d", p.p1); return b; }
void* make_object(const program& p) { return new pcbuf<int>(p.p1); }
void free_object(void* o) { delete (pcbuf<int>*)o; }
void exec_op(void* ob, const program&, int t, const op& o) {
  pcbuf<int>& q = *(pcbuf<int>*)ob;
  switch (o.code) {
  case PUSH: ev_call(t, "push", V(o.a)); q.push(o.a); ev_ret(t, V(1)); break;
  case TPUSH: { ev_call(t, "push", V(o.a), tmo_us(o.b)); bool r = q.push(o.a, o.b / 1000.0); ev_ret(t, V(r)); break; }
  case POP: { int v = -7; ev_call(t, "pop", V()); q.pop(v); ev_ret(t, V(1, v)); break; }
  case TPOP: { int v = -7; ev_call(t, "pop", V(), tmo_us(o.b)); bool r = q.pop(v, o.b / 1000.0); ev_ret(t, r ? V(1, v) : v == -7 ? V(0) : V(0, v)); break; }
  case SLEEP: usleep(o.a * 1000); break;
  case SIZE: { ev_call(t, "size", V()); int r = (int)q.size(); ev_ret(t, V(r)); break; }
  case EMPTY: { ev_call(t, "empty", V()); int r = q.empty(); ev_ret(t, V(r)); break; }
  case CAP: { ev_call(t, "cap", V()); int r = (int)q.capacity(); ev_ret(t, V(r)); break; }
  case CLEAR: { ev_call(t, "clear", V()); q.clear(); ev_ret(t, V()); break; }
  }
}
