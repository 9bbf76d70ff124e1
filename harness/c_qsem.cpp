#include "conc.h"
#include "concurrent/qsem.h"
#include "concurrent/lock.h"
using namespace pfi::concurrent;
enum { WAIT, SIGNAL, LOCK, UNLOCK, WAIT1, SIGNAL1, SCOPED };
void gen_program(rng& g, program& p, bool small) {
  p.p1 = g.below(4);
  int scale = 1;                        // some runs in large amounts, some starting below zero
  if (g.chance(12)) { static const int S[] = {5, 40, 300, 100000}; scale = S[g.below(4)]; p.p1 = p.p1 * scale + g.below(3); }
  else if (g.chance(8)) p.p1 = -1 - g.below(3);
  p.spurious = small ? 0 : g.below(3);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3);
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 4);
    for (int i = 0; i < n; i++) {
      op o = {g.below(7), 1, 0, 0};
      if (o.code == WAIT || o.code == SIGNAL) o.a = g.below(8) == 0 ? 0 : (1 + g.below(3)) * (g.chance(70) ? scale : 1);
      s.push_back(o);
    }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"q\":%d", p.p1); return b; }
void* make_object(const program& p) { return new qsem(p.p1); }
void free_object(void* o) { delete (qsem*)o; }
void exec_op(void* ob, const program&, int t, const op& o) {
  qsem& q = *(qsem*)ob; lockable& l = q; bool r;
  switch (o.code) {
  case WAIT: ev_call(t, "wait", V(o.a)); r = q.wait(o.a); ev_ret(t, V(r)); break;
  case WAIT1: ev_call(t, "wait", V(1)); r = q.wait(); ev_ret(t, V(r)); break;
  case LOCK: ev_call(t, "wait", V(1)); r = l.lock(); ev_ret(t, V(r)); break;
  case SIGNAL: ev_call(t, "signal", V(o.a)); r = q.signal(o.a); ev_ret(t, V(r)); break;
  case SIGNAL1: ev_call(t, "signal", V(1)); r = q.signal(); ev_ret(t, V(r)); break;
  case UNLOCK: ev_call(t, "signal", V(1)); r = l.unlock(); ev_ret(t, V(r)); break;
  case SCOPED: {
    ev_call(t, "wait", V(1));
    scoped_lock* lk = new scoped_lock(q);
    ev_ret(t, V(lk->locked()));
    ev_call(t, "signal", V(1));
    delete lk;
    ev_ret(t, V(1));
    break; }
  }
}
