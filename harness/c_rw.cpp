#include "conc.h"
#include "concurrent/rwmutex.h"
#include <unistd.h>
using namespace pfi::concurrent;
// how a lock is taken: direct, scoped_rlock/wlock, scoped_lock(rlock(m))
enum { DIRECT, SCOPED, LOCKABLE };
void gen_program(rng& g, program& p, bool small) {
  p.strict = g.chance(50); pick_unit(g, p, small);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3);
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 4);
    for (int i = 0; i < n; i++) {
      op o = {g.below(3), g.below(2), -1, g.below(3)};   // how, write?, timeout ms, hold time
      int r = g.below(10);
      if (r < 3) o.b = 0; else if (r < 7) o.b = pick_ms(g, p);
      if (o.c == 2) o.c = g.chance(60) ? pick_pause(g) + 1 : 0;
      if (p.unit == 1000 && g.chance(25)) o.c = 2000000;        // longer than the shortest of the long timeouts
      s.push_back(o);
    }
    p.thr.push_back(s);
  }
}
std::string header(const program&) { return ""; }
void* make_object(const program&) { return new rw_mutex(); }
void free_object(void* o) { delete (rw_mutex*)o; }
static void hold(int how, bool strict, int t) {
  if (how == 1) sched::yield(sched::P_SYNC);
  else if (how > 1) usleep((how - 1) * 1000);
}
void exec_op(void* ob, const program& p, int t, const op& o) {
  rw_mutex& m = *(rw_mutex*)ob; bool w = o.a, timed = o.b != -1; double sec = o.b / 1000.0; bool r;
  ev_call(t, w ? "wlock" : "rlock", V(), timed ? tmo_us(o.b) : -1);
  switch (o.code) {
  case DIRECT:
    r = w ? (timed ? m.write_lock(sec) : m.write_lock()) : (timed ? m.read_lock(sec) : m.read_lock());
    ev_ret(t, V(r));
    if (r) { hold(o.c, p.strict, t); ev_call(t, "unlock", V()); r = m.unlock(); ev_ret(t, V(r)); }
    break;
  case SCOPED:
    if (w) { scoped_wlock* lk = timed ? new scoped_wlock(m, sec) : new scoped_wlock(m); r = lk->locked(); ev_ret(t, V(r));
      if (r) { hold(o.c, p.strict, t); ev_call(t, "unlock", V()); } delete lk; if (r) ev_ret(t, V(1)); }
    else { scoped_rlock* lk = timed ? new scoped_rlock(m, sec) : new scoped_rlock(m); r = *lk ? true : false; ev_ret(t, V(r));
      if (r) { hold(o.c, p.strict, t); ev_call(t, "unlock", V()); } delete lk; if (r) ev_ret(t, V(1)); }
    break;
  case LOCKABLE: {
    scoped_lock* lk = new scoped_lock(w ? (timed ? wlock(m, sec) : wlock(m)) : (timed ? rlock(m, sec) : rlock(m)));
    r = lk->locked(); ev_ret(t, V(r));
    if (r) { hold(o.c, p.strict, t); ev_call(t, "unlock", V()); } delete lk; if (r) ev_ret(t, V(1));
    break; }
  }
}
