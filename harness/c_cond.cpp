#include "conc.h"
#include "concurrent/mutex.h"
#include <unistd.h>
#include "concurrent/condition.h"
using namespace pfi::concurrent;
enum { LOCK, UNLOCK, WAIT, TWAIT, NOTIFY, NOTIFYALL, SLEEP };
struct obj { mutex_base* m; condition c[3]; };
void gen_program(rng& g, program& p, bool small) {
  pick_unit(g, p, small); p.p1 = g.chance(60); p.strict = g.chance(50);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3);
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 3);
    bool waiter = t == 0 || g.chance(50);
    for (int i = 0; i < n; i++) {
      int c = 1 + (small ? 0 : g.below(10) == 0);
      if (g.chance(waiter ? 15 : 40)) { op z = {SLEEP, pick_pause(g), 0, 0}; s.push_back(z); }
      op lk = {LOCK, 0, 0, 0}, ul = {UNLOCK, 0, 0, 0};
      if (waiter) {
        int d = p.p1 ? 1 + g.below(3) : 1;
        if (g.chance(8)) d = 0;                       // wait without holding
        for (int k = 0; k < d; k++) s.push_back(lk);
        op w = {g.chance(50) ? TWAIT : WAIT, c, 0, 0};
        if (w.code == TWAIT) w.b = pick_ms(g, p);
        s.push_back(w);
        if (p.p1 && g.chance(30)) { s.push_back(lk); s.push_back(ul); }
        for (int k = 0; k < d; k++) s.push_back(ul);
        if (p.p1 && g.chance(15)) s.push_back(ul);    // one too many: refused
      } else {
        bool hold = g.chance(60); int d = hold ? (p.p1 ? 1 + g.below(2) : 1) : 0;
        for (int k = 0; k < d; k++) s.push_back(lk);
        op w = {g.chance(60) ? NOTIFY : NOTIFYALL, c, 0, 0};
        s.push_back(w);
        for (int k = 0; k < d; k++) s.push_back(ul);
      }
    }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"rec\":[%d]", p.p1); return b; }
void* make_object(const program& p) { obj* o = new obj(); o->m = p.p1 ? (mutex_base*)new r_mutex() : (mutex_base*)new mutex(); return o; }
void free_object(void*) {}
void exec_op(void* ob, const program&, int t, const op& o) {
  obj& q = *(obj*)ob; bool r;
  switch (o.code) {
  case LOCK: ev_call(t, "lock", V(1)); r = q.m->lock(); ev_ret(t, V(r)); break;
  case UNLOCK: ev_call(t, "unlock", V(1)); r = q.m->unlock(); ev_ret(t, V(r)); break;
  case WAIT: ev_call(t, "wait", V(1, o.a)); q.c[o.a].wait(*q.m); ev_ret(t, V()); break;
  case TWAIT: ev_call(t, "wait", V(1, o.a), tmo_us(o.b)); r = q.c[o.a].wait(*q.m, o.b / 1000.0); ev_ret(t, V(r)); break;
  case SLEEP: usleep(o.a * 1000); break;
  case NOTIFY: ev_call(t, "notify", V(1, o.a)); q.c[o.a].notify(); ev_ret(t, V()); break;
  case NOTIFYALL: ev_call(t, "notify_all", V(1, o.a)); q.c[o.a].notify_all(); ev_ret(t, V()); break;
  }
}
