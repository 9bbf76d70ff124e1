#include "conc.h"
#include "concurrent/mutex.h"
#include "concurrent/lock.h"
#include <memory>
using namespace pfi::concurrent;
enum { LOCK, UNLOCK, SCOPED_BEGIN, SCOPED_END, SYNC_BLOCK, SYNC_THROW, SCOPED_PTR, LOCKN, UNLOCKN };
struct obj { std::vector<mutex_base*> m; mutex_base& operator[](int i) { return *m[i]; } };
// two mutexes; p1 bit i: mutex i+1 is recursive
void gen_program(rng& g, program& p, bool small) {
  p.p1 = g.below(4);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3);
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 3 : 6);
    int depth[2] = {0, 0}; int nsc[2] = {0, 0};
    for (int i = 0; i < n; i++) {
      int m = small ? 0 : (g.chance(70) ? 0 : 1); bool rec = (p.p1 >> m) & 1;
      op o = {0, m + 1, 0, 0}; int r = g.below(100);
      if (depth[m] > 0 && g.chance(45)) { o.code = UNLOCK; depth[m]--; }
      else if (rec && g.chance(12)) { o.code = UNLOCK; if (depth[m] > 0) depth[m]--; }   // may be a non-owner: refused
      else if (depth[m] > 0 && !rec) { o.code = UNLOCK; depth[m]--; }
      else if (r < 60) { o.code = LOCK; depth[m]++; }
      else if (r < 75) o.code = SYNC_BLOCK;
      else if (r < 85) o.code = SYNC_THROW;
      else o.code = SCOPED_PTR;
      s.push_back(o);
      if (rec && !small && g.chance(4)) {            // taken many times over
        static const int D[] = {3, 9, 20, 40, 130, 260, 600}; op a = {LOCKN, m + 1, D[g.below(7)], 0}, b = {UNLOCKN, m + 1, a.b, 0}, c = {LOCK, m + 1, 0, 0};
        s.push_back(a); if (g.chance(40)) { s.push_back(c); depth[m]++; } s.push_back(b);
      }
    }
    for (int m = 0; m < 2; m++) while (depth[m] > 0 && !g.chance(5)) { op o = {UNLOCK, m + 1, 0, 0}; s.push_back(o); depth[m]--; }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"rec\":[%d,%d]", p.p1 & 1, p.p1 >> 1); return b; }
void* make_object(const program& p) {
  obj* o = new obj(); o->m.push_back(0);
  for (int i = 0; i < 2; i++) o->m.push_back((p.p1 >> i) & 1 ? (mutex_base*)new r_mutex() : (mutex_base*)new mutex());
  return o;
}
void free_object(void*) {}
struct boom {};
// forwards to the shared mutex; lets scoped_lock own a lockable
struct fwd : lockable { mutex_base& m; fwd(mutex_base& m) : m(m) {} bool lock() { return m.lock(); } bool unlock() { return m.unlock(); } };
void exec_op(void* ob, const program&, int t, const op& o) {
  obj& q = *(obj*)ob; bool r;
  switch (o.code) {
  case LOCK: ev_call(t, "lock", V(o.a)); r = q[o.a].lock(); ev_ret(t, V(r)); break;
  case UNLOCK: ev_call(t, "unlock", V(o.a)); r = q[o.a].unlock(); ev_ret(t, V(r)); break;
  case LOCKN: ev_call(t, "lock", V(o.a, o.b)); r = true; for (int i = 0; i < o.b; i++) r = q[o.a].lock() && r; ev_ret(t, V(r)); break;
  case UNLOCKN: ev_call(t, "unlock", V(o.a, o.b)); r = true; for (int i = 0; i < o.b; i++) r = q[o.a].unlock() && r; ev_ret(t, V(r)); break;
  case SYNC_BLOCK: {
    bool in = false;
    ev_call(t, "lock", V(o.a));
    synchronized(q[o.a]) { in = true; ev_ret(t, V(1)); ev_call(t, "unlock", V(o.a)); }
    if (in) ev_ret(t, V(1)); else ev_ret(t, V(0));
    break; }
  case SYNC_THROW: {
    ev_call(t, "lock", V(o.a));
    try { synchronized(q[o.a]) { ev_ret(t, V(1)); ev_call(t, "unlock", V(o.a)); throw boom(); } }
    catch (boom&) { }
    ev_ret(t, V(1));
    break; }
  case SCOPED_PTR: {
    ev_call(t, "lock", V(o.a));
    { scoped_lock lk(std::unique_ptr<lockable>(new fwd(q[o.a])));
      ev_ret(t, V(lk ? 1 : 0)); ev_call(t, "unlock", V(o.a)); }
    ev_ret(t, V(1));
    break; }
  }
}
