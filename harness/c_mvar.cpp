#include "conc.h"
#include "concurrent/mvar.h"
using pfi::concurrent::mvar;
enum { TAKE, PUT, READ, SWAP, TTAKE, TPUT, EMPTY };
void gen_program(rng& g, program& p, bool small) {
  p.p1 = g.below(2); p.p2 = 100;
  p.spurious = small ? 0 : g.below(3);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3), val = 1;
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 4);
    int bias = g.below(3);
    for (int i = 0; i < n; i++) {
      int r = g.below(100); op o = {0, 0, 0, 0};
      if (r < 55) o.code = (bias == 0 ? g.chance(80) : bias == 1 ? g.chance(20) : g.chance(50)) ? PUT : TAKE;
      else if (r < 65) o.code = READ; else if (r < 77) o.code = SWAP; else if (r < 86) o.code = TTAKE;
      else if (r < 95) o.code = TPUT; else o.code = EMPTY;
      if (o.code == PUT || o.code == SWAP || o.code == TPUT) o.a = val++;
      s.push_back(o);
    }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"full\":%d,\"v\":%d", p.p1, p.p2); return b; }
typedef mvar<int> mv;
void* make_object(const program& p) { return p.p1 ? new mv(p.p2) : new mv(); }
void free_object(void* o) { delete (mv*)o; }
void exec_op(void* ob, const program&, int t, const op& o) {
  mv& q = *(mv*)ob;
  switch (o.code) {
  case TAKE: { ev_call(t, "take", V()); int v = q.take(); ev_ret(t, V(v)); break; }
  case PUT: ev_call(t, "put", V(o.a)); q.put(o.a); ev_ret(t, V()); break;
  case READ: { ev_call(t, "read", V()); int v = q.read(); ev_ret(t, V(v)); break; }
  case SWAP: { ev_call(t, "swap", V(o.a)); int v = q.swap(o.a); ev_ret(t, V(v)); break; }
  case TTAKE: { int v = -7; ev_call(t, "try_take", V()); bool r = q.try_take(v); ev_ret(t, r ? V(1, v) : v == -7 ? V(0) : V(0, v)); break; }
  case TPUT: { ev_call(t, "try_put", V(o.a)); bool r = q.try_put(o.a); ev_ret(t, V(r)); break; }
  case EMPTY: { ev_call(t, "empty", V()); int r = q.empty(); ev_ret(t, V(r)); break; }
  }
}
