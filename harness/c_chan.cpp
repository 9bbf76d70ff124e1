#include "conc.h"
#include "concurrent/chan.h"
using pfi::concurrent::chan;
typedef chan<int> ch; typedef pfi::lang::shared_ptr<ch> chp;
enum { WRITE, READ, UNGET, SIZE, EMPTY, DUP, CLOSE };
// p1 = 0: end 1 is shared by everybody, thread t may dup its own end t+1 (and close it)
// p1 = 1: every thread t owns end t, made before the threads start
struct obj { std::vector<chp> e; };
void gen_program(rng& g, program& p, bool small) {
  p.p1 = g.below(2); p.spurious = small ? 0 : g.below(3);
  int nt = small ? 2 + g.below(2) : 2 + g.below(3), val = 1;
  for (int t = 1; t <= nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 4); bool own = p.p1 == 1, closed = false;
    int bias = g.below(3);
    for (int i = 0; i < n; i++) {
      op o = {0, 0, 0, 0};
      int mine = p.p1 ? t : t + 1;
      bool use_own = own && !closed && (p.p1 || g.chance(60));
      if (p.p1 && closed) break;
      o.a = use_own ? mine : 1;
      int r = g.below(100);
      if (r < 68) o.code = (bias == 0 ? g.chance(80) : bias == 1 ? g.chance(20) : g.chance(50)) ? WRITE : READ;
      else if (r < 76) o.code = UNGET; else if (r < 81) o.code = SIZE; else if (r < 86) o.code = EMPTY;
      else if (r < 95 && !p.p1 && !own) { o.code = DUP; o.b = mine; own = true; }
      else if (own && !closed) { o.code = CLOSE; o.a = mine; closed = true; }
      else o.code = WRITE;
      if (o.code == WRITE || o.code == UNGET) o.b = val++;
      s.push_back(o);
    }
    if (p.p1 == 0 && !small && g.chance(30)) {       // start by duplicating
      bool has = false; for (size_t k = 0; k < s.size(); k++) if (s[k].code == DUP || s[k].a == t + 1) has = true;
      if (!has) { op o = {DUP, 1, t + 1, 0}; s.insert(s.begin(), o); op r = {READ, t + 1, 0, 0}; s.push_back(r); }
    }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { int nt = p.thr.size(); char b[64]; snprintf(b, sizeof b, "\"ends\":%d,\"init\":%d", nt + 1, p.p1 ? nt : 1); return b; }
void* make_object(const program& p) {
  obj* o = new obj(); int nt = p.thr.size(); o->e.resize(nt + 2);
  o->e[1] = chp(new ch());
  if (p.p1) for (int i = 2; i <= nt; i++) o->e[i] = o->e[i - 1]->dup();
  return o;
}
void free_object(void* o) { delete (obj*)o; }
void exec_op(void* ob, const program&, int t, const op& o) {
  obj& q = *(obj*)ob;
  switch (o.code) {
  case WRITE: ev_call(t, "write", V(o.a, o.b)); q.e[o.a]->write(o.b); ev_ret(t, V()); break;
  case READ: { ev_call(t, "read", V(o.a)); int v = q.e[o.a]->read(); ev_ret(t, V(v)); break; }
  case UNGET: ev_call(t, "unget", V(o.a, o.b)); q.e[o.a]->unget(o.b); ev_ret(t, V()); break;
  case SIZE: { ev_call(t, "size", V(o.a)); int v = q.e[o.a]->size(); ev_ret(t, V(v)); break; }
  case EMPTY: { ev_call(t, "empty", V(o.a)); int v = q.e[o.a]->empty(); ev_ret(t, V(v)); break; }
  case DUP: { ev_call(t, "dup", V(o.a, o.b)); chp c = q.e[o.a]->dup(); q.e[o.b] = c; c = chp(); ev_ret(t, V()); break; }
  case CLOSE: { ev_call(t, "close", V(o.a)); q.e[o.a] = chp(); ev_ret(t, V()); break; }
  }
}
