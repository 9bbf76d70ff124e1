// pfi::lang::singleton: every run uses types of its own, as a singleton lives as
// long as the process.  The constructor can be preempted, can fail and can ask
// for another singleton.
#include "conc.h"
#include <iostream>
#include "lang/noncopyable.h"
#include "lang/singleton.h"
enum { GETA, GETB };
static const int POOL = 400;
static int slot = -1, attempts, fails, nested, live;
template <int N> struct second { int id, whole; second() : id(0), whole(0) { { sched::guard g; id = 1; live++; } sched::yield(sched::P_SYNC); whole = 1; } };
template <int N> struct first {
  int id, whole, inner;
  first() : id(0), whole(0), inner(0) {
    int k; { sched::guard g; k = ++attempts; }
    sched::yield(sched::P_SYNC);
    if (nested) inner = pfi::lang::singleton<second<N> >::instance().whole; else inner = 1;
    if (k <= fails) throw k;
    id = k; sched::yield(sched::P_SYNC); whole = 1;
  }
};
struct answer { int id, whole; const void* at; };
typedef answer (*getter)();
template <int N> answer geta() { first<N>& f = pfi::lang::singleton<first<N> >::instance(); answer a = {f.id, f.whole && f.inner, &f}; return a; }
template <int N> answer getb() { second<N>& f = pfi::lang::singleton<second<N> >::instance(); answer a = {f.id, f.whole, &f}; return a; }
static getter A[POOL], B[POOL];
template <int L, int H> struct fill { static void go() { fill<L, (L + H) / 2>::go(); fill<(L + H) / 2, H>::go(); } };
template <int L> struct fill<L, L + 1> { static void go() { A[L] = geta<L>; B[L] = getb<L>; } };
struct init { init() { fill<0, POOL>::go(); } } init_;
static const void *ata, *atb;
void gen_program(rng& g, program& p, bool small) {
  p.p1 = g.below(3) ? 0 : 1 + g.below(2); p.p2 = g.below(2);
  int nt = 2 + g.below(small ? 2 : 3);
  for (int t = 0; t < nt; t++) {
    script s; int n = 1 + g.below(small ? 2 : 3);
    for (int i = 0; i < n; i++) { op o = {g.below(3) ? GETA : GETB, 0, 0, 0}; s.push_back(o); }
    p.thr.push_back(s);
  }
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"f\":%d,\"z\":%d", p.p1, p.p2); return b; }
void* make_object(const program& p) {
  if (++slot >= POOL) { fflush(stdout); fprintf(stderr, "STATS {\"executions\":%d,\"unique\":0,\"steps\":0}\n", POOL); _exit(0); }
  attempts = 0; fails = p.p1; nested = p.p2; ata = atb = 0; return &slot;
}
void free_object(void*) {}
void exec_op(void*, const program&, int t, const op& o) {
  ev_call(t, o.code == GETA ? "geta" : "getb", V());
  int id, ok;
  try {
    answer a = (o.code == GETA ? A : B)[slot]();
    sched::guard g; const void*& at = o.code == GETA ? ata : atb; if (!at) at = a.at;
    id = a.id; ok = a.whole && a.at == at;
  } catch (int) { id = -1; ok = 1; }
  ev_ret(t, V(id, ok));
}
