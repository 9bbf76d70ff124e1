#include "conc.h"
#include "concurrent/thread.h"
#include <map>
using pfi::concurrent::thread;
enum { NEW, NEWNULL, START, JOIN, DETACH, DEL, SLEEP, YIELD, ID, OPEN };
static bool is_open; static bool opened(void*) { return is_open; }
static thread* TH[16]; static int next_tag, live; static std::map<int64_t, int>* IDS;
static int id_of(int64_t v) { sched::guard g; std::map<int64_t, int>::iterator i = IDS->find(v); if (i != IDS->end()) return i->second; int k = IDS->size() + 1; (*IDS)[v] = k; return k; }
static void log_id(int t) { int64_t v = thread::id(); int k = id_of(v); ev_call(t, "id", V(k)); ev_ret(t, V()); }
struct fn {
  int obj, kind;
  fn(int o, int k) : obj(o), kind(k) { sched::guard g; live++; }
  fn(const fn& o) : obj(o.obj), kind(o.kind) { sched::guard g; live++; }
  ~fn() { sched::guard g; live--; obj = -1000; }
  void operator()() const {
    int t; { sched::guard g; t = next_tag++; } int i = obj;
    ev_call(t, "bbegin", V(i)); ev_ret(t, V());
    if (kind & 1) log_id(t);
    if (kind & 2) { ev_call(t, "sleep", V(), 50000); bool r = thread::sleep(0.05); ev_ret(t, V(r)); }
    if (kind & 4) { ev_call(t, "yield", V()); thread::yield(); ev_ret(t, V()); }
    if (kind & 8) { ev_call(t, "gate", V()); sched::block_on(opened, 0, -1); ev_ret(t, V()); }
    ev_call(t, "bend", V(obj)); ev_ret(t, V());
  }
};
void gen_program(rng& g, program& p, bool small) {
  int nt = small ? 1 + g.below(2) : 1 + g.below(3);
  p.p1 = 2 * nt;
  if (g.chance(30)) p.create_fail = 1 + g.below(3);
  int gated = g.chance(40); if (g.chance(25)) p.sleep_eintr = 1 + g.below(2);
  for (int t = 0; t < nt; t++) {
    script s; bool ex[2] = {false, false};
    int n = 2 + g.below(small ? 3 : 6), nobj = small ? 1 : 1 + g.below(2), starts = 0, opn = gated && t == 0 ? 3 + g.below(4) : -1;   // after which the gate is open
    if (opn >= n) n = opn + 1 + g.below(2);
    for (int i = 0; i < n; i++) {
      if (i == opn) { op o = {OPEN, 0, 0, 0}; s.push_back(o); }
      int w = g.below(nobj), r = g.below(100); op o = {0, 2 * t + 1 + w, g.below(8), 0};
      if (!ex[w]) { o.code = g.chance(90) ? NEW : NEWNULL; ex[w] = true; }
      else if (r < 45) { if (++starts > 4) continue; o.code = START; }
      else if (r < 65) o.code = i < opn ? DEL : JOIN;
      else if (r < 77) o.code = DETACH;
      else if (r < 85) o.code = DEL;
      else if (r < 92) o.code = SLEEP, o.b = g.below(10);
      else if (r < 96) o.code = YIELD;
      else o.code = ID;
      if (o.code == DEL) ex[w] = false;
      if (o.code == NEW && opn >= 0 && g.chance(60)) o.b |= 8;
      s.push_back(o);
    }
    for (int w = 0; w < 2; w++) if (ex[w]) { op o = {DEL, 2 * t + 1 + w, 0, 0}; if (g.chance(50)) { op j = {g.chance(50) ? JOIN : DETACH, o.a, 0, 0}; s.push_back(j); } s.push_back(o); }
    p.thr.push_back(s);
  }
  p.extra_n = 14;
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"objs\":%d,\"fail\":%d,\"intr\":%d", p.p1, p.create_fail, p.sleep_eintr); return b; }
void* make_object(const program& p) { if (!IDS) IDS = new std::map<int64_t, int>(); IDS->clear(); live = 0; is_open = false; next_tag = p.thr.size() + 1; for (int i = 0; i < 16; i++) TH[i] = 0; return &live; }
void free_object(void*) {}
void before_end(void*) { ev_call(1, "leak", V()); ev_ret(1, V(live, sched::unreleased())); }
void exec_op(void*, const program&, int t, const op& o) {
  int i = o.a;
  switch (o.code) {
  case NEW: ev_call(t, "new", V(i, 1)); { fn f(i, o.b); TH[i] = new thread(f); } ev_ret(t, V()); break;
  case NEWNULL: ev_call(t, "new", V(i, 0)); { pfi::lang::function<void()> f; TH[i] = new thread(f); } ev_ret(t, V()); break;
  case START: { ev_call(t, "start", V(i)); bool r = TH[i]->start(); ev_ret(t, V(r)); break; }
  case JOIN: { ev_call(t, "join", V(i)); bool r = TH[i]->join(); ev_ret(t, V(r)); break; }
  case DETACH: ev_call(t, "detach", V(i)); TH[i]->detach(); ev_ret(t, V()); break;
  case DEL: ev_call(t, "del", V(i)); delete TH[i]; TH[i] = 0; ev_ret(t, V()); break;
  case SLEEP: { static const double d[] = {0.01, 0.25, 0, 1.5, 2.999999, 0.0005, 1, 60.75, 150.5, -0.25}; double x = d[o.b % 10]; ev_call(t, "sleep", V(), x < 0 ? 0 : (int64_t)(x * 1e6)); bool r = thread::sleep(x); ev_ret(t, V(r)); break; }
  case OPEN: ev_call(t, "open", V()); { sched::guard g; is_open = true; } ev_ret(t, V()); break;
  case YIELD: ev_call(t, "yield", V()); thread::yield(); ev_ret(t, V()); break;
  case ID: log_id(t); break;
  }
}
