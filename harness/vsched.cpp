// See sched.h.  Compiled WITHOUT -fsanitize=thread; the code under test is
// compiled WITH it and calls the __tsan_* hooks at the end of this file, which
// turn shared memory accesses into scheduling points.
#include "vsched.h"
#include <pthread.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/single_threaded.h>
#include <string.h>
#include <map>
#include <vector>

extern "C" void verif_switch(void** from_sp, void* to_sp);
asm(R"(
.text
.globl verif_switch
.type verif_switch,@function
verif_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size verif_switch,.-verif_switch
)");

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals(); }

namespace sched {

uint64_t total_steps = 0;

static const size_t STK = 512 * 1024;
static const int64_t EPOCH0_US = 1000000000LL * 1000000LL;
static int64_t EPOCH_US = EPOCH0_US;

enum wkind { W_NONE, W_MUTEX, W_COND, W_RD, W_WR, W_JOIN, W_SLEEP, W_FN, W_SEM };

struct fiber {
  void* sp; char* stk; bool alive, started, detached, joined;
  body_t body; void* arg; void* (*tfn)(void*); int tag;
  wkind w; void* obj; int64_t deadline; bool signaled, timed_out;
  cond_t fn; void* fnarg;
  char eh[16]; int err;
};
static fiber F[MAXF];
static int nf = 0, cur = -1;
static bool on = false;
static int nohook = 0;
static void* main_sp;
static chooser* CH;
static options OPT;
static int64_t NOW;
static uint64_t steps, asteps;
static int creates;
static int spurious_left;
static bool livelock;
static uint64_t hr;
static const char* volatile dying = 0;

void fatal(const char* m) {
  fprintf(stderr, "sched fatal: %s\n", m);
  _exit(70);
}

struct mstate { int owner; int cnt; int type; };
struct cstate { int dummy; };
struct rstate { int writer; int readers; int kind; int wwait; };
struct sstate { int v; };
template <class T> struct tab {
  std::map<void*, T>* m;
  T& get(void* p) { if (!m) m = new std::map<void*, T>(); return (*m)[p]; }
  void erase(void* p) { if (m) m->erase(p); }
};
static tab<mstate> MT; static tab<rstate> RT; static tab<sstate> ST;

static mstate& M(void* p) {
  if (!MT.m || !MT.m->count(p)) { mstate s = {-1, 0, PTHREAD_MUTEX_NORMAL}; MT.get(p) = s; }
  return MT.get(p);
}
static rstate& R(void* p) {
  if (!RT.m || !RT.m->count(p)) { rstate s = {-1, 0, 0, 0}; RT.get(p) = s; }
  return RT.get(p);
}

bool active() { return on; }
int self() { return on ? cur : 0; }
int tag(int f) { return F[f].tag; }
void set_tag(int t) { if (on) F[cur].tag = t; }
double now() { return NOW / 1e6; }
int64_t now_us() { return NOW; }
bool fiber_blocked(int f) { return f < nf && F[f].alive; }
int fiber_count() { return nf; }
static bool from_create[MAXF];
int live_threads() { int n = 0; for (int i = 0; i < nf; i++) if (from_create[i] && F[i].alive) n++; return n; }
int unreleased() { int n = 0; for (int i = 0; i < nf; i++) if (from_create[i] && !F[i].joined && !F[i].detached) n++; return n; }

static bool cond_true(fiber& f) {
  switch (f.w) {
  case W_NONE: return true;
  case W_MUTEX: return M(f.obj).owner < 0;
  case W_COND: return f.signaled;
  case W_RD: { rstate& r = R(f.obj); return r.writer < 0 && !(r.kind && r.wwait > 0 && r.readers > 0); }
  case W_WR: { rstate& r = R(f.obj); return r.writer < 0 && r.readers == 0; }
  case W_JOIN: return !F[(intptr_t)f.obj].alive;
  case W_SLEEP: return false;
  case W_FN: return f.fn(f.fnarg);
  case W_SEM: return ST.get(f.obj).v > 0;
  }
  return true;
}

static void do_switch(int to) {
  if (to == cur) return;
  int from = cur;
  memcpy(F[from].eh, __cxxabiv1::__cxa_get_globals(), 16);
  F[from].err = errno;
  cur = to;
  memcpy((void*)__cxxabiv1::__cxa_get_globals(), F[to].eh, 16);
  errno = F[to].err;
  verif_switch(&F[from].sp, F[to].sp);
}
static void to_main() {
  int from = cur;
  verif_switch(&F[from].sp, main_sp);
}

static void sig_reset(fiber& f) { f.w = W_NONE; f.signaled = false; f.deadline = -1; }

// Pick who runs next.  On return the current fiber has been chosen again.
static void reschedule(int kind) {
  if (kind == P_ACCESS ? ++asteps > 100 * OPT.max_steps : ++steps > OPT.max_steps) { livelock = true; to_main(); }
  total_steps++;
  nohook++;
  int e[MAXF + 1], n = 0, ci = -1;
  int td = -1;
  for (int i = 0; i < nf; i++) {
    if (!F[i].alive) continue;
    bool en = cond_true(F[i]) || (F[i].deadline >= 0 && F[i].deadline <= NOW);
    if (en) { if (i == cur) ci = n; e[n++] = i; }
    else if (F[i].deadline >= 0 && (td < 0 || F[i].deadline < F[td].deadline)) td = i;
  }
  // spurious wakeup of a condition waiter
  if (spurious_left > 0 && kind == P_SYNC) {
    int c = -1;
    for (int i = 0; i < nf; i++) if (F[i].alive && F[i].w == W_COND && !F[i].signaled) { c = i; break; }
    if (c >= 0 && CH->pick(2, C_SPURIOUS) == 1) {
      spurious_left--; F[c].signaled = true;
      bool in = false; for (int k = 0; k < n; k++) if (e[k] == c) in = true;
      if (!in) e[n++] = c;
      if (td == c) td = -1;
    }
  }
  int to;
  if (n == 0) {
    if (td < 0) { nohook--; to_main(); return; }       // quiescent
    NOW = F[td].deadline; F[td].timed_out = true; to = td;
  } else {
    bool timo = td >= 0 && OPT.timeouts && kind != P_ACCESS && CH->pick(2, C_TIMEOUT) == 1;
    if (timo) { NOW = F[td].deadline; F[td].timed_out = true; to = td; }
    else to = e[CH->next(e, n, ci, kind)];
  }
  nohook--;
  do_switch(to);
}

void yield(int kind) { if (on && !nohook) reschedule(kind); }
int choose(int n, int kind) { return on ? CH->pick(n, kind) : 0; }

// Block the current fiber; true if the condition holds, false on timeout.
static bool block(wkind w, void* obj, int64_t deadline) {
  fiber& f = F[cur];
  f.w = w; f.obj = obj; f.deadline = deadline; f.signaled = false; f.timed_out = false;
  for (;;) {
    reschedule(P_SYNC);
    if (cond_true(f)) { sig_reset(f); return true; }
    if (deadline >= 0 && NOW >= deadline) { sig_reset(f); return false; }
  }
}
bool block_on(cond_t c, void* arg, int64_t deadline) {
  F[cur].fn = c; F[cur].fnarg = arg;
  if (c(arg)) return true;
  return block(W_FN, 0, deadline);
}

static void entry() {
  int me = cur;
  F[me].started = true;
  try {
    if (F[me].tfn) F[me].tfn(F[me].arg); else F[me].body(F[me].arg);
  } catch (...) {
    dying = "uncaught exception in thread"; abort();
  }
  F[me].alive = false;
  reschedule(P_SYNC);
  for (;;) to_main();
}

static int new_fiber(body_t b, void* (*t)(void*), void* arg) {
  if (nf >= MAXF) fatal("too many fibers");
  fiber& f = F[nf];
  char* stk = f.stk;
  if (!stk) {
    stk = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (stk == MAP_FAILED) fatal("mmap");
  }
  memset(&f, 0, sizeof f);
  f.stk = stk; from_create[nf] = false; f.alive = true; f.body = b; f.tfn = t; f.arg = arg; f.tag = nf; f.deadline = -1;
  uintptr_t top = ((uintptr_t)stk + STK - 64) & ~(uintptr_t)15;
  uintptr_t* sp = (uintptr_t*)top;
  *--sp = 0;                     // fake return address of entry
  *--sp = (uintptr_t)&entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  return nf++;
}
int spawn(body_t b, void* arg) { int i = new_fiber(b, 0, arg); yield(P_SYNC); return i; }

uint64_t rnd() { hr ^= hr << 13; hr ^= hr >> 7; hr ^= hr << 17; return hr; }

outcome run(body_t body, void* arg, chooser* ch, const options& opt) {
  if (on) fatal("nested run");
  __libc_single_threaded = 0;      // shared_ptr must use atomic reference counts
  CH = ch; OPT = opt; NOW = 0; EPOCH_US = EPOCH0_US + opt.epoch; steps = asteps = 0; creates = 0; livelock = false;
  spurious_left = opt.spurious; hr = 88172645463325252ULL;
  if (MT.m) for (std::map<void*, mstate>::iterator i = MT.m->begin(); i != MT.m->end(); ++i) { i->second.owner = -1; i->second.cnt = 0; }
  if (RT.m) for (std::map<void*, rstate>::iterator i = RT.m->begin(); i != RT.m->end(); ++i) { i->second.writer = -1; i->second.readers = 0; i->second.wwait = 0; }
  nf = 0;
  char eh[16]; memcpy(eh, __cxxabiv1::__cxa_get_globals(), 16);
  memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16);
  new_fiber(body, 0, arg);
  cur = 0; on = true;
  verif_switch(&main_sp, F[0].sp);
  on = false;
  memcpy((void*)__cxxabiv1::__cxa_get_globals(), eh, 16);
  if (livelock) return LIVELOCK;
  for (int i = 0; i < nf; i++) if (F[i].alive) return QUIESCENT;
  return DONE;
}

guard::guard() : was(true) { nohook++; }
guard::~guard() { nohook--; }

// --- log -------------------------------------------------------------------
static std::string* LOG = 0; static int nlog = 0;
static std::string& L() { if (!LOG) LOG = new std::string(); return *LOG; }
void log_reset() { L().clear(); nlog = 0; }
void log_raw(const std::string& s) { guard g; if (nlog++) L() += ','; L() += s; }
const std::string& log_str() { return L(); }
int log_events() { return nlog; }

static void crash(int sig) {
  signal(sig, SIG_DFL);
  char b[160];
  int n = snprintf(b, sizeof b, "%s{\"k\":\"crash\",\"t\":%d}]\n", nlog ? "," : "", on ? F[cur].tag : 0);
  if (on) {
    fflush(stdout);
    (void)!write(1, "[", 1);
    (void)!write(1, L().data(), L().size());
    (void)!write(1, b, n);
  }
  char c[200];
  int k = snprintf(c, sizeof c, "CRASH signal=%d %s\n", sig, dying ? dying : "");
  (void)!write(2, c, k);
  _exit(71);
}
struct installer { installer() {
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK;
  int s[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM};
  for (int i = 0; i < 6; i++) sigaction(s[i], &sa, 0);
} };
static installer inst_;

// --- choosers ---------------------------------------------------------------
struct random_chooser : chooser {
  uint64_t s; double pa; double stay; bool pct; int prio[MAXF]; int np; uint64_t chg[4]; uint64_t cnt; int low; double ptimo, pfault;
  uint64_t r() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  double u() { return (r() >> 11) * (1.0 / 9007199254740992.0); }
  random_chooser(uint64_t seed, double p) : s(seed * 2654435761ULL + 12345), pa(p), np(0), cnt(0), low(-1) {
    static const double st[] = {0.0, 0.3, 0.6, 0.85};
    static const double pt[] = {0.0, 0.01, 0.05, 0.2};
    r(); r();
    stay = st[r() % 4]; ptimo = pt[r() % 4];
    static const double pf[] = {0.0, 0.08, 0.3, 0.6};
    pfault = pf[r() % 4];
    pct = (r() % 3) == 0;
    uint64_t span = (r() % 2) ? 60 : 400;
    if (pa > 0) span *= 3;
    for (int i = 0; i < 4; i++) chg[i] = (r() % span);
  }
  int pick(int n, int kind) {
    if (kind == C_TIMEOUT) return u() < ptimo ? 1 : 0;
    if (kind == C_SPURIOUS) return u() < 0.1 ? 1 : 0;
    if (kind == C_FAULT) return u() < pfault ? 1 + (int)(r() % (n - 1)) : 0;
    return (int)(r() % n);
  }
  int next(const int* e, int n, int ci, int kind) {
    if (pct) {
      cnt++;
      for (int i = 0; i < 4; i++) if (chg[i] == cnt && ci >= 0) { ensure(e[ci]); prio[e[ci]] = low--; }
      if (kind == P_YIELD && ci >= 0 && n > 1) { ensure(e[ci]); prio[e[ci]] = low--; }
      int b = 0;
      for (int i = 0; i < n; i++) { ensure(e[i]); if (prio[e[i]] > prio[e[b]]) b = i; }
      return b;
    }
    if (ci >= 0 && kind == P_ACCESS && u() >= pa) return ci;
    if (ci >= 0 && kind != P_ACCESS && u() < stay) return ci;
    return (int)(r() % n);
  }
  void ensure(int f) { while (np <= f) prio[np++] = (int)(r() % 1000000) + 1; }
};
chooser* make_random(uint64_t seed, double p) { return new random_chooser(seed, p); }

struct dfs_chooser : chooser {
  struct node { int n, c, base; };          // alternatives, chosen, preemptions before
  std::vector<node> path; size_t pos; int bound, used;
  std::vector<int> costs;                   // is alternative != 0 a preemption?
  dfs_chooser(int b) : pos(0), bound(b), used(0) {}
  int take(int n, bool costly) {
    if (n <= 1) return 0;
    if (pos < path.size()) {
      int c = path[pos].c; if (c >= n) c = 0;
      if (c && costs[pos]) used++;
      pos++;
      return c;
    }
    if (costly && used >= bound) return 0;
    node nd = {n, 0, used}; path.push_back(nd); costs.push_back(costly); pos++;
    return 0;
  }
  int pick(int n, int kind) {
    if (kind == C_TIMEOUT || kind == C_SPURIOUS || kind == C_FAULT) return take(n, true);
    return take(n, false);
  }
  int next(const int* e, int n, int ci, int kind) {
    if (kind == P_ACCESS) return ci >= 0 ? ci : 0;
    if (ci < 0) return take(n, false);
    if (kind == P_YIELD && n > 1) {           // a voluntary yield: others first, free
      int a = take(n, false); return (ci + 1 + a) % n;
    }
    int a = take(n, true);                   // 0: stay
    return (ci + a) % n;
  }
  bool advance() {
    while (!path.empty()) {
      node& k = path.back();
      if (k.c + 1 < k.n) { k.c++; pos = 0; used = 0; return true; }
      path.pop_back(); costs.pop_back();
    }
    return false;
  }
};
chooser* make_dfs(int b) { return new dfs_chooser(b); }
bool dfs_next(chooser* c) { return static_cast<dfs_chooser*>(c)->advance(); }

static int64_t ts_us(const struct timespec* t) { int64_t d = (int64_t)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000 - EPOCH_US; return d < 0 ? 0 : d; }   // past is past; -1 is no deadline
static bool ts_ok(const struct timespec* t) { return t && t->tv_nsec >= 0 && t->tv_nsec < 1000000000L; }

// --- primitives -------------------------------------------------------------
static int mlock(void* p, int64_t deadline, bool try_) {
  yield(P_SYNC);
  mstate& m = M(p);
  if (m.owner == cur) {
    if (m.type == PTHREAD_MUTEX_RECURSIVE) { m.cnt++; return 0; }
    if (m.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (m.owner >= 0) {
    if (try_) return EBUSY;
    if (!block(W_MUTEX, p, deadline)) return ETIMEDOUT;
  }
  mstate& m2 = M(p); m2.owner = cur; m2.cnt = 1;
  return 0;
}
static int munlock(void* p, bool y) {
  mstate& m = M(p);
  if (m.type != PTHREAD_MUTEX_NORMAL && m.owner != cur) return EPERM;
  if (m.type == PTHREAD_MUTEX_RECURSIVE && --m.cnt > 0) return 0;
  m.owner = -1; m.cnt = 0;
  if (y) yield(P_SYNC);
  return 0;
}
static int cwait(void* c, void* mu, int64_t deadline) {
  yield(P_SYNC);
  mstate save = M(mu);
  M(mu).owner = -1; M(mu).cnt = 0;
  bool ok;
  fiber& f = F[cur];
  f.w = W_COND; f.obj = c; f.deadline = deadline; f.signaled = false; f.timed_out = false;
  for (;;) {
    reschedule(P_SYNC);
    if (f.signaled) { ok = true; break; }
    if (deadline >= 0 && NOW >= deadline) { ok = false; break; }
  }
  sig_reset(f);
  if (M(mu).owner >= 0) block(W_MUTEX, mu, -1);
  M(mu).owner = cur; M(mu).cnt = save.cnt > 0 ? save.cnt : 1;
  return ok ? 0 : ETIMEDOUT;
}
static void csignal(void* c, bool all) {
  yield(P_SYNC);
  int w[MAXF], n = 0;
  for (int i = 0; i < nf; i++) if (F[i].alive && F[i].w == W_COND && F[i].obj == c && !F[i].signaled) w[n++] = i;
  if (!n) return;
  if (all) { for (int i = 0; i < n; i++) F[w[i]].signaled = true; }
  else F[w[n > 1 ? CH->pick(n, C_SIGNAL) : 0]].signaled = true;
}
static int rlock_(void* p, int64_t deadline, bool try_) {
  yield(P_SYNC);
  rstate& r = R(p);
  if (r.writer == cur) return EDEADLK;
  bool ok = r.writer < 0 && !(r.kind && r.wwait > 0 && r.readers > 0);
  if (!ok) {
    if (try_) return EBUSY;
    if (!block(W_RD, p, deadline)) return ETIMEDOUT;
  }
  R(p).readers++;
  return 0;
}
static int wlock_(void* p, int64_t deadline, bool try_) {
  yield(P_SYNC);
  rstate& r = R(p);
  if (r.writer == cur) return EDEADLK;
  if (r.writer >= 0 || r.readers > 0) {
    if (try_) return EBUSY;
    r.wwait++;
    bool ok = block(W_WR, p, deadline);
    R(p).wwait--;
    if (!ok) return ETIMEDOUT;
  }
  R(p).writer = cur;
  return 0;
}
} // namespace sched

using namespace sched;

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int t = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &t);
  if (t == PTHREAD_MUTEX_DEFAULT) t = PTHREAD_MUTEX_NORMAL;
  memset(m, 0, sizeof *m);
  mstate s = {-1, 0, t}; MT.get(m) = s; return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { MT.erase(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) throw() { return on && !nohook ? mlock(m, -1, false) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) throw() { return on && !nohook ? mlock(m, -1, true) : 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) throw() {
  if (!on) return 0;
  if (!ts_ok(t)) return EINVAL;
  return mlock(m, ts_us(t), false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) throw() { return on && !nohook ? munlock(m, true) : 0; }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) throw() { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) throw() { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on ? cwait(c, m, -1) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!on) return 0;
  if (!ts_ok(t)) return EINVAL;
  return cwait(c, m, ts_us(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c) throw() { if (on) csignal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) throw() { if (on) csignal(c, true); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) throw() {
  int k = 0; if (a) pthread_rwlockattr_getkind_np(a, &k);
  memset(l, 0, sizeof *l);
  rstate s = {-1, 0, k == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP, 0}; RT.get(l) = s; return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) throw() { RT.erase(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) throw() { return on ? rlock_(l, -1, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) throw() { return on ? rlock_(l, -1, true) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) throw() {
  if (!on) return 0;
  if (!ts_ok(t)) return EINVAL;
  return rlock_(l, ts_us(t), false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) throw() { return on ? wlock_(l, -1, false) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) throw() { return on ? wlock_(l, -1, true) : 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) throw() {
  if (!on) return 0;
  if (!ts_ok(t)) return EINVAL;
  return wlock_(l, ts_us(t), false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) throw() {
  if (!on) return 0;
  rstate& r = R(l);
  if (r.writer >= 0) r.writer = -1;          // as glibc: whoever calls it
  else if (r.readers > 0) r.readers--;
  yield(P_SYNC);
  return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) throw() {
  if (!on) fatal("pthread_create outside a run");
  yield(P_SYNC);
  creates++;
  if (OPT.create_fail && creates == OPT.create_fail) return EAGAIN;
  int i = new_fiber(0, fn, arg); from_create[i] = true;
  int ds = 0; if (a && pthread_attr_getdetachstate(a, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) F[i].detached = true;
  *t = (pthread_t)(0x1000 + i);
  yield(P_SYNC);
  return 0;
}
static int fid(pthread_t t) { intptr_t i = (intptr_t)t - 0x1000; return i >= 0 && i < nf ? (int)i : -1; }
int pthread_join(pthread_t t, void** ret) {
  if (!on) return ESRCH;
  yield(P_SYNC);
  int i = fid(t);
  if (i < 0 || F[i].joined) return ESRCH;
  if (F[i].detached) {
    if (!F[i].alive) abort();           // its id no longer exists: undefined, and a use after free in practice
    return EINVAL;
  }
  if (i == cur) return EDEADLK;
  if (F[i].alive) block(W_JOIN, (void*)(intptr_t)i, -1);
  F[i].joined = true;
  if (ret) *ret = 0;
  return 0;
}
int pthread_detach(pthread_t t) throw() {
  if (!on) return 0;
  int i = fid(t);
  if (i < 0 || F[i].joined) return ESRCH;
  if (F[i].detached) return EINVAL;
  F[i].detached = true;
  return 0;
}
pthread_t pthread_self(void) throw() { return (pthread_t)(0x1000 + (on ? cur : 0)); }
static long tid_of() { return 5000 + (on ? cur : 0) * 65536L; }   // ids that differ in the high bits only
pid_t gettid(void) throw() { return (pid_t)tid_of(); }
long syscall(long n, ...) throw() {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_gettid) return tid_of();
  static long (*real)(long, ...) = 0;
  if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
  return real(n, a, b, c, d, e, f);
}
int sched_yield(void) throw() { yield(P_YIELD); return 0; }
static int64_t wall() { return EPOCH_US + (on ? NOW : 0); }
int gettimeofday(struct timeval* tv, void*) throw() { int64_t w = wall(); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0; }
time_t time(time_t* t) throw() { time_t r = wall() / 1000000; if (t) *t = r; return r; }
int clock_gettime(clockid_t, struct timespec* ts) throw() { int64_t w = wall(); ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0; }
static int do_sleep(int64_t us) {
  if (!on) return 0;
  if (us <= 0) { yield(P_YIELD); return 0; }
  block(W_SLEEP, 0, NOW + us);
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* m) {
  if (!ts_ok(r)) { errno = EINVAL; return -1; }
  int64_t us = r->tv_sec * 1000000LL + (r->tv_nsec + 999) / 1000;
  if (on && us > 0 && OPT.sleep_eintr > 0 && CH->pick(2, C_FAULT) == 1) {
    OPT.sleep_eintr--; int64_t t0 = NOW; do_sleep((us + 1) / 2); int64_t left = us - (NOW - t0); if (left < 0) left = 0;
    if (m) { m->tv_sec = left / 1000000; m->tv_nsec = left % 1000000 * 1000; }
    errno = EINTR; return -1;
  }
  return do_sleep(r->tv_sec * 1000000LL + (r->tv_nsec + 999) / 1000);
}
int clock_nanosleep(clockid_t, int fl, const struct timespec* r, struct timespec*) {
  if (!ts_ok(r)) return EINVAL;
  return do_sleep(fl ? ts_us(r) - NOW : r->tv_sec * 1000000LL + (r->tv_nsec + 999) / 1000);
}
int usleep(useconds_t u) { return do_sleep(u); }
unsigned sleep(unsigned s) { do_sleep(s * 1000000LL); return 0; }

int sem_init(sem_t* s, int, unsigned v) throw() { ST.get(s).v = v; return 0; }
int sem_destroy(sem_t* s) throw() { ST.erase(s); return 0; }
int sem_wait(sem_t* s) { if (!on) return 0; yield(P_SYNC); if (ST.get(s).v <= 0) block(W_SEM, s, -1); ST.get(s).v--; return 0; }
int sem_trywait(sem_t* s) throw() { if (!on) return 0; yield(P_SYNC); if (ST.get(s).v <= 0) { errno = EAGAIN; return -1; } ST.get(s).v--; return 0; }
int sem_timedwait(sem_t* s, const struct timespec* t) { if (!on) return 0; yield(P_SYNC); if (ST.get(s).v <= 0 && !block(W_SEM, s, ts_us(t))) { errno = ETIMEDOUT; return -1; } ST.get(s).v--; return 0; }
int sem_post(sem_t* s) throw() { ST.get(s).v++; yield(P_SYNC); return 0; }

// --- compiler instrumentation hooks -----------------------------------------
static inline void acc(void* p) {
  if (!on || nohook) return;
  char* q = (char*)p; char* b = F[cur].stk;
  if (q >= b && q < b + STK) return;           // own stack: not shared
  nohook++;
  int n = 0;
  for (int i = 0; i < nf && n < 2; i++) if (F[i].alive && (i == cur || F[i].w == W_NONE)) n++;
  nohook--;
  if (n < 2) return;
  reschedule(P_ACCESS);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(N) void __tsan_read##N(void* p) { acc(p); } void __tsan_write##N(void* p) { acc(p); } \
  void __tsan_unaligned_read##N(void* p) { acc(p); } void __tsan_unaligned_write##N(void* p) { acc(p); } \
  void __tsan_volatile_read##N(void* p) { acc(p); } void __tsan_volatile_write##N(void* p) { acc(p); } \
  void __tsan_read_write##N(void* p) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long) { acc(p); }
void __tsan_write_range(void* p, long) { acc(p); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { acc((void*)a); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { acc((void*)a); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { acc((void*)a); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((void*)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((void*)a); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
