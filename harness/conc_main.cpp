#include "conc.h"
#include <unordered_set>
#include <set>
using namespace sched;

static std::set<int>* PENDING;
static std::string js(const std::vector<int>& v) {
  std::string s = "["; char b[32];
  for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", v[i]); s += b; }
  return s + "]";
}
static const program* P;
void ev_call(int t, const char* op, const std::vector<int>& a, int64_t tmo) {
  {
    guard g; char b[128];
    snprintf(b, sizeof b, "{\"k\":\"call\",\"t\":%d,\"op\":\"%s\",\"w\":%lld,\"m\":%lld,\"a\":", t, op, (long long)(now_us() / P->unit), (long long)(tmo < 0 ? tmo : tmo / P->unit));
    log_raw(std::string(b) + js(a) + "}");
    PENDING->insert(t);
  }
  sched::yield(P_SYNC);
}
void ev_ret(int t, const std::vector<int>& r) {
  sched::yield(P_SYNC);
  guard g; char b[96];
  snprintf(b, sizeof b, "{\"k\":\"ret\",\"t\":%d,\"w\":%lld,\"r\":", t, (long long)(now_us() / P->unit));
  log_raw(std::string(b) + js(r) + "}");
  PENDING->erase(t);
}

static void* OBJ; static int alive_threads; static bool all_done;
struct targ { int t; };
static void body_thr(void* a) {
  int t = (int)(intptr_t)a;
  set_tag(t);
  const script& s = P->thr[t - 1];
  for (size_t i = 0; i < s.size(); i++) exec_op(OBJ, *P, t, s[i]);
}
static void body_main(void*) {
  OBJ = make_object(*P);
  for (size_t i = 0; i < P->thr.size(); i++) spawn(body_thr, (void*)(intptr_t)(i + 1));
}

static std::unordered_set<std::string>* SEEN;
static long nexec, nuniq, maxuniq;

static void one(const program& p, chooser* ch, const options& o) {
  P = &p; PENDING->clear(); log_reset(); OBJ = 0;
  char b[128];
  snprintf(b, sizeof b, "{\"k\":\"hdr\",\"n\":%d,\"strict\":%d,\"ep\":%d", (int)p.thr.size() + p.extra_n, p.strict ? 1 : 0, p.epoch);
  std::string h = header(p);
  log_raw(std::string(b) + (h.empty() ? "" : "," + h) + "}");
  alarm(100);                    // a run that never comes back to the scheduler ends as a crash
  outcome oc = run(body_main, 0, ch, o);
  nexec++;
  if (oc == DONE && before_end) before_end(OBJ);
  if (oc == LIVELOCK) log_raw("{\"k\":\"livelock\"}");
  else {
    std::string s = "{\"k\":\"end\",\"b\":["; bool first = true;
    for (std::set<int>::iterator i = PENDING->begin(); i != PENDING->end(); ++i) {
      snprintf(b, sizeof b, "%s%d", first ? "" : ",", *i); first = false; s += b;
    }
    log_raw(s + "]}");
  }
  if (oc == DONE && OBJ) free_object(OBJ);
  if (SEEN->insert(log_str()).second) {
    nuniq++;
    printf("[%s]\n", log_str().c_str());
  }
}

int main(int argc, char** argv) {
  // drv MODE SEED NPROG NEXEC MAXUNIQ     MODE: rand | dfs<bound>
  if (argc < 6) return 2;
  PENDING = new std::set<int>(); SEEN = new std::unordered_set<std::string>();
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int np = atoi(argv[3]), ne = atoi(argv[4]); maxuniq = atol(argv[5]);
  setvbuf(stdout, 0, _IOFBF, 1 << 20);
  for (int i = 0; i < np && nuniq < maxuniq; i++) {
    rng g(seed * 1000003ULL + i);
    program p; p.p1 = p.p2 = 0; p.strict = false; p.spurious = 0; p.create_fail = p.sleep_eintr = 0; p.extra_n = 0; p.unit = 1; p.max_steps = 100000;
    { static const int E[] = {0, 0, 999000, 734567, 500001, 985000}; p.epoch = E[g.below(6)]; }
    bool dfs = mode[0] == 'd';
    gen_program(g, p, dfs);
    options o; o.timeouts = !p.strict; o.spurious = p.spurious; o.create_fail = p.create_fail; o.sleep_eintr = p.sleep_eintr; o.epoch = p.epoch; o.max_steps = p.max_steps;
    long lim = nuniq + (maxuniq - nuniq) / (np - i) + 1;
    if (dfs) {
      chooser* c = make_dfs(atoi(mode.c_str() + 3));
      int k = 0;
      do { one(p, c, o); } while (dfs_next(c) && ++k < ne && nuniq < lim);
      delete c;
    } else {
      for (int k = 0; k < ne && nuniq < lim; k++) {
        static const double pa[] = {0.0, 0.02, 0.1, 0.3};
        chooser* c = make_random(seed * 7919 + i * 100003ULL + k, pa[k % 4]);
        one(p, c, o);
        delete c;
      }
    }
  }
  fflush(stdout);
  fprintf(stderr, "STATS {\"executions\":%ld,\"unique\":%ld,\"steps\":%llu}\n", nexec, nuniq, (unsigned long long)total_steps);
  _exit(0);
}
