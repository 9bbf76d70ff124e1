#include "seq.h"
#include <math.h>
#include <time.h>
#include <errno.h>
#include <sys/time.h>
#include <pthread.h>
#include "system/time_util.h"
#include "math/ratio.h"
using namespace pfi::system::time;
static long now_s, now_u; static int now_fail, now_on;
extern "C" int gettimeofday(struct timeval* tv, void*) throw() {
  if (now_on) { if (now_fail) { errno = EFAULT; return -1; } tv->tv_sec = now_s; tv->tv_usec = now_u; return 0; }
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
static const char* zones[] = {"UTC0", "JST-9", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"};
static void split(event& e, const clock_time& c) { long s = (long)c.sec; long d = s / 86400, r = s % 86400; if (r < 0) { r += 86400; d--; } e.r(d).r(r).r(c.usec); }
static void fields(event& e, const calendar_time& c) { e.r(c.year).r(c.mon).r(c.mday).r(c.hour).r(c.min).r(c.sec).r(c.usec).r(c.wday).r(c.yday).r(c.isdst); }
// another thread converting other instants all the while
struct busy { volatile bool stop; long t; };
static void* churn(void* p) { busy* b = (busy*)p; for (long i = 0; !b->stop; i++) { calendar_time k(clock_time(b->t + i % 5, 1)); clock_time c(k); (void)c; } return 0; }
template <class T> static void rat(event& e, const words& w, T k) {
  using namespace pfi::math::ratio;
  typedef ratio<T> R;
  R a = num(w[3]) == 1 && k == 1 ? R((T)num(w[2])) : R((T)num(w[2]) * k, (T)num(w[3]) * k), b((T)num(w[4]) * k, (T)num(w[5]) * k), c, x(a);
  bool alias = num(w[6]); int op = num(w[1]); const R& y = alias ? x : b;
  if (op == 0) { c = a + (alias ? a : b); x += y; } else if (op == 1) { c = a - (alias ? a : b); x -= y; } else if (op == 2) { c = a * (alias ? a : b); x *= y; } else if (op == 3) { c = a / (alias ? a : b); x /= y; } else c = x;
  std::ostringstream o1, o2; o1 << c; o2 << x;
  char buf[64]; sprintf(buf, "%lld/%lld", (long long)x.num(), (long long)x.den());
  bool same = o1.str() == o2.str() && o2.str() == buf && c == x;
  if (same) e.r(x.num()).r(x.den()).r(a == b); else e.r(0).r(0).r(0);
}
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; std::string all; std::vector<long> v;
    for (size_t j = 1; j < w.size(); j++) { all += w[j] + " "; v.push_back(num(w[j])); }
    doing(op, "\"" + all + "\"");
    event e(op == "calt" ? "cal" : op);
    if (op == "sum" || op == "diff" || op == "less" || op == "dbl") {
      clock_time a(v[0], v[1]), b(v[2], v[3]); for (int j = 0; j < 4; j++) e.a(v[j]);
      if (op == "less") e.r(a < b);
      else if (op == "dbl") { long m = llround((double)a * 1e6); e.r(m / 1000000).r(m % 1000000); }
      else { clock_time s = op == "sum" ? a + b : a - b; if (op == "sum") a += b; else a -= b; e.r((long)s.sec).r(s.usec).r((long)a.sec).r(a.usec); }
    } else if (op == "now") { now_s = v[0]; now_u = v[1]; now_fail = v[2]; now_on = 1; clock_time t = get_clock_time(); now_on = 0; e.a(v[0]).a(v[1]).a(v[2]).r((long)t.sec).r(t.usec); }
    else if (op == "cal") {
      setenv("TZ", zones[v[0]], 1); tzset(); for (int j = 0; j < 4; j++) e.a(v[j]);
      clock_time t(v[1] * 86400 + v[2], v[3]); calendar_time k(t); fields(e, k); split(e, clock_time(k));
    } else if (op == "calt") {
      setenv("TZ", zones[v[0]], 1); tzset(); for (int j = 0; j < 4; j++) e.a(v[j]);
      clock_time t(v[1] * 86400 + v[2], v[3]); calendar_time k(t); clock_time back(k);
      busy b; b.stop = false; b.t = v[4]; pthread_t th[2]; for (int j = 0; j < 2; j++) pthread_create(&th[j], 0, churn, &b);
      for (int j = 0; j < 4000; j++) {
        calendar_time q(t); clock_time r(q);
        if (q.year != k.year || q.mon != k.mon || q.mday != k.mday || q.hour != k.hour || q.min != k.min || q.sec != k.sec || q.yday != k.yday || q.wday != k.wday || q.isdst != k.isdst || r < back || back < r) { k = q; back = r; break; }
      }
      b.stop = true; for (int j = 0; j < 2; j++) pthread_join(th[j], 0);
      fields(e, k); split(e, back);
    } else if (op == "named") {
      setenv("TZ", zones[v[0]], 1); tzset(); for (int j = 0; j < 8; j++) e.a(v[j]);
      volatile char junk[400]; memset((void*)junk, (int)(i * 37 + v[1]), sizeof junk);
      calendar_time k(v[1], v[2], v[3], v[4], v[5], v[6], v[7]); fields(e, k); split(e, clock_time(k));
    } else if (op == "ratio") {
      for (int j = 0; j < 6; j++) e.a(v[j]);
      if (v[6] == 0) rat<int>(e, w, 1); else if (v[6] == 1) rat<long>(e, w, strtol(w[8].c_str(), 0, 10)); else rat<long long>(e, w, strtoll(w[8].c_str(), 0, 10));
    }
  }
}
