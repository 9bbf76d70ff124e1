#include "seq.h"
#include <math.h>
#include <deque>
#include "math/random.h"
using namespace pfi::math::random;
// a generator that gives the words it is told to
static std::vector<uint32_t> script; static size_t used;
struct scripted { scripted(uint32_t) {} uint32_t next() { return used < script.size() ? script[used++] : (used++, 0u); } };
typedef pfi::math::random::random<scripted> srnd;
// all the choices r(m) can make, one after another: a odometer
struct odo { std::vector<int> at, lim; size_t k; bool bad; odo() : k(0), bad(false) {}
  int operator()(int m) { if (m <= 0) { bad = true; return 0; } if (k == at.size()) { at.push_back(0); lim.push_back(m); } if (lim[k] != m) bad = true; return at[k++]; }
  uint32_t operator()(uint32_t m) { return (uint32_t)(*this)((int)m); }
  bool next() { at.resize(k); lim.resize(k); k = 0; while (at.size()) { if (++at.back() < lim.back()) return true; at.pop_back(); lim.pop_back(); } return false; } };
static std::string jints(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + jnum(v[i]); return s + "]"; }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; std::vector<long> v; for (size_t j = 1; j < w.size(); j++) v.push_back(num(w[j]));
    doing(op, jnum(v[0])); event e(op);
    if (op == "mt") {
      uint32_t seed = (uint32_t)(v[0] << 16 | v[1]); e.a(v[0]).a(v[1]).a(v[2]);
      mtrand a(seed), b(seed); mersenne_twister m(seed); std::vector<long> h, l; bool same = true;
      for (long k = 0; k < v[2]; k++) { if (k == 700) b = a; uint32_t x = a.next_int(); same = same && b() == x && m.next() == x; h.push_back(x >> 16); l.push_back(x & 65535); }
      e.r(h).r(l).r(same);
    } else if (op == "real" || op == "word" || op == "below" || op == "between" || op == "realin") {
      script.clear(); used = 0; for (int k = 0; k < 2; k++) script.push_back((uint32_t)(v[2 * k] << 16 | v[2 * k + 1]));
      srnd r(1); for (size_t k = 0; k < v.size() && op != "realin"; k++) e.a(v[k]);
      if (op == "real") { double d = r.next_double(); double x = ldexp(d, 27), hi = floor(x), lo = ldexp(x - hi, 26); e.r((long)used).r((long)hi).r(lo == floor(lo) ? (long)lo : -1); }
      else if (op == "word") { uint32_t x = v[4] ? r() : r.next_int(); e.r((long)used).r(x >> 16).r(x & 65535); }
      else if (op == "below") { uint32_t n = (uint32_t)(v[4] << 16 | v[5]), x = v[6] ? r(n) : r.next_int(n); e.r((long)used).r(x >> 16).r(x & 65535); }
      else if (op == "between") { uint32_t lo = (uint32_t)(v[4] << 16 | v[5]), hi = (uint32_t)(v[6] << 16 | v[7]), x = v[8] ? r(lo, hi) : r.next_int(lo, hi); e.r((long)used).r(x >> 16).r(x & 65535); }
      else {   // real ranges, as multiples of 1/16
        e.a(v[4]).a(v[5]); double lo = v[4] / 16., hi = v[5] / 16., d = ldexp((double)(script[0] >> 5), -27) + ldexp((double)(script[1] >> 6), -53), x = v[4] == 0 && v[6] ? r.next_double(hi) : r.next_double(lo, hi);
        e.r((long)used).r(lo <= x && x <= hi && fabs(x - (lo + (hi - lo) * d)) <= 1e-9 * (fabs(lo) + fabs(hi)));
      }
    } else if (op == "gauss") {
      // a in {1, 1/2, 1/4, 2^-53}, b in eighths of a turn (0 stands for 1); two draws use two words each
      e.a(v[0]).a(v[1]); script.clear(); used = 0; uint32_t A0[] = {0, 0x80000000u, 0xC0000000u, 0xFFFFFFFFu}, A1[] = {0, 0, 0, 0xFFFFFFFFu};
      for (int k = 0; k < 2; k++) { script.push_back(A0[v[0]]); script.push_back(A1[v[0]]); script.push_back((uint32_t)((8 - v[1]) % 8) << 29); script.push_back(0); }
      srnd r(1); size_t u = 0;
      for (int k = 0; k < 2; k++) { double x = r.next_gaussian(); e.r((long)(used - u)).r((long)llround(x * 1e4)); u = used; }
      double x = r.next_gaussian(5., .5); e.r((long)(used - u)).r((long)llround(x * 1e4)); u = used; x = r.next_gaussian(5., -.5); e.r((long)(used - u)).r((long)llround(x * 1e4));
    } else if (op == "with" || op == "without") {
      e.a(v[0]).a(v[1]); odo o; std::vector<std::string> all; bool ok;
      do { std::vector<int> res; ok = op == "with" ? sample_with_replacement(o, (int)v[0], (int)v[1], res) : sample_without_replacement(o, (int)v[0], (int)v[1], res); all.push_back(jints(res)); } while (o.next());
      if (ok && !o.bad) e.r(1).rr(jlist(all)); else e.r(o.bad ? 2 : 0);
    } else {
      e.a(v[0]).a(v[1]).a(v[2]); mtrand r((uint32_t)v[3]); std::vector<int> res(5, -3); bool ok = v[0] ? sample_with_replacement(r, (int)v[1], (int)v[2], res) : sample_without_replacement(r, (int)v[1], (int)v[2], res);
      e.r(ok).rr(jints(res));
    }
  }
}
