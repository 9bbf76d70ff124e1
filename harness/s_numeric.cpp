#include "seq.h"
#include <complex>
#include <deque>
#include <math.h>
#include "math/vector.h"
#include "math/fft.h"
using namespace pfi::math;
namespace bn = pfi::math::vector::component_by_name; namespace ba = pfi::math::vector::component_by_array;
typedef std::vector<long> ints;
template <class V, class T> static V mk(const ints& d, size_t n) { T b[16]; for (size_t i = 0; i < n; i++) b[i] = (T)d[i]; return V(b); }
template <class V, class T> static ints out(V v, size_t n, double k = 1) { ints o; T b[16]; v.writeToArray(b); for (size_t i = 0; i < n; i++) o.push_back(v[(int)i] == b[i] ? (long)llround(b[i] * k) : 99999999); return o; }
template <class V> struct ctor;
#define CT2(X) template <> struct ctor<X<long> > { static X<long> go(const ints& d) { return X<long>(d[0], d[1]); } static ints outer(const X<long>& a, const X<long>& b) { return ints(1, a % b); } };
#define CT3(X) template <> struct ctor<X<long> > { static X<long> go(const ints& d) { return X<long>(d[0], d[1], d[2]); } static ints outer(const X<long>& a, const X<long>& b) { X<long> c = a % b; return out<X<long>, long>(c, 3); } };
#define CT(X, ...) template <> struct ctor<X<long> > { static X<long> go(const ints& d) { return X<long>(__VA_ARGS__); } static ints outer(const X<long>&, const X<long>&) { return ints(); } };
CT2(bn::vector2) CT2(ba::vector2) CT3(bn::vector3) CT3(ba::vector3) CT(bn::vector4, d[0], d[1], d[2], d[3]) CT(ba::vector4, d[0], d[1], d[2], d[3])
CT(ba::vector5, d[0], d[1], d[2], d[3], d[4]) CT(ba::vector6, d[0], d[1], d[2], d[3], d[4], d[5]) CT(ba::vector7, d[0], d[1], d[2], d[3], d[4], d[5], d[6])
CT(ba::vector8, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]) CT(ba::vector9, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]) CT(ba::vector10, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9])
template <template <class> class X> static void vec(event& e, const ints& x, const ints& y, long m, bool geo) {
  size_t n = x.size();
  if (geo) {
    typedef X<double> D; D a = mk<D, double>(x, n), b = mk<D, double>(y, n);
    e.r((long)llround(1000 * abs(a))).r((long)llround(1000 * (a / b))).r(out<D, double>(normalize(a), n, 1000)).r(out<D, double>(normalize(a, (double)m), n, 1000)).r(out<D, double>(a.normalize(), n, 1000)).r(out<D, double>(a.normalize((double)m), n, 1000));
    return;
  }
  typedef X<long> L; L a = mk<L, long>(x, n), b = ctor<L>::go(y), c;
  e.r(out<L, long>(a + b, n)).r(out<L, long>(a - b, n)).r(out<L, long>(-a, n)).r(out<L, long>(m * a, n)).r(out<L, long>(a * m, n)).r(out<L, long>((m * a) / m, n)).r(a * b).r(ctor<L>::outer(a, b)).r(a == b).r(a < b).r(norm(a));
  c = a; c += b; e.r(out<L, long>(c, n)); c = a; c -= b; e.r(out<L, long>(c, n)); c = a; c *= m; e.r(out<L, long>(c, n)); c /= m; e.r(out<L, long>(c, n));
  c = L(); for (size_t i = 0; i < n; i++) c[(int)i] = m * x[i]; e.r(out<L, long>(c, n));
  std::stringstream ss; ss << a << " " << b; L p, q; ss >> p >> q; e.r(q == b ? out<L, long>(p, n) : ints()); e.r(out<L, long>(L(), n)); c = a; c += c; e.r(out<L, long>(c, n)); e.r(b == ctor<L>::go(y) && mk<L, long>(y, n) == b);
}
template <class C> static void xform(std::vector<C>& v, int h, int w, int d, int how) {
  if (how == 0 && h == 1) { if (d > 0) fft(v.begin(), v.end()); else ifft(v.begin(), v.end()); }
  else if (how == 1 && h == 1) { C* p = v.empty() ? 0 : &v[0]; if (d > 0) fft(p, p + v.size()); else ifft(p, p + v.size()); }
  else if (how == 2 && h == 1) { std::deque<C> q(v.begin(), v.end()); if (d > 0) fft(q.begin(), q.end()); else ifft(q.begin(), q.end()); v.assign(q.begin(), q.end()); }
  else if (how <= 3) { if (d > 0) fft2d(v.begin(), v.end(), (size_t)w); else ifft2d(v.begin(), v.end(), (size_t)w); }
  else { std::vector<std::vector<C> > m(h); for (int y = 0; y < h; y++) m[y].assign(v.begin() + y * w, v.begin() + (y + 1) * w); if (d > 0) fft2d(m); else ifft2d(m); v.clear(); for (int y = 0; y < h; y++) v.insert(v.end(), m[y].begin(), m[y].end()); }
}
template <class C> static void dofft(event& e, const ints& v) {
  int h = v[1], w = v[2]; std::vector<C> x; for (int i = 0; i < h * w; i++) x.push_back(C(v[5 + 2 * i], v[6 + 2 * i]));
  try { xform(x, h, w, v[3], v[4]); } catch (const std::length_error&) { e.x(1); return; }
  std::vector<std::string> o; for (size_t i = 0; i < x.size(); i++) o.push_back("[" + jnum(llround(1e4 * x[i].real())) + "," + jnum(llround(1e4 * x[i].imag())) + "]");
  e.rr(jlist(o));
}
typedef std::complex<double> cd;
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; ints v; for (size_t j = 1; j < w.size(); j++) v.push_back(num(w[j]));
    doing(op, jnum(v[0])); event e(op);
    if (op == "vec" || op == "geo") {
      int k = v[0]; size_t n = v[1]; ints x(v.begin() + 3, v.begin() + 3 + n), y(v.begin() + 3 + n, v.begin() + 3 + 2 * n); e.a(k).a(x).a(y).a(v[2]); bool g = op == "geo";
      if (k == 0) switch (n) { case 2: vec<bn::vector2>(e, x, y, v[2], g); break; case 3: vec<bn::vector3>(e, x, y, v[2], g); break; default: vec<bn::vector4>(e, x, y, v[2], g); }
      else switch (n) { case 2: vec<ba::vector2>(e, x, y, v[2], g); break; case 3: vec<ba::vector3>(e, x, y, v[2], g); break; case 4: vec<ba::vector4>(e, x, y, v[2], g); break; case 5: vec<ba::vector5>(e, x, y, v[2], g); break; case 6: vec<ba::vector6>(e, x, y, v[2], g); break;
        case 7: vec<ba::vector7>(e, x, y, v[2], g); break; case 8: vec<ba::vector8>(e, x, y, v[2], g); break; case 9: vec<ba::vector9>(e, x, y, v[2], g); break; default: vec<ba::vector10>(e, x, y, v[2], g); }
    } else if (op == "fft") {
      std::vector<std::string> in; for (int j = 0; j < v[1] * v[2]; j++) in.push_back("[" + jnum(v[5 + 2 * j]) + "," + jnum(v[6 + 2 * j]) + "]");
      e.a(v[0]).a(v[1]).a(v[2]).a(v[3]).ar(jlist(in)); if (v[0]) dofft<std::complex<float> >(e, v); else dofft<cd>(e, v);
    } else if (op == "trip") {   // there and back, n numbers
      int n = v[0]; ints x(v.begin() + 2, v.end()); e.a(n).a(x); std::vector<cd> z; for (int j = 0; j < n; j++) z.push_back(cd(x[j], x[(j + 7) % n]));
      if (v[1]) { fft(z.begin(), z.end()); ifft(z.begin(), z.end()); } else { ifft(z.begin(), z.end()); fft(z.begin(), z.end()); }
      ints o; for (int j = 0; j < n; j++) o.push_back(llround(z[j].imag() / n) == x[(j + 7) % n] ? llround(z[j].real() / n) : 999999); e.r(o);
    } else if (op == "conv") {
      int n = v[0]; ints x(v.begin() + 1, v.begin() + 1 + n), y(v.begin() + 1 + n, v.end()); e.a(x).a(y);
      std::vector<cd> p(x.begin(), x.end()), q(y.begin(), y.end()); fft(p.begin(), p.end()); fft(q.begin(), q.end()); for (int j = 0; j < n; j++) p[j] *= q[j]; ifft(p.begin(), p.end());
      ints o; for (int j = 0; j < n; j++) o.push_back(llround(p[j].real() / n)); e.r(o);
    } else if (op == "tone") {   // one frequency: where the transform is not zero, forward and backward
      int n = v[0]; long f = v[1]; e.a(n).a(f);
      for (int d = 1; d >= -1; d -= 2) {
        std::vector<cd> z; for (int j = 0; j < n; j++) { double t = -d * 2 * M_PI * (double)((f * j) % n) / n; z.push_back(cd(cos(t), sin(t))); }
        if (d > 0) fft(z.begin(), z.end()); else ifft(z.begin(), z.end());
        ints o; for (int j = 0; j < n; j++) if (std::abs(z[j]) > 1e-9 * n) o.push_back(j); if (o.size() == 1 && std::abs(z[o[0]] - cd(n, 0)) > 1e-9 * n) o.push_back(-1); if (o.size() > 20) o.resize(20); e.r(o);
      }
    } else {   // shapes that are refused
      e.a(v[0]).a(v[1]).a(v[2]);
      try {
        if (v[0] == 0) { std::vector<cd> z(v[1]); if (v[2] & 1) fft(z.begin(), z.end()); else ifft(z.begin(), z.end()); }
        else if (v[0] == 1) { std::vector<cd> z(v[1]); fft2d(z.begin(), z.end(), (size_t)v[2]); }
        else { std::vector<std::vector<cd> > m(4, std::vector<cd>(4)); m[v[1]].resize(v[2]); if (v[2] & 1) fft2d(m); else ifft2d(m); }
      } catch (const std::length_error&) { e.x(1); }
    }
  }
}
