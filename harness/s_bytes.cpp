#include "seq.h"
#include "system/endian_util.h"
#include "network/ipv4.h"
namespace en = pfi::system::endian;
using pfi::network::ipv4_address;
template <class T> static T make(const std::vector<long>& d) { unsigned long long u = 0; for (size_t i = 0; i < sizeof(T); i++) u |= (unsigned long long)d[i] << (8 * i); return (T)u; }
template <class T> static std::vector<long> digits(T v) { std::vector<long> d; unsigned long long u = (unsigned long long)v; for (size_t i = 0; i < sizeof(T); i++) d.push_back((u >> (8 * i)) & 255); return d; }
template <class T> static std::vector<long> memory(const T& v) { const unsigned char* p = (const unsigned char*)&v; return std::vector<long>(p, p + sizeof v); }
template <class T> static T load(const std::vector<long>& m) { T v; unsigned char* p = (unsigned char*)&v; for (size_t i = 0; i < sizeof v; i++) p[i] = (unsigned char)m[i]; return v; }
template <class T> static void integer(event& e, const std::vector<long>& d0) {
  std::vector<long> d(d0.begin(), d0.begin() + sizeof(T)); e.a(d); T v = make<T>(d);
  e.r(memory(en::to_little(v))).r(memory(en::to_big(v))).r(digits(en::from_little(load<T>(d)))).r(digits(en::from_big(load<T>(d)))).r(digits(en::reverse(v)));
}
template <int N> struct block { unsigned char b[N]; };
template <int N> static void raw(event& e, const std::vector<long>& d0) {
  std::vector<long> d(d0.begin(), d0.begin() + N); e.a(d);
  block<N> x = load<block<N> >(d); e.r(memory(en::reverse(x)));
  char buf[2 * N + 16]; char* p = buf + 8 - (size_t)buf % 8; memset(buf, 77, sizeof buf); for (int i = 0; i < N; i++) p[i] = (char)d[i];
  en::reverse<N>(p); std::vector<long> o; for (int i = 0; i < N; i++) o.push_back((unsigned char)p[i]); e.r(o);
  for (int i = 0; i < N; i++) p[i] = (char)d[i];
  en::reverse(p, N); o.clear(); for (int i = 0; i < N; i++) o.push_back((unsigned char)p[i]); o.push_back(p[N]); o.push_back(p[-1]); e.r(o);
}
static std::vector<long> ints(const words& w, size_t from, size_t n) { std::vector<long> v; for (size_t i = 0; i < n; i++) v.push_back(num(w[from + i])); return v; }
static ipv4_address ip(const std::vector<long>& v) { return ipv4_address(v[0], v[1], v[2], v[3]); }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; doing(op, "0"); event e(op);
    if (op == "int") {
      std::vector<long> d = ints(w, 2, 8);
      switch (num(w[1])) { case 0: integer<char>(e, d); break; case 1: integer<signed char>(e, d); break; case 2: integer<unsigned char>(e, d); break; case 3: integer<short>(e, d); break; case 4: integer<unsigned short>(e, d); break;
      case 5: integer<int>(e, d); break; case 6: integer<unsigned>(e, d); break; case 7: integer<long>(e, d); break; case 8: integer<unsigned long>(e, d); break; case 9: integer<long long>(e, d); break; default: integer<unsigned long long>(e, d); }
    } else if (op == "raw") {
      std::vector<long> d = ints(w, 2, 16);
      switch (num(w[1])) { case 1: raw<1>(e, d); break; case 2: raw<2>(e, d); break; case 3: raw<3>(e, d); break; case 4: raw<4>(e, d); break; case 5: raw<5>(e, d); break; case 6: raw<6>(e, d); break; case 7: raw<7>(e, d); break; case 8: raw<8>(e, d); break; case 12: raw<12>(e, d); break; default: raw<16>(e, d); }
    } else if (op == "host") { short one = 1; e.r(en::is_little()).r(en::is_big()).r(en::endian::is_little).r(en::endian::is_big).r(*(char*)&one); }
    else if (op == "quad") { std::vector<long> v = ints(w, 1, 4); e.a(v); ipv4_address a = ip(v), b(a.to_string()); e.rs(a.to_string()).r(a == b && !(a != b) && !(a < b) && !(b < a)); }
    else if (op == "parse") { std::string s = unhex(w[1]); e.as(s); ipv4_address a(s); e.rs(a.to_string()).r(a == ipv4_address::none); }
    else if (op == "cmp") { std::vector<long> v = ints(w, 1, 4), u = ints(w, 5, 4); e.a(v).a(u); ipv4_address a = ip(v), b = ip(u); e.r(a < b).r(a == b).r(a != b); }
    else { e.rs(ipv4_address().to_string()).rs(ipv4_address::any.to_string()).rs(ipv4_address::broadcast.to_string()).rs(ipv4_address::loopback.to_string()).rs(ipv4_address::none.to_string()); }
  }
}
