#include "seq.h"
#include <iterator>
#include <iostream>
#include <list>
#include <deque>
#include "data/digest/md5.h"
using pfi::data::digest::md5sum;
// n zero bytes without storing them
struct zeros { typedef std::input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef const char* pointer; typedef char reference;
  size_t k; explicit zeros(size_t k) : k(k) {} char operator*() const { return 0; } zeros& operator++() { ++k; return *this; } zeros operator++(int) { zeros z(*this); ++k; return z; }
  bool operator==(const zeros& z) const { return k == z.k; } bool operator!=(const zeros& z) const { return k != z.k; } };
static void put(event& e, const md5sum& m) {
  uint32_t w[] = {m.a, m.b, m.c, m.d}; std::vector<long> v; for (int i = 0; i < 4; i++) { v.push_back(w[i] >> 16); v.push_back(w[i] & 65535); }
  std::ostringstream os; os << m; e.r(v).rs(os.str());
}
static md5sum of(const std::vector<long>& v) { return md5sum(v[0] << 16 | v[1], v[2] << 16 | v[3], v[4] << 16 | v[5], v[6] << 16 | v[7]); }
static std::vector<long> halves(const words& w, size_t at) { std::vector<long> v; for (int i = 0; i < 8; i++) v.push_back(num(w[at + i])); return v; }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0];
    if (op == "sum") {
      int kind = num(w[1]); std::string s = unhex(w[2]); doing(op, jbytes(s)); event e(op); e.a(kind).as(s);
      if (kind == 0) put(e, md5sum(s));
      else if (kind == 1) { std::istringstream is(s); put(e, md5sum(is)); }
      else if (kind == 2) put(e, md5sum(s.data(), s.data() + s.size()));
      else if (kind == 3) { std::list<char> l(s.begin(), s.end()); put(e, md5sum(l.begin(), l.end())); }
      else if (kind == 4) { std::vector<unsigned char> l(s.begin(), s.end()); put(e, md5sum(l.begin(), l.end())); }
      else if (kind == 5) { std::istringstream is("skip" + s); is.ignore(4); put(e, md5sum(is)); }
      else if (kind == 6) { md5sum m("other"), k(s); m = k; md5sum(std::string(100, 'q')); put(e, m); }
      else { std::deque<signed char> l(s.begin(), s.end()); put(e, md5sum(l.rbegin(), l.rend())); }
    } else if (op == "zeros") { doing(op, jnum(num(w[1]))); event e(op); e.a(num(w[1]) >> 16).a(num(w[1]) & 65535); put(e, md5sum(zeros(0), zeros((size_t)num(w[1])))); }
    else if (op == "less") { std::vector<long> a = halves(w, 1), b = halves(w, 9); doing(op, "0"); event e(op); e.a(a).a(b); e.r(of(a) < of(b)); }
    else {
      std::vector<long> a = halves(w, 1); int st = num(w[9]); doing(op, jnum(st)); event e(op); e.a(a).a(st);
      std::ostringstream os; if (st & 1) os << std::hex; if (st & 2) os.fill('*'); if (st & 4) os << std::left; if (st & 8) os << std::oct; if (st & 16) os << std::uppercase; if (st & 32) os << std::showbase; if (st & 64) os << std::internal; if (st & 128) os << std::showpos;
      std::ios::fmtflags f = os.flags(); char fl = os.fill(); os << of(a); e.rs(os.str()).r(os.flags() == f && os.fill() == fl);
    }
  }
}
