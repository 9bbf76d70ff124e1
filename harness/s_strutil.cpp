#include "seq.h"
#include "data/string/utility.h"
#include "data/string/ustring.h"
#include "lang/cast.h"
#include <list>
#include <deque>
using namespace pfi::data::string;
typedef std::string str;
static ustring wide(const str& b) {  // two hex-decoded bytes (big endian) per character
  ustring u; for (size_t i = 0; i + 1 < b.size(); i += 2) u += (uchar)(((unsigned char)b[i] << 8) | (unsigned char)b[i + 1]); return u;
}
static std::string J(const str& s) { return jbytes(s); }
static std::string J(const ustring& s) { std::vector<std::string> v; for (size_t i = 0; i < s.size(); i++) v.push_back(jnum(s[i])); return jlist(v); }
template <class C> static std::string JL(const C& v) { std::vector<std::string> o; for (typename C::const_iterator i = v.begin(); i != v.end(); ++i) o.push_back(J(*i)); return jlist(o); }
template <class S> static S conv(const str& h);
template <> str conv<str>(const str& h) { return unhex(h); }
template <> ustring conv<ustring>(const str& h) { return wide(unhex(h)); }
template <class S> static void go(const std::string& op, const words& w, event& e) {
  S s = conv<S>(w[2]);
  if (op == "split") {
    S c = conv<S>(w[3]); e.ar(J(s)).a((long)(typename std::make_unsigned<typename S::value_type>::type)c[0]);
    std::vector<S> r = split(s, c[0]); std::list<S> l = split<std::list<S> >(s, c[0]); std::deque<S> o; split(s, c[0], std::back_inserter(o));
    if (std::vector<S>(l.begin(), l.end()) != r || std::vector<S>(o.begin(), o.end()) != r) e.rr("-1");
    e.rr(JL(r));
  } else if (op == "splits") {
    S c = conv<S>(w[3]); e.ar(J(s)).ar(J(c));
    std::vector<S> r = split(s, c); std::list<S> l = split<std::list<S> >(s, c); std::deque<S> o; split(s, c, std::back_inserter(o));
    if (std::vector<S>(l.begin(), l.end()) != r || std::vector<S>(o.begin(), o.end()) != r) e.rr("-1");
    e.rr(JL(r));
  } else if (op == "strip" || op == "lstrip" || op == "rstrip") {
    e.ar(J(s)); S r, r2 = s;   // the two-argument form may be given its own input
    if (op == "strip") { r = strip(s); strip(r2, r2); } else if (op == "lstrip") { r = lstrip(s); lstrip(r2, r2); } else { r = rstrip(s); rstrip(r2, r2); }
    if (r != r2) e.rr("-1");
    e.rr(J(r));
  } else if (op == "join") {
    std::vector<S> v; for (size_t i = 3; i < w.size(); i++) v.push_back(conv<S>(w[i]));
    e.ar(JL(v)).ar(J(s)); S r, r2; r = join(v, s); join(v.begin(), v.end(), s, r2); std::list<S> l(v.begin(), v.end()); S r3 = join(l, s);
    S r4 = s; join(v, r4, r4); bool bad = r4 != r;          // the result may be given over the separator
    for (size_t k = 0; k < v.size() && k < 2; k++) { std::vector<S> v2(v); join(v2, s, v2[k]); if (v2[k] != r) bad = true; }   // or an element
    if (r != r2 || r != r3 || bad) e.rr("-1");
    e.rr(J(r));
  } else if (op == "starts") { S p = conv<S>(w[3]); e.ar(J(s)).ar(J(p)).r(starts_with(s, p)); }
  else if (op == "ends") { S p = conv<S>(w[3]); e.ar(J(s)).ar(J(p)).r(ends_with(s, p)); }
  else if (op == "replace") {
    S p = conv<S>(w[3]), q = conv<S>(w[4]); e.ar(J(s)).ar(J(p)).ar(J(q)); S r = replace(s, p, q), r2 = s; replace(r2, p, q, r2);
    if (r != r2) e.rr("-1");
    e.rr(J(r));
  }
}
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; doing(op, "0"); event e(op);
    try {
      if (op == "s2int") { str s = unhex(w[1]); e.as(s); int v = pfi::lang::lexical_cast<int>(s); e.rs(pfi::lang::lexical_cast<str>(v)); }
      else if (op == "s2long") { str s = unhex(w[1]); e.as(s); long v = pfi::lang::lexical_cast<long>(s); e.rs(pfi::lang::lexical_cast<str>(v)); }
      else if (op == "l2int") { str s = unhex(w[1]); e.as(s); long l = strtol(s.c_str(), 0, 10); e.rs(pfi::lang::lexical_cast<str>(pfi::lang::lexical_cast<int>(l))); }
      else if (op == "l2short") { str s = unhex(w[1]); e.as(s); long l = strtol(s.c_str(), 0, 10); e.rs(pfi::lang::lexical_cast<str>(pfi::lang::lexical_cast<short>(l))); }
      else if (op == "same") {  // text to text
        str s = unhex(w[1]); e.as(s); e.rs(pfi::lang::lexical_cast<str>(s)); const char* p = s.c_str(); e.rs(pfi::lang::lexical_cast<str>(p)); str o; for (size_t k = 0; k < s.size(); k++) o += pfi::lang::lexical_cast<str>(s[k]); e.rs(o); }
      else if (w[1] == "b") go<str>(op, w, e); else go<ustring>(op, w, e);
    } catch (const std::bad_cast&) { e.x(1); } catch (...) { e.x(2); }
  }
}
