#include "seq.h"
#include <list>
#include <iterator>
#include "data/string/ustring.h"
using namespace pfi::data::string;
static std::string ju(const ustring& u) { std::vector<std::string> v; for (size_t i = 0; i < u.size(); i++) v.push_back(jnum(u[i])); return jlist(v); }
struct rec : fallback_base { std::vector<std::string> got; uchar fallback(const std::string& b, const char*) { if (b.empty()) return 0; got.push_back(jbytes(b)); return 0xFFFD; } };
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0];
    if (op == "enc" || op == "wide" || op == "lat" || op == "cls") {
      ustring u; for (size_t j = 1; j < w.size(); j++) u.push_back(strtoul(w[j].c_str(), 0, 10));
      doing(op, ju(u));
      event e(op);
      if (op == "cls") { uchar k = u[0]; e.a(k); e.r(is_basic_latin(k)).r(is_alnum(k)).r(is_hiragana(k)).r(is_katakana(k)).r(is_kanji(k)).r(is_hankaku(k)).r(zenkaku_latin_to_basic_latin(k)).r(basic_latin_to_zenkaku_latin(k)); continue; }
      e.ar(ju(u));
      if (op == "wide") e.rr(ju(hankaku_to_zenkaku(u)));
      else if (op == "lat") e.rr(ju(zenkaku_latin_to_basic_latin(u))).rr(ju(basic_latin_to_zenkaku_latin(u)));
      else { std::string s; for (size_t j = 0; j < u.size(); j++) s += uchar_to_string(u[j]); std::ostringstream os; os << u; e.rs(ustring_to_string(u)).rs(s).rs(os.str()); }
      continue;
    }
    std::string t = unhex(w[1]); doing(op, jbytes(t));
    event e(op); e.as(t);
    if (op == "dec") {
      char* b = new char[t.size()]; memcpy(b, t.data(), t.size());
      ustring u1 = string_to_ustring(t), u2 = string_to_ustring(b, t.size()); delete[] b;
      rec f; ustring u3; std::list<char> l(t.begin(), t.end()); std::list<char>::const_iterator p = l.begin(), q = l.end(); while (p != q) u3 += chars_to_uchar(p, q, f);
      e.rr(ju(u1)).rr(ju(u2)).rr(jlist(f.got)).rr(ju(u3));
    } else if (op == "strict") {
      exception_fallback f; int ok = 1; std::string::const_iterator p = t.begin();
      try { while (p != t.end()) chars_to_uchar(p, (std::string::const_iterator)t.end(), f); } catch (const std::invalid_argument&) { ok = 0; }
      e.r(ok);
    } else if (op == "first") { char* b = new char[t.size() + 1]; memcpy(b, t.c_str(), t.size() + 1); e.r(string_to_uchar(t)); e.r(string_to_uchar(b)); delete[] b; }
    else if (op == "chk") e.r(check_utf8(t));
    else if (op == "san") e.rs(sanitize_utf8(t));
    else if (op == "in") { std::istringstream is(t); ustring u(3, 65); is >> u; e.rr(ju(u)); }
  }
}
