#include "jtree.h"
#include "lang/exception.h"
#include <sstream>
// a stream buffer that hands out n bytes at a time
struct slow : std::streambuf { std::string s; size_t p, n; slow(const std::string& s, size_t n) : s(s), p(0), n(n) {}
  int underflow() { if (p >= s.size()) return EOF; size_t k = std::min(n, s.size() - p); setg(&s[p], &s[p], &s[p] + k); p += k; return (unsigned char)*gptr(); } };
// builds the trace notation from parser callbacks
struct cb : J::json_parser::callback {
  struct fr { bool obj; std::vector<std::string> v; std::map<std::string, std::string> m; std::string k; };
  std::vector<fr> st; std::string out; int n; cb() : n(0) {}
  void put(const std::string& x) { if (st.empty()) { out = x; n++; } else if (st.back().obj) st.back().m[st.back().k] = x; else st.back().v.push_back(x); }
  void null() { put("[\"n\"]"); }
  void boolean(bool b) { put(b ? "[\"b\",1]" : "[\"b\",0]"); }
  void integer(int64_t v) { put(jint(v)); }
  void number(double d) { put(jflt(d)); }
  void string(const char* p, size_t l) { put("[\"s\"," + jbytes(std::string(p, l)) + "]"); }
  void start_object() { fr f; f.obj = true; st.push_back(f); }
  void object_key(const char* p, size_t l) { st.back().k = std::string(p, l); }
  void end_object() { std::string s = jobj(st.back().m); st.pop_back(); put(s); }
  void start_array() { fr f; f.obj = false; st.push_back(f); }
  void end_array() { std::string s = "[\"a\"," + jlist(st.back().v) + "]"; st.pop_back(); put(s); }
};
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i];
    if (w[0] == "parse") {
      std::string t = unhex(w[2]); doing("parse", jbytes(t));
      for (int mode = 0; mode < 2; mode++) {
        event e("parse"); e.as(t);
        slow sb(t, num(w[1])); std::istream is(&sb); J::json_parser p(is);
        for (int k = 0; k < 50; k++) {
          try {
            if (mode == 0) { J::json j = p.parse(); e.rr("[\"v\"," + jdump(j) + "]"); }
            else { cb b; p.parse_stream(b); e.rr(b.n == 1 ? "[\"v\"," + b.out + "]" : "[\"bad\"]"); }
          } catch (pfi::lang::end_of_data&) { e.rr("[\"end\"]"); break; }
          catch (pfi::lang::parse_error&) { e.rr("[\"err\"]"); break; }
          catch (std::exception& x) { e.rr("[\"other\"]"); break; }
        }
      }
    } else {
      size_t p = 1; jt t = jread(w, p); std::string d = jdump(t); doing(w[0], d);
      event e("print"); e.ar(d); J::json j = jmake(t);
      std::string s[4]; std::ostringstream o0, o1, o2, o3; o0 << j; o1 << J::pretty(j); o2 << J::without_escape(j); o3 << J::pretty(J::without_escape(j));
      s[0] = o0.str(); s[1] = o1.str(); s[2] = o2.str(); s[3] = o3.str();
      for (int k = 0; k < 4; k++) e.rs(s[k]);
      if (w[0] == "round") {
        event f("round"); f.ar(d);
        try { for (int k = 0; k < 4; k++) { std::istringstream is(s[k] + (k & 1 ? "" : " ")); J::json q; is >> q; f.rr(jdump(q)); } } catch (std::exception&) { f.x(1); }
      }
    }
  }
}
