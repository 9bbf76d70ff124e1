// A JSON value of the test case, independent of the library under test, plus
// conversions to/from the library's type and to the trace notation.
#ifndef VERIF_JTREE_H
#define VERIF_JTREE_H
#include "seq.h"
#include <map>
#include <math.h>
#include "text/json.h"
namespace J = pfi::text::json;
struct jt { char k; long long i; double d; std::string s; std::vector<jt> a; std::vector<std::string> keys; jt() : k('n'), i(0), d(0) {} };
// words: n t f i<dec> d<dec> s<hex> a<n>.. o<n> k<hex> v ..
inline jt jread(const words& w, size_t& p) {
  jt r; const std::string& x = w[p++]; r.k = x[0]; std::string y = x.substr(1);
  if (r.k == 'i') r.i = strtoll(y.c_str(), 0, 10);
  else if (r.k == 'd') r.d = strtod(y.c_str(), 0);
  else if (r.k == 's') r.s = unhex(y);
  else if (r.k == 'a') { long n = num(y); for (long j = 0; j < n; j++) r.a.push_back(jread(w, p)); }
  else if (r.k == 'o') { long n = num(y); for (long j = 0; j < n; j++) { r.keys.push_back(unhex(w[p++].substr(1))); r.a.push_back(jread(w, p)); } }
  return r;
}
inline J::json jmake(const jt& t) {
  switch (t.k) {
    case 't': return J::json(new J::json_bool(true));
    case 'f': return J::json(new J::json_bool(false));
    case 'i': return J::json(new J::json_integer(t.i));
    case 'd': return J::json(new J::json_float(t.d));
    case 's': return J::json(new J::json_string(t.s));
    case 'a': { J::json r(new J::json_array); for (size_t i = 0; i < t.a.size(); i++) r.add(jmake(t.a[i])); return r; }
    case 'o': { J::json r(new J::json_object); for (size_t i = 0; i < t.a.size(); i++) r.add(t.keys[i], jmake(t.a[i])); return r; }
  }
  return J::json();
}
inline std::string jint(long long v) {
  char b[32]; snprintf(b, sizeof b, "%lld", v); std::string s = "[\"i\","; const char* p = b;
  if (*p == '-') { s += "1,["; p++; } else s += "0,[";
  if (strcmp(p, "0")) for (const char* q = p; *q; q++) { if (q != p) s += ','; s += *q; }
  return s + "]]";
}
inline std::string jflt(double d, int prec = 15) {
  if (d == 0) return "[\"f\",0,[],0]";
  if (!std::isfinite(d)) return d > 0 ? "[\"f\",2,[],0]" : "[\"f\",3,[],0]";
  char b[64]; snprintf(b, sizeof b, "%.*e", prec - 1, d); std::string s = b; bool neg = s[0] == '-'; if (neg) s = s.substr(1);
  size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1) + 1; std::string dg; for (size_t i = 0; i < e; i++) if (s[i] != '.') dg += s[i];
  while (dg.size() > 1 && dg[dg.size() - 1] == '0') dg.resize(dg.size() - 1);
  std::string o = std::string("[\"f\",") + (neg ? "1" : "0") + ",["; for (size_t i = 0; i < dg.size(); i++) { if (i) o += ','; o += dg[i]; }
  return o + "]," + jnum(ex) + "]";
}
inline std::string jobj(const std::map<std::string, std::string>& m) {
  std::vector<std::string> v; for (std::map<std::string, std::string>::const_iterator i = m.begin(); i != m.end(); ++i) v.push_back("[" + jbytes(i->first) + "," + i->second + "]");
  return "[\"o\"," + jlist(v) + "]";
}
inline std::string jdump(const jt& t) {
  switch (t.k) {
    case 't': return "[\"b\",1]"; case 'f': return "[\"b\",0]"; case 'i': return jint(t.i); case 'd': return jflt(t.d);
    case 's': return "[\"s\"," + jbytes(t.s) + "]";
    case 'a': { std::vector<std::string> v; for (size_t i = 0; i < t.a.size(); i++) v.push_back(jdump(t.a[i])); return "[\"a\"," + jlist(v) + "]"; }
    case 'o': { std::map<std::string, std::string> m; for (size_t i = 0; i < t.a.size(); i++) m[t.keys[i]] = jdump(t.a[i]); return jobj(m); }
  }
  return "[\"n\"]";
}
inline std::string jdump(const J::json& j) {
  switch (j.type()) {
    case J::json::Null: return "[\"n\"]";
    case J::json::Bool: return dynamic_cast<J::json_bool*>(j.get())->get() ? "[\"b\",1]" : "[\"b\",0]";
    case J::json::Integer: return jint(dynamic_cast<J::json_integer*>(j.get())->get());
    case J::json::Float: return jflt(dynamic_cast<J::json_float*>(j.get())->get());
    case J::json::String: return "[\"s\"," + jbytes(dynamic_cast<J::json_string*>(j.get())->get()) + "]";
    case J::json::Array: { std::vector<std::string> v; const J::json& c = j; for (size_t i = 0; i < c.size(); i++) v.push_back(jdump(c[i])); return "[\"a\"," + jlist(v) + "]"; }
    case J::json::Object: { std::map<std::string, std::string> m; const J::json& c = j; for (J::json::const_iterator i = c.begin(); i != c.end(); ++i) m[i->first] = jdump(i->second); return jobj(m); }
  }
  return "[\"?\"]";
}
#endif
