#include "jtree.h"
#include <stdexcept>
#include <set>
#include "text/json/serialization.h"
using pfi::data::optional;
static const int N = 4;
struct inner { int a; std::vector<std::string> v; inner() : a(0) {}
  template <class A> void serialize(A& ar) { ar & NAMED_MEMBER("a", a) & NAMED_MEMBER("v", v); } };
struct outer { int num; std::string name; bool flag; double d; optional<int> o; inner in; std::map<std::string, int> m; outer() : num(0), flag(false), d(0) {}
  template <class A> void serialize(A& ar) { ar & MEMBER(d) & MEMBER(flag) & MEMBER(in) & MEMBER(m) & NAMED_MEMBER("name of it", name) & MEMBER(num) & MEMBER(o); } };
// type descriptors, how to show and how to fill a value
template <class T> struct ty;
template <class T> std::string show(const T& v) { return ty<T>::show(v); }
template <class T> void fill(T& v, const jt& t) { ty<T>::fill(v, t); }
#define SCALAR(T, NAME, SHOW, FILL) template <> struct ty<T> { static std::string name() { return "[\"" NAME "\"]"; } static std::string show(const T& v) { return SHOW; } static void fill(T& v, const jt& t) { FILL; } };
SCALAR(int, "int", jint(v), v = t.i)
SCALAR(long, "long", jint(v), v = t.i)
SCALAR(long long, "long", jint(v), v = t.i)
SCALAR(double, "dbl", jflt(v), v = t.d)
SCALAR(float, "dbl", jflt(v), v = t.d)
SCALAR(bool, "bool", v ? "[\"b\",1]" : "[\"b\",0]", v = t.k == 't')
SCALAR(std::string, "str", "[\"s\"," + jbytes(v) + "]", v = t.s)
SCALAR(J::json, "json", jdump(v), v = jmake(t))
template <class T> struct ty<std::vector<T> > { static std::string name() { return "[\"vec\"," + ty<T>::name() + "]"; }
  static std::string show(const std::vector<T>& v) { std::vector<std::string> r; for (size_t i = 0; i < v.size(); i++) r.push_back(::show(T(v[i]))); return "[\"a\"," + jlist(r) + "]"; }
  static void fill(std::vector<T>& v, const jt& t) { v.clear(); for (size_t i = 0; i < t.a.size(); i++) { T x; ::fill(x, t.a[i]); v.push_back(x); } } };
template <class M, class T> struct tymap { static std::string name() { return "[\"map\"," + ty<T>::name() + "]"; }
  static std::string show(const M& v) { std::map<std::string, std::string> r; for (typename M::const_iterator i = v.begin(); i != v.end(); ++i) r[i->first] = ::show(i->second); return jobj(r); }
  static void fill(M& v, const jt& t) { v.clear(); for (size_t i = 0; i < t.a.size(); i++) ::fill(v[t.keys[i]], t.a[i]); } };
template <class T> struct ty<std::map<std::string, T> > : tymap<std::map<std::string, T>, T> {};
template <class T> struct ty<pfi::data::unordered_map<std::string, T> > : tymap<pfi::data::unordered_map<std::string, T>, T> {};
template <class T> struct ty<optional<T> > { static std::string name() { return "[\"opt\"," + ty<T>::name() + "]"; }
  static std::string show(const optional<T>& v) { return v ? ::show(*v) : "[\"n\"]"; }
  static void fill(optional<T>& v, const jt& t) { if (t.k == 'n') v = optional<T>(); else { T x; ::fill(x, t); v = x; } } };
static std::string kv(const char* k, const std::string& v) { return "[" + jbytes(k) + "," + v + "]"; }
template <> struct ty<inner> { static std::string name() { return "[\"st\",[" + kv("a", ty<int>::name()) + "," + kv("v", ty<std::vector<std::string> >::name()) + "]]"; }
  static std::string show(const inner& v) { return "[\"o\",[" + kv("a", ::show(v.a)) + "," + kv("v", ::show(v.v)) + "]]"; }
  static void fill(inner& v, const jt& t) { for (size_t i = 0; i < t.a.size(); i++) if (t.keys[i] == "a") ::fill(v.a, t.a[i]); else if (t.keys[i] == "v") ::fill(v.v, t.a[i]); } };
template <> struct ty<outer> { static std::string name() { return "[\"st\",[" + kv("d", ty<double>::name()) + "," + kv("flag", ty<bool>::name()) + "," + kv("in", ty<inner>::name()) + "," + kv("m", ty<std::map<std::string, int> >::name()) + "," + kv("name of it", ty<std::string>::name()) + "," + kv("num", ty<int>::name()) + "," + kv("o", ty<optional<int> >::name()) + "]]"; }
  static std::string show(const outer& v) { return "[\"o\",[" + kv("d", ::show(v.d)) + "," + kv("flag", ::show(v.flag)) + "," + kv("in", ::show(v.in)) + "," + kv("m", ::show(v.m)) + "," + kv("name of it", ::show(v.name)) + "," + kv("num", ::show(v.num)) + "," + kv("o", ::show(v.o)) + "]]"; }
  static void fill(outer& v, const jt& t) { for (size_t i = 0; i < t.a.size(); i++) { const std::string& k = t.keys[i]; const jt& x = t.a[i]; if (k == "d") ::fill(v.d, x); else if (k == "flag") ::fill(v.flag, x); else if (k == "in") ::fill(v.in, x); else if (k == "m") ::fill(v.m, x); else if (k == "name of it") ::fill(v.name, x); else if (k == "num") ::fill(v.num, x); else if (k == "o") ::fill(v.o, x); } } };

template <class T> void go(const words& w) {
  size_t p = 2; jt t = jread(w, p);
  if (w[0] == "cast") {
    for (int mode = 0; mode < 2; mode++) {
    event e("cast"); e.ar(ty<T>::name()).ar(jdump(t)); J::json j = jmake(t); std::string msg, res; int x = 0;
    try { if (mode == 0) res = show(T(J::json_cast<T>(j))); else { T v = T(); J::from_json(j, v); res = show(v); } }
    catch (J::json_bad_cast_any& b) { msg = b.what(); x = 1; } catch (std::exception& b) { x = 3; }
    e.as(msg); if (x) e.x(x); else e.rr(res);
    }
  } else if (w[0] == "castd") {
    jt d = jread(w, p); T def = T(); fill(def, d); std::string sd = show(def);
    J::json j = jmake(t);
    { event e("castd"); e.ar(ty<T>::name()).ar(jdump(t)).ar(sd);
    try { e.rr(show(T(J::json_cast_with_default<T>(j, def)))); } catch (std::exception& b) { e.x(3); }
    }
    // converting into a variable that holds something already gives the same as into a new one
    event f("cast"); f.ar(ty<T>::name()).ar(jdump(t)); std::string msg, res; int x = 0;
    try { J::from_json(j, def); res = show(def); } catch (J::json_bad_cast_any& b) { msg = b.what(); x = 1; } catch (std::exception& b) { x = 3; }
    f.as(msg); if (x) f.x(x); else f.rr(res);
  } else {
    T v = T(); fill(v, t); event e("tojson"); e.ar(ty<T>::name()).ar(show(v));
    try { J::json j = J::to_json(v); e.rr(jdump(j)); T u = T(); J::from_json(j, u); e.rr(show(u));
      std::stringstream ss; { pfi::data::serialization::json_oarchive oa(ss); oa << v; } T q = T(); { pfi::data::serialization::json_iarchive ia(ss); ia >> q; } e.rr(show(q));
    } catch (std::exception&) { e.x(3); }
  }
}
static bool reaches(const J::json& j, const J::json_value* p) {
  if (j.get() == p) return true;
  if (j.type() == J::json::Array) { for (size_t i = 0; i < j.size(); i++) if (reaches(j[i], p)) return true; }
  else if (j.type() == J::json::Object) { for (J::json::const_iterator i = j.begin(); i != j.end(); ++i) if (reaches(i->second, p)) return true; }
  return false;
}
struct both { J::json operator()(const J::json& a, const J::json& b) const { J::json r(new J::json_array); r.add(a); r.add(b); return r; } };
void run_case(const std::vector<words>& c) {
  event("new").a(0); J::json v[N + 1];
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; doing(op, "[]");
    if (op == "cast" || op == "castd" || op == "tojson") {
      const std::string& t = w[1];
      if (t == "int") go<int>(w); else if (t == "long") go<long>(w); else if (t == "ll") go<long long>(w); else if (t == "dbl") go<double>(w); else if (t == "flt") go<float>(w); else if (t == "bool") go<bool>(w); else if (t == "str") go<std::string>(w);
      else if (t == "json") go<J::json>(w); else if (t == "vint") go<std::vector<int> >(w); else if (t == "mint") go<std::map<std::string, int> >(w); else if (t == "umint") go<pfi::data::unordered_map<std::string, int> >(w);
      else if (t == "oint") go<optional<int> >(w); else if (t == "vvs") go<std::vector<std::vector<std::string> > >(w); else if (t == "mvb") go<std::map<std::string, std::vector<double> > >(w);
      else if (t == "inner") go<inner>(w); else if (t == "outer") go<outer>(w); else if (t == "vinner") go<std::vector<inner> >(w); else if (t == "oinner") go<optional<inner> >(w);
      else if (t == "void") go<std::vector<optional<int> > >(w);
      continue;
    }
    int s = num(w[1]);
    {
      size_t p = 2;
      if (op == "mk") { jt t = jread(w, p); event e("mk"); e.a(s).ar(jdump(t)); v[s] = jmake(t); }
      else if (op == "cp") { int t = num(w[2]); event e("cp"); e.a(s).a(t); v[s] = v[t]; }
      else if (op == "clone") { int t = num(w[2]); event e("clone"); e.a(s).a(t); v[s] = v[t].clone(); }
      else if (op == "push") { int t = num(w[2]); if (reaches(v[t], v[s].get())) continue; event e("push"); e.a(s).a(t); try { v[s].add(v[t]); } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "addm" || op == "setm") { std::string k = unhex(w[2]); int t = num(w[3]); if (reaches(v[t], v[s].get())) continue; event e(op); e.a(s).as(k).a(t);
        try { if (op == "addm") v[s].add(k, v[t]); else v[s][k] = v[t]; } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "seti") { size_t k = num(w[2]); int t = num(w[3]); if (reaches(v[t], v[s].get()) || (v[s].type() == J::json::Array && v[s].size() <= k)) continue; event e(op); e.a(s).a(k).a(t);
        try { v[s][k] = v[t]; } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "getm" || op == "refm") { std::string k = unhex(w[2]); int t = num(w[3]); event e(op); e.a(s).as(k).a(t);
        try { if (op == "getm") { const J::json& q = v[t]; J::json z = q[k]; v[s] = z; } else { J::json z = v[t][k]; v[s] = z; } } catch (J::json_bad_cast_any&) { e.x(1); } catch (std::out_of_range&) { e.x(2); } }
      else if (op == "geti") { size_t k = num(w[2]); int t = num(w[3]); if (v[t].type() == J::json::Array && v[t].size() <= k) continue; event e(op); e.a(s).a(k).a(t);
        try { const J::json& q = v[t]; J::json z = q[k]; v[s] = z; } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "count") { std::string k = unhex(w[2]); event e(op); e.a(s).as(k); try { e.r((long)v[s].count(k)); } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "size") { event e(op); e.a(s); try { e.r((long)v[s].size()); } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "merge" || op == "mergew") { int t = num(w[2]), u = num(w[3]); event e(op); e.a(s).a(t).a(u);
        try { J::json r = op == "merge" ? J::merge(v[t], v[u]) : J::merge_with(v[t], v[u], both()); v[s] = r; } catch (J::json_bad_cast_any&) { e.x(1); } }
      else if (op == "eq") { int t = num(w[2]); event e(op); e.a(s).a(t); e.r(v[s] == v[t]).r(J::equals(v[s], v[t], false)).r(v[s] != v[t]); continue; }
    }
    event d("dump"); d.a(0); for (int k = 1; k <= N; k++) d.rr(jdump(v[k]));
  }
}
