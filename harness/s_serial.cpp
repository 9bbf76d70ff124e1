#include "seq.h"
#include <stdint.h>
#include <algorithm>
#include <sstream>
#include "data/serialization.h"
#include "data/serialization/pair.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/unordered_set.h"
using namespace pfi::data::serialization;
typedef words::const_iterator wi;
static std::string digits(uint64_t v, int n) { std::vector<long> d; for (int i = 0; i < n; i++) { d.push_back(v & 255); v >>= 8; } std::string s = "["; for (int i = 0; i < n; i++) { if (i) s += ','; s += jnum(d[i]); } return s + "]"; }
template <class T> struct ty;
template <class T> std::string show(const T& v) { return ty<T>::show(v); }
template <class T> void fill(T& v, wi& w) { ty<T>::fill(v, w); }
template <class T> struct ty {   // integers
  static std::string name() { return "[\"num\"," + jnum(sizeof(T)) + "]"; }
  static std::string show(T v) { return digits((uint64_t)v, sizeof(T)); }
  static void fill(T& v, wi& w) { const std::string& s = *w++; v = s[0] == '-' ? (T)strtoll(s.c_str(), 0, 10) : (T)strtoull(s.c_str(), 0, 10); } };
template <> struct ty<float> { static std::string name() { return "[\"num\",4]"; } static std::string show(float v) { uint32_t u; memcpy(&u, &v, 4); return digits(u, 4); } static void fill(float& v, wi& w) { v = strtof((*w++).c_str(), 0); } };
template <> struct ty<double> { static std::string name() { return "[\"num\",8]"; } static std::string show(double v) { uint64_t u; memcpy(&u, &v, 8); return digits(u, 8); } static void fill(double& v, wi& w) { v = strtod((*w++).c_str(), 0); } };
// 80-bit extended, the six bytes after it are padding
template <> struct ty<long double> { static std::string name() { return "[\"ldbl\"]"; } static std::string show(long double v) { uint64_t u[2] = {0, 0}; memcpy(u, &v, 10); std::string a = digits(u[0], 8), b = digits(u[1], 2); return a.substr(0, a.size() - 1) + "," + b.substr(1); } static void fill(long double& v, wi& w) { v = strtold((*w++).c_str(), 0); } };
template <class C> struct ty<std::basic_string<C> > { static std::string name() { return "[\"str\"," + jnum(sizeof(C)) + "]"; }
  static std::string show(const std::basic_string<C>& v) { std::vector<std::string> r; for (size_t i = 0; i < v.size(); i++) r.push_back(digits((uint64_t)v[i], sizeof(C))); return jlist(r); }
  static void fill(std::basic_string<C>& v, wi& w) { std::string s = unhex(*w++); v.clear(); for (size_t i = 0; i < s.size(); i++) v += sizeof(C) == 1 ? (C)s[i] : (C)((unsigned char)s[i] * 77777u); } };
template <class C> struct tyseq { typedef typename C::value_type E; static std::string name() { return "[\"seq\"," + ty<E>::name() + "]"; }
  static std::string show(const C& v) { std::vector<std::string> r; for (typename C::const_iterator i = v.begin(); i != v.end(); ++i) r.push_back(::show(E(*i))); return jlist(r); }
  static void fill(C& v, wi& w) { v.clear(); long n = num(*w++); while (n--) { E e = E(); ::fill(e, w); v.insert(v.end(), e); } } };
template <class C> struct tybag : tyseq<C> { static std::string name() { return "[\"bag\"," + ty<typename C::value_type>::name() + "]"; }
  static void fill(C& v, wi& w) { v.clear(); long n = num(*w++); while (n--) { typename C::value_type e = typename C::value_type(); ::fill(e, w); v.insert(e); } } };
template <class T> struct ty<std::vector<T> > : tyseq<std::vector<T> > {};
template <class T> struct ty<std::list<T> > : tyseq<std::list<T> > {};
template <class T> struct ty<std::deque<T> > : tyseq<std::deque<T> > {};
template <class T> struct ty<std::set<T> > : tyseq<std::set<T> > { static void fill(std::set<T>& v, wi& w) { v.clear(); long n = num(*w++); while (n--) { T e = T(); ::fill(e, w); v.insert(e); } } };
template <class T> struct ty<pfi::data::unordered_set<T> > : tybag<pfi::data::unordered_set<T> > {};
template <class A, class B> struct ty<std::pair<A, B> > { static std::string name() { return "[\"tup\",[" + ty<A>::name() + "," + ty<B>::name() + "]]"; }
  static std::string show(const std::pair<A, B>& v) { return "[" + ::show(v.first) + "," + ::show(v.second) + "]"; } static void fill(std::pair<A, B>& v, wi& w) { ::fill(v.first, w); ::fill(v.second, w); } };
template <class C, class K, class V> struct tymap { static std::string tup() { return "[\"tup\",[" + ty<K>::name() + "," + ty<V>::name() + "]]"; }
  static std::string show(const C& v) { std::vector<std::string> r; for (typename C::const_iterator i = v.begin(); i != v.end(); ++i) r.push_back("[" + ::show(i->first) + "," + ::show(i->second) + "]"); return jlist(r); }
  static void fill(C& v, wi& w) { v.clear(); long n = num(*w++); while (n--) { K k = K(); V x = V(); ::fill(k, w); ::fill(x, w); v[k] = x; } } };
template <class K, class V> struct ty<std::map<K, V> > : tymap<std::map<K, V>, K, V> { static std::string name() { return "[\"seq\"," + ty::tup() + "]"; } };
template <class K, class V> struct ty<pfi::data::unordered_map<K, V> > : tymap<pfi::data::unordered_map<K, V>, K, V> { static std::string name() { return "[\"bag\"," + ty::tup() + "]"; } };
struct rec { int16_t a; std::string b; std::vector<int> c; rec() : a(0) {} template <class A> void serialize(A& ar) { ar & NAME(rec) & MEMBER(a) & MEMBER(b) & c; } };
template <> struct ty<rec> { static std::string name() { return "[\"tup\",[" + ty<int16_t>::name() + "," + ty<std::string>::name() + "," + ty<std::vector<int> >::name() + "]]"; }
  static std::string show(const rec& v) { return "[" + ::show(v.a) + "," + ::show(v.b) + "," + ::show(v.c) + "]"; } static void fill(rec& v, wi& w) { ::fill(v.a, w); ::fill(v.b, w); ::fill(v.c, w); } };
struct arr { uint32_t x[3]; arr() { memset(x, 0, sizeof x); } template <class A> void serialize(A& ar) { ar & x; } };
template <> struct ty<arr> { static std::string name() { return "[\"tup\",[[\"num\",4],[\"num\",4],[\"num\",4]]]"; } static std::string show(const arr& v) { return "[" + ::show(v.x[0]) + "," + ::show(v.x[1]) + "," + ::show(v.x[2]) + "]"; } static void fill(arr& v, wi& w) { for (int i = 0; i < 3; i++) ::fill(v.x[i], w); } };
struct strm { std::stringstream s; template <class A> void serialize(A& ar) { std::iostream& i = s; ar & i; } };
template <> struct ty<strm> { static std::string name() { return "[\"stream\"]"; } static std::string show(const strm& v) { return jbytes(v.s.str()); } static void fill(strm& v, wi& w) { v.s.str(unhex(*w++)); v.s.clear(); } };
// the library's own temporary file stream, always left at its beginning
struct here { const char* operator()() const { return getenv("VERIF_SCRATCH"); } };
struct fstm { stream<here> s; template <class A> void serialize(A& ar) { ar & s; } };
template <> struct ty<fstm> { static std::string name() { return "[\"stream\"]"; }
  static std::string show(const fstm& v) { std::iostream& i = v.s.get(); std::string b((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); i.clear(); i.seekg(0); return jbytes(b); }
  static void fill(fstm& v, wi& w) { v.s.get() << unhex(*w++) << std::flush; v.s.get().clear(); v.s.get().seekg(0); } };
enum { BIG = 300 };
struct big { unsigned char x[BIG]; big() { memset(x, 0, sizeof x); } template <class A> void serialize(A& ar) { ar & x; } };
template <> struct ty<big> { static std::string name() { std::string s = "[\"tup\",["; for (int i = 0; i < BIG; i++) s += i ? ",[\"num\",1]" : "[\"num\",1]"; return s + "]]"; }
  static std::string show(const big& v) { std::vector<std::string> r; for (int i = 0; i < BIG; i++) r.push_back(digits(v.x[i], 1)); return jlist(r); }
  static void fill(big& v, wi& w) { int k = num(*w++); for (int i = 0; i < BIG; i++) v.x[i] = k + i * 7; } };

struct slot { virtual ~slot() {} virtual std::string name() = 0; virtual std::string show() = 0; virtual void fill(wi&) = 0; virtual void put(binary_oarchive&, bool) = 0; virtual void get(binary_iarchive&, bool) = 0; virtual slot* fresh() = 0; };
template <class T> struct slot_of : slot { T v; slot_of() : v() {} std::string name() { return ty<T>::name(); } std::string show() { return ::show(v); } void fill(wi& w) { ::fill(v, w); }
  void put(binary_oarchive& a, bool amp) { if (amp) a & v; else a << v; } void get(binary_iarchive& a, bool amp) { if (amp) a & v; else a >> v; } slot* fresh() { return new slot_of<T>; } };
static slot* make(const std::string& t) {
#define T(N, ...) if (t == N) return new slot_of<__VA_ARGS__ >;
  T("bool", bool) T("c", char) T("i8", signed char) T("u8", unsigned char) T("i16", short) T("u16", unsigned short) T("i32", int) T("u32", unsigned) T("i64", long) T("u64", unsigned long) T("ll", long long) T("ull", unsigned long long) T("f32", float) T("f64", double) T("f80", long double)
  T("str", std::string) T("wstr", std::basic_string<unsigned>) T("vi", std::vector<int>) T("vs", std::vector<std::string>) T("lu", std::list<unsigned short>) T("dl", std::deque<long>) T("ls", std::list<std::string>) T("ds", std::deque<std::string>)
  T("si", std::set<int>) T("ss", std::set<std::string>) T("usi", pfi::data::unordered_set<int>) T("uss", pfi::data::unordered_set<std::string>)
  T("msi", std::map<std::string, int>) T("mis", std::map<int, std::string>) T("umsi", pfi::data::unordered_map<std::string, int>) T("umiv", pfi::data::unordered_map<int, std::vector<int> >)
  T("pis", std::pair<int, std::string>) T("rec", rec) T("arr", arr) T("vrec", std::vector<rec>) T("mvp", std::map<std::string, std::vector<std::pair<unsigned char, std::string> > >) T("vvi", std::vector<std::vector<int> >) T("strm", strm) T("fstm", fstm) T("big", big)
  abort();
}
static void clearslots(std::vector<slot*>& v) { for (size_t i = 0; i < v.size(); i++) delete v[i]; v.clear(); }
static void readback(std::vector<slot*>& from, const words* old, const std::string& types, const std::string& b, bool amp) {
  doing("read", types);
  event e("read"); e.ar(types).as(b);
  std::istringstream is(b); binary_iarchive ia(is);
  for (size_t i = 0; i < from.size(); i++) {
    slot* s = from[i]->fresh(); if (old && i < old->size()) {}
    s->get(ia, amp); bool ok = ia ? true : false;
    e.rr("[" + jnum(ok) + "," + (ok ? s->show() : std::string("[]")) + "," + jnum(ok ? (long)is.tellg() : 0) + "]"); delete s;
  }
}
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i];                       // (w|t) n type value...  type value...
    std::vector<slot*> v; wi p = w.begin() + 1; long n = num(*p++); std::vector<std::string> names, vals;
    for (long k = 0; k < n; k++) { slot* s = make(*p++); s->fill(p); v.push_back(s); names.push_back(s->name()); vals.push_back(s->show()); }
    std::string b, types = jlist(names);
    { event e("write"); e.ar(types).ar(jlist(vals)); std::ostringstream os; binary_oarchive oa(os); for (size_t k = 0; k < v.size(); k++) v[k]->put(oa, k & 1); b = os.str(); e.rs(b); if (!oa) e.x(1); }
    if (w[0] == "h") {                           // a wrong, huge count
      static const unsigned long big[] = {0xFFFFFFFFul, 0x7FFFFFFFul, 0x80000000ul, 0x10000000ul, 0x01000000ul};
      for (int k = 0; k < 5; k++) { std::string c = b; for (int j = 0; j < 4; j++) c[j] = (char)(big[k] >> (8 * j)); readback(v, 0, types, c, k & 1); }
      clearslots(v); continue;
    }
    size_t lo = w[0] == "t" ? 0 : b.size(); size_t step = 1 + (b.size() - lo) / 25;
    for (size_t l = lo; l < b.size(); l += step) readback(v, 0, types, b.substr(0, l), l & 1);
    readback(v, 0, types, b, true); readback(v, 0, types, b + std::string("\1\2", 2), false);
    if (w[0] == "o" && n == 2) {                // read the second's bytes into an object that holds the first's value (same type)
      std::ostringstream os; binary_oarchive oa(os); slot* s = v[1]; s->put(oa, true); std::string bb = os.str();
      event e("read"); e.ar("[" + names[1] + "]").as(bb); std::istringstream is(bb); binary_iarchive ia(is); v[0]->get(ia, true); bool ok = ia ? true : false;
      e.rr("[" + jnum(ok) + "," + v[0]->show() + "," + jnum((long)is.tellg()) + "]");
    }
    clearslots(v);
  }
}
