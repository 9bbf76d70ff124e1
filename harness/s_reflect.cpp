// descriptions of types: data/serialization/reflect.h and network/rpc/reflect.h
#include "seq.h"
#include <map>
#include <memory>
#include "data/serialization.h"
#include "data/serialization/reflect.h"
#include "network/rpc/reflect.h"
using namespace pfi::data::serialization; using namespace pfi::network::rpc; using pfi::lang::function; using pfi::lang::shared_ptr;
struct plain { int a; char b; double c; template <class Ar> void serialize(Ar& ar) { ar & a & b & c; } };
struct named { int a; unsigned long long b; bool c; template <class Ar> void serialize(Ar& ar) { ar & NAME(named) & MEMBER(a) & MEMBER(b) & MEMBER(c); } };
struct empty_ { template <class Ar> void serialize(Ar&) {} };
struct outer { named x; short y; plain z; unsigned char w; template <class Ar> void serialize(Ar& ar) { ar & NAME(outer) & MEMBER(x) & MEMBER(y) & z & NAMED_MEMBER("other", w); } };
struct deep { outer o; outer p; empty_ q; signed char r; template <class Ar> void serialize(Ar& ar) { ar & MEMBER(o) & p & MEMBER(q) & NAME(deep) & MEMBER(r); } };
struct priv { priv() : v(0) {} private: friend class pfi::data::serialization::access; float v; template <class Ar> void serialize(Ar& ar) { ar & MEMBER(v); } };
REFLECT_RPC_PROC(m0, int())
REFLECT_RPC_PROC(m1, bool(named))
REFLECT_RPC_PROC(m2, plain(char, unsigned short))
REFLECT_RPC_PROC(m3, double(int, bool, char))
REFLECT_RPC_PROC(m4, long(int, bool, char, float))
REFLECT_RPC_PROC(m5, short(int, bool, char, float, short))
REFLECT_RPC_PROC(m6, outer(int, bool, char, float, short, unsigned int))
REFLECT_RPC_PROC(m7, char(int, bool, char, float, short, unsigned int, long))
REFLECT_RPC_PROC(m8, unsigned char(int, bool, char, float, short, unsigned int, long, signed char))
REFLECT_RPC_PROC(m9, unsigned long(int, bool, char, float, short, unsigned int, long, signed char, empty_))
REFLECT_RPC_GEN(7, small, m1)
REFLECT_RPC_GEN(-3, all, m9, m8, m7, m6, m5, m4, m3, m2, m1, m0)
static std::string two(const std::string& a, const std::string& b) { return "[" + a + "," + b + "]"; }
// the structure, by the accessors
static std::string js(type_rep* t) {
  if (dynamic_cast<bool_type*>(t)) return "[1]";
  if (int_type* i = dynamic_cast<int_type*>(t)) return "[2," + jnum(i->sign()) + "," + jnum(i->size()) + "]";
  if (dynamic_cast<float_type*>(t)) return "[3]";
  if (dynamic_cast<char_type*>(t)) return "[4]";
  class_type* c = dynamic_cast<class_type*>(t); if (!c) return "[0]";
  std::vector<std::string> v; for (class_type::iterator i = c->begin(); i != c->end(); ++i) v.push_back(two(jbytes(i->first), js(i->second.get())));
  return "[5," + jbytes(c->get_name()) + "," + jlist(v) + "]";
}
static std::string text(type_rep* t) { std::ostringstream os; t->print(os); return jbytes(os.str()); }
static std::string desc(const shared_ptr<type_rep>& t) {
  std::vector<std::string> v; t->traverse([&v](type_rep* n) { v.push_back(text(n)); });
  return "[" + text(t.get()) + "," + jlist(v) + "," + js(t.get()) + "]";
}
static void put(event& e, const shared_ptr<type_rep>& t) { std::vector<std::string> v; t->traverse([&v](type_rep* n) { v.push_back(text(n)); }); e.rr(text(t.get())).rr(jlist(v)).rr(js(t.get())); }
static std::string I(int s, int n) { return "[2," + jnum(s) + "," + jnum(n) + "]"; }
static std::string M(const char* n, const std::string& t) { return two(jbytes(n), t); }
static std::string K(const char* n, const std::string& ms) { return "[5," + jbytes(n) + ",[" + ms + "]]"; }
static const std::string B = "[1]", F = "[3]", C = "[4]";
struct decl { std::string term; shared_ptr<type_rep> (*get)(); };
static std::vector<decl> types() {
  std::string i4 = I(1, 4), pl = K("", M("", i4) + "," + M("", C) + "," + M("", F)), na = K("named", M("a", i4) + "," + M("b", I(0, 8)) + "," + M("c", B)), em = K("", "");
  std::string ou = K("outer", M("x", na) + "," + M("y", I(1, 2)) + "," + M("", pl) + "," + M("other", I(0, 1)));
  std::string de = K("deep", M("o", ou) + "," + M("", ou) + "," + M("q", em) + "," + M("r", I(1, 1)));
  decl d[] = {{B, get_type<bool>}, {C, get_type<char>}, {I(1, 1), get_type<signed char>}, {I(0, 1), get_type<unsigned char>}, {I(1, 2), get_type<short>}, {I(0, 2), get_type<unsigned short>},
    {i4, get_type<int>}, {I(0, 4), get_type<unsigned>}, {I(1, 8), get_type<long>}, {I(0, 8), get_type<unsigned long>}, {I(1, 8), get_type<long long>}, {I(0, 8), get_type<unsigned long long>},
    {F, get_type<float>}, {F, get_type<double>}, {F, get_type<long double>}, {pl, get_type<plain>}, {na, get_type<named>}, {em, get_type<empty_>}, {ou, get_type<outer>}, {de, get_type<deep>}, {K("", M("v", F)), get_type<priv>}};
  return std::vector<decl>(d, d + sizeof d / sizeof *d);
}
static shared_ptr<type_rep> leaf(int k) {
  static const int Z[] = {1, 2, 4, 8, 16};
  return k == 0 ? shared_ptr<type_rep>(new bool_type()) : k == 1 ? shared_ptr<type_rep>(new float_type()) : k == 2 ? shared_ptr<type_rep>(new char_type()) : shared_ptr<type_rep>(new int_type(k % 2, Z[k / 2 % 5]));
}
static void rpc_of(event& e, reflect_base& b) {
  std::vector<std::string> ms;
  for (std::map<std::string, reflect_base::method_type>::iterator i = b.members().begin(); i != b.members().end(); ++i) {
    std::vector<std::string> as; for (size_t k = 0; k < i->second.second.size(); k++) as.push_back(desc(i->second.second[k]));
    ms.push_back("[" + jbytes(i->first) + "," + desc(i->second.first) + "," + jlist(as) + "]");
  }
  e.rs(b.get_name()).r(b.get_version()).rr(jlist(ms));
}
void run_case(const std::vector<words>& c) {
  { event e("new"); e.a(0); }
  std::unique_ptr<reflection> R(new reflection());
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i];
    if (w[0] == "new") { event e("new"); e.a(0); R.reset(new reflection()); }
    else if (w[0] == "enter") { event e("enter"); e.a(0); R->enter_class(); }
    else if (w[0] == "leave") { event e("leave"); e.a(0); R->leave_class(); }
    else if (w[0] == "name") { event e("name"); e.as(unhex(w[1])); R->set_name(unhex(w[1])); }
    else if (w[0] == "add") { int k = num(w[2]); shared_ptr<type_rep> t = leaf(k); event e("add"); e.as(unhex(w[1])); static const int Z[] = {1, 2, 4, 8, 16};
      e.ar(k == 0 ? B : k == 1 ? F : k == 2 ? C : I(k % 2, Z[k / 2 % 5])); R->add(unhex(w[1]), t); }
    else if (w[0] == "get") { event e("get"); e.a(0); put(e, R->get()); }
    else if (w[0] == "type") { std::vector<decl> d = types(); decl& x = d[num(w[1]) % d.size()]; event e("type"); e.a(num(w[1])).ar(x.term); put(e, x.get()); }
    else {
      std::vector<decl> d = types(); std::string pl = d[15].term, na = d[16].term, em = d[17].term, ou = d[18].term;
      std::string a[] = {I(1, 4), B, C, F, I(1, 2), I(0, 4), I(1, 8), I(1, 1), em};
      std::string res[] = {I(1, 4), B, pl, F, I(1, 8), I(1, 2), ou, C, I(0, 1), I(0, 8)};
      std::vector<std::string> ms;
      for (int k = 0; k < 10; k++) {
        std::vector<std::string> as;
        if (k == 1) as.push_back(na); else if (k == 2) { as.push_back(C); as.push_back(I(0, 2)); } else for (int j = 0; j < k; j++) as.push_back(a[j]);
        char n[3] = {'m', (char)('0' + k), 0};
        ms.push_back("[" + jbytes(n) + "," + res[k] + "," + jlist(as) + "]");
      }
      bool s = num(w[1]) == 0; event e("rpc"); e.a(s).as(s ? "small" : "all").a(s ? 7 : -3).ar(s ? "[" + ms[1] + "]" : jlist(ms));
      if (s) { small_reflect r; rpc_of(e, r); } else { all_reflect r; rpc_of(e, r); }
    }
  }
}
