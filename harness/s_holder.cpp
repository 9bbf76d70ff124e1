#include "seq.h"
#include <set>
#include <map>
#include "data/optional.h"
#include "lang/any.h"
#include "lang/shared_ptr.h"
#include "lang/weak_ptr.h"
#include "lang/scoped_ptr.h"
#include "lang/enable_shared_from_this.h"
using namespace pfi::lang; using pfi::data::optional;
struct boom {};
static int arm, err; static std::set<const void*> live;
static void tick() { if (arm && --arm == 0) throw boom(); }
struct obj {
  long v;
  obj(long v) : v(v) { if (!live.insert(this).second) err++; }
  obj(const obj& r) : v(r.v) { tick(); if (!live.insert(this).second) err++; }
  obj& operator=(const obj& r) { if (!live.count(this) || !live.count(&r)) err++; tick(); v = r.v; return *this; }
  ~obj() { if (!live.erase(this)) err++; v = -77; }
};
static bool operator==(const obj& a, const obj& b) { return a.v == b.v; }
static bool operator<(const obj& a, const obj& b) { return a.v < b.v; }
struct base { virtual ~base() {} };
struct other : base {};
struct node : base, obj, enable_shared_from_this<node> { int id; node(long v, int id) : obj(v), id(id) {} };
struct del { int* n; void operator()(node* p) { ++*n; delete p; } };
typedef shared_ptr<node> SP; typedef weak_ptr<node> WP; typedef scoped_ptr<node> PP;
static std::string arr(const std::string* v) { return "[" + v[0] + "," + v[1] + "," + v[2] + "]"; }
static std::string pv(node* p) { if (!p) return "0,0,0"; if (!live.count((obj*)p)) { err++; return "1,-1,-1"; } return "1," + jnum(p->v) + "," + jnum(p->id); }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  err = 0; arm = 0; live.clear(); int ids = 0, dels = 0;
  {
    optional<obj>* o[3]; any* a[3]; SP s[3]; WP w[3]; PP p[3];
    for (int i = 0; i < 3; i++) { o[i] = new optional<obj>; a[i] = new any; }
    for (size_t q = 0; q < c.size(); q++) {
      const words& k = c[q]; const std::string& op = k[0]; int i = num(k[1]) - 1; long jv = num(k[2]); int j = jv - 1; long t = k.size() > 3 ? num(k[3]) : 0; int fault = k.size() > 4 ? num(k[4]) : 0;
      std::string all; for (size_t z = 1; z < k.size(); z++) all += k[z] + " "; doing(op, "\"" + all + "\"");
      event e(op); e.a(i + 1).a(jv).a(t).a(fault);
      std::string out; 
      try {
        if (op == "oset") { if (t == 1 && *o[i]) { *o[i] = **o[i]; *o[i] = obj(jv); } else { obj x(jv); arm = fault; *o[i] = x; } }
        else if (op == "ovalue") { obj x(jv); arm = fault; optional<obj>* n = new optional<obj>(x); arm = 0; delete o[i]; o[i] = n; }
        else if (op == "oconv") { optional<long> l(jv); arm = fault; if (t) { optional<obj>* n = new optional<obj>(l); delete o[i]; o[i] = n; } else *o[i] = l; }
        else if (op == "oconvnone") { optional<long> l; if (t) { optional<obj>* n = new optional<obj>(l); delete o[i]; o[i] = n; } else *o[i] = l; }
        else if (op == "oreset") { if (t) { delete o[i]; o[i] = new optional<obj>(); } else *o[i] = optional<obj>(); }
        else if (op == "oassign") { arm = fault; *o[i] = *o[j]; }
        else if (op == "ocopy") { arm = fault; optional<obj>* n = new optional<obj>(*o[j]); arm = 0; delete o[i]; o[i] = n; }
        else if (op == "oswap") o[i]->swap(*o[j]);
        else if (op == "opoke") { if (*o[i]) { if (t == 0) (**o[i]).v = jv; else if (t == 1) (*o[i])->v = jv; else o[i]->get()->v = jv; } }
        else if (op == "ocmp") { const optional<obj>&x = *o[i], &y = *o[j]; out = "[" + jnum(x == y) + "," + jnum(x != y) + "," + jnum(x < y) + "," + jnum(x > y) + "," + jnum(x <= y) + "," + jnum(x >= y) + "]"; }
        else if (op == "aset") { if (t == 0) *a[i] = (int)jv; else if (t == 1) *a[i] = std::string(jv, 'x'); else { obj x(jv); arm = fault; if (jv % 2) *a[i] = x; else { any n(x); arm = 0; a[i]->swap(n); } } }
        else if (op == "areset") { delete a[i]; a[i] = new any; }
        else if (op == "aassign") { arm = fault; *a[i] = *a[j]; }
        else if (op == "acopy") { arm = fault; any* n = new any(*a[j]); arm = 0; delete a[i]; a[i] = n; }
        else if (op == "aswap") a[i]->swap(*a[j]);
        else if (op == "acast") { try { long v = jv == 0 ? (t ? a[i]->cast<int>() : any_cast<int>(*a[i])) : jv == 1 ? (long)any_cast<std::string>(*a[i]).size() : jv == 2 ? a[i]->cast<obj>().v : (long)any_cast<long>(*a[i]); out = "[1," + jnum(v) + "]"; } catch (const bad_any_cast&) { out = "[0,0]"; } }
        else if (op == "snew") { ++ids; if (t) { del d = {&dels}; s[i] = SP(new node(jv, ids), d); } else s[i] = SP(new node(jv, ids)); }
        else if (op == "sassign") { if (t) { SP tmp(s[j]); s[i] = tmp; } else s[i] = s[j]; }
        else if (op == "sreset") { if (t) s[i].reset(); else s[i] = SP(); }
        else if (op == "sswap") s[i].swap(s[j]);
        else if (op == "spoke") { if (s[i]) (t ? s[i].get() : s[i].operator->())->v = jv; }
        else if (op == "sself") { if (s[j]) { if (t) s[i] = const_pointer_cast<node>(((const node&)*s[j]).shared_from_this()); else s[i] = s[j]->shared_from_this(); } }
        else if (op == "scast") { shared_ptr<base> b(s[j]); if (t == 0) s[i] = dynamic_pointer_cast<node>(b); else if (t == 1) { if (dynamic_pointer_cast<other>(b)) err++; s[i] = SP(); } else if (t == 2) s[i] = static_pointer_cast<node>(b); else { shared_ptr<const node> cn(s[j]); s[i] = const_pointer_cast<node>(cn); } }
        else if (op == "wset") { if (t) w[i] = WP(s[j]); else w[i] = s[j]; }
        else if (op == "wassign") w[i] = w[j];
        else if (op == "wreset") w[i] = WP();
        else if (op == "wlock") s[i] = w[j].lock();
        else if (op == "wctor") { try { SP n(w[j]); s[i] = n; out = "1"; } catch (const bad_weak_ptr&) { out = "0"; } }
        else if (op == "pnew") { ++ids; p[i].reset(new node(jv, ids)); }
        else if (op == "preset") p[i].reset();
        else if (op == "pswap") { if (t) swap(p[i], p[j]); else p[i].swap(p[j]); }
        else if (op == "pself") { out = "0"; if (p[i]) try { if (t) { ((const node&)*p[i]).shared_from_this(); } else p[i]->shared_from_this(); out = "1"; } catch (const bad_weak_ptr&) {} catch (const boom&) { throw; } catch (...) { out = "2"; } }
        else if (op == "ppoke") { if (p[i]) { if (t == 0) p[i]->v = jv; else (*p[i]).v = jv; } }
      } catch (const boom&) { e.x(1); }
      arm = 0;
      std::string so[3], sa[3], ss[3], sw[3], sp[3];
      for (int z = 0; z < 3; z++) {
        so[z] = *o[z] ? "[" + jnum((**o[z]).v) + "]" : "[]"; if (!!*o[z] != (o[z]->get() != 0)) err++;
        if (a[z]->type() == typeid(void)) sa[z] = "[]"; else if (a[z]->type() == typeid(int)) sa[z] = "[0," + jnum(a[z]->cast<int>()) + "]"; else if (a[z]->type() == typeid(std::string)) sa[z] = "[1," + jnum(a[z]->cast<std::string>().size()) + "]"; else if (a[z]->type() == typeid(obj)) sa[z] = "[2," + jnum(a[z]->cast<obj>().v) + "]"; else sa[z] = "[9]";
        ss[z] = "[" + pv(s[z].get()) + "," + (s[z] ? jnum(s[z].use_count()) : "0") + "]";
        SP l = w[z].lock(); if (w[z].expired() != !l) err++; sw[z] = "[" + pv(l.get()) + "]";
        sp[z] = "[" + pv(p[z].get()) + "]"; if (!!p[z] != (p[z].get() != 0)) err++;
      }
      if (!out.empty() && !e.x_) e.rr(out);
      e.rr("[" + arr(so) + "," + arr(sa) + "," + arr(ss) + "," + arr(sw) + "," + arr(sp) + "," + jnum(live.size()) + "," + jnum(err) + "]");
    }
    for (int i = 0; i < 3; i++) { delete o[i]; delete a[i]; }
  }
  event("end").r(live.size()).r(err);
}
