#include "seq.h"
#include "data/intern.h"
#include "data/serialization.h"
#include "data/serialization/string.h"
using pfi::data::intern;
typedef intern<std::string> I;
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  I* o[2] = {new I, new I};
  for (size_t i = 0; i < c.size(); i++) {
    const std::string& op = c[i][0]; int w = num(c[i][1]); std::string k = unhex(c[i][2]); long id = num(c[i][3]);
    doing(op, jbytes(k)); event e(op); e.a(w).as(k); I& x = *o[w - 1]; I& y = *o[2 - w];
    try {
      if (op == "id2key" || op == "idq") { long n = x.size(); if (n == 0) { e.op_ = "size"; e.a(0).r(0).r(1); continue; } id = id % n; }
      e.a(id);
      if (op == "key2id") e.r(x.key2id(k));
      else if (op == "peek") e.r(x.key2id(k, false));
      else if (op == "nogen") e.r(x.key2id_nogen(k));
      else if (op == "exkey") e.r(x.exist_key(k));
      else if (op == "exid") e.r(x.exist_id(id));
      else if (op == "id2key") e.rs(x.id2key(id));
      else if (op == "size") e.r(x.size()).r(x.empty());
      else if (op == "clear") x.clear();
      else if (op == "swap") { if (id & 1) x.swap(y); else { using std::swap; swap(x, y); } }
      else if (op == "copy") { if (id & 1) y = x; else { I t(x); delete o[2 - w]; o[2 - w] = new I(t); } }
      else if (op == "ser") { std::stringstream ss; { pfi::data::serialization::binary_oarchive oa(ss); oa << x; } pfi::data::serialization::binary_iarchive ia(ss); ia >> y; }
      else if (op == "bulk") {  // many keys, a sample is looked at, before and after serialization
        I a, b; for (long j = 0; j < id; j++) a.key2id(k + jnum(j));
        std::stringstream ss; { pfi::data::serialization::binary_oarchive oa(ss); oa << a; } { pfi::data::serialization::binary_iarchive ia(ss); ia >> b; }
        e.r((long)a.size()).r((long)b.size());
        for (long j = 0; j < id; j += (j < 300 || j + 1000 > id || j % 32768 > 32700 || j % 32768 < 5) ? 7 : 61) { long q[4] = {a.key2id(k + jnum(j)), b.key2id_nogen(k + jnum(j)), a.id2key(j) == k + jnum(j), b.id2key(j) == k + jnum(j)}; if (q[0] != j || q[1] != j || !q[2] || !q[3]) e.r(j).r(q[0]).r(q[1]).r(q[2]).r(q[3]); }
        e.r((long)a.size()).r(b.exist_id(id)).r(b.exist_id(id - 1));
      }
      else if (op == "all") { std::vector<std::string> v; for (size_t j = 0; j < x.size(); j++) v.push_back(jbytes(x.id2key(j))); e.rr(jlist(v)); }
    } catch (...) { e.x(2); }
  }
  delete o[0]; delete o[1];
}
