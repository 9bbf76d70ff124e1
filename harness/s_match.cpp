#include "seq.h"
#include "data/string/kmp.h"
#include "data/string/aho_corasick.h"
#include "data/string/ustring.h"
using namespace pfi::data::string;
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i];
    if (w[0] == "kmp") {
      std::string q = unhex(w[1]), t = unhex(w[2]); long off = num(w[3]);
      doing("kmp", jbytes(q)); event e("kmp"); e.as(q).as(t).a(off);
      kmp<std::string> k(q); size_t p = k.find(t, off); long r1 = p == std::string::npos ? -1 : (long)p;
      std::vector<int> qv(q.begin(), q.end()), tv(t.begin(), t.end()); kmp<std::vector<int> > kv(qv); size_t p2 = kv.find(tv, off);
      kmp<std::string> k2(k); size_t p3 = k2.find(t, off);
      if (p2 != p || p3 != p) e.r(-9);
      e.r(r1);
    } else {
      std::vector<std::string> ws; std::string t = unhex(w[1]); std::vector<std::string> j;
      for (size_t k = 2; k < w.size(); k++) { ws.push_back(unhex(w[k])); j.push_back(jbytes(ws.back())); }
      doing("ac", jbytes(t)); event e("ac"); e.ar(jlist(j)).as(t);
      aho_corasick ac(ws); std::vector<std::pair<int, int> > r; ac.search(t, r);
      for (size_t k = 0; k < r.size(); k++) { std::vector<long> v; v.push_back(r[k].first); v.push_back(r[k].second); e.r(v); }
    }
  }
}
