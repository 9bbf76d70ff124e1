#include "seq.h"
#include "data/encoding/base64.h"
#include <stdexcept>
using namespace pfi::data::encoding;
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    if (c[i][0] == "rep") {   // pattern (a multiple of three bytes), n times, then a tail
      std::string p = unhex(c[i][1]), tail = unhex(c[i][3]), t; long n = num(c[i][2]); for (long k = 0; k < n; k++) t += p; t += tail;
      doing("rep", jnum(n)); event e("rep"); e.as(p).a(n).as(tail);
      try {
        std::string x = base64_encode(t), f = x.substr(0, p.size() / 3 * 4); size_t k = 0; long m = 0;
        while (f.size() && k + f.size() <= x.size() && m < n && x.compare(k, f.size(), f) == 0) { k += f.size(); m++; }
        e.rs(f).r(m); std::string rest = x.substr(k); if (rest.size() > 400) rest.resize(400); e.rs(rest); e.r(base64_decode(x) == t);
      } catch (...) { e.x(2); }
      continue;
    }
    std::string s = unhex(c[i][1]); doing(c[i][0], jbytes(s)); event e(c[i][0]); e.as(s);
    try { e.rs(c[i][0] == "enc" ? base64_encode(s) : base64_decode(s)); }
    catch (const std::invalid_argument&) { e.x(1); } catch (...) { e.x(2); }
  }
}
