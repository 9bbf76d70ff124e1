#include "seq.h"
#include "network/uri.h"
using namespace pfi::network;
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; std::string t = unhex(w[1]); doing(w[0], jbytes(t));
    event e(w[0]); e.as(t);
    if (w[0] == "parse") {
      uri u(t); std::ostringstream os; os << u;
      e.rs(u.scheme()).rs(u.userinfo()).rs(u.host()).rs(u.port()).rs(u.path()).rs(u.query()).rs(u.fragment()).rs(u.authority()).rs(os.str());
    } else if (w[0] == "enc") e.rs(uri_encode(t));
    else e.rs(uri_decode(t));
  }
}
