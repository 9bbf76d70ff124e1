#include "seq.h"
#include "data/lru.h"
#include <stdexcept>
using pfi::data::lru;
// K as strings so that dangling keys are seen by ASan
static std::string key(long k) { return std::string(40, 'k') + jnum(k); }
struct val { std::string s; val() : s("0") {} val(long v) : s(std::string(1, '0') + jnum(v) ) {} long get() const { return num(s); } };
void run_case(const std::vector<words>& c) {
  lru<std::string, val>* p = 0; long nk = 0;
  for (size_t i = 0; i < c.size(); i++) {
    const std::string& op = c[i][0];
    if (op == "new") { p = new lru<std::string, val>(num(c[i][1])); nk = num(c[i][2]); event("new").a(num(c[i][1])); continue; }
    long k = num(c[i][1]), v = num(c[i][2]); doing(op, jnum(k)); event e(op); e.a(k).a(v);
    try {
      if (op == "has") e.r(p->has(key(k)));
      else if (op == "get") e.r(p->get(key(k)).get());
      else if (op == "set") p->set(key(k), val(v));
      else if (op == "touch") p->touch(key(k));
      else if (op == "touchn") for (long n = v; n--;) p->touch(key(k));
      else if (op == "remove") p->remove(key(k));
      else if (op == "clear") p->clear();
      else if (op == "index") e.r((*p)[key(k)].get());
      else if (op == "assign") (*p)[key(k)] = val(v);
      else if (op == "keys") { long n = 0; for (long j = 0; j < nk; j++) n += p->has(key(j)); e.r(n); }
    } catch (const std::runtime_error&) { e.x(1); }
    catch (...) { e.x(2); }
  }
  delete p;
}
