#include "seq.h"
#include "data/fenwick_tree.h"
using pfi::data::fenwick_tree;
void run_case(const std::vector<words>& c) {
  fenwick_tree<int>* f = 0; fenwick_tree<double>* g = 0;
  for (size_t i = 0; i < c.size(); i++) {
    const std::string& op = c[i][0]; long a = num(c[i][1]), b = num(c[i][2]);
    if (op == "new") { f = new fenwick_tree<int>(a); g = new fenwick_tree<double>(a); event("new").a(a); continue; }
    doing(op, jnum(a)); event e(op); e.a(a).a(b);
    if (op == "inc") { f->increase(a, b); g->increase(a, b * 0.5); }
    else if (op == "pre") { int x = f->query(a); if (g->query(a) * 2 != x) e.r(-999); e.r(x); }
    else { int x = f->query(a, b); if (g->query(a, b) * 2 != x) e.r(-999); e.r(x); }
  }
  delete f; delete g;
}
