// several threads computing digests at once
#include "conc.h"
#include <iterator>
#include <iostream>
#include "data/digest/md5.h"
void gen_program(rng& g, program& p, bool small) {
  int nt = 2 + g.below(2);
  for (int t = 0; t < nt; t++) { script s; int n = 1 + g.below(2); for (int i = 0; i < n; i++) { op o = {0, g.below(3) ? g.below(5) : 50 + g.below(20), g.below(256), 0}; s.push_back(o); } p.thr.push_back(s); }
}
std::string header(const program&) { return "\"z\":0"; }
void* make_object(const program&) { return new int; }
void free_object(void* o) { delete (int*)o; }
void exec_op(void*, const program&, int t, const op& o) {
  ev_call(t, "sum", V(o.a, o.b));
  std::string m; for (int i = 0; i < o.a; i++) m += (char)((o.b + 7 * i) % 256);
  pfi::data::digest::md5sum d(m); uint32_t w[] = {d.a, d.b, d.c, d.d}; std::vector<int> r; for (int i = 0; i < 4; i++) { r.push_back(w[i] >> 16); r.push_back(w[i] & 65535); }
  ev_ret(t, r);
}
