#include "seq.h"
#include <list>
#include <sstream>
#include "text/csv.h"
using namespace pfi::text;
static std::string row(const csv_parser::row_type& r) { std::vector<std::string> v; for (size_t i = 0; i < r.size(); i++) v.push_back(jbytes(r[i])); return jlist(v); }
static void rows(event& e, csv_parser& p, bool post) {
  if (post) { csv_iterator i(p), q; while (i != q) { csv_iterator o = i++; e.rr(row(*o)); } }
  else for (csv_iterator i(p), q; i != q; ++i) e.rr(row(*i));
}
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; int mode = num(w[0]); std::string t = unhex(w[1]); if (w.size() > 2) { std::string u; for (long k = num(w[2]); k--;) u += t; t = u; } if (w.size() > 3) t += unhex(w[3]);
    doing("csv", t.size() < 400 ? jbytes(t) : jnum(t.size()));
    event e("csv"); e.as(t);
    std::vector<char> v(t.begin(), t.end()); std::list<char> l(t.begin(), t.end()); std::istringstream is(t);
    switch (mode) {
      case 0: { csv_parser p(t); rows(e, p, false); break; }
      case 1: { csv_parser p(is); rows(e, p, true); break; }
      case 2: { char* b = new char[t.size()]; memcpy(b, t.data(), t.size()); { csv_parser p(b, b + t.size()); rows(e, p, false); } delete[] b; break; }
      case 3: { csv_parser p(l.begin(), l.end()); while (p.next()) e.rr(row(p.get())); break; }
      case 5: {  // iterators kept while others move on show the row they stood at
        csv_parser p(t); csv_iterator i(p), q; std::vector<csv_iterator> k; while (i != q) { k.push_back(i); ++i; }
        for (size_t a = 0; a < k.size(); a++) e.rr(row(a % 2 ? *k[a] : *k[a].operator->())); break; }
      case 6: {  // assignment
        csv_parser p(is); csv_iterator i(p), q, o, first; bool f = true; while (i != q) { o = i++; if (f) { first = o; f = false; e.rr(row(*first)); } else e.rr(row(*o)); o = o; }
        if (!f) { csv_iterator again; again = first; csv_parser p2(t); csv_iterator j(p2); if (row(*again) != row(*j)) e.rr("[\"changed\"]"); }
        break; }
      case 7: {  // a copy can be moved on instead of the original
        csv_parser p(l.begin(), l.end()); csv_iterator i(p), q; while (i != q) { e.rr(row(*i.operator->())); csv_iterator k(i); ++k; i = k; }
        try { (void)(*q).size(); e.rr("[\"no exception at the end\"]"); } catch (const std::runtime_error&) {} 
        try { (void)(*i).size(); e.rr("[\"no exception at the end\"]"); } catch (const std::runtime_error&) {} break; }
      default: { std::vector<std::vector<std::string> > r(2, std::vector<std::string>(1, "kept")); parse_csv(t, r);
        if (r.size() < 2 || r[0].size() != 1 || r[0][0] != "kept" || r[1] != r[0]) e.rr("[\"rows lost\"]"); else r.erase(r.begin(), r.begin() + 2);
        for (size_t a = 0; a < r.size(); a++) { std::vector<std::string> x; for (size_t b = 0; b < r[a].size(); b++) x.push_back(jbytes(r[a][b])); e.rr(jlist(x)); } }
    }
  }
}
