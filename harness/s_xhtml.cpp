#include "seq.h"
#include "text/xhtml.h"
#include "network/cgi/xhtml_builder.h"
#include "network/cgi/tags.h"
using namespace pfi::text::xhtml;
using pfi::lang::shared_ptr;
typedef shared_ptr<html_elem> elem;
// commands of one document: o <name> (k v)* | t <text> | p <markup> | c | d (last child again)
struct cursor { const std::vector<words>& c; size_t i; cursor(const std::vector<words>& c, size_t i) : c(c), i(i) {} };
static std::string attrs_json(const words& w) {
  std::map<std::string, std::string> m; for (size_t j = 2; j + 1 < w.size(); j += 2) m[unhex(w[j])] = unhex(w[j + 1]);
  std::vector<std::string> v; for (std::map<std::string, std::string>::iterator p = m.begin(); p != m.end(); ++p) v.push_back("[" + jbytes(p->first) + "," + jbytes(p->second) + "]");
  return jlist(v);
}
static std::vector<std::string> tree(cursor& k) {        // what the commands describe
  std::vector<std::string> out;
  for (; k.i < k.c.size(); k.i++) {
    const words& w = k.c[k.i];
    if (w[0] == "c" || w[0] == "render" || w[0] == "build") return out;
    if (w[0] == "t") out.push_back("[0," + jbytes(unhex(w[1])) + ",[],[]]");
    else if (w[0] == "p") out.push_back("[2," + jbytes(unhex(w[1])) + ",[],[]]");
    else if (w[0] == "d") { if (!out.empty()) out.push_back(out.back()); }
    else if (w[0] == "o") { k.i++; std::vector<std::string> kids = tree(k); out.push_back("[1," + jbytes(unhex(w[1])) + "," + attrs_json(w) + "," + jlist(kids) + "]"); }
  }
  return out;
}
static std::vector<elem> direct(cursor& k) {
  std::vector<elem> out;
  for (; k.i < k.c.size(); k.i++) {
    const words& w = k.c[k.i];
    if (w[0] == "c" || w[0] == "render" || w[0] == "build") return out;
    if (w[0] == "t") out.push_back(elem(new text_elem(unhex(w[1]))));
    else if (w[0] == "p") out.push_back(elem(new prim_elem(unhex(w[1]))));
    else if (w[0] == "d") { if (!out.empty()) out.push_back(out.back()); }
    else if (w[0] == "o") {
      std::map<std::string, std::string> at; size_t j = 2;
      if (w.size() >= 6) { at[unhex(w[2])] = unhex(w[3]); j = 4; }
      shared_ptr<tag_elem> e(at.empty() ? new tag_elem(unhex(w[1])) : new tag_elem(unhex(w[1]), at));
      for (; j + 1 < w.size(); j += 2) { if (j & 2) (*e)[unhex(w[j])] = unhex(w[j + 1]); else e->attr()[unhex(w[j])] = unhex(w[j + 1]); }
      k.i++; std::vector<elem> kids = direct(k);
      for (size_t a = 0; a < kids.size(); a++) { if (a % 3 == 2) e->children().push_back(kids[a]); else e->add_child(kids[a]); }
      out.push_back(e);
    }
  }
  return out;
}
static void insert(cursor& k, pfi::network::cgi::xhtml_builder& builder) {
  for (; k.i < k.c.size(); k.i++) {
    const words& w = k.c[k.i];
    if (w[0] == "c" || w[0] == "render" || w[0] == "build") return;
    if (w[0] == "t") text__(unhex(w[1]));
    else if (w[0] == "p") prim__(unhex(w[1]));
    else if (w[0] == "d") { if (!builder.get().empty()) builder.push(builder.get().back()); }
    else if (w[0] == "o") { k.i++; tag__(unhex(w[1])) { for (size_t j = 2; j + 1 < w.size(); j += 2) attr__(unhex(w[j])) = unhex(w[j + 1]); insert(k, builder); } }
  }
}
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  size_t from = 0;
  for (size_t i = 0; i < c.size(); i++) {
    if (c[i][0] == "esc") { std::string t = unhex(c[i][1]); event("esc").as(t).rs(html_encode(t)); from = i + 1; continue; }
    if (c[i][0] != "render" && c[i][0] != "build") continue;
    std::vector<words> d(c.begin() + from, c.begin() + i); from = i + 1;
    cursor k(d, 0); std::string tj = jlist(tree(k)); doing("doc", tj);
    cursor k2(d, 0); std::vector<elem> es; pfi::network::cgi::xhtml_builder b;
    if (c[i][0] == "render") es = direct(k2); else { insert(k2, b); es = b.get(); }
    std::ostringstream o1, o2; for (size_t a = 0; a < es.size(); a++) { es[a]->render(o1); es[a]->pretty(o2); }
    event("doc").ar(tj).rs(o1.str()).rs(o2.str());
  }
}
