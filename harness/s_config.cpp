#include "seq.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include "data/config_file.h"
#include "lang/exception.h"
using pfi::data::config_file;
static void dump(event& e, const config_file& c) {
  for (config_file::const_iterator i = c.begin(); i != c.end(); ++i) { std::vector<std::string> l; for (config_file::section::const_iterator j = i->second.begin(); j != i->second.end(); ++j) l.push_back("[" + jbytes(j->first) + "," + jbytes(j->second) + "]"); e.rr("[" + jbytes(i->first) + "," + jlist(l) + "]"); }
}
void run_case(const std::vector<words>& c) {
  event("new").a(0); std::unique_ptr<config_file> f; { std::istringstream is(""); f.reset(new config_file(is)); }
  std::string path = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/conf" + jnum(getpid());
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; doing(w[0], "[]");
    if (w[0] == "load") {
      std::string t = unhex(w[2]); event e("load"); e.as(t);
      try {
        std::unique_ptr<config_file> g;
        if (w[1] == "f") { { std::ofstream o(path.c_str(), std::ios::binary); o << t; } try { g.reset(new config_file(path)); } catch (...) { unlink(path.c_str()); throw; } unlink(path.c_str()); }
        else { std::istringstream is(t); g.reset(new config_file(is)); }
        f.swap(g); dump(e, *f);
      } catch (pfi::lang::parse_error& x) { e.x(1); e.r((long)x.lineno()); }
    } else if (w[0] == "dump") { event e("dump"); e.a(0); dump(e, *f); }
    else {
      std::string s = unhex(w[1]), k = unhex(w[2]); event e(w[0]); e.as(s).as(k);
      if (w[0] == "get") { const config_file& q = *f; e.rs(q[s][k]); e.r(q.find(s) != q.end()); e.r(q[s].find(k) != q[s].end()); }
      else if (w[0] == "find") { config_file& q = *f; config_file::iterator i = q.find(s); bool a = i != q.end(), b = false; std::string v; if (a) { config_file::section::iterator j = i->second.find(k); b = j != i->second.end(); if (b) v = j->second; } e.rs(v); e.r(a); e.r(b); }
      else if (w[0] == "ref") e.rs((*f)[s][k]);
      else { std::string v = unhex(w[3]); e.as(v); (*f)[s][k] = v; }
    }
  }
}
