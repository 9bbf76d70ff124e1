// cgi::exec, get_env and the stand-alone server
#include "seq.h"
#include "fakesock.h"
#include "network/cgi/cgi.h"
#include "network/cgi/server.h"
#include "network/cgi/util.h"
#include "network/dns.h"
#include <sys/resource.h>
using namespace pfi::network; using namespace pfi::network::cgi; using pfi::lang::shared_ptr;
typedef std::map<std::string, std::string> M;
static std::string two(const std::string& a, const std::string& b) { std::vector<std::string> v; v.push_back(a); v.push_back(b); return jlist(v); }
static std::string js(const M& m) { std::vector<std::string> v; for (M::const_iterator i = m.begin(); i != m.end(); ++i) v.push_back(two(jbytes(i->first), jbytes(i->second))); return jlist(v); }
static std::string js(const std::map<std::string, std::vector<std::string> >& m) {
  std::vector<std::string> v;
  for (std::map<std::string, std::vector<std::string> >::const_iterator i = m.begin(); i != m.end(); ++i) { std::vector<std::string> w; for (size_t k = 0; k < i->second.size(); k++) w.push_back(jbytes(i->second[k])); v.push_back(two(jbytes(i->first), jlist(w))); }
  return jlist(v);
}
static std::string js(const std::map<std::string, http::header>& m) {
  std::vector<std::string> v;
  for (std::map<std::string, http::header>::const_iterator i = m.begin(); i != m.end(); ++i) { std::vector<std::string> w; for (http::header::const_iterator k = i->second.begin(); k != i->second.end(); ++k) w.push_back(two(jbytes(k->first), jbytes(k->second))); v.push_back(two(jbytes(i->first), jlist(w))); }
  return jlist(v);
}
struct seen_t { bool ran; std::string q, m, f, fi, env, method, script, qs; seen_t() : ran(false) {} };
static seen_t* SEEN; static std::string BODY;
static bool plain(const std::string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] < 32 || s[i] > 126) return false; return true; }
struct prog : pfi::network::cgi::cgi, cloner<prog> {
  void run(std::ostream& out) {
    seen_t& s = SEEN[std::max(0, fakesock::accepted - 1)]; s.ran = true; s.q = js(query); s.m = js(multi_query); s.f = js(file); s.fi = js(file_info); s.env = js(env);
    s.method = jbytes(method); s.script = jbytes(env["SCRIPT_NAME"]); s.qs = jbytes(env["QUERY_STRING"]);
    head["X"] = "1"; head["Content-Type"] = "a/b";
    if (query.count("st") && query["st"] != "") head["Status"] = query["st"];
    if (query.count("loc")) head["Location"] = "/there";
    if (query.count("y") && plain(query["y"])) head["Y"] = query["y"];
    out << BODY;
  }
};
static std::vector<std::string> list(const std::string& s) { std::vector<std::string> v; std::stringstream ss(s); std::string a; while (std::getline(ss, a, ',')) if (a != "") v.push_back(unhex(a)); return v; }
static std::string jl(const std::vector<std::string>& v) { std::vector<std::string> w; for (size_t i = 0; i < v.size(); i++) w.push_back(jbytes(v[i])); return jlist(w); }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  prog P;
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; fakesock::reset();
    if (w[0] == "form") {              // method qs ct cl body max env out
      std::string me = unhex(w[1]), qs = unhex(w[2]), ct = unhex(w[3]), cl = unhex(w[4]), body = unhex(w[5]); long mx = num(w[6]);
      doing("form", jbytes(me) + "," + jbytes(qs) + "," + jbytes(ct) + "," + jbytes(cl) + "," + jbytes(body));
      M env; std::vector<std::string> ev = list(w[7]); for (size_t k = 0; k + 1 < ev.size(); k += 2) env[ev[k]] = ev[k + 1];
      if (me != "") env["REQUEST_METHOD"] = me; if (qs != "") env["QUERY_STRING"] = qs; if (ct != "") env["CONTENT_TYPE"] = ct; if (cl != "") env["CONTENT_LENGTH"] = cl;
      BODY = unhex(w[8]); seen_t s; SEEN = &s; P.set_max_content_length(mx);
      event e("form"); e.as(me).as(qs).as(ct).as(cl).as(body).a(mx).ar(js(env)).as(BODY);
      std::istringstream in(body); std::ostringstream out, err;
      try { P.exec(in, out, err, env); if (!s.ran) s.q = s.m = s.f = s.fi = s.env = "[]"; e.r(s.ran).rs(out.str()).rr(s.q).rr(s.m).rr(s.f).rr(s.fi).rr(s.env); }
      catch (std::exception&) { e.x(1); }
    } else if (w[0] == "env") {
      std::vector<std::string> v = list(w[1]); std::vector<char*> p; for (size_t k = 0; k < v.size(); k++) p.push_back((char*)v[k].c_str()); p.push_back(0);
      event e("env"); e.ar(jl(v)); e.rr(js(get_env(&p[0])));
    } else if (w[0] == "serve") {      // requests out split timeout
      std::vector<std::string> q = list(w[1]); BODY = unhex(w[2]); doing("serve", jl(q));
      event e("serve"); e.ar(jl(q)).as(BODY);
      std::vector<seen_t> s(q.size() + 1); SEEN = &s[0];
      for (size_t k = 0; k < q.size(); k++) { fakesock::conn cn; cn.in = q[k]; const char* p = w[3].c_str(); while (*p && *p != '-') { cn.split.push_back(strtol(p, (char**)&p, 10)); if (*p == ',') p++; } fakesock::pending.push_back(cn); }
      prog Q; Q.set_max_content_length(5000);
      try { run_server srv(Q, 8080, 1, num(w[4])); srv.run(true); } catch (std::exception&) { e.x(1); continue; }
      std::vector<std::string> o, sn; int k = 0;
      for (std::map<int, fakesock::conn>::iterator it = fakesock::C.begin(); it != fakesock::C.end(); ++it) if (it->second.idx >= 0) {
        int ix = it->second.idx; o.push_back(jbytes(it->second.out)); seen_t& z = s[ix]; std::vector<std::string> v;
        if (z.ran) { v.push_back(z.method); v.push_back(z.script); v.push_back(z.qs); v.push_back(z.q); v.push_back(z.m); v.push_back(z.f); v.push_back(z.fi); }
        sn.push_back(jlist(v));
      }
      e.rr(jlist(o)).rr(jlist(sn));
    } else {                           // deep n: nested multiparts
      int n = num(w[1]); doing("deep", w[1]); std::string b;
      for (int k = 0; k < n; k++) { char t[128]; snprintf(t, sizeof t, "--b%05d\r\nContent-Type: multipart/m; boundary=b%05d\r\n\r\n", k, k + 1); b += t; }
      M env; env["REQUEST_METHOD"] = "POST"; env["CONTENT_TYPE"] = "multipart/form-data; boundary=b00000"; char t[32]; snprintf(t, sizeof t, "%zu", b.size()); env["CONTENT_LENGTH"] = t;
      BODY = ""; seen_t s; SEEN = &s; P.set_max_content_length(1 << 22); rusage a, z; getrusage(RUSAGE_SELF, &a);
      event e("deep"); e.a(n); std::istringstream in(b); std::ostringstream out, err;
      try { P.exec(in, out, err, env); } catch (std::exception&) {}
      getrusage(RUSAGE_SELF, &z); e.r(z.ru_maxrss - a.ru_maxrss > 300 * 1024);
    }
  }
}
