// http::header, request, response, httpstream over scripted connections
#include "seq.h"
#include "fakesock.h"
#include "network/http.h"
#include "network/http/stream.h"
#include "network/dns.h"
using namespace pfi::network; using pfi::lang::shared_ptr;
struct res0 : dns_resolver { std::vector<ipv4_address> resolve(const std::string&, uint16_t) { return std::vector<ipv4_address>(1, ipv4_address("127.0.0.1")); } };
static std::vector<int> csv(const std::string& s) { std::vector<int> v; if (s == "-") return v; const char* p = s.c_str(); while (*p) { v.push_back(strtol(p, (char**)&p, 10)); if (*p == ',') p++; } return v; }
static std::string hdrs(const http::header& h) { std::vector<std::string> v; for (http::header::const_iterator i = h.begin(); i != h.end(); ++i) { std::vector<std::string> w; w.push_back(jbytes(i->first)); w.push_back(jbytes(i->second)); v.push_back(jlist(w)); } return jlist(v); }
static std::string ver(const std::pair<int, int>& v) { std::vector<std::string> w; w.push_back(jnum(v.first)); w.push_back(jnum(v.second)); return jlist(w); }
static std::string drain(std::istream& is, int mode, size_t max) {
  std::string r; char b[700];
  while (r.size() < max) {
    if (mode == 0) { int c = is.get(); if (c == EOF) break; r += (char)c; }
    else if (mode == 1) { is.read(b, 1 + r.size() % 600); r.append(b, is.gcount()); if (!is) break; }
    else if (mode == 2) { if (is.peek() == EOF) break; char c; if (!is.get(c)) break; r += c; }
    else if (mode == 3) { std::string l; if (!std::getline(is, l)) break; r += l; if (!is.eof()) r += '\n'; }
    else { char c; is.unsetf(std::ios::skipws); if (!(is >> c)) break; r += c; }
  }
  return r;
}
static shared_ptr<stream_socket> link(const std::string& in, const std::string& split, long failat, bool reset) {
  fakesock::conn c; c.in = in; c.split = csv(split); c.failat = failat; c.reset = reset; fakesock::pending.push_back(c);
  shared_ptr<stream_socket> s(new stream_socket()); if (!s->connect("h", 1)) abort(); return s;
}
static std::string rest(stream_socket& s) { std::string r; char b[512]; int n; while ((n = s.read(b, sizeof b)) > 0) r.append(b, n); return r; }
static std::vector<std::pair<std::string, std::string> > pairs(const std::string& s) {
  std::vector<std::pair<std::string, std::string> > v; std::stringstream ss(s); std::string a;
  while (std::getline(ss, a, ',')) { if (a == "") continue; size_t p = a.find('='); v.push_back(std::make_pair(unhex(a.substr(0, p)), unhex(a.substr(p + 1)))); }
  return v;
}
void run_case(const std::vector<words>& c) {
  static bool once = (stream_socket::set_dns_resolver(shared_ptr<dns_resolver>(new res0())), true); (void)once;
  event("new").a(0);
  http::header H;
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; fakesock::reset();
    if (w[0] == "recv") {                       // kind bytes split mode reset
      int kind = num(w[1]), mode = num(w[4]); std::string in = unhex(w[2]); doing("recv", jnum(kind) + "," + jbytes(in));
      event e("recv"); e.a(kind).as(in);
      shared_ptr<stream_socket> s = link(in, w[3], -1, num(w[5]));
      try {
        if (kind == 0) { http::request q(s); std::ostringstream u; u << q.path(); std::string b = drain(q.body(), mode, in.size() + 10000); e.rs(q.method()).rs(u.str()).rr(ver(q.version())).rr(hdrs(q.head())).rs(b); }
        else { http::response q(s); std::string b = drain(q.body(), mode, in.size() + 10000); e.r(q.code()).rs(q.reason()).rr(ver(q.version())).rr(hdrs(q.head())).rs(b); }
        e.rs(rest(*s));
      } catch (std::exception&) { e.x(1); }
    } else if (w[0] == "send") {                // kind first second maj min fields body failat split
      int kind = num(w[1]), ma = num(w[4]), mi = num(w[5]); std::string a = unhex(w[2]), b = unhex(w[3]), body = unhex(w[7]);
      std::vector<std::pair<std::string, std::string> > h = pairs(w[6]);
      event e("send"); doing("send", "0");
      std::vector<std::string> st; if (kind == 0) st.push_back(jbytes(a)); else st.push_back(jnum(num(w[2]))); st.push_back(jbytes(b)); st.push_back(ver(std::make_pair(ma, mi)));
      std::vector<std::string> hv; for (size_t k = 0; k < h.size(); k++) { std::vector<std::string> x; x.push_back(jbytes(h[k].first)); x.push_back(jbytes(h[k].second)); hv.push_back(jlist(x)); }
      e.a(kind).ar(jlist(st)).ar(jlist(hv)).as(body).a(0);
      int x = 0; std::string out; bool failed = false;
      {
        shared_ptr<stream_socket> s = link("", w[9], num(w[8]), false); int fd = fakesock::next_fd - 1;
        try {
          if (kind == 0) { http::request q(a, uri(b), ma, mi); for (size_t k = 0; k < h.size(); k++) q.head()[h[k].first] = h[k].second; q.body() << body; q.send(s); }
          else { http::response q(num(w[2]), b, ma, mi); for (size_t k = 0; k < h.size(); k++) q.head().set(h[k].first, h[k].second); q.body().write(body.data(), body.size()); q.send(s); }
        } catch (http::http_exception&) { x = 1; } catch (std::exception&) { x = 2; }
        out = fakesock::C[fd].out; failed = fakesock::C[fd].failed;
      }
      e.a(failed ? 1 : 0); if (x) e.x(x); else e.rs(out);
    } else if (w[0] == "get") {                 // url response split mode reset host
      std::string in = unhex(w[2]); doing("get", jbytes(in)); event e("get"); e.as(unhex(w[1])).as(in).as(unhex(w[6]));
      fakesock::conn c; c.in = in; c.split = csv(w[3]); c.reset = num(w[5]); fakesock::pending.push_back(c); int fd = fakesock::next_fd;
      try { http::httpstream hs(unhex(w[1])); std::string b = drain(hs, num(w[4]), in.size() + 10000); e.rs(fakesock::C[fd].out).rr(hdrs(hs.head())).rs(b); }
      catch (std::exception&) { e.x(1); }
    } else if (w[0] == "hset") { event e("hset"); e.as(unhex(w[1])).as(unhex(w[2])); if (num(w[3])) H[unhex(w[1])] = unhex(w[2]); else H.set(unhex(w[1]), unhex(w[2])); }
    else if (w[0] == "herase") { event e("herase"); e.as(unhex(w[1])); H.erase(unhex(w[1])); }
    else { event e("hget"); e.as(unhex(w[1])); const http::header& K = H; e.r(K.has_key(unhex(w[1]))).rs(K[unhex(w[1])]).rr(hdrs(K)); }
  }
}
