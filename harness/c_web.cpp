// the stand-alone web server (cgi::run_server) over the simulated network
#include "conc.h"
#include "simnet.h"
#include "network/cgi/server.h"
#include "network/socket.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <errno.h>
#include <iostream>
#include <sstream>
#include <set>
using namespace pfi::network;
using pfi::lang::shared_ptr;
enum { REQ, SLEEP, PAUSE, LAST };
enum { PORT = 8080, MAXLEN = 3000 };
// kinds of request: 0 query, 1 urlencoded body, 2 multipart with a file, 3.. broken ones
enum { NKIND = 11 };
static int left_; static cgi::run_server* SV; static int TMO;

static std::string str(int n) { char b[16]; snprintf(b, sizeof b, "%d", n); return b; }
static int vlen(int id) { static const int L[] = {0, 3, 30, 700}; return L[id % 4]; }
static std::string value(int id) { std::string s = str(id) + "v"; int n = vlen(id); for (int i = 0; i < n; i++) s += (char)('a' + (id + i) % 26); return s; }
static std::string blob(int id) { std::string s; int n = vlen(id + 1); for (int i = 0; i < n; i++) s += (char)(id * 31 + i * 7); return s; }
static std::string answer(int id, int act) { std::string s = "answer " + str(id) + "\r\n"; int n = act == 4 ? 9000 : vlen(id + 2); for (int i = 0; i < n; i++) s += (char)(id * 13 + i * 5); return s; }

struct prog : cgi::cgi, pfi::network::cgi::cloner<prog> {
  std::string mine;
  void run(std::ostream& out) {
    int id, act, good;
    {
      sched::guard g;
      id = atoi(query["id"].c_str()); act = atoi(query["a"].c_str()); std::string k = query["k"];
      std::string qs = "id=" + str(id) + "&a=" + str(act) + "&k=" + k + "&v=" + value(id);
      good = query.size() == 4 && multi_query.size() == 4 && query["v"] == value(id) && multi_query["v"].size() == 1 && multi_query["v"][0] == value(id)
        && (k == "2" ? file.size() == 1 && file_info.size() == 1 && file.count("f" + str(id)) && file["f" + str(id)] == blob(id) : file.empty() && file_info.empty())
        && method == (k == "0" ? "GET" : "POST") && env["REQUEST_METHOD"] == method
        && env["QUERY_STRING"] == (k == "0" ? qs : "") && env["SCRIPT_NAME"] == "/p" + str(id) && env["REQUEST_URI"] == "/p" + str(id) + (k == "0" ? "?" + qs : "")
        && env["HTTP_TRACE"] == "t " + str(id) && env["SERVER_PORT"] == str(PORT)
        && head.begin() != head.end() && !head.has_key("Status") && !head.has_key("Trace");
      int rem = env["REMOTE_ADDR"] == "127.0.0.1" && simnet::id_of_port(atoi(env["REMOTE_PORT"].c_str())) == simnet::last_accept();
      char b[96]; snprintf(b, sizeof b, "{\"k\":\"run\",\"id\":%d,\"a\":%d,\"ok\":%d,\"rem\":%d}", id, act, good, rem); sched::log_raw(b);
    }
    mine = str(id);
    if (act == 5) usleep(200000);
    sched::yield(sched::P_YIELD);
    head["Trace"] = mine;
    if (act == 1) head["Status"] = "404 Not Here";
    if (act == 2) head["Location"] = "/there" + query["id"];
    if (act == 3) throw std::runtime_error("program failed");
    out << answer(atoi(query["id"].c_str()), act);
  }
};
static std::string request(int kind, int id, int act, int x) {
  std::string f = "id=" + str(id) + "&a=" + str(act) + "&k=" + str(kind) + "&v=" + value(id), p = "/p" + str(id), h = " HTTP/1.1\r\nTrace: t " + str(id) + "\r\n", ct = "Content-Type: application/x-www-form-urlencoded\r\n";
  std::string get = "GET " + p + "?" + f + h + "\r\n", post = "POST " + p + h + ct + "Content-Length: " + str(f.size()) + "\r\n\r\n" + f;
  switch (kind) {
  case 0: return get;
  case 1: return post;
  case 2: {
    std::string b; const char* n[] = {"id", "a", "k"}; std::string v[] = {str(id), str(act), str(kind)};
    for (int i = 0; i < 3; i++) b += std::string("--=B=\r\nContent-Disposition: form-data; name=\"") + n[i] + "\"\r\n\r\n" + v[i] + "\r\n";
    b += "--=B=\r\nContent-Disposition: form-data; name=\"v\"\r\n\r\n" + value(id) + "\r\n";
    b += "--=B=\r\nContent-Type: multipart/mixed; boundary=in\r\n\r\n--in\r\nContent-Disposition: attachment; filename=\"f" + str(id) + "\"\r\n\r\n" + blob(id) + "\r\n--in--\r\n--=B=--\r\n";
    return "POST " + p + h + "Content-Type: multipart/form-data; boundary=\"=B=\"\r\nContent-Length: " + str(b.size()) + "\r\n\r\n" + b;
  }
  case 3: return get.substr(0, x % (get.size() - 2));
  case 4: return post.substr(0, x % post.size());
  case 5: return "junk" + str(x) + "\r\n\r\n";
  case 6: return "POST " + p + h + "Content-Length: abc\r\n\r\n" + f;
  case 7: return "POST " + p + h + ct + "Content-Length: " + str(MAXLEN + 1) + "\r\n\r\n" + std::string(MAXLEN + 1, 'x');
  case 8: return "POST " + p + h + "Content-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\nabc";
  case 9: return "POST " + p + h + "Content-Type: multipart/form-data; boundary=B\r\nContent-Length: 20\r\n\r\n--B\r\nA: b\r\n\r\ncontent";
  case 10: return "GET " + p + " HTTP/9\r\n\r\n";
  default: return "";
  }
}
static op mkop(int code, int a = 0, int b = 0, int c = 0) { op o = {code, a, b, c}; return o; }
// REQ: a = kind | act << 8 | how << 16, b = id, c = random.  how: 0 at once, 1 in two parts, 2 with a pause longer than the timeout, 3 closes without reading,
// 4 in two parts, the second one when all the other clients are done
void gen_program(rng& g, program& p, bool small) {
  int nc = small ? 2 : 2 + g.below(3), nt = 1 + g.below(small ? 2 : 3), tmo = g.chance(30) ? 1 : 0;
  for (int c = 0; c < nc; c++) {
    script s; int n = 1 + g.below(small ? 1 : 3);
    for (int i = 0; i < n; i++) {
      int kind = g.chance(70) ? g.below(3) : 3 + g.below(NKIND - 3), act = g.chance(50) ? 0 : 1 + g.below(5), how = g.chance(65) ? 0 : g.chance(60) ? 1 : g.chance(60) ? 3 : 2;
      if (how == 2 && !tmo) how = 1;
      if (c == 0 && i == 0 && nt > 1 && !tmo && g.chance(40)) how = 4;
      if (g.chance(10)) s.push_back(mkop(SLEEP, 1 + g.below(3)));
      s.push_back(mkop(REQ, kind | act << 8 | how << 16, (c + 1) * 10 + i, g.below(10000)));
    }
    s.push_back(mkop(LAST)); p.thr.push_back(s);
  }
  p.p1 = nt | tmo << 4 | nc << 8; p.p2 = g.below(64); p.strict = true; p.max_steps = 300000;
}
static simnet::options opts(const program& p) {
  simnet::options o; int x = p.p2;
  o.shorts = x & 1; o.eintr = (x & 2) ? 4 : 0; o.resets = (x & 12) == 12 ? 1 : 0; o.connfail = (x & 48) == 48 ? 1 : 0; o.optfail = true; o.cap = (x & 16) ? 65536 : 900;
  return o;
}
static void loss(int c) { sched::guard g; char b[64]; snprintf(b, sizeof b, "{\"k\":\"loss\",\"c\":%d}", c); sched::log_raw(b); }
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"cf\":%d,\"tmo\":%d", opts(p).connfail, (p.p1 >> 4) & 1); return b; }
void* make_object(const program& p) {
  simnet::reset(opts(p)); simnet::on_loss = loss; simnet::halted = false; left_ = p.p1 >> 8; TMO = (p.p1 >> 4) & 1;
  std::cout.setstate(std::ios::badbit);
  prog* c = new prog(); c->set_max_content_length(MAXLEN);
  SV = new cgi::run_server(*c, PORT, p.p1 & 15, TMO ? 1.0 : 0.0); SV->run(false);
  return SV;
}
void free_object(void*) {}
static bool never(void*) { return false; }
static bool alone(void*) { return left_ <= 1; }
static bool send_all(int fd, const std::string& s) {
  size_t i = 0;
  while (i < s.size()) { int k = send(fd, s.data() + i, s.size() - i, 0); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; i += k; }
  return true;
}
// status, id in the head, framing and body right (1), Location right (1)
static std::vector<int> judge(const std::string& r, int id, int act) {
  sched::guard g;
  int code = 0; size_t e = r.find("\r\n\r\n");
  if (r.empty()) return V(0, 0, 0);
  if (e == std::string::npos || sscanf(r.c_str(), "HTTP/1.1 %d", &code) != 1) return V(-1, 0, 0);
  std::istringstream is(r.substr(0, e + 2)); std::string l, tr, len, loc, ct, reason; std::getline(is, l); reason = l.size() > 13 ? l.substr(13) : "";
  while (std::getline(is, l)) {
    if (!l.empty() && l[l.size() - 1] == '\r') l.resize(l.size() - 1);
    if (l.compare(0, 7, "Trace: ") == 0) tr += l.substr(7); if (l.compare(0, 16, "Content-Length: ") == 0) len += l.substr(16); if (l.compare(0, 10, "Location: ") == 0) loc += l.substr(10); if (l.compare(0, 14, "Content-Type: ") == 0) ct += l.substr(14);
    if (l.compare(0, 8, "Status: ") == 0) return V(-2, 0, 0);
  }
  std::string b = r.substr(e + 4);
  bool ok = len == str(b.size()) && ct == "text/plain; charset=utf-8";
  if (code != 500) ok = ok && b == answer(id, act) && loc == (act == 2 ? "/there" + str(id) : "") && reason == (act == 1 ? "Not Here\r" : act == 2 ? "Found\r" : "OK\r");
  else ok = len == str(b.size());
  return V(code, atoi(tr.c_str()), ok);
}
void exec_op(void*, const program& p, int t, const op& o) {
  switch (o.code) {
  case REQ: {
    int kind = o.a & 255, act = (o.a >> 8) & 255, how = o.a >> 16, id = o.b; std::string q = request(kind, id, act, o.c);
    std::vector<int> a = V(id, kind, act); a.push_back(how); ev_call(t, "req", a);
    int fd = socket(PF_INET, SOCK_STREAM, 0); sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(PORT); s.sin_addr.s_addr = htonl(0x7f000001);
    int k; while ((k = connect(fd, (sockaddr*)&s, sizeof s)) < 0 && errno == EINTR) ;
    std::string r; int st = 0;
    if (k < 0) st = 1;
    else {
      size_t cut = how == 0 ? q.size() : o.c % (q.size() + 1); bool ok = send_all(fd, q.substr(0, cut));
      if (how == 4) sched::block_on(alone, 0, -1);
      if (cut < q.size()) { usleep(how == 2 ? 1700000 : 300000); ok = ok && send_all(fd, q.substr(cut)); }
      if (how != 3) {
        shutdown(fd, kind >= 3 ? SHUT_WR : 99);
        for (;;) { char b[2000]; int n = recv(fd, b, sizeof b, 0); if (n < 0 && errno == EINTR) continue; if (n <= 0) { st = n < 0 ? 3 : 0; break; } r.append(b, n); }
      } else st = 2;
    }
    close(fd);
    ev_ret(t, st == 0 || (st == 3 && !r.empty()) ? judge(r, id, act) : V(0, -st, 0)); break;
  }
  case SLEEP: usleep(o.a * 400000); break;
  case PAUSE: sched::yield(sched::P_YIELD); break;
  case LAST:
    bool last; { sched::guard g; last = --left_ == 0; }
    if (last) {                       // when nothing more happens, only the listening socket is open
      sched::block_on(never, 0, sched::now_us() + 5000000);
      char b[96]; snprintf(b, sizeof b, "{\"k\":\"fds\",\"open\":%d,\"listen\":%d,\"bad\":%d}", simnet::open_fds(), simnet::listeners(PORT), simnet::bad_closes());
      simnet::halted = true; sched::log_raw(b);
    }
    break;
  }
}
