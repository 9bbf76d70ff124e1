// stream_socket, server_socket, socketstream over the simulated network
#include "conc.h"
#include "simnet.h"
#include "network/socket.h"
#include "network/iostream.h"
#include "lang/shared_ptr.h"
#include <algorithm>
#include <set>
using namespace pfi::network;
using pfi::lang::shared_ptr;
enum { CONNECT, ACCEPT, WRITE, FLUSH, READ, GETC, GETLINE, SHUTDOWN, DESTROY, TIMEOUT, ISCONN, SCLOSE,
       PUTC, PEEK, SETSOCK };
enum { PORT = 7000 };

struct endp {
  stream_socket* raw; socketstream* st; int c, d; long att; std::set<long>* at;   // at: where the reader may be (a line's end does not show in the result)
};
static endp E[10];
static server_socket* SV;

// content of connection c, direction from side d, byte number pos (see Sock.tla)
static int content(int c, int d, long pos) {
  static const char* const ends[] = {"\r\n\r\n", "\n\n\r\n", "\r\r\n\r"};
  long blk = pos / 4, kind = (blk * blk + 5 * blk + c * 3 + d) % 13;
  if (c % 3 != 0 && kind < 3) return ends[kind][pos % 4];
  long p = pos % 251;
  long x = (p * p * 3 + p * (2 * c + d) + c * 7 + d * 5 + pos / 97) % 64;
  if (x == 0) return 10;
  if (x <= 2) return 13;
  if (x == 3) return 255;
  if (x == 4) return 0;
  return (int)((x * 37 + p * 11 + c + 128 * d) % 256);
}
static std::string make(int c, int d, long from, int n) { std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = (char)content(c, d, from + i); return s; }
// which of the positions the n bytes just read may have started at
static std::vector<int> places(endp& e, const char* b, int n) {
  std::vector<int> r; if (!e.at) return r;
  for (std::set<long>::iterator it = e.at->begin(); it != e.at->end(); ++it) {
    int i = 0; while (i < n && (unsigned char)b[i] == content(e.c, 1 - e.d, *it + i)) i++;
    if (i == n) r.push_back((int)*it);
  }
  return r;
}
static void start(endp& e, int c, int d) { e.c = c; e.d = d; e.att = 0; if (!e.at) e.at = new std::set<long>(); e.at->clear(); e.at->insert(0); }
static void moved(endp& e, const std::vector<int>& from, int n) {
  if (!e.at || n <= 0) return;
  e.at->clear(); for (size_t i = 0; i < from.size(); i++) e.at->insert(from[i] + n);
}
static std::vector<int> join(std::vector<int> a, const std::vector<int>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static const int SZ[] = {0, 1, 2, 3, 7, 20, 60, 200, 1000, 4095, 8190, 8191, 8192, 8193, 9000, 16383, 16384, 16385, 20000};
static int pick_size(rng& g, bool small) { return small ? SZ[g.below(6)] : g.chance(75) ? SZ[g.below(8)] : SZ[g.below(19)]; }
static int buffered(rng& g) { return g.chance(80); }

static void conversation(rng& g, script& s, int ep, int stream, bool client, bool small) {
  int n = 1 + g.below(small ? 3 : 7);
  if (stream && g.chance(12)) {             // single characters around the end of the write buffer
    op w = {WRITE, ep, 8189 + g.below(3), 0}; s.push_back(w);
    for (int i = 0; i < 4; i++) { op o = {PUTC, ep, 0, 0}; s.push_back(o); if (g.chance(40)) { op q = {ISCONN, ep, 0, 0}; s.push_back(q); } }
  }
  for (int i = 0; i < n; i++) {
    int r = g.below(100); op o = {0, ep, pick_size(g, small), 0};
    if (r < 38) { o.code = WRITE; s.push_back(o); if (g.chance(60)) { op f = {FLUSH, ep, 0, 0}; s.push_back(f); } continue; }
    if (r < 44) o.code = FLUSH;
    else if (r < 72) o.code = READ;
    else if (r < 80) o.code = GETC;
    else if (r < 88) { o.code = GETLINE; if (g.chance(60)) o.b = stream || g.chance(50) ? -1 : g.below(30); else o.b = stream ? -1 : g.below(90); }
    else if (r < 91) { o.code = stream ? PEEK : ISCONN; }
    else if (r < 94) { o.code = stream ? PUTC : GETC; }
    else if (r < 97 && client) { o.code = CONNECT; o.b = g.below(3); }
    else if (!stream && client) o.code = SHUTDOWN;
    else o.code = ISCONN;
    s.push_back(o);
    if (o.code == SHUTDOWN && g.chance(80)) { op c = {CONNECT, ep, g.below(2), 0}; s.push_back(c); }
  }
}
void gen_program(rng& g, program& p, bool small) {
  int nc = small ? 1 : 1 + g.below(2), ns = small ? 1 : 1 + g.below(2);
  int kinds = 0, conns = 0;
  int tmo = g.chance(25) ? 1 : 0;
  for (int t = 0; t < nc; t++) {
    script s; int ep = t, stream = g.chance(40); if (stream) kinds |= 1 << ep;
    op c = {CONNECT, ep, g.below(12) ? g.below(2) : 2, 0}; s.push_back(c);
    if (tmo && !stream) { op o = {TIMEOUT, ep, 1 + g.below(3), 0}; s.push_back(o); }
    conversation(g, s, ep, stream, true, small);
    op d = {DESTROY, ep, 0, 0}; s.push_back(d);
    for (size_t i = 0; i < s.size(); i++) if (s[i].code == CONNECT) conns++;
    p.thr.push_back(s);
  }
  for (int t = 0; t < ns; t++) {
    script s;
    int na = ns == 1 ? conns : 1 + g.below(2);
    if (na > 3) na = 3;
    for (int k = 0; k < na; k++) {
      int ep = nc + t, stream = g.chance(40); if (k == 0 && stream) kinds |= 1 << ep; stream = (kinds >> ep) & 1;
      op a = {ACCEPT, ep, 0, 0}; s.push_back(a);
      if (tmo && !stream) { op o = {TIMEOUT, ep, 1 + g.below(3), 0}; s.push_back(o); }
      conversation(g, s, ep, stream, false, small);
      bool keep = k + 1 < na && stream && g.chance(50);      // the next connection takes over the stream, which may have looked ahead
      if (keep && g.chance(50)) { op q = {PEEK, ep, 0, 0}; s.push_back(q); }
      if (k + 1 < na ? !keep : g.chance(95)) { op d = {DESTROY, ep, 0, 0}; s.push_back(d); }
    }
    if (t == 0 && g.chance(30)) { op c = {SCLOSE, 0, 0, 0}; s.push_back(c); }
    p.thr.push_back(s);
  }
  p.p1 = kinds;
  p.p2 = g.below(64);
  p.strict = true;
}
static void loss(int c) { sched::guard g; char b[64]; snprintf(b, sizeof b, "{\"k\":\"loss\",\"c\":%d}", c); sched::log_raw(b); }
static simnet::options opts(const program& p) {
  simnet::options o; int x = p.p2;
  o.shorts = x & 1; o.eintr = (x & 2) ? 4 : 0; o.resets = (x & 12) == 12 ? 1 : 0; o.connfail = (x & 48) == 48 ? 1 : 0;
  o.cap = (x & 16) ? 65536 : 700;
  return o;
}
std::string header(const program& p) {
  simnet::options o = opts(p); char b[128];
  snprintf(b, sizeof b, "\"cap\":%d,\"cf\":%d,\"ne\":%d,\"st\":[", (int)o.cap, o.connfail, 10);
  std::string s = b; for (int i = 0; i < 10; i++) s += std::string(i ? "," : "") + ((p.p1 >> i) & 1 ? "1" : "0");
  return s + "]";
}
void* make_object(const program& p) {
  simnet::reset(opts(p)); simnet::on_loss = loss;
  for (int i = 0; i < 10; i++) delete E[i].at;
  memset(E, 0, sizeof E);
  SV = new server_socket();
  if (!SV->create(PORT)) sched::fatal("create");
  return SV;
}
void free_object(void*) {}
void before_end(void*) {
  char b[96]; int left = 0;
  for (int i = 0; i < 10; i++) if (E[i].raw || E[i].st) left++;
  snprintf(b, sizeof b, "{\"k\":\"fds\",\"open\":%d,\"held\":%d,\"bad\":%d}", simnet::open_fds(), left + (SV && SV->is_alive() ? 1 : 0), simnet::bad_closes());
  sched::log_raw(b);
}
static std::string gl(std::istream& is, bool& ok) { std::string s; ok = (bool)std::getline(is, s); return s; }
void exec_op(void*, const program& p, int t, const op& o) {
  endp& e = E[o.a]; bool st = (p.p1 >> o.a) & 1;
  std::vector<int> who = V(o.a + 1, e.c, e.d);
  switch (o.code) {
  case CONNECT: {
    static const char* hosts[] = {"localhost", "multi", "nowhere"};
    who.push_back(o.b);
    ev_call(t, "connect", who);
    bool r; int before = simnet::last_connect();
    if (st) { if (!e.st) e.st = new socketstream(); e.st->connect(hosts[o.b], PORT); r = (bool)*e.st; }
    else { if (!e.raw) e.raw = new stream_socket(); r = e.raw->connect(hosts[o.b], PORT); }
    int c = simnet::last_connect();
    if (c != before) start(e, c, 0); else e.c = 0;
    bool pok = !r || (st ? e.st->socket() : e.raw)->remote_port() == PORT;
    bool con = (st ? e.st->socket() : e.raw)->is_connected();
    ev_ret(t, V(r, c != before ? c : 0, (pok ? 1 : 0) + (con ? 2 : 0))); break;
  }
  case ACCEPT: {
    ev_call(t, "accept", V(o.a + 1, 0, 0));
    stream_socket* s = SV->accept();
    if (!s) { ev_ret(t, V(0, 0, 0)); break; }
    int c = simnet::last_accept();
    if (st && e.st) {                     // the stream moves on to the new connection and lets go of the old one
      ev_ret(t, V(1, c, simnet::id_of_port(s->remote_port())));
      ev_call(t, "destroy", who);
      e.st->setsock(shared_ptr<stream_socket>(s));
      start(e, c, 1);
      ev_ret(t, V());
    } else {
      start(e, c, 1);
      if (st) { e.raw = 0; e.st = new socketstream(shared_ptr<stream_socket>(s)); }
      else e.raw = s;
      ev_ret(t, V(1, e.c, simnet::id_of_port(s->remote_port())));
    }
    break;
  }
  case WRITE: case PUTC: {
    if ((!e.raw && !e.st) || !e.c) return;
    int n = o.code == PUTC ? 1 : o.b; who.push_back(n);
    ev_call(t, "write", who);
    std::string d = make(e.c, e.d, e.att, n); e.att += n;
    int k;
    if (st) { if (o.code == PUTC) e.st->put(d[0]); else e.st->write(d.data(), n); k = e.st->good() ? n : -1; }
    else if (o.c == 0 && n % 3 == 1) k = e.raw->puts(d) ? n : -1;
    else k = e.raw->write(d.data(), n);
    ev_ret(t, V(k)); break;
  }
  case FLUSH: {
    if (!e.raw && !e.st) return;
    ev_call(t, "flush", who);
    int ok;
    if (st) { e.st->flush(); ok = e.st->good(); } else ok = e.raw->flush() < 0;
    ev_ret(t, V(ok)); break;
  }
  case READ: {
    if (!e.raw && !e.st) return;
    int n = o.b; who.push_back(n);
    ev_call(t, "read", who);
    std::string b(n + 1, 0x55); int k;
    if (st) { if (n == 0 && e.st->good()) k = 0; else { e.st->read(&b[0], n); k = e.st->gcount(); } }
    else k = e.raw->read(&b[0], n);
    if (b[n] != 0x55) k = -2;
    std::vector<int> from; if (k > 0 && k <= n) { from = places(e, b.data(), k); moved(e, from, k); }
    ev_ret(t, join(V(k), from)); break;
  }
  case GETC: case PEEK: {
    if (!e.raw && !e.st) return;
    ev_call(t, o.code == PEEK ? "peek" : "getc", who);
    int c = st ? (o.code == PEEK ? e.st->peek() : e.st->get()) : e.raw->getc();
    char ch = (char)c; std::vector<int> from;
    if (c >= 0 && c < 256) { from = places(e, &ch, 1); if (o.code == GETC) moved(e, from, 1); }
    ev_ret(t, join(V(c != EOF), from)); break;
  }
  case GETLINE: {
    if (!e.raw && !e.st) return;
    who.push_back(st ? -2 : o.b);
    ev_call(t, "getline", who);
    std::string s = "@@"; bool ok;
    if (st) s = gl(*e.st, ok); else ok = e.raw->getline(s, o.b);
    int n = s.size(); std::vector<int> from = ok ? places(e, s.data(), n) : std::vector<int>();
    std::vector<int> r = join(V(ok, n, st && ok ? e.st->eof() : 0), from);
    if (ok && e.at) {                         // what ended the line is not part of the result
      e.at->clear();
      for (size_t i = 0; i < from.size(); i++) {
        long q = from[i] + n;
        e.at->insert(q);
        if (content(e.c, 1 - e.d, q) == 10) e.at->insert(q + 1);
        if (content(e.c, 1 - e.d, q) == 13 && content(e.c, 1 - e.d, q + 1) == 10) e.at->insert(q + 2);
      }
    }
    ev_ret(t, r); break;
  }
  case SHUTDOWN: {
    if (!e.raw) return;
    ev_call(t, "shutdown", who);
    bool r = e.raw->shutdown(); int con = e.raw->is_connected(); e.c = 0;
    ev_ret(t, V(r, con)); break;
  }
  case DESTROY: {
    ev_call(t, "destroy", who);
    delete e.raw; delete e.st; e.raw = 0; e.st = 0; e.c = 0;
    ev_ret(t, V()); break;
  }
  case TIMEOUT: {
    if (!e.raw) return;
    who.push_back(o.b);
    ev_call(t, "timeout", who);
    bool r = e.raw->set_timeout(o.b * 0.5);
    ev_ret(t, V(r)); break;
  }
  case ISCONN: {
    if (!e.raw && !e.st) return;
    ev_call(t, "isconn", who);
    bool r = st ? e.st->is_connected() : e.raw->is_connected();
    ev_ret(t, V(r)); break;
  }
  case SCLOSE: {
    ev_call(t, "sclose", V());
    bool r = SV->close();
    ev_ret(t, V(r)); break;
  }
  }
}
