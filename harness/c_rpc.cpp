// rpc_server / rpc_client over the simulated network (C09: calls, C10: lifecycle)
#include "conc.h"
#include "simnet.h"
#include "network/rpc.h"
#include <map>
#include <memory>
#include <sstream>
#include <string.h>
using namespace pfi::network;
using namespace pfi::network::rpc;
using pfi::lang::shared_ptr;
using pfi::lang::function;
enum { START, STOP, WAIT, QUERY, DESTROY, BARRIER, CALL, RAW, CLOSE, SLEEP, PAUSE, FSERVE, FCALL };
enum { PORT = 7100, THROWER = 10, UNKNOWN = 11 };
static const char* NAMES[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "thrower",
                              "nope", "", "with a blank", "m1 ", "M1", "<<<PONG>>>", "m", "\n\t x"};
static const int NNAMES = sizeof NAMES / sizeof *NAMES;
typedef std::vector<int> VI; typedef std::vector<std::string> VS; typedef std::map<int, std::string> MP; typedef std::pair<int, std::string> PR;

// values by code: val<T>(c) is injective, code(v) inverts it (-1: not such a value)
static const int LEN[] = {0, 1, 5, 40, 300, 8180, 8192, 17000};
static bool SMALL;
static int vlen(int c) { return LEN[SMALL ? c % 4 : c % 37 < 30 ? c % 5 : c % 8]; }
static void mk(int c, int& v) { v = c * 7919 - 1000000; }
static void mk(int c, std::string& v) { char b[32]; snprintf(b, sizeof b, "%d:", c); v = b; int n = vlen(c); for (int i = 0; i < n; i++) v += (char)(c * 31 + i * 7); }
static void mk(int c, VI& v) { v.clear(); v.push_back(c); int n = vlen(c) % 60; for (int i = 0; i < n; i++) v.push_back(c * 1000 - i); }
static void mk(int c, VS& v) { v.clear(); std::string s; mk(c, s); v.push_back(s); v.push_back(""); mk(c + 3, s); v.push_back(s); }
static void mk(int c, MP& v) { v.clear(); std::string s; mk(c, s); v[c] = s; v[-c] = ""; v[c + 1] = std::string("\0\xff", 2); }
static void mk(int c, PR& v) { mk(c, v.first); mk(c, v.second); }
static int guess(int v) { return (v + 1000000) / 7919; }
static int guess(const std::string& v) { return atoi(v.c_str()); }
static int guess(const VI& v) { return v.empty() ? -1 : v[0]; }
static int guess(const VS& v) { return v.empty() ? -1 : guess(v[0]); }
static int guess(const MP& v) { for (MP::const_iterator i = v.begin(); i != v.end(); ++i) if (i->first > 0) return i->first; return -1; }
static int guess(const PR& v) { return guess(v.first); }
template <class T> static int code(const T& v) { sched::guard g; int c = guess(v); if (c < 0) return -1; T w; mk(c, w); return w == v ? c : -1; }
template <class T> static T val(int c) { sched::guard g; T v; mk(c, v); return v; }

static rpc_server* SV; static rpc_client* CL[8]; static int clients_left, users_left, rids; static bool shared_dead;
static int PACE;

static int ran(int m, const std::vector<int>& a) {
  sched::guard g; int rid = ++rids; char b[64];
  std::string s; snprintf(b, sizeof b, "{\"k\":\"run\",\"m\":%d,\"r\":%d,\"a\":[", m, rid); s = b;
  for (size_t i = 0; i < a.size(); i++) { snprintf(b, sizeof b, "%s%d", i ? "," : "", a[i]); s += b; }
  sched::log_raw(s + "]}"); return rid;
}
static void pace() { if (PACE) sched::yield(sched::P_YIELD); if (PACE > 1) usleep(300000); }
static VI C(int a, int b = -9, int c = -9, int d = -9, int e = -9, int f = -9, int g = -9, int h = -9, int i = -9) { int x[] = {a, b, c, d, e, f, g, h, i}; VI v; for (int k = 0; k < 9 && x[k] != -9; k++) v.push_back(x[k]); return v; }
static int h0() { int r = ran(0, VI()); pace(); return val<int>(r); }
static std::string h1(const std::string& a) { int r = ran(1, C(code(a))); pace(); return val<std::string>(r); }
static PR h2(int a, VI b) { int r = ran(2, C(code(a), code(b))); pace(); return val<PR>(r); }
static VS h3(std::string a, int b, MP c) { int r = ran(3, C(code(a), code(b), code(c))); pace(); return val<VS>(r); }
static VI h4(int a, int b, int c, VS d) { int r = ran(4, C(code(a), code(b), code(c), code(d))); pace(); return val<VI>(r); }
static VI h5(int a, int b, int c, int d, std::string e) { int r = ran(5, C(code(a), code(b), code(c), code(d), code(e))); pace(); return val<VI>(r); }
static MP h6(int a, int b, int c, int d, int e, int f) { int r = ran(6, C(code(a), code(b), code(c), code(d), code(e), code(f))); pace(); return val<MP>(r); }
static VI h7(int a, int b, int c, int d, int e, int f, int g) { int r = ran(7, C(code(a), code(b), code(c), code(d), code(e), code(f), code(g))); return val<VI>(r); }
static int h8(int a, int b, int c, int d, int e, int f, int g, VI h) { int r = ran(8, C(code(a), code(b), code(c), code(d), code(e), code(f), code(g), code(h))); return val<int>(r); }
static std::string h9(int a, int b, int c, int d, int e, int f, int g, int h, int i) { int r = ran(9, C(code(a), code(b), code(c), code(d), code(e), code(f), code(g), code(h), code(i))); return val<std::string>(r); }
static int ht(int a) { ran(THROWER, C(code(a))); throw rpc_error("handler failed"); }

static void add_all(rpc_server& s) {
  s.add<int()>("m0", &h0); s.add<std::string(std::string)>("m1", &h1); s.add<PR(int, VI)>("m2", &h2);
  s.add<VS(std::string, int, MP)>("m3", &h3); s.add<VI(int, int, int, VS)>("m4", &h4); s.add<VI(int, int, int, int, std::string)>("m5", &h5);
  s.add<MP(int, int, int, int, int, int)>("m6", &h6); s.add<VI(int, int, int, int, int, int, int)>("m7", &h7);
  s.add<int(int, int, int, int, int, int, int, VI)>("m8", &h8); s.add<std::string(int, int, int, int, int, int, int, int, int)>("m9", &h9);
  s.add<int(int)>("thrower", &ht);
}
static int call(rpc_client& c, int m, int id) {
  int k = id * 10; const char* n = NAMES[m];
#define I(j) val<int>(k + j)
  switch (m) {
  case 0: return code(c.call<int()>(n)());
  case 1: return code(c.call<std::string(std::string)>(n)(val<std::string>(k)));
  case 2: return code(c.call<PR(int, VI)>(n)(I(0), val<VI>(k + 1)));
  case 3: return code(c.call<VS(std::string, int, MP)>(n)(val<std::string>(k), I(1), val<MP>(k + 2)));
  case 4: return code(c.call<VI(int, int, int, VS)>(n)(I(0), I(1), I(2), val<VS>(k + 3)));
  case 5: return code(c.call<VI(int, int, int, int, std::string)>(n)(I(0), I(1), I(2), I(3), val<std::string>(k + 4)));
  case 6: return code(c.call<MP(int, int, int, int, int, int)>(n)(I(0), I(1), I(2), I(3), I(4), I(5)));
  case 7: return code(c.call<VI(int, int, int, int, int, int, int)>(n)(I(0), I(1), I(2), I(3), I(4), I(5), I(6)));
  case 8: return code(c.call<int(int, int, int, int, int, int, int, VI)>(n)(I(0), I(1), I(2), I(3), I(4), I(5), I(6), val<VI>(k + 7)));
  case 9: return code(c.call<std::string(int, int, int, int, int, int, int, int, int)>(n)(I(0), I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8)));
  default: return code(c.call<int(int)>(n)(I(0)));
  }
}
static std::string request(int m, int id, int ver) {
  std::stringstream s; pfi::data::serialization::binary_oarchive oa(s); std::string n = NAMES[m]; int k = id * 10;
  oa << n << ver;
  if (m == 1) { std::string a = val<std::string>(k); oa << a; }
  else if (m == 2) { int a = I(0); VI b = val<VI>(k + 1); oa << a << b; }
  else if (m == 3) { std::string a = val<std::string>(k); int b = I(1); MP c = val<MP>(k + 2); oa << a << b << c; }
  else if (m >= 6 && m <= 7) { for (int j = 0; j < m; j++) { int a = I(j); oa << a; } }
  return s.str();
}

template <class T> static void put_val(pfi::data::serialization::binary_oarchive& oa, int c) { T v = val<T>(c); oa << v; }
static std::string reply(int kind, int m, int rid) {
  std::stringstream s; pfi::data::serialization::binary_oarchive oa(s);
  std::string code = kind == 1 ? std::string("NotFound ") + NAMES[m] : kind == 2 ? "VersionMismatch 77123 -456789" : kind == 3 ? "Weird thing" : "OK";
  oa << code;
  if (kind == 0) switch (m) { case 0: case 8: put_val<int>(oa, rid); break; case 1: case 9: put_val<std::string>(oa, rid); break; case 2: put_val<PR>(oa, rid); break; case 3: put_val<VS>(oa, rid); break; case 6: put_val<MP>(oa, rid); break; default: put_val<VI>(oa, rid); }
  return s.str();
}
// what a breaking server does: kind of reply and how much of it (all: one time in 8)
static std::string fake(const op& o, int& kind, bool& all) {
  kind = o.c & 15; int x = o.c >> 4; int rid = o.b * 10 + 5;
  std::string r = kind == 4 ? std::string("\x0a\0\0\0<<<PONG>>>", 14) : reply(kind, o.a, rid);
  all = kind != 4 && x % 8 == 0;
  return all ? r : r.substr(0, (x / 8) % r.size());
}
static int fs_up, fs_calls;                    // breaking servers opened, calls made to them
static bool c_fs(void*) { return fs_up > fs_calls; }
static bool c_fsd(void*) { return fs_up == fs_calls; }
template <class T> static void skip(pfi::data::serialization::binary_iarchive& ia) { T v = T(); ia >> v; }
static void drain(shared_ptr<stream_socket> c, int m);
static bool lifecycle() { static int m = -1; if (m < 0) { const char* e = getenv("VERIF_RPC_MODE"); m = e && !strcmp(e, "life"); } return m == 1; }
// program: thr[0] controls the server; p1 = workers | pace<<4 | timeout<<8 | small<<12 | port0<<13; p2: network options
static op mkop(int code, int a = 0, int b = 0, int c = 0) { op o = {code, a, b, c}; return o; }
static void client_ops(rng& g, script& s, int cl, int t, bool small, bool life) {
  int n = 1 + g.below(small ? 2 : 4);
  for (int i = 0; i < n; i++) {
    int r = g.below(100), id = t * 20 + i + 1;
    if (r < (life ? 50 : 68)) { int m = g.below(100) < 45 ? g.below(4) : g.below(10); s.push_back(mkop(CALL, cl, m, id)); }
    else if (r < (life ? 56 : 74)) s.push_back(mkop(CALL, cl, THROWER, id));
    else if (r < (life ? 60 : 82)) s.push_back(mkop(CALL, cl, UNKNOWN + g.below(NNAMES - UNKNOWN), id));
    else if (r < 93) { static const int MS[] = {0, 1, 2, 3, 6, 7}; int kind = g.below(10); s.push_back(mkop(RAW, MS[g.below(6)] | kind << 8 | cl << 16, id, g.below(1000))); }
    else s.push_back(mkop(SLEEP, cl, 1 + g.below(3), 0));
  }
}
void gen_program(rng& g, program& p, bool small) {
  bool life = lifecycle();
  int nc = small ? 1 + g.below(2) : 1 + g.below(3), nw = 1 + g.below(small ? 2 : 3);
  script ctl;
  if (!life) {
    ctl.push_back(mkop(BARRIER)); ctl.push_back(mkop(STOP)); ctl.push_back(mkop(WAIT)); ctl.push_back(mkop(BARRIER, 1)); ctl.push_back(mkop(DESTROY));
  } else {
    int cycles = small ? 1 : 1 + g.below(2);
    for (int i = 0; i < cycles; i++) {
      if (g.chance(30)) ctl.push_back(mkop(QUERY, g.below(3)));
      ctl.push_back(mkop(START));
      int k = g.below(small ? 2 : 4);
      for (int j = 0; j < k; j++) ctl.push_back(g.chance(50) ? mkop(PAUSE) : g.chance(60) ? mkop(QUERY, g.below(3)) : mkop(SLEEP, -1, 1 + g.below(3)));
      if (i == cycles - 1 && g.chance(35)) ctl.push_back(mkop(BARRIER));
      ctl.push_back(mkop(STOP));
      if (g.chance(40)) ctl.push_back(mkop(QUERY, g.below(3)));
      if (g.chance(10)) ctl.push_back(mkop(STOP));
      if (i + 1 < cycles || g.chance(70)) ctl.push_back(mkop(WAIT));
      if (g.chance(40)) ctl.push_back(mkop(QUERY, g.below(3)));
    }
    ctl.push_back(mkop(BARRIER, 1)); ctl.push_back(mkop(DESTROY));
  }
  p.thr.push_back(ctl);
  for (int c = 0; c < nc; c++) {
    script s; int t = (int)p.thr.size() + 1;
    client_ops(g, s, c, t, small, life);
    s.push_back(mkop(CLOSE, c)); p.thr.push_back(s);
  }
  int nx = life ? g.below(small ? 2 : 3) : 0;      // other users of the server object
  for (int c = 0; c < nx; c++) {
    script s; int n = 1 + g.below(3);
    for (int i = 0; i < n; i++) s.push_back(g.chance(25) ? mkop(PAUSE) : g.chance(55) ? mkop(QUERY, g.below(3)) : g.chance(40) ? mkop(STOP) : mkop(WAIT));
    s.push_back(mkop(CLOSE, -1)); p.thr.push_back(s);
  }
  bool broken = !life && g.chance(40);
  if (broken) {                     // a server that breaks off, and its client
    script f, c; int t = (int)p.thr.size() + 2, n = 1 + g.below(small ? 1 : 3);
    for (int i = 0; i < n; i++) { int m = g.below(10), k = g.below(5) | g.below(1 << 20) << 4; f.push_back(mkop(FSERVE, m, t * 20 + i, k)); c.push_back(mkop(FCALL, m, t * 20 + i, k)); }
    f.push_back(mkop(CLOSE, 6)); c.push_back(mkop(CLOSE, 7)); p.thr.push_back(f); p.thr.push_back(c); nc += 2;
  }
  int pc = g.below(3), tmo = g.chance(25) ? 1 : 0;
  p.p1 = nw | pc << 4 | tmo << 8 | (small ? 1 << 12 : 0) | (g.chance(20) ? 1 << 13 : 0) | nc << 16 | nx << 20 | (g.chance(15) ? 1 << 24 : 0);
  p.p2 = g.below(64); if (broken) p.p2 &= ~(4 | 32);
  if (life && g.chance(12)) p.create_fail = 1 + g.below(nw + 1);
  p.strict = true;
}
static simnet::options opts(const program& p) {
  simnet::options o; int x = p.p2;
  o.shorts = x & 1; o.eintr = (x & 2) ? 4 : 0; o.resets = (x & 12) == 12 ? 2 : 0; o.connfail = (x & 48) == 48 ? 1 : 0; o.optfail = true;
  o.cap = (x & 16) ? 65536 : 900;
  return o;
}
static void loss(int c) { sched::guard g; char b[64]; snprintf(b, sizeof b, "{\"k\":\"loss\",\"c\":%d}", c); sched::log_raw(b); }
static int sver() { return 3; }
static int cver(const program& p, int cl) { return (p.p1 >> 24 & 1) && cl == 0 ? -2147480000 : 3; }
std::string header(const program& p) {
  simnet::options o = opts(p); char b[128];
  snprintf(b, sizeof b, "\"up\":%d,\"ver\":%d,\"cf\":%d,\"crf\":%d,\"nw\":%d,\"sh\":%d", lifecycle() ? 0 : 1, sver(), o.connfail, p.create_fail, p.p1 & 15, o.shorts ? 1 : 0);
  return b;
}
static int want_port(const program& p) { return (p.p1 >> 13) & 1 ? 0 : PORT; }
static int port_now(const program& p) { return want_port(p) ? PORT : SV && !shared_dead ? SV->port() : 0; }
void* make_object(const program& p) {
  simnet::reset(opts(p)); simnet::on_loss = loss; memset(CL, 0, sizeof CL); rids = 0; fs_up = fs_calls = 0; shared_dead = false;
  PACE = (p.p1 >> 4) & 3; SMALL = (p.p1 >> 12) & 1;
  clients_left = (p.p1 >> 16) & 15; users_left = clients_left + ((p.p1 >> 20) & 15);
  SV = new rpc_server(sver(), (p.p1 >> 8) & 1 ? 1.0 : 0.0); add_all(*SV);
  if (!lifecycle()) { if (!SV->start(want_port(p), p.p1 & 15)) sched::fatal("start"); }
  return SV;
}
void free_object(void*) {}
void before_end(void*) {
  char b[96]; snprintf(b, sizeof b, "{\"k\":\"fds\",\"open\":%d,\"held\":%d,\"bad\":%d}", simnet::open_fds(), 0, simnet::bad_closes());
  sched::log_raw(b);
}
static bool c_left(void* a) { return (a ? users_left : clients_left) == 0; }
static int kind_of(std::vector<int>& r, rpc_client& c, int m, int id) {
  try { int v = call(c, m, id); r = V(0, v, 0); }
  catch (method_not_found& e) { r = V(1, e.name() == NAMES[m], std::string(e.what()) == std::string("method \"") + NAMES[m] + "\" is not found"); }
  catch (version_mismatch& e) { r = V(2, e.server_version(), e.client_version()); }
  catch (cannot_get_connection&) { r = V(3, 0, 0); }
  catch (rpc_error&) { r = V(4, 0, 0); }
  catch (...) { r = V(5, 0, 0); }
  return r[0];
}
static void drain(shared_ptr<stream_socket> c, int m) {
  basic_socketstream<char> ss(c); pfi::data::serialization::binary_iarchive ia(ss);
  switch (m) {
  case 0: break;
  case 1: skip<std::string>(ia); break;
  case 2: skip<int>(ia); skip<VI>(ia); break;
  case 3: skip<std::string>(ia); skip<int>(ia); skip<MP>(ia); break;
  case 4: for (int i = 0; i < 3; i++) skip<int>(ia); skip<VS>(ia); break;
  case 5: for (int i = 0; i < 4; i++) skip<int>(ia); skip<std::string>(ia); break;
  case 8: for (int i = 0; i < 7; i++) skip<int>(ia); skip<VI>(ia); break;
  default: for (int i = 0; i < m; i++) skip<int>(ia);
  }
}
void exec_op(void*, const program& p, int t, const op& o) {
  switch (o.code) {
  case START: { ev_call(t, "start", V(want_port(p), p.p1 & 15)); bool r = SV->start(want_port(p), p.p1 & 15); ev_ret(t, V(r, SV->port() == PORT || (want_port(p) == 0 && SV->port() >= 50000))); break; }
  case STOP: { ev_call(t, "stop", V()); int r = 1; try { SV->stop(); } catch (...) { r = 0; } ev_ret(t, V(r)); break; }
  case WAIT: { ev_call(t, "wait", V()); SV->wait_until_stopped(); ev_ret(t, V(simnet::listeners(SV->port()))); break; }
  case QUERY: { ev_call(t, "query", V(o.a)); bool r = o.a == 0 ? SV->is_stopped() : o.a == 1 ? SV->is_running() : SV->is_stopping(); ev_ret(t, V(r)); break; }
  case DESTROY: { ev_call(t, "destroy", V()); int port = SV->port(); delete SV; shared_dead = true; ev_ret(t, V(simnet::listeners(port), sched::live_threads(), simnet::open_fds())); break; }
  case BARRIER: sched::block_on(c_left, (void*)(intptr_t)o.a, -1); break;
  case CALL: {
    int port = port_now(p); if (!port) return;
    if (!CL[o.a]) { CL[o.a] = new rpc_client("localhost", port, cver(p, o.a)); }
    std::vector<int> a = V(o.a, o.b, cver(p, o.a)); a.push_back(o.c);
    ev_call(t, "rpc", a);
    std::vector<int> r; kind_of(r, *CL[o.a], o.b, o.c);
    ev_ret(t, r); break;
  }
  case RAW: {
    int m = o.a & 255, kind = (o.a >> 8) & 255, id = o.b;
    delete CL[o.a >> 16]; CL[o.a >> 16] = 0;      // its connection may hold the only worker
    std::string q = request(m, id, sver()); int full = 0; size_t n = q.size();
    std::string ping("\x0a\0\0\0<<<PING>>>", 14);
    switch (kind) {
    case 0: full = 1; break;
    case 1: q += ping; full = 1; break;
    case 2: q = std::string("\xff\xff\xff\x7f", 4) + q; break;                          // huge name
    case 3: q = "GET / HTTP/1.1\r\n\r\n"; break;
    case 4: q = ping + q.substr(0, o.c % n); break;
    case 5: q = ping + ping + q; full = 1; break;
    case 6: { std::string x = request(m, id, sver() + 1); q = x; break; }
    case 7: { std::string nm("\2\0\0\0m2\3\0\0\0\1\1\1\1\xff\xff\xff\xff", 18); q = nm + "abc"; break; }  // m2 with a huge vector
    default: q = q.substr(0, o.c % n); break;
    }
    ev_call(t, "raw", V(m, id, full));
    int sent = 0;
    {
      stream_socket s;
      if (s.connect("localhost", port_now(p))) {
        s.write(q.data(), q.size()); s.flush(); sent = 1;
        if (o.c % 3 == 1) { char b[3]; s.set_timeout(0.4); s.read(b, 3); }
        else if (o.c % 7 == 2) usleep(700000);
      }
    }
    ev_ret(t, V(sent)); break;
  }
  case FSERVE: {
    int kind; bool all; std::string r = fake(o, kind, all);
    server_socket* f = new server_socket(); if (!f->create(PORT + 1)) sched::fatal("fake create");
    fs_up++;
    { shared_ptr<stream_socket> c(f->accept()); char b[16]; std::string q(request(o.a, o.b, sver()));
      if (c) {
        f->close();
        if (c->read(b, 14) == 14) {
          if (kind == 4) { c->write(r.data(), r.size()); c->flush(); }
          else { c->write("\x0a\0\0\0<<<PONG>>>", 14); c->flush(); int n = 4 + strlen(NAMES[o.a]) + 4; std::string x(n, 0); c->read(&x[0], n); drain(c, o.a); c->write(r.data(), r.size()); c->flush(); }
        }
      } }
    delete f; sched::block_on(c_fsd, 0, -1); break;
  }
  case FCALL: {
    sched::block_on(c_fs, 0, -1);
    int kind; bool all; std::string r = fake(o, kind, all); std::vector<int> a = V(o.a, o.b, kind); a.push_back(all);
    ev_call(t, "rpcf", a);
    std::vector<int> res; { rpc_client c("localhost", PORT + 1, sver()); kind_of(res, c, o.a, o.b); }
    ev_ret(t, res); fs_calls++; break;
  }
  case CLOSE: { if (o.a >= 0) { delete CL[o.a]; CL[o.a] = 0; clients_left--; } users_left--; break; }
  case SLEEP: usleep(o.b * 600000); break;
  case PAUSE: sched::yield(sched::P_YIELD); break;
  }
}
