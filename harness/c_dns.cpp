// cached_dns_resolver over a resolver whose every answer is different (C14)
#include "conc.h"
#include "simnet.h"
#include "network/dns.h"
#include <unistd.h>
#include <string.h>
using namespace pfi::network;
enum { RESOLVE, DELETE, CLEAR, SLEEP };
static const char* HOSTS[] = {"a.example", "b", "c.d", "10.9.8.7"};
static int rids;
static int slow;
static std::vector<uint32_t> addrs(int id) { std::vector<uint32_t> v; for (int i = 0; i <= id % 3; i++) v.push_back(0x0a000000u + id * 16 + i); return v; }
static int who();
static bool lookup(const char* host, std::vector<uint32_t>& out) {
  int h = -1, id, port, t; bool fail;
  { sched::guard g; for (int i = 0; i < 4; i++) if (!strcmp(host, HOSTS[i])) h = i;
  id = ++rids; port = simnet::resolving_port; t = who(); fail = h == 2 && id % 2; }
  if (slow && id % 3 == slow - 1) usleep(700000 * (1 + id % 3));
  sched::guard g; char b[128];
  snprintf(b, sizeof b, "{\"k\":\"res\",\"t\":%d,\"w\":%lld,\"a\":[%d,%d],\"id\":%d}", t, (long long)sched::now_us(), h, port, fail ? 0 : id);
  sched::log_raw(b);
  if (!fail) out = addrs(id);
  return !fail;
}
static int code(const std::vector<ipv4_address>& v) {
  sched::guard g; if (v.empty()) return 0;
  std::string s = v[0].to_string(); int a, b, c, d; if (sscanf(s.c_str(), "%d.%d.%d.%d", &a, &b, &c, &d) != 4) return -1;
  int id = ((b << 16) + (c << 8) + d) / 16; std::vector<uint32_t> w = addrs(id); if (w.size() != v.size()) return -1;
  for (size_t i = 0; i < w.size(); i++) { char t[32]; snprintf(t, sizeof t, "%u.%u.%u.%u", w[i] >> 24, w[i] >> 16 & 255, w[i] >> 8 & 255, w[i] & 255); if (v[i].to_string() != t) return -1; }
  return id;
}
static op mkop(int code, int a = 0, int b = 0, int c = 0) { op o = {code, a, b, c}; return o; }
static int pick_port(rng& g) { return g.chance(78) ? 80 : g.chance(60) ? 81 : g.chance(50) ? 80 + 32768 : 65535; }
void gen_program(rng& g, program& p, bool small) {
  if (g.chance(8)) {                    // one name asked again and again, past its life
    script s; int h = g.chance(60) ? 2 : g.below(4), n = 4 + g.below(8);
    for (int i = 0; i < n; i++) { s.push_back(mkop(RESOLVE, h, 80)); if (g.chance(75)) s.push_back(mkop(SLEEP, 1 + g.below(4))); }
    p.thr.push_back(s); p.p1 = 1 + g.below(3); p.p2 = 1 + g.below(4); p.strict = true; return;
  }
  int nt = g.chance(35) ? 1 : 2 + g.below(2), nk = 1 + g.below(4);
  for (int t = 0; t < nt; t++) {
    script s; int n = nt == 1 ? 3 + g.below(small ? 6 : 14) : 1 + g.below(small ? 3 : 5);
    for (int i = 0; i < n; i++) {
      int r = g.below(100);
      if (r < 70) s.push_back(mkop(RESOLVE, g.below(nk), pick_port(g)));
      else if (r < 78) s.push_back(mkop(DELETE, g.below(nk), pick_port(g)));
      else if (r < 81) s.push_back(mkop(CLEAR));
      else s.push_back(mkop(SLEEP, 1 + g.below(4)));
    }
    p.thr.push_back(s);
  }
  p.p1 = g.chance(8) ? 0 : 1 + g.below(3); p.p2 = (g.chance(10) ? 0 : g.chance(25) ? 100 : 1 + g.below(4)) | g.below(4) << 8;
  p.strict = true;
}
std::string header(const program& p) { char b[64]; snprintf(b, sizeof b, "\"cap\":%d,\"life\":%d", p.p1, p.p2 & 255); return b; }
static int fiber_tag[64];
static int who() { return fiber_tag[sched::self() & 63]; }
void* make_object(const program& p) { simnet::reset(simnet::options()); simnet::resolver = lookup; rids = 0; slow = p.p2 >> 8; return new cached_dns_resolver(p.p1, p.p2 & 255); }
void free_object(void* o) { delete (cached_dns_resolver*)o; }
void exec_op(void* obj, const program& p, int t, const op& o) {
  cached_dns_resolver& R = *(cached_dns_resolver*)obj; fiber_tag[sched::self() & 63] = t;
  switch (o.code) {
  case RESOLVE: { ev_call(t, "resolve", V(o.a, o.b)); int r = code(R.resolve(HOSTS[o.a], o.b)); ev_ret(t, V(r)); break; }
  case DELETE: ev_call(t, "delete", V(o.a, o.b)); R.delete_cache(HOSTS[o.a], o.b); ev_ret(t, V(0)); break;
  case CLEAR: ev_call(t, "clear", V()); R.clear_cache(); ev_ret(t, V(0)); break;
  case SLEEP: usleep(o.a * 500000); break;
  }
}
