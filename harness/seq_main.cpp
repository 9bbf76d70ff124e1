#include "seq.h"
#include <signal.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <fstream>
#include <iostream>
static std::string* OUT; static bool first; static std::string* DOING;
std::string jnum(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return b; }
std::string jbytes(const std::string& s) {
  std::string o = "["; for (size_t i = 0; i < s.size(); i++) { if (i) o += ","; o += jnum((unsigned char)s[i]); } return o + "]";
}
std::string jlist(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; } return o + "]"; }
static std::string jl(const std::vector<long>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += jnum(v[i]); } return o + "]"; }
static void add(std::string& s, const std::string& e) { if (!s.empty()) s += ","; s += e; }
event& event::a(long v) { add(a_, jnum(v)); return *this; }
event& event::as(const std::string& b) { add(a_, jbytes(b)); return *this; }
event& event::a(const std::vector<long>& v) { add(a_, jl(v)); return *this; }
event& event::ar(const std::string& v) { add(a_, v); return *this; }
event& event::r(long v) { add(r_, jnum(v)); return *this; }
event& event::rs(const std::string& b) { add(r_, jbytes(b)); return *this; }
event& event::r(const std::vector<long>& v) { add(r_, jl(v)); return *this; }
event& event::rr(const std::string& v) { add(r_, v); return *this; }
event::~event() {
  std::string e = std::string(first ? "" : ",") + "{\"op\":\"" + op_ + "\",\"a\":[" + a_ + "],\"x\":" + jnum(x_) + ",\"r\":[" + r_ + "]}";
  first = false; *OUT += e; DOING->clear();
}
void doing(const std::string& op, const std::string& args) { *DOING = "\"" + op + "\"," + args; }
std::string unhex(const std::string& h) {
  std::string o; if (h == "-") return o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) { char b[3] = {h[i], h[i + 1], 0}; o += (char)strtol(b, 0, 16); }
  return o;
}
static void w(const char* p, size_t n) { while (n) { ssize_t k = ::write(1, p, n); if (k <= 0) break; p += k; n -= k; } }
static volatile sig_atomic_t dead;
__attribute__((no_sanitize_address)) static void die(int sig) {
  if (dead) syscall(SYS_exit_group, 71);
  dead = 1;
  w(OUT->data(), OUT->size());
  if (!first) w(",", 1);
  const char* k = sig == SIGALRM ? "{\"op\":\"hang\",\"a\":[" : "{\"op\":\"crash\",\"a\":[";
  w(k, strlen(k)); w(DOING->data(), DOING->size()); const char* e = "],\"x\":0,\"r\":[]}]\n"; w(e, strlen(e));
  syscall(SYS_exit_group, sig == SIGALRM ? 72 : 71);      // not _exit: the sanitizer would hook it, and allocate
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=0:alloc_dealloc_mismatch=0:use_sigaltstack=0"; }
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  OUT = new std::string; DOING = new std::string;
  std::ifstream f(argv[1]); long start = atol(argv[2]); int per = atoi(argv[3]);
  stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = die; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}; for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0);
  std::string line; std::vector<words> cur; long idx = 0; std::string big;
  while (std::getline(f, line)) {
    if (line != ".") {
      if (idx >= start) { std::istringstream is(line); words ws; std::string t; while (is >> t) ws.push_back(t); cur.push_back(ws); }
      continue;
    }
    if (idx >= start) {
      OUT->assign("["); first = true; DOING->clear();
      alarm(per); run_case(cur); alarm(0);
      *OUT += "]\n"; w(OUT->data(), OUT->size()); OUT->clear();
    }
    cur.clear(); idx++;
  }
  _exit(0);
}
