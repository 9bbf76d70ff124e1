// pfi::system::{file,syscall,sysstat} and parse_error.  All files lie in a scratch
// directory; the machine's figures are read from files put in their place.
#include "seq.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "system/file.h"
#include "system/syscall.h"
#include "system/sysstat.h"
#include "lang/exception.h"
static std::string dir() { char b[40]; sprintf(b, "/sy%d", (int)getpid()); return std::string(getenv("VERIF_SCRATCH")) + b; }
static int watch; static std::string subst;
static const char* place(const char* p) {
  if (!watch) return p;
  if (!strcmp(p, "/proc/loadavg")) subst = dir() + "/loadavg"; else if (!strcmp(p, "/proc/meminfo")) subst = dir() + "/meminfo"; else return p;
  return subst.c_str();
}
extern "C" {
FILE* fopen(const char* p, const char* m) { static FILE* (*f)(const char*, const char*); if (!f) f = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); return f(place(p), m); }
FILE* fopen64(const char* p, const char* m) { static FILE* (*f)(const char*, const char*); if (!f) f = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"); return f(place(p), m); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return syscall(SYS_openat, AT_FDCWD, place(p), fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return syscall(SYS_openat, AT_FDCWD, place(p), fl, m); }
}
static std::vector<std::string> files; static std::iostream* st[3];
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return "[-1]"; std::string s; int c; while ((c = fgetc(f)) != EOF) s += (char)c; fclose(f); return jbytes(s); }
static int fds() {
  int n = 0; DIR* d = opendir("/proc/self/fd"); std::string pre = dir() + "/";
  while (struct dirent* e = readdir(d)) { char b[512]; ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b - 1); if (k > 0) { b[k] = 0; if (!strncmp(b, pre.c_str(), pre.size())) n++; } }
  closedir(d); return n;
}
static std::string seen() { std::vector<std::string> v; for (size_t i = 0; i < files.size(); i++) v.push_back(slurp(files[i])); return "[" + jnum(fds()) + "," + jlist(v) + "]"; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string digits(unsigned long long v) { std::vector<std::string> d; char b[32]; sprintf(b, "%llu", v); if (v) for (char* p = b; *p; p++) d.push_back(jnum(*p - '0')); return jlist(d); }
static std::string jints(const std::vector<long>& v) { std::vector<std::string> d; for (size_t i = 0; i < v.size(); i++) d.push_back(jnum(v[i])); return jlist(d); }
static int at; static std::vector<std::pair<long, long> > script;
static long scripted() { if (at >= (int)script.size()) { at++; errno = 0; return 99; } errno = script[at].second ? EINTR : EIO; return script[at++].first; }
void run_case(const std::vector<words>& c) {
  mkdir(dir().c_str(), 0700); mkdir((dir() + "/t").c_str(), 0700); files.clear();
  event("new");
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0];
    std::string all; for (size_t j = 1; j < w.size(); j++) all += w[j] + " "; doing(op, "\"" + all + "\"");
    long k = w.size() > 1 ? num(w[1]) - 1 : 0;
    if (op == "tmp") {        // stream, tail of the template, directory there, descriptors left, how
      delete st[k]; st[k] = 0;
      std::string tail = unhex(w[2]); bool there = num(w[3]), room = num(w[4]), bare = num(w[5]);
      std::string head = bare ? std::string() : dir() + (there ? "/t/" : "/none/"); std::string t = head + tail; const std::string before = t; std::string other = t;
      struct rlimit old, low; getrlimit(RLIMIT_NOFILE, &old); low = old;
      if (!room) { low.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &low); }
      char cwd[1024]; if (!getcwd(cwd, sizeof cwd)) abort(); if (chdir((dir() + "/t").c_str())) abort();
      st[k] = pfi::system::file::tmpstream(t);
      if (chdir(cwd)) abort();
      if (!room) setrlimit(RLIMIT_NOFILE, &old);
      int made = st[k] != 0, name = 0, mode = 0;
      if (made) {
        std::string full = bare ? dir() + "/t/" + t : t;
        name = t.size() == before.size() && t.compare(0, t.size() - 6, before, 0, t.size() - 6) == 0 && t.substr(t.size() - 6) != "XXXXXX" && other == before;
        for (size_t j = 0; j < files.size(); j++) if (files[j] == full) name = 2;
        files.push_back(full);
        struct stat sb; mode = !stat(full.c_str(), &sb) && (sb.st_mode & 077) == 0 && S_ISREG(sb.st_mode) && sb.st_size == 0;
      }
      event("tmp").a(k + 1).as(tail).a(bare ? 1 : there).a(room).r(made).r(name).r(mode).rr(seen());
    } else if (op == "put" && st[k]) {
      st[k]->clear(); st[k]->seekp(0, std::ios::end); long n = st[k]->tellp(); long p = n ? num(w[2]) % (n + 1) : 0; std::string v = unhex(w[3]);
      st[k]->seekp(p); if (num(w[4])) for (size_t j = 0; j < v.size(); j++) st[k]->put(v[j]); else st[k]->write(v.data(), v.size());
      event("put").a(k + 1).a(p).as(v).r(st[k]->good()).rr(seen());
    } else if (op == "flush" && st[k]) { st[k]->clear(); st[k]->flush(); event("flush").a(k + 1).r(st[k]->good()).rr(seen()); }
    else if (op == "get" && st[k]) {
      st[k]->clear(); st[k]->seekg(0, std::ios::end); long n = st[k]->tellg(), p = num(w[2]) % (n + 1), len = num(w[3]); st[k]->seekg(p);
      std::string v(len, 0); if (len) st[k]->read(&v[0], len); v.resize(len ? st[k]->gcount() : 0);
      event("get").a(k + 1).a(p).a(len).rs(v).rr(seen());
    } else if (op == "del") { delete st[k]; st[k] = 0; event("del").a(k + 1).rr(seen()); }
    else if (op == "size") {
      long f = files.empty() ? 0 : num(w[1]) % (files.size() + 1); ssize_t z = pfi::system::file::get_file_size(f ? files[f - 1] : dir() + "/nothing");
      char b[32]; sprintf(b, "%lld", (long long)z); event e("size"); e.a(f); if (z == -1) e.r(std::vector<long>(2, 1)); else { std::vector<long> v(1, 0); for (char* p = b; *p; p++) v.push_back(*p); e.r(v); }
    } else if (op == "bigsize") {
      std::string f = dir() + "/big"; int fd = ::open(f.c_str(), O_RDWR | O_CREAT, 0600); long long n = strtoll(w[1].c_str(), 0, 10); if (ftruncate(fd, n)) n = 0; ::close(fd);
      long long z = pfi::system::file::get_file_size(n ? f : f); unlink(f.c_str());
      event e("bigsize"); e.ar(digits(n)); if (z < 0) e.r(-1); else e.rr(digits(z));
    } else if (op == "intr") {
      script.clear(); at = 0; std::vector<std::string> j; for (size_t q = 1; q + 1 < w.size(); q += 2) { script.push_back(std::make_pair(num(w[q]), num(w[q + 1]))); j.push_back("[" + w[q] + "," + w[q + 1] + "]"); }
      long res = -77; NO_INTR(res, scripted());
      event("intr").ar(jlist(j)).r(at).r(res).r((bool)SUCCEEDED(res)).r((bool)FAILED(res));
    } else if (op == "err") {
      int n = num(w[1]); std::string want = strerror(n); errno = n == EPERM ? ENOENT : EPERM; std::string a = pfi::system::syscall::get_error_msg(n); errno = n; std::string b = pfi::system::syscall::get_error_msg();
      event("err").a(n).r(a == want && !a.empty()).r(b == want).r(n);
    } else if (op == "stat") {   // hundredths, then lines name digits unit(0/1)
      static const char* names[] = {"?", "MemTotal", "MemFree", "Cached", "SwapCached", "MemAvailable", "Buffers", "SwapTotal", "SwapFree", "HighTotal"};
      long h = num(w[1]); char b[64]; sprintf(b, "%ld.%02ld 3.14 2.71 1/234 5678\n", h / 100, h % 100); spit(dir() + "/loadavg", b);
      std::string text; std::vector<std::string> j;
      for (size_t q = 2; q + 2 < w.size(); q += 3) {
        text += std::string(names[num(w[q])]) + ":" + std::string(w[q + 1].size() < 12 ? 14 - w[q + 1].size() : 2, ' ') + w[q + 1] + (w[q + 2] == "1" ? " kB" : "") + "\n";
        std::vector<long> d; for (size_t z = 0; z < w[q + 1].size(); z++) d.push_back(w[q + 1][z] - '0'); j.push_back("[" + w[q] + "," + jints(d) + "," + w[q + 2] + "]");
      }
      spit(dir() + "/meminfo", text);
      pfi::system::sysstat::sysstat_ret s; watch = 1; int rc = pfi::system::sysstat::get_sysstat(s); watch = 0;
      event("stat").a(h).ar(jlist(j)).r(rc).r((long)(s.loadavg * 100 + .5)).rr(digits(s.total_memory)).rr(digits(s.free_memory));
    } else if (op == "perr") {
      std::string f = unhex(w[1]), m = unhex(w[4]); int l = num(w[2]), p = num(w[3]); event e("perr"); e.as(f).a(l).a(p).as(m);
      try { try { throw pfi::lang::parse_error(f, l, p, m); } catch (pfi::lang::parse_error& x) { pfi::lang::parse_error y(x), z; z = y; throw z; } }
      catch (std::exception& x) { pfi::lang::parse_error& y = dynamic_cast<pfi::lang::parse_error&>(x); e.rs(x.what()).rs(y.filename()).r(y.lineno()).r(y.pos()).rs(y.msg()); }
    }
  }
  for (int i = 0; i < 3; i++) { delete st[i]; st[i] = 0; }
  event("end").r(fds());
  for (size_t i = 0; i < files.size(); i++) unlink(files[i].c_str());
}
