#include "seq.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "system/mmapper.h"
using pfi::system::mmapper::mmapper;
// faults: 1 open fails, 2 open interrupted once, 3 fstat fails, 4 fstat interrupted once, 5 mmap fails
static int fault, fired, badclose, watch;
static int do_open(const char* p, int fl, int mode) {
  if (watch && fault == 1) { fault = 0; fired = 1; errno = EMFILE; return -1; }
  if (watch && fault == 2) { fault = 0; errno = EINTR; return -1; }
  return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
extern "C" {
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int fstat(int fd, struct stat* st) throw() {
  if (watch && fault == 3) { fault = 0; fired = 1; errno = EIO; return -1; }
  if (watch && fault == 4) { fault = 0; errno = EINTR; return -1; }
  return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
void* mmap(void* a, size_t l, int p, int f, int fd, off_t o) throw() {
  if (watch && fault == 5 && fd >= 0) { fault = 0; fired = 1; errno = ENOMEM; return MAP_FAILED; }
  return (void*)syscall(SYS_mmap, a, l, p, f, fd, o);
}
int close(int fd) { int r = syscall(SYS_close, fd); if (watch && r < 0) badclose++; return r; }
}
static std::string dir() { char b[40]; sprintf(b, "/mm%d", (int)getpid()); return std::string(getenv("VERIF_SCRATCH")) + b; }
static std::string file(long n) { return dir() + "/f" + jnum(n); }
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return "[-1]"; std::string s; int c; while ((c = fgetc(f)) != EOF) s += (char)c; fclose(f); return jbytes(s); }
static int fds() {
  int n = 0; DIR* d = opendir("/proc/self/fd"); std::string pre = dir() + "/";
  while (struct dirent* e = readdir(d)) { char b[512]; ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b - 1); if (k > 0) { b[k] = 0; if (!strncmp(b, pre.c_str(), pre.size())) n++; } }
  closedir(d); return n;
}
static int maps() { int n = 0; FILE* f = fopen("/proc/self/maps", "r"); char b[1024]; std::string pre = dir() + "/"; while (fgets(b, sizeof b, f)) if (strstr(b, pre.c_str())) n++; fclose(f); return n; }
// neighbouring mappings of one file may be merged by the kernel, so count pages
static void state(event& e, mmapper** m) {
  e.r(fds());
  size_t pages = 0, want = 0, live = 0; { FILE* f = fopen("/proc/self/maps", "r"); char b[1024]; std::string pre = dir() + "/"; while (fgets(b, sizeof b, f)) if (strstr(b, pre.c_str())) { unsigned long x, y; sscanf(b, "%lx-%lx", &x, &y); pages += (y - x) / 4096; } fclose(f); }
  for (int i = 0; i < 3; i++) if (m[i]->is_open()) { live++; want += (m[i]->size() + 4095) / 4096; }
  e.r(pages == want ? (long)live : 1000 + (long)pages).r(badclose);
  for (int i = 0; i < 3; i++) {
    const mmapper& k = *m[i];
    std::string bytes; for (const char* p = k.begin(); k.is_open() && p != k.end(); ++p) bytes += *p;
    if (k.is_open()) for (size_t j = 0; j < k.size(); j++) if (k[j] != bytes[j] || (*m[i])[j] != bytes[j]) bytes = "?";
    bool ends = k.cbegin() == k.begin() && k.cend() == k.end() && m[i]->begin() == k.begin() && m[i]->end() == k.end() && k.end() - k.begin() == (long)k.size();
    e.rr("[" + jnum(k.is_open()) + "," + jnum(ends ? (long)k.size() : -1) + "," + jbytes(bytes) + "]");
  }
  for (int i = 1; i <= 3; i++) e.rr(slurp(file(i)));
}
void run_case(const std::vector<words>& c) {
  mkdir(dir().c_str(), 0700); badclose = 0;
  std::vector<std::string> init;
  for (int n = 1; n <= 3; n++) { unlink(file(n).c_str()); const std::string& h = c[0][n - 1]; if (h != "x") { std::string s = unhex(h); FILE* f = fopen(file(n).c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); init.push_back(jbytes(s)); } else init.push_back("[-1]"); }
  event("new").ar(jlist(init));
  mmapper* m[3] = {new mmapper, new mmapper, new mmapper};
  for (size_t i = 1; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0]; long a = num(w[1]), b = w.size() > 2 ? num(w[2]) : 0;
    std::string all; for (size_t j = 1; j < w.size(); j++) all += w[j] + " "; doing(op, "\"" + all + "\"");
    int ret = 0; fired = 0; fault = 0; watch = 1;
    if (op == "open") { fault = num(w[3]); ret = m[a - 1]->open(file(b)); }
    else if (op == "close") ret = m[a - 1]->close() * 0;
    else if (op == "del") { delete m[a - 1]; m[a - 1] = new mmapper; }
    else if (op == "swap") { if (w[3] == "s") std::swap(*m[a - 1], *m[b - 1]); else m[a - 1]->swap(*m[b - 1]); }
    else if (op == "move") { if (w[3] == "c" && a != b) { delete m[a - 1]; m[a - 1] = new mmapper(std::move(*m[b - 1])); } else *m[a - 1] = std::move(*m[b - 1]); }
    else if (op == "poke") { mmapper& k = *m[a - 1]; if (k.is_open() && k.size()) { if (w[4] == "i") k[b % k.size()] = num(w[3]); else *(k.begin() + b % k.size()) = num(w[3]); } }
    else if (op == "write") { int fd = ::open(file(a).c_str(), O_RDWR); if (fd >= 0) { struct stat st; fstat(fd, &st); char v = num(w[3]); if (st.st_size) { if (pwrite(fd, &v, 1, b % st.st_size)) {} } ::close(fd); } }
    fault = 0; watch = 0;
    event e(op == "del" ? "close" : op); e.a(a); if (op != "close" && op != "del") e.a(b); if (op == "poke" || op == "write") e.a(num(w[3]) & 255);
    e.r(ret).r(fired); state(e, m);
  }
  watch = 1; for (int i = 0; i < 3; i++) delete m[i]; watch = 0;
  event("end").r(fds()).r(maps()).r(badclose);
}
