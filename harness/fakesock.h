// Sockets for sequential drivers: a connection's input is a given byte string
// handed out in given pieces, its output is recorded and may fail after a given
// number of bytes.  Included once per driver.
#ifndef VERIF_FAKESOCK_H
#define VERIF_FAKESOCK_H
#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
namespace fakesock {
struct conn { int idx; std::string in, out; size_t pos, turn; std::vector<int> split; long failat; bool reset, failed, closed; conn() : idx(-1), pos(0), turn(0), failat(-1), reset(false), failed(false), closed(false) {} };
static const int BASE = 5000;
static std::map<int, conn> C; static int next_fd = BASE;
static std::vector<conn> pending;               // given to the next connects / accepts
static int bad_close, accepted;                 // connections accepted so far
static void reset() { C.clear(); next_fd = BASE; pending.clear(); bad_close = accepted = 0; }
static int piece(conn& c, size_t n) {
  int k = c.split.empty() ? (int)n : c.split[c.turn++ % c.split.size()];
  if (k < 1) k = 1; return k < (int)n ? k : (int)n;
}
static conn* get(int fd) { return fd >= BASE && C.count(fd) ? &C[fd] : 0; }
}
using fakesock::BASE;
extern "C" {
int socket(int d, int t, int p) __THROW { int fd = fakesock::next_fd++; fakesock::C[fd]; return fd; }
int connect(int fd, const struct sockaddr*, socklen_t) {
  if (fakesock::pending.empty()) { errno = ECONNREFUSED; return -1; }
  fakesock::C[fd] = fakesock::pending.front(); fakesock::pending.erase(fakesock::pending.begin()); return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  if (fakesock::pending.empty()) pthread_exit(0);       // the server's thread ends with the script
  int n = fakesock::next_fd++; fakesock::C[n] = fakesock::pending.front(); fakesock::C[n].idx = fakesock::accepted++; fakesock::pending.erase(fakesock::pending.begin());
  struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(0x7f000001); in.sin_port = htons(40000);
  if (a && l) { memcpy(a, &in, *l < sizeof in ? *l : sizeof in); *l = sizeof in; }
  return n;
}
int bind(int, const struct sockaddr*, socklen_t) __THROW { return 0; }
int listen(int, int) __THROW { return 0; }
int setsockopt(int, int, int, const void*, socklen_t) __THROW { return 0; }
int getsockname(int, struct sockaddr* a, socklen_t* l) __THROW { memset(a, 0, *l); return 0; }
int shutdown(int, int) __THROW { return 0; }
ssize_t recv(int fd, void* b, size_t n, int) {
  fakesock::conn* c = fakesock::get(fd); if (!c) { errno = EBADF; return -1; }
  if (c->closed) { errno = EBADF; return -1; }
  size_t av = c->in.size() - c->pos; if (n > av) n = av;
  if (n == 0) { if (c->reset) { errno = ECONNRESET; return -1; } return 0; }
  int k = fakesock::piece(*c, n); memcpy(b, c->in.data() + c->pos, k); c->pos += k; return k;
}
ssize_t send(int fd, const void* b, size_t n, int) {
  fakesock::conn* c = fakesock::get(fd); if (!c || c->closed) { errno = EBADF; return -1; }
  int k = n ? fakesock::piece(*c, n) : 0;
  if (c->failat >= 0 && (long)c->out.size() + k > c->failat) k = c->failat - c->out.size();
  if (n && k <= 0) { c->failed = true; errno = EPIPE; return -1; }
  c->out.append((const char*)b, k); return k;
}
int close(int fd) {
  if (fd < BASE) return syscall(SYS_close, fd);
  fakesock::conn* c = fakesock::get(fd); if (!c || c->closed) { fakesock::bad_close++; errno = EBADF; return -1; }
  c->closed = true; return 0;
}
}
#endif
