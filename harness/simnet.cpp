#include "simnet.h"
#include "vsched.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <set>

namespace simnet {
enum { BASE = 200, TOP = 4000 };
void (*on_loss)(int) = 0;
bool (*resolver)(const char*, std::vector<uint32_t>&) = 0;
int resolving_port;
bool halted;
static bool c_never(void*) { return false; }

struct conn {
  int id, cport, sport;
  std::string q[2];          // q[d]: bytes on their way to side d
  bool gone[2];              // side has closed
  bool fin[2];               // side will send no more (shutdown or closed)
  bool rst[2];               // side will see an error
  bool lost;
  bool blackhole[2];
};
enum kind { RAW, LISTEN, STREAM };
struct file {
  kind k; bool open, nonblock; int users, port; conn* c; int side;
  std::deque<conn*> backlog; int64_t rto, sto; bool rdshut; int err; size_t max;
};
static options O;
static std::map<int, file*>* FD;
static std::set<file*>* FILES;
static std::vector<conn*>* CONNS;
static int eph, nbad, lastc[sched::MAXF], lasta[sched::MAXF];

void reset(const options& o) {
  if (!FD) { FD = new std::map<int, file*>(); FILES = new std::set<file*>(); CONNS = new std::vector<conn*>(); }
  for (std::set<file*>::iterator i = FILES->begin(); i != FILES->end(); ++i) delete *i;
  for (size_t i = 0; i < CONNS->size(); i++) delete (*CONNS)[i];
  FD->clear(); FILES->clear(); CONNS->clear();
  O = o; eph = 40000; nbad = 0; halted = false;
  memset(lastc, 0, sizeof lastc); memset(lasta, 0, sizeof lasta);
}
int connections() { return (int)CONNS->size(); }
int last_connect() { return lastc[sched::self()]; }
int last_accept() { return lasta[sched::self()]; }
int id_of_port(int p) { return p > 40000 ? p - 40000 : 0; }
int open_fds() { return (int)FD->size(); }
int bad_closes() { return nbad; }
int listeners(int port) { int n = 0; for (std::set<file*>::iterator i = FILES->begin(); i != FILES->end(); ++i) if ((*i)->k == LISTEN && (*i)->port == port) n++; return n; }

static bool sim(int fd) { return FD && fd >= BASE && fd < TOP; }
static file* get(int fd) { std::map<int, file*>::iterator i = FD->find(fd); return i == FD->end() ? 0 : i->second; }
static int newfd(file* f) {
  int n = BASE; while (FD->count(n)) n++;
  (*FD)[n] = f; f->open = true; return n;
}
static file* newfile(kind k) {
  file* f = new file(); f->k = k; f->open = false; f->nonblock = false; f->users = 0; f->port = 0; f->c = 0; f->side = 0; f->rto = f->sto = 0; f->rdshut = false; f->err = 0; f->max = 0;
  FILES->insert(f); return f;
}
static bool chance(int n = 2) { return sched::choose(n, sched::C_FAULT) != 0; }
static void side_close(conn* c, int d) {
  c->gone[d] = c->fin[d] = true;
  if (!c->q[d].empty()) c->rst[1 - d] = true;     // unread data: the peer is reset
  c->q[d].clear();
}
static void lose(conn* c) {
  if (c->lost) return;
  c->lost = true; c->rst[0] = c->rst[1] = true;
  if (on_loss) on_loss(c->id);
}
static void release(file* f) {
  if (f->open || f->users > 0) return;
  if (f->k == STREAM) side_close(f->c, f->side);
  if (f->k == LISTEN) {
    for (size_t i = 0; i < f->backlog.size(); i++) { conn* c = f->backlog[i]; c->gone[1] = c->fin[1] = true; c->rst[0] = true; c->q[1].clear(); }
    f->backlog.clear();
  }
  FILES->erase(f); delete f;
}
struct use { file* f; use(file* x) : f(x) { f->users++; } ~use() { f->users--; release(f); } };
static int fail(int e) { errno = e; return -1; }
static bool intr() { if (O.eintr > 0 && chance()) { O.eintr--; return true; } return false; }
static int64_t dl(int64_t to) { return to > 0 ? sched::now_us() + to : -1; }
static size_t part(size_t n) {
  if (n <= 1 || !O.shorts) return n;
  switch (sched::choose(4, sched::C_FAULT)) {
  case 1: return 1;
  case 2: return (n + 1) / 2;
  case 3: return n - 1;
  }
  return n;
}

static bool c_accept(void* p) { file* f = (file*)p; return !f->backlog.empty() || f->rdshut; }
static bool c_read(void* p) {
  file* f = (file*)p; conn* c = f->c; int d = f->side;
  return !c->q[d].empty() || c->fin[1 - d] || c->rst[d] || f->rdshut;
}
static bool c_write(void* p) {
  file* f = (file*)p; conn* c = f->c; int d = f->side;
  return c->q[1 - d].size() < O.cap || c->gone[1 - d] || c->rst[d];
}
static ssize_t do_recv(int fd, void* b, size_t n, int flags) {
  file* f = get(fd); if (!f) return fail(EBADF);
  if (f->k != STREAM) return fail(f->k == RAW ? ENOTCONN : EINVAL);
  use u(f);
  sched::yield(sched::P_IO);
  if (n == 0) return 0;
  conn* c = f->c; int d = f->side;
  if (O.resets > 0 && !c->lost && !c->gone[1 - d] && chance()) { O.resets--; if (chance()) c->q[d].resize(c->q[d].size() / 2); lose(c); }
  if (intr()) return fail(EINTR);
  size_t got = 0;
  for (;;) {
    if (!c_read(f)) {
      if (got) return (ssize_t)got;
      if (f->nonblock || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
      if (!sched::block_on(c_read, f, dl(f->rto))) return fail(EAGAIN);
    }
    if (!c->q[d].empty()) {
      size_t k = part(std::min(n - got, c->q[d].size()));
      memcpy((char*)b + got, c->q[d].data(), k);
      if (!(flags & MSG_PEEK)) c->q[d].erase(0, k);
      got += k;
      if ((flags & MSG_WAITALL) && got < n && !(flags & MSG_PEEK)) continue;
      return (ssize_t)got;
    }
    if (got) return (ssize_t)got;
    if (c->rst[d]) { c->rst[d] = false; c->fin[1 - d] = true; return fail(ECONNRESET); }
    return 0;
  }
}
static ssize_t do_send(int fd, const void* b, size_t n, int flags) {
  file* f = get(fd); if (!f) return fail(EBADF);
  if (f->k != STREAM) return fail(f->k == RAW ? EPIPE : EINVAL);
  use u(f);
  sched::yield(sched::P_IO);
  conn* c = f->c; int d = f->side;
  if (c->fin[d]) return fail(EPIPE);
  if (n == 0) return 0;
  if (intr()) return fail(EINTR);
  if (O.resets > 0 && !c->lost && !c->gone[1 - d] && chance()) {
    O.resets--;
    size_t k = sched::choose(2, sched::C_FAULT) ? n / 2 : 0;
    c->q[1 - d].append((const char*)b, k);
    lose(c);
    if (k && chance()) return (ssize_t)k;
  }
  size_t want = part(n), done = 0;
  while (done < want) {
    if (c->rst[d]) {
      if (done) break;
      // a reset is reported once, then the socket is simply dead
      return fail(c->lost || chance() ? ECONNRESET : EPIPE);
    }
    if (c->gone[1 - d]) {
      // nobody there: the first segment is accepted and answered by a reset
      if (c->blackhole[d]) { if (done) break; return fail(EPIPE); }
      c->blackhole[d] = true; done = want; break;
    }
    if (!c_write(f)) {
      if (f->nonblock || (flags & MSG_DONTWAIT)) { if (done) break; return fail(EAGAIN); }
      if (!sched::block_on(c_write, f, dl(f->sto))) { if (done) break; return fail(EAGAIN); }
      continue;
    }
    size_t k = std::min(want - done, O.cap - c->q[1 - d].size());
    c->q[1 - d].append((const char*)b + done, k);
    done += k;
  }
  return (ssize_t)done;
}
static file* listener(int port) {
  for (std::set<file*>::iterator i = FILES->begin(); i != FILES->end(); ++i)
    if ((*i)->k == LISTEN && (*i)->port == port && !(*i)->rdshut) return *i;
  return 0;
}
static int do_connect(int fd, const sockaddr* sa, socklen_t) {
  file* f = get(fd); if (!f) return fail(EBADF);
  if (f->k == STREAM) return fail(EISCONN);
  if (f->k == LISTEN) return fail(EISCONN);
  use u(f);
  sched::yield(sched::P_IO);
  if (intr()) return fail(EINTR);
  const sockaddr_in* a = (const sockaddr_in*)sa;
  uint32_t ip = ntohl(a->sin_addr.s_addr);
  if ((ip >> 24) != 127) return fail((ip & 1) ? ECONNREFUSED : ETIMEDOUT);
  file* l = listener(ntohs(a->sin_port));
  if (O.connfail > 0 && chance()) { O.connfail--; return fail(ETIMEDOUT); }
  if (!l || l->backlog.size() >= l->max + 1) return fail(ECONNREFUSED);
  if (f->k == STREAM) return fail(EISCONN);
  conn* c = new conn(); c->id = (int)CONNS->size() + 1; c->cport = 40000 + c->id; c->sport = ntohs(a->sin_port);
  CONNS->push_back(c);
  f->k = STREAM; f->c = c; f->side = 0;
  l->backlog.push_back(c);
  lastc[sched::self()] = c->id;
  sched::yield(sched::P_IO);
  return 0;
}
static int do_accept(int fd, sockaddr* sa, socklen_t* len) {
  file* f = get(fd); if (!f) return fail(EBADF);
  if (f->k != LISTEN) return fail(EINVAL);
  use u(f);
  sched::yield(sched::P_IO);
  if (halted) sched::block_on(c_never, 0, -1);
  if (intr()) return fail(EINTR);
  for (;;) {
    if (!c_accept(f)) {
      if (f->nonblock) return fail(EAGAIN);
      if (!sched::block_on(c_accept, f, dl(f->rto))) return fail(EAGAIN);
    }
    if (!f->backlog.empty()) break;
    if (f->rdshut) return fail(EINVAL);
  }
  if (O.connfail > 0 && chance()) {
    O.connfail--;
    if (chance()) return fail(EMFILE);
    conn* c = f->backlog.front(); f->backlog.pop_front();
    c->gone[1] = c->fin[1] = true; lose(c);
    return fail(ECONNABORTED);
  }
  conn* c = f->backlog.front(); f->backlog.pop_front();
  file* n = newfile(STREAM); n->c = c; n->side = 1; n->rto = f->rto; n->sto = f->sto;
  lasta[sched::self()] = c->id;
  if (sa) {
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(c->cport); a.sin_addr.s_addr = htonl(0x7f000001);
    memcpy(sa, &a, std::min((size_t)*len, sizeof a)); *len = sizeof a;
  }
  return newfd(n);
}
static bool ready(int fd, short ev, short* out) {
  file* f = get(fd); *out = 0;
  if (!f) { *out = POLLNVAL; return true; }
  if (f->k == LISTEN) { if (c_accept(f)) *out |= POLLIN; }
  else if (f->k == STREAM) { if (c_read(f)) *out |= POLLIN; if (c_write(f)) *out |= POLLOUT; if (f->c->rst[f->side]) *out |= POLLERR; }
  else *out |= POLLOUT | POLLHUP;
  *out &= ev | POLLERR | POLLHUP | POLLNVAL;
  return *out != 0;
}
struct pollarg { struct pollfd* p; nfds_t n; };
static bool c_poll(void* v) { pollarg* a = (pollarg*)v; bool any = false; for (nfds_t i = 0; i < a->n; i++) { short o = 0; if (a->p[i].fd >= 0 && ready(a->p[i].fd, a->p[i].events, &o)) any = true; } return any; }
static int do_poll(struct pollfd* p, nfds_t n, int64_t to_us) {
  sched::yield(sched::P_IO);
  if (intr()) return fail(EINTR);
  pollarg a = {p, n};
  if (to_us != 0) sched::block_on(c_poll, &a, to_us < 0 ? -1 : sched::now_us() + to_us);
  int k = 0;
  for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd >= 0 && ready(p[i].fd, p[i].events, &p[i].revents)) k++; }
  return k;
}
} // namespace simnet
using namespace simnet;

static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return syscall(n, a, b, c, d, e, f); }

extern "C" {
int socket(int dom, int type, int proto) throw() {
  if (!sched::active()) return (int)sys(SYS_socket, dom, type, proto);
  file* f = newfile(RAW); if (type & SOCK_NONBLOCK) f->nonblock = true;
  return newfd(f);
}
int bind(int fd, const struct sockaddr* sa, socklen_t len) throw() {
  if (!sim(fd)) return (int)sys(SYS_bind, fd, (long)sa, len);
  file* f = get(fd); if (!f) return fail(EBADF);
  int port = ntohs(((const sockaddr_in*)sa)->sin_port);
  if (port == 0) { port = 50000; while (listeners(port)) port++; }
  else if (listener(port)) return fail(EADDRINUSE);
  f->port = port; return 0;
}
int listen(int fd, int n) throw() {
  if (!sim(fd)) return (int)sys(SYS_listen, fd, n);
  file* f = get(fd); if (!f) return fail(EBADF);
  if (listener(f->port)) return fail(EADDRINUSE);
  f->k = LISTEN; f->max = n < 0 ? 0 : n; return 0;
}
int accept(int fd, struct sockaddr* sa, socklen_t* len) { return sim(fd) || sched::active() ? do_accept(fd, sa, len) : (int)sys(SYS_accept, fd, (long)sa, (long)len); }
int accept4(int fd, struct sockaddr* sa, socklen_t* len, int) { return accept(fd, sa, len); }
int connect(int fd, const struct sockaddr* sa, socklen_t len) { return sim(fd) || sched::active() ? do_connect(fd, sa, len) : (int)sys(SYS_connect, fd, (long)sa, len); }
ssize_t recv(int fd, void* b, size_t n, int fl) { return sim(fd) || sched::active() ? do_recv(fd, b, n, fl) : sys(SYS_recvfrom, fd, (long)b, n, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { return sim(fd) || sched::active() ? do_send(fd, b, n, fl) : sys(SYS_sendto, fd, (long)b, n, fl); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { return recv(fd, b, n, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { return send(fd, b, n, fl); }
ssize_t read(int fd, void* b, size_t n) { return sim(fd) ? do_recv(fd, b, n, 0) : sys(SYS_read, fd, (long)b, n); }
ssize_t write(int fd, const void* b, size_t n) { return sim(fd) ? do_send(fd, b, n, 0) : sys(SYS_write, fd, (long)b, n); }
int close(int fd) {
  if (!sim(fd)) { if (sched::active() && fd < 0) nbad++; return (int)sys(SYS_close, fd); }
  sched::yield(sched::P_IO);
  file* f = get(fd);
  if (!f) { nbad++; return fail(EBADF); }
  FD->erase(fd); f->open = false; release(f);
  sched::yield(sched::P_IO);
  return 0;
}
int shutdown(int fd, int how) throw() {
  if (!sim(fd)) return (int)sys(SYS_shutdown, fd, how);
  file* f = get(fd); if (!f) return fail(EBADF);
  sched::yield(sched::P_IO);
  if (f->k == LISTEN) { f->rdshut = true; return 0; }
  if (f->k != STREAM) return fail(ENOTCONN);
  if (how < SHUT_RD || how > SHUT_RDWR) return fail(EINVAL);
  if (how != SHUT_WR) f->rdshut = true;
  if (how != SHUT_RD) f->c->fin[f->side] = true;
  return 0;
}
int setsockopt(int fd, int lv, int name, const void* v, socklen_t len) throw() {
  if (!sim(fd)) return (int)sys(SYS_setsockopt, fd, lv, name, (long)v, len);
  file* f = get(fd); if (!f) return fail(EBADF);
  if (lv == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
    const timeval* t = (const timeval*)v;
    if (t->tv_usec < 0 || t->tv_usec >= 1000000) return fail(EDOM);
    if (O.optfail && O.connfail > 0 && f->c && f->side == 1 && chance()) { O.connfail--; return fail(ENOBUFS); }
    (name == SO_RCVTIMEO ? f->rto : f->sto) = t->tv_sec * 1000000LL + t->tv_usec;
  }
  return 0;
}
int getsockopt(int fd, int lv, int name, void* v, socklen_t* len) throw() {
  if (!sim(fd)) return (int)sys(SYS_getsockopt, fd, lv, name, (long)v, (long)len);
  if (!get(fd)) return fail(EBADF);
  if (*len >= sizeof(int)) { *(int*)v = 0; *len = sizeof(int); }
  return 0;
}
int getsockname(int fd, struct sockaddr* sa, socklen_t* len) throw() {
  if (!sim(fd)) return (int)sys(SYS_getsockname, fd, (long)sa, (long)len);
  file* f = get(fd); if (!f) return fail(EBADF);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET;
  a.sin_port = htons(f->k == STREAM ? (f->side ? f->c->sport : f->c->cport) : f->port);
  memcpy(sa, &a, std::min((size_t)*len, sizeof a)); *len = sizeof a; return 0;
}
int getpeername(int fd, struct sockaddr* sa, socklen_t* len) throw() {
  if (!sim(fd)) return (int)sys(SYS_getpeername, fd, (long)sa, (long)len);
  file* f = get(fd); if (!f) return fail(EBADF);
  if (f->k != STREAM) return fail(ENOTCONN);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001);
  a.sin_port = htons(f->side ? f->c->cport : f->c->sport);
  memcpy(sa, &a, std::min((size_t)*len, sizeof a)); *len = sizeof a; return 0;
}
int poll(struct pollfd* p, nfds_t n, int to) {
  if (!sched::active()) return (int)sys(SYS_poll, (long)p, n, to);
  return do_poll(p, n, to < 0 ? -1 : to * 1000LL);
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  if (!sched::active()) return (int)sys(SYS_select, n, (long)r, (long)w, (long)e, (long)tv);
  std::vector<struct pollfd> p;
  for (int i = 0; i < n; i++) {
    short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT;
    if (ev) { struct pollfd x = {i, ev, 0}; p.push_back(x); }
  }
  int k = do_poll(p.data(), p.size(), tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1);
  if (k < 0) return k;
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
  k = 0;
  for (size_t i = 0; i < p.size(); i++) {
    if (r && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLERR | POLLHUP))) { FD_SET(p[i].fd, r); k++; }
    if (w && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR | POLLHUP))) { FD_SET(p[i].fd, w); k++; }
  }
  return k;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!sim(fd)) return (int)sys(SYS_fcntl, fd, cmd, arg);
  file* f = get(fd); if (!f) return fail(EBADF);
  if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
static bool def_resolver(const char* h, std::vector<uint32_t>& o) {
  struct in_addr a;
  if (inet_aton(h, &a)) { o.push_back(ntohl(a.s_addr)); return true; }
  if (!strcmp(h, "localhost")) { o.push_back(0x7f000001); return true; }
  if (!strcmp(h, "multi")) { o.push_back(0x0a000001); o.push_back(0x0a000002); o.push_back(0x7f000001); return true; }
  return false;
}
int getaddrinfo(const char* host, const char* serv, const struct addrinfo*, struct addrinfo** res) {
  sched::yield(sched::P_IO);
  std::vector<uint32_t> v;
  *res = 0;
  resolving_port = serv ? atoi(serv) : 0;
  if (!(resolver ? resolver : def_resolver)(host, v)) return EAI_NONAME;
  for (size_t i = v.size(); i-- > 0;) {
    struct addrinfo* x = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in));
    sockaddr_in* a = (sockaddr_in*)(x + 1);
    a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(v[i]); a->sin_port = htons(serv ? atoi(serv) : 0);
    x->ai_family = AF_INET; x->ai_socktype = SOCK_STREAM; x->ai_addrlen = sizeof *a; x->ai_addr = (sockaddr*)a; x->ai_next = *res; *res = x;
  }
  sched::yield(sched::P_IO);
  return *res ? 0 : EAI_NONAME;
}
void freeaddrinfo(struct addrinfo* p) throw() { while (p) { struct addrinfo* n = p->ai_next; free(p); p = n; } }
}
