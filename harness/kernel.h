// A modelled operating system for whole parties: TCP sockets between the threads of one
// process, with refused connections, short reads and writes and bounded buffers.
#ifndef KERNEL_H
#define KERNEL_H
#include "vp.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <memory>
typedef unsigned char u8;
struct Sock {
  int party = -1, peer = -1; bool listening = false, connected = false, closed = false, bound = false;
  unsigned port = 0; unsigned addr = 0; std::deque<Sock *> waiting; int none = 1; // none: nobody to accept
  Sock *other = nullptr; std::deque<u8> in; int empty = 1, full = 0; bool eof = false; size_t wrote = 0, took = 0;
};
struct Kernel {
  int refuse = 1; // attempts that find nobody listening before the next one happens when somebody does
  std::vector<Sock *> fd; std::map<int, int> party; std::map<unsigned, int> hosts; std::map<unsigned, Sock *> listeners; std::map<unsigned, int> silent; std::map<std::pair<int, unsigned>, int> tries; // by port
  std::vector<Sock *> conn; size_t cap = 1u << 30, chunk = 1u << 30; bool instant = false; // instant: every set-up call succeeds at once
  struct Ev { int party; bool server; unsigned long port; unsigned addr; }; std::vector<Ev> ev; bool split = false; int splits = 0;
  int who() { auto it = party.find(vp_self()); return it == party.end() ? -1 : it->second; }
  Sock *at(int f) { return f >= 1000 && (size_t)f - 1000 < fd.size() ? fd[(size_t)f - 1000] : nullptr; }
  int add(Sock *s) { fd.push_back(s); return 999 + (int)fd.size(); }
};
static Kernel *K = nullptr;
static int knew() { Sock *s = new Sock; s->party = K->who(); return K->add(s); }
static void klink(Sock *a, Sock *b) { a->other = b; b->other = a; a->connected = b->connected = true; a->peer = b->party; b->peer = a->party; K->conn.push_back(a); K->conn.push_back(b); }
static void kupdate(Sock *s) { s->empty = s->in.empty() && !s->eof; if (s->other) s->other->full = s->in.size() >= K->cap && !s->closed; }
#ifdef VP_SYM
#define KPASS(x) (vp_fail("system call on an unknown descriptor"), -1)
#else
#define KPASS(x) (x)
#endif
extern "C" {
int socket(int d, int t, int) { vp_assert(d == AF_INET && t == SOCK_STREAM, "a TCP socket"); return knew(); }
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int bind(int f, const struct sockaddr *a, socklen_t) { const struct sockaddr_in *i = (const struct sockaddr_in *)a; Sock *s = K->at(f); if (!s) { errno = EBADF; return -1; } s->port = ntohs(i->sin_port); s->bound = true; K->ev.push_back({s->party, true, s->port, i->sin_addr.s_addr}); return 0; }
int listen(int f, int backlog) {
  Sock *s = K->at(f); vp_yield(); if (K->instant) { s->listening = true; return 0; } vp_assert(s->bound && backlog >= 1, "listens on a port");
  if (K->listeners[s->port]) { errno = EADDRINUSE; return -1; } K->listeners[s->port] = s; s->listening = true; K->silent[s->port] = 0; vp_yield(); return 0;
}
int accept(int f, struct sockaddr *, socklen_t *) {
  Sock *s = K->at(f); if (!s || !s->listening) { errno = EINVAL; return -1; } if (K->instant) { int r = knew(); return r; }
  vp_yield(); while (s->waiting.empty()) { s->none = 1; vp_block_while(&s->none); }
  Sock *c = s->waiting.front(); s->waiting.pop_front(); return K->add(c);
}
int connect(int f, const struct sockaddr *a, socklen_t) {
  const struct sockaddr_in *i = (const struct sockaddr_in *)a; Sock *s = K->at(f); if (!s) { errno = EBADF; return -1; } if (s->connected) { errno = EISCONN; return -1; } unsigned port = ntohs(i->sin_port), addr = i->sin_addr.s_addr; K->ev.push_back({s->party, false, port, addr}); if (K->instant) { s->connected = true; return 0; }
  vp_yield(); Sock *l = K->listeners[port];
  if (!l) { if (K->tries[std::make_pair(s->party, port)]++ < K->refuse) { errno = ECONNREFUSED; return -1; } int *silent = &K->silent.emplace(port, 1).first->second; while (!K->listeners[port]) vp_block_while(silent); } // later attempts come when somebody listens
  Sock *srv = K->listeners[port]; Sock *c = new Sock; c->party = srv->party; klink(s, c); srv->waiting.push_back(c); srv->none = 0; vp_yield(); return 0;
}
int inet_pton(int, const char *s, void *d) {
  unsigned v[4] = {0, 0, 0, 0}; int k = 0, digits = 0; for (; *s; s++) { if (*s == '.') { if (!digits || ++k > 3) return 0; digits = 0; } else if (*s >= '0' && *s <= '9') { v[k] = v[k] * 10 + (unsigned)(*s - '0'); if (v[k] > 255 || ++digits > 3) return 0; } else return 0; }
  if (k != 3 || !digits) return 0; u8 b[4] = {(u8)v[0], (u8)v[1], (u8)v[2], (u8)v[3]}; memcpy(d, b, 4); return 1;
}
ssize_t read(int f, void *b, size_t n) {
  Sock *s = K ? K->at(f) : nullptr; if (!s) return KPASS(syscall(SYS_read, f, b, n)); if (!s->connected || s->closed) { errno = ENOTCONN; return -1; }
  vp_yield(); while (s->in.empty() && !s->eof) { s->empty = 1; vp_block_while(&s->empty); } if (s->in.empty()) return 0;
  size_t k = s->in.size() < n ? s->in.size() : n; if (k > K->chunk) k = K->chunk; if (K->split && k > 1 && K->splits > 0) { K->splits--; k = (size_t)vp_choose(1, (long)k, "read"); }
  for (size_t i = 0; i < k; i++) { ((u8 *)b)[i] = s->in.front(); s->in.pop_front(); } s->took += k; kupdate(s); return (ssize_t)k;
}
ssize_t write(int f, const void *b, size_t n) {
  Sock *s = K ? K->at(f) : nullptr; if (!s) return KPASS(syscall(SYS_write, f, b, n)); if (!s->connected || s->closed) { errno = ENOTCONN; return -1; }
  vp_yield(); if (K->instant) { s->wrote += n; return (ssize_t)n; } Sock *o = s->other; if (o->closed) { errno = EPIPE; return -1; } if (!n) return 0;
  while (o->in.size() >= K->cap && !o->closed) { s->full = 1; vp_block_while(&s->full); } if (o->closed) { errno = EPIPE; return -1; }
  size_t room = K->cap - o->in.size(), k = n < room ? n : room; if (k > K->chunk) k = K->chunk; if (K->split && k > 1 && K->splits > 0) { K->splits--; k = (size_t)vp_choose(1, (long)k, "write"); }
  for (size_t i = 0; i < k; i++) o->in.push_back(((const u8 *)b)[i]); s->wrote += k; kupdate(o); return (ssize_t)k;
}
int close(int f) { Sock *s = K ? K->at(f) : nullptr; if (!s) return KPASS((int)syscall(SYS_close, f)); vp_yield(); if (s->closed) { errno = EBADF; return -1; } s->closed = true; if (s->other) { s->other->eof = true; s->other->empty = 0; s->other->full = 0; } return 0; }
#ifndef VP_SYM
int nanosleep(const struct timespec *, struct timespec *) { return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }
#endif
}
#endif
