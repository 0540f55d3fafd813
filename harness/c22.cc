// TCP transfers deliver exactly the bytes given, or fail (C22).
#include "vp.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <memory>
#include <system_error>
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/sysi.h"
using namespace frn::lib::net;
typedef enum Connector::State St;
typedef unsigned char u8;
// ---- stand-ins for the C library, which record the call and answer what the harness says
static int libc_on = 0, g_kind, g_fd, g_a, g_b, g_c; static const void *g_p, *g_q; static unsigned long g_n; static long g_ret; static int g_errno, g_calls, conn_fail, conn_calls, conn_fd; static unsigned short conn_port; static unsigned conn_addr, conn_len; static int conn_family;
static long rec(int kind, int fd, int a, int b, const void *p, unsigned long n, const void *q, int c) { g_calls++; g_kind = kind; g_fd = fd; g_a = a; g_b = b; g_p = p; g_n = n; g_q = q; g_c = c; if (g_ret < 0) errno = g_errno; return g_ret; }
#ifdef VP_SYM
#define PASS(x) (vp_fail("unexpected system call"), -1)
#else
#define PASS(x) (x)
#endif
extern "C" {
int socket(int d, int t, int p) { return (int)rec(1, d, t, p, nullptr, 0, nullptr, 0); }
int bind(int f, const struct sockaddr *a, socklen_t l) { return (int)rec(2, f, 0, 0, a, l, nullptr, 0); }
int listen(int f, int b) { return (int)rec(3, f, b, 0, nullptr, 0, nullptr, 0); }
int accept(int f, struct sockaddr *a, socklen_t *l) { return (int)rec(4, f, 0, 0, a, 0, l, 0); }
int setsockopt(int f, int lv, int o, const void *v, socklen_t l) { return (int)rec(5, f, lv, o, v, l, nullptr, 0); }
int inet_pton(int af, const char *s, void *d) { return (int)rec(6, af, 0, 0, s, 0, d, 0); }
int connect(int f, const struct sockaddr *a, socklen_t l) { const struct sockaddr_in *i = (const struct sockaddr_in *)a; conn_calls++; conn_fd = f; conn_port = i->sin_port; conn_addr = i->sin_addr.s_addr; conn_family = i->sin_family; conn_len = l; if (conn_fail > 0) { conn_fail--; errno = ECONNREFUSED; return -1; } return 0; }
ssize_t read(int f, void *b, size_t n) { if (!libc_on) return PASS(syscall(SYS_read, f, b, n)); return rec(7, f, 0, 0, b, n, nullptr, 0); }
ssize_t write(int f, const void *b, size_t n) { if (!libc_on) return PASS(syscall(SYS_write, f, b, n)); return rec(8, f, 0, 0, b, n, nullptr, 0); }
int close(int f) { if (!libc_on) return PASS((int)syscall(SYS_close, f)); return (int)rec(9, f, 0, 0, nullptr, 0, nullptr, 0); }
#ifndef VP_SYM
int nanosleep(const struct timespec *, struct timespec *) { return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }
#endif
}
struct NetErr {};
// ---- an operating system that splits transfers as it likes
struct Sys : SystemInterface {
  int mode = 0, err = 5;
  // scripted transfers over real bytes
  std::vector<u8> out, in; size_t taken = 0; int zeros = 1, fail_at = -1, eof_at = -1, calls = 0, fd = 0; long bound = 40;
  // transfers of arbitrary size, no bytes touched
  uintptr_t base = 0; unsigned long done = 0, total = 0; int maxcalls = 0; bool failed = false, eof = false;
  // set-up
  int fail_kind = 0, listen_fd = 7, conn = 9, closed = -1, backlog = 0; unsigned short port = 0; unsigned bindaddr = 1; int seen = 0, bound_ = 0, listening = 0; int inet = 1;
  int get_errno() override { return err; }
  int ret(int kind, int ok) { seen |= 1 << kind; return kind == fail_kind ? -1 : ok; }
  int create_socket(int d, int t, int p) override { vp_assert(d == AF_INET && t == SOCK_STREAM && p == 0, "a TCP socket is created"); return ret(1, listen_fd); }
  int set_socket_options(int f, int, int, const void *, socklen_t) override { vp_assert(f == listen_fd, "options are set on the new socket"); return ret(5, 0); }
  int bind(int f, const struct sockaddr *a, socklen_t l) override { auto *i = (const struct sockaddr_in *)a; vp_assert(f == listen_fd && l == sizeof *i && i->sin_family == AF_INET, "the new socket is bound"); port = i->sin_port; bindaddr = i->sin_addr.s_addr; bound_ = 1; return ret(2, 0); }
  int listen(int f, int b) override { backlog = b; vp_assert(f == listen_fd && bound_, "the bound socket listens"); listening = 1; return ret(3, 0); }
  int accept(int f, struct sockaddr *, socklen_t *l) override { vp_assert(f == listen_fd && listening && *l >= sizeof(struct sockaddr_in), "the listening socket accepts"); return ret(4, conn); }
  int inet_to_int(int, const char *, void *d) override { if (inet == 1) ((struct in_addr *)d)->s_addr = 0x0100007f; return inet; }
  int close(int f) override { closed = f; return ret(6, 0); }
  ssize_t xfer(bool wr, const void *b, u8 *dst, size_t n) {
    if (mode == 1) { // any size, any split
      vp_assert((uintptr_t)b == base + done && n > 0 && n <= total - done, "each call continues where the last one stopped");
      if (maxcalls-- <= 0) vp_end();
      unsigned long k = vp_sym(64, vp_name("n", maxcalls).c_str()); long sk = (long)k;
      if (sk < 0) { vp_assume(sk == -1); failed = true; return -1; }
      vp_assume(k <= n); if (!wr && k == 0) { failed = eof = true; return 0; } done += k; return sk;
    }
    vp_assert(calls++ < bound, "transfers end");
    if (taken == (size_t)fail_at) return -1;
    if (!wr && taken == (size_t)eof_at) return 0;
    size_t lim = n; if (fail_at >= 0 && taken + lim > (size_t)fail_at) lim = (size_t)fail_at - taken; if (!wr && eof_at >= 0 && taken + lim > (size_t)eof_at) lim = (size_t)eof_at - taken;
    if (!wr && taken + lim > in.size()) lim = in.size() - taken;
    vp_assert(lim > 0, "nothing is asked for beyond the data");
    long lo = wr && zeros > 0 ? 0 : 1; long k = lim == 0 ? 0 : vp_choose(lo, (long)lim, vp_name("k", calls).c_str()); if (k == 0) zeros--;
    if (wr) out.insert(out.end(), (const u8 *)b, (const u8 *)b + k); else for (long i = 0; i < k; i++) dst[i] = in[taken + (size_t)i];
    taken += (size_t)k; return k;
  }
  ssize_t write(int f, const void *b, size_t n) override { fd = f; return xfer(true, b, nullptr, n); }
  ssize_t read(int f, void *b, size_t n) override { fd = f; return xfer(false, b, (u8 *)b, n); }
};
template <class F> static int thrown(F f, int &code) { try { f(); return 0; } catch (std::system_error &e) { code = e.code().value(); return 2; } catch (...) { return 1; } }
static void transfer(bool wr, bool channel) { // real bytes, every split, failure anywhere
  auto sys = std::make_shared<Sys>(); size_t n = (size_t)vp_choose(0, vp_param("max", 5), "n"); auto *tcp = new TCPServerConnector(sys, 5000); std::unique_ptr<Connector> con(tcp); tcp->Connect(); vp_assert(tcp->State() == St::eActive, "active once connected");
  Channel ch(con); std::vector<u8> buf(n + 2); vp_bytes(buf.data(), n + 2, "data"); std::vector<u8> was = buf; sys->in.resize(n); vp_bytes(sys->in.data(), n, "peer"); sys->zeros = wr ? (int)vp_param("zeros", 1) : 0;
  int how = (int)vp_choose(0, 2, "how"); long at = how && n ? vp_choose(0, (long)n - 1, "at") : -1; if (how == 1) sys->fail_at = (int)at; if (how == 2) sys->eof_at = (int)at; sys->err = (int)vp_range(1, 130, "errno"); int code = 0, t;
  t = thrown([&] { if (wr) { if (channel) ch.Send(buf.data() + 1, n); else vp_assert(tcp->Send(buf.data() + 1, n) == (long)n, "the size is returned"); } else { if (channel) ch.Recv(buf.data() + 1, n); else vp_assert(tcp->Recv(buf.data() + 1, n) == (long)n, "the size is returned"); } }, code);
  bool bad = at >= 0 && (how == 1 || !wr);
  vp_assert(!n || sys->fd == sys->conn, "the accepted socket is used"); vp_assert(buf[0] == was[0] && buf[n + 1] == was[n + 1], "nothing outside the buffer is touched");
  if (bad) { vp_assert(t != 0, "a failed transfer throws"); if (how == 1) vp_assert(t == 2 && code == sys->err, "the error of the failed call is reported"); vp_assert(ch.State() == St::eError, "and leaves an error state"); size_t k = (size_t)at; if (wr) { vp_assert(sys->out.size() == k, "what was accepted before"); vp_assert_eq(sys->out.data(), buf.data() + 1, k, 0, "in order"); } vp_reach("failed"); }
  else { vp_assert(t == 0 && ch.State() == St::eActive, "a complete transfer succeeds"); vp_assert(wr ? sys->out.size() == n : sys->taken == n, "exactly the bytes asked for"); if (wr) vp_assert_eq(sys->out.data(), was.data() + 1, n, 0, "the bytes sent, in order"); else vp_assert_eq(buf.data() + 1, sys->in.data(), n, 0, "the next bytes from the peer, in order"); vp_reach("complete"); }
}
static void sizes(bool wr, bool channel) { // any size
  auto sys = std::make_shared<Sys>(); auto *tcp = new TCPServerConnector(sys, 5000); std::unique_ptr<Connector> con(tcp); tcp->Connect(); Channel ch(con); sys->mode = 1; sys->maxcalls = (int)vp_param("calls", 4); static u8 b[16]; sys->base = (uintptr_t)b; sys->total = vp_sym(44, "size"); sys->err = (int)vp_range(1, 130, "errno"); int code = 0; long r = 0;
  int t = thrown([&] { if (channel) { if (wr) ch.Send(b, sys->total); else ch.Recv(b, sys->total); r = (long)sys->total; } else r = wr ? tcp->Send(b, sys->total) : tcp->Recv(b, sys->total); }, code);
  if (sys->failed) { vp_assert(t != 0 && (sys->eof || (t == 2 && code == sys->err)) && ch.State() == St::eError, "a failed call stops the transfer"); vp_reach("failed"); }
  else { vp_assert(t == 0 && r == (long)sys->total && sys->done == sys->total, "it ends when everything is transferred, and not earlier"); vp_assert(ch.State() == St::eActive, "still active"); vp_reach("complete"); }
}
// a connector that transfers part of what it is given
struct Part : Connector { unsigned long done = 0, total = 0; int calls = 0; uintptr_t base = 0; std::int64_t step(uintptr_t b, size_t n) { vp_assert(b == base + done && n > 0 && n <= total - done, "the channel continues where the connector stopped"); if (calls-- <= 0) vp_end(); unsigned long k = vp_sym(64, vp_name("p", calls).c_str()); vp_assume((long)k >= 0); vp_assume(k <= n); done += k; return (std::int64_t)k; }
  std::int64_t Send(const u8 *b, std::size_t n) override { return step((uintptr_t)b, n); } std::int64_t Recv(u8 *b, std::size_t n) override { return step((uintptr_t)b, n); } std::string ToString() const override { return "part"; } void EstablishConnection() override {} void TeardownConnection() override {} };
static void partial() {
  auto *p = new Part; std::unique_ptr<Connector> con(p); Channel ch(con); static u8 b[4]; p->base = (uintptr_t)b; p->calls = (int)vp_param("calls", 3); p->total = vp_sym(44, "size"); bool wr = vp_choose(0, 1, "wr"); if (wr) ch.Send(b, p->total); else ch.Recv(b, p->total);
  vp_assert(p->done == p->total, "the whole message is transferred"); vp_reach("end");
}
static void setup_server() {
  auto sys = std::make_shared<Sys>(); int port = (int)(unsigned)vp_sym(32, "port"); std::unique_ptr<TCPServerConnector> s; bool valid = port >= 1025 && port <= 65535;
  bool t0 = vp_throws([&] { s.reset(new TCPServerConnector(sys, port)); }); vp_assert(t0 == !valid, "exactly the ports 1025 to 65535 are accepted"); if (t0) { vp_reach("port"); return; }
  vp_assert(s->State() == St::eIdle, "idle at first"); sys->fail_kind = (int)vp_choose(0, 6, "fail"); sys->err = (int)vp_range(1, 130, "errno"); sys->conn = (int)vp_range(0, 5000, "fd"); int code = 0, t = thrown([&] { s->Connect(); }, code);
  if (sys->fail_kind >= 1 && sys->fail_kind <= 5) { vp_assert(t == 2 && code == sys->err && s->State() == St::eError, "a failed call is reported"); vp_reach("failed"); return; }
  vp_assert(t == 0 && s->State() == St::eActive && (sys->seen >> 4 & 1), "connected"); vp_assert(sys->port == htons((unsigned short)port) && sys->bindaddr == 0 && sys->backlog > 0, "listening on the given port, any address");
  t = thrown([&] { s->Close(); }, code); vp_assert(sys->closed == sys->conn, "the connection is closed"); if (sys->fail_kind == 6) vp_assert(t == 2 && code == sys->err && s->State() == St::eError, "a failed close is reported"); else vp_assert(t == 0 && s->State() == St::eClosed, "closed"); vp_reach("end");
}
static void setup_client() {
  auto sys = std::make_shared<Sys>(); int port = (int)(unsigned)vp_sym(32, "port"); std::unique_ptr<TCPClientConnector> s; bool valid = port >= 1025 && port <= 65535; sys->inet = (int)vp_choose(-1, 1, "inet"); int code = 0;
  sys->err = (int)vp_range(1, 130, "errno"); int t0 = thrown([&] { s.reset(new TCPClientConnector(sys, port, "127.0.0.1")); }, code); vp_assert((t0 != 0) == (!valid || sys->inet != 1), "exactly the valid ports and addresses are accepted"); if (t0) { vp_reach("refused"); return; }
  vp_assert(s->State() == St::eIdle, "idle at first"); sys->fail_kind = (int)vp_choose(0, 1, "fail"); sys->inet = (int)vp_choose(-1, 1, "inet2"); sys->listen_fd = (int)vp_range(0, 5000, "fd"); conn_fail = (int)vp_choose(0, vp_param("refusals", 3), "refusals"); int refusals = conn_fail; conn_calls = 0; int t = thrown([&] { s->Connect(); }, code);
  if (sys->fail_kind == 1) { vp_assert(t == 2 && code == sys->err && s->State() == St::eError, "a failed call is reported"); vp_reach("failed"); return; }
  if (sys->inet != 1) { vp_assert(t != 0 && s->State() != St::eActive, "an unusable address is reported"); vp_reach("failed"); return; }
  vp_assert(t == 0 && s->State() == St::eActive, "connected"); vp_assert(conn_calls == refusals + 1 && conn_fd == sys->listen_fd, "it keeps trying until the peer answers"); vp_assert(conn_port == htons((unsigned short)port) && conn_family == AF_INET && conn_addr == 0x0100007f && conn_len == sizeof(struct sockaddr_in), "it connects to the given address and port");
  u8 b[3] = {1, 2, 3}; sys->zeros = 0; sys->fail_kind = 0; s->Send(b, 3); vp_assert(sys->fd == sys->listen_fd, "the connected socket is used");
  sys->fail_kind = vp_choose(0, 1, "cfail") ? 6 : 0; t = thrown([&] { s->Close(); }, code); vp_assert(sys->closed == sys->listen_fd, "the connection is closed"); if (sys->fail_kind == 6) vp_assert(t == 2 && s->State() == St::eError, "a failed close is reported"); else vp_assert(t == 0 && s->State() == St::eClosed, "closed"); vp_reach("end");
}
static void passthrough() { // the system interface hands every call to the operating system unchanged
  SystemInterface s; int fd = (int)(unsigned)vp_sym(32, "fd"), a = (int)(unsigned)vp_sym(32, "a"), b = (int)(unsigned)vp_sym(32, "b"); unsigned long n = vp_sym(64, "n"); g_ret = (long)vp_sym(64, "ret"); g_errno = (int)(unsigned)vp_sym(31, "errno"); static u8 buf[8]; struct sockaddr_in sa; socklen_t len = 16; g_calls = 0; long r = 0; int k = (int)vp_choose(1, 9, "call"), ir = (int)g_ret; errno = 0;
  switch (k) {
    case 1: r = s.create_socket(fd, a, b); vp_assert(r == ir && g_kind == 1 && g_fd == fd && g_a == a && g_b == b, "socket"); break;
    case 2: r = s.bind(fd, (struct sockaddr *)&sa, (socklen_t)n); vp_assert(r == ir && g_kind == 2 && g_fd == fd && g_p == &sa && g_n == (socklen_t)n, "bind"); break;
    case 3: r = s.listen(fd, a); vp_assert(r == ir && g_kind == 3 && g_fd == fd && g_a == a, "listen"); break;
    case 4: r = s.accept(fd, (struct sockaddr *)&sa, &len); vp_assert(r == ir && g_kind == 4 && g_fd == fd && g_p == &sa && g_q == &len, "accept"); break;
    case 5: r = s.set_socket_options(fd, a, b, buf, (socklen_t)n); vp_assert(r == ir && g_kind == 5 && g_fd == fd && g_a == a && g_b == b && g_p == buf && g_n == (socklen_t)n, "setsockopt"); break;
    case 6: r = s.inet_to_int(fd, (const char *)buf, &sa); vp_assert(r == ir && g_kind == 6 && g_fd == fd && g_p == buf && g_q == &sa, "inet_pton"); break;
    case 7: libc_on = 1; r = s.read(fd, buf, n); libc_on = 0; vp_assert(r == g_ret && g_kind == 7 && g_fd == fd && g_p == buf && g_n == n, "read"); break;
    case 8: libc_on = 1; r = s.write(fd, buf, n); libc_on = 0; vp_assert(r == g_ret && g_kind == 8 && g_fd == fd && g_p == buf && g_n == n, "write"); break;
    case 9: libc_on = 1; r = s.close(fd); libc_on = 0; vp_assert(r == ir && g_kind == 9 && g_fd == fd, "close"); break;
  }
  vp_assert(g_calls == 1, "one call"); if (g_ret < 0) vp_assert(s.get_errno() == g_errno, "errno"); vp_reach("end");
}
extern "C" void vp_main() {
  bool wr = vp_param("wr", 1), ch = vp_param("channel", 0);
  switch (vp_param("part", 0)) { case 0: transfer(wr, ch); break; case 1: sizes(wr, ch); break; case 2: partial(); break; case 3: setup_server(); break; case 4: setup_client(); break; case 5: passthrough(); break; }
  vp_reach("end");
}
