// Shared parts of the protocol harnesses: an in-memory network of n parties run
// as cooperatively scheduled threads, symbolic sharings, consistent keys.
#ifndef PROTO_H
#define PROTO_H
#include "vp.h"
#include <deque>
#include <memory>
#include "frn/corr.h"
#include "frn/network.h"
#include "frn/shr.h"
#include "frn/util.h"
typedef frn::Field F;
typedef frn::Shr Shr;
typedef frn::lib::secret_sharing::Replicator<F> Rep;
typedef frn::lib::primitives::PRG PRG;
static inline uint64_t raw(const F &f) { uint64_t u; unsigned char b[sizeof u]; f.ToBytes(b); memcpy(&u, b, sizeof u); return u; }
static inline F fsym(const std::string &n) { F f; vp_field(&f, n.c_str()); return f; }
static inline void feq(const F &a, const F &b, const char *msg) { vp_assert(a == b, msg); }
struct Msg { int kind; std::vector<F> f; std::vector<Shr> s; std::vector<unsigned char> b; };
enum { VALUES = 0, SHARES = 1, BYTES = 2 };
struct Hub {
  unsigned n;
  struct Chan { std::deque<F> f; std::deque<Shr> s; std::deque<unsigned char> b; int hungry = 0; };
  std::vector<std::vector<Chan>> ch;                 // [from][to], what is under way
  std::vector<std::vector<std::vector<Msg>>> log;    // [from][to], everything ever sent
  std::vector<std::vector<size_t>> recvd;
  explicit Hub(unsigned n_) : n(n_), ch(n_, std::vector<Chan>(n_)), log(n_, std::vector<std::vector<Msg>>(n_)), recvd(n_, std::vector<size_t>(n_)) {}
  bool drained() const { for (auto &r : ch) for (auto &c : r) if (!c.f.empty() || !c.s.empty() || !c.b.empty()) return false; return true; }
  void clearLog() { for (auto &r : log) for (auto &c : r) c.clear(); }
  // all field elements from -> to, in order
  std::vector<F> vals(unsigned a, unsigned b) const { std::vector<F> r; for (auto &m : log[a][b]) for (auto &x : m.f) r.push_back(x); return r; }
  size_t count(unsigned a, unsigned b) const { size_t k = 0; for (auto &m : log[a][b]) k += m.f.size() + m.s.size() + m.b.size(); return k; }
};
class MemNet : public frn::Network {
 public:
  MemNet(std::shared_ptr<Hub> h, unsigned id) : Network(id, h->n), hub(h) {}
  void Send(unsigned to, const std::vector<F> &v) override { chk(to); Msg m; m.kind = VALUES; m.f = v; hub->log[Id()][to].push_back(m); auto &c = hub->ch[Id()][to]; for (auto &x : v) c.f.push_back(x); c.hungry = 0; vp_yield(); }
  void SendShares(unsigned to, const std::vector<Shr> &v) override { chk(to); Msg m; m.kind = SHARES; m.s = v; hub->log[Id()][to].push_back(m); auto &c = hub->ch[Id()][to]; for (auto &x : v) c.s.push_back(x); c.hungry = 0; vp_yield(); }
  void SendBytes(unsigned to, const std::vector<unsigned char> &v) override { chk(to); Msg m; m.kind = BYTES; m.b = v; hub->log[Id()][to].push_back(m); auto &c = hub->ch[Id()][to]; for (auto x : v) c.b.push_back(x); c.hungry = 0; vp_yield(); }
  std::vector<F> Recv(unsigned from, size_t k) override { chk(from); return take(hub->ch[from][Id()].f, hub->ch[from][Id()].hungry, k); }
  std::vector<Shr> RecvShares(unsigned from, size_t k) override { chk(from); return take(hub->ch[from][Id()].s, hub->ch[from][Id()].hungry, k); }
  std::vector<unsigned char> RecvBytes(unsigned from, size_t k) override { chk(from); return take(hub->ch[from][Id()].b, hub->ch[from][Id()].hungry, k); }
 private:
  std::shared_ptr<Hub> hub;
  void chk(unsigned i) { if (i >= hub->n) vp_fail("message addressed to a party that does not exist"); }
  template <class T> std::vector<T> take(std::deque<T> &q, int &hungry, size_t k) {
    while (q.size() < k) { hungry = 1; vp_block_while(&hungry); }
    std::vector<T> r(q.begin(), q.begin() + (long)k); q.erase(q.begin(), q.begin() + (long)k); return r;
  }
};
// run f(i) for every party i < n, each in its own thread, and wait for all of them
template <class Fn> struct PartyArg { Fn *f; unsigned i; int running; bool threw; };
template <class Fn> static void party_main(void *p) { auto *a = (PartyArg<Fn> *)p; try { (*a->f)(a->i); } catch (...) { a->threw = true; } vp_rel(a); a->running = 0; }
template <class Fn> static void run_parties(unsigned n, Fn f) {
  std::vector<PartyArg<Fn>> a(n);
  for (unsigned i = 0; i < n; i++) { a[i] = {&f, i, 1, false}; vp_thread(party_main<Fn>, &a[i]); }
  for (unsigned i = 0; i < n; i++) { while (a[i].running) vp_block_while(&a[i].running); vp_acq(&a[i]); vp_assert(!a[i].threw, "no party fails"); }
}
// ---- sharings
// a sharing with arbitrary pieces: piece k is a fresh symbolic element
struct Sharing { std::vector<F> piece; std::vector<Shr> share; F value; };
static inline Sharing sym_sharing(const Rep &r, const std::string &name) {
  Sharing s; s.value = F(0);
  for (size_t k = 0; k < r.AdditiveShareSize(); k++) { s.piece.push_back(fsym(vp_name((name + "_").c_str(), (long)k))); s.value += s.piece[k]; }
  for (size_t i = 0; i < r.Size(); i++) { Shr x; for (int k : r.IndexSetFor(i)) x.push_back(s.piece[(size_t)k]); s.share.push_back(x); }
  return s;
}
// all holders of a piece agree on it; returns the value shared
static inline F check_sharing(const Rep &r, const std::vector<Shr> &sh, const char *what) {
  std::vector<int> have(r.AdditiveShareSize(), 0); std::vector<F> piece(r.AdditiveShareSize(), F(0)); F v(0);
  vp_assert(sh.size() == r.Size(), what);
  for (size_t i = 0; i < r.Size(); i++) {
    auto is = r.IndexSetFor(i); vp_assert(sh[i].size() == is.size(), what);
    for (size_t j = 0; j < is.size(); j++) { size_t k = (size_t)is[j]; if (!have[k]) { have[k] = 1; piece[k] = sh[i][j]; v += piece[k]; } else vp_assert(piece[k] == sh[i][j], what); }
  }
  for (int h : have) vp_assert(h, what);
  return v;
}
// ---- keys for the correlated randomness: party u of the first 2t+1 shared a key, piece k of it is key[u][k]
typedef std::vector<std::vector<std::vector<unsigned char>>> Keys;
static inline Keys sym_keys(const Rep &r, const char *name) {
  Keys k; size_t U = 2 * r.Threshold() + 1;
  for (size_t u = 0; u < U; u++) { k.emplace_back(); for (size_t j = 0; j < r.AdditiveShareSize(); j++) { std::vector<unsigned char> b(PRG::SeedSize()); vp_bytes(b.data(), b.size(), vp_name(name, (long)u, (long)j).c_str()); k[u].push_back(b); } }
  return k;
}
static inline frn::Correlator correlator(const Rep &r, unsigned id, const Keys &k) {
  frn::Correlator c(id, r); size_t U = 2 * r.Threshold() + 1;
  if (id < U) { std::vector<PRG> own; for (auto &b : k[id]) own.emplace_back(b.data()); c.SetOwnPRGs(own); }
  for (unsigned u = 0; u < U; u++) { std::vector<PRG> v; for (int j : r.IndexSetFor(id)) v.emplace_back(k[u][(size_t)j].data()); c.SetRandPRGs(v, u); }
  return c;
}
#endif
