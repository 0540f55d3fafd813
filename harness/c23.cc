// Queued sending, the shared queue and messages to oneself, under every interleaving (C23, C24, C25).
#include "vp.h"
#include <condition_variable>
#include <future>
#include <mutex>
#include <mutex>
#include <thread>
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/shared_deque.h"
using namespace frn::lib::net;
#ifndef VP_THR_H
static int vp_spurious;
#endif
typedef unsigned char u8;
// a connection that records what it is given; optionally slow, or failing after some messages
struct Rec : Connector {
  std::vector<u8> got; size_t calls = 0; int closed = 0, opened = 0, hold = 0; long fail_after = -1; bool busy = false, slow = false;
  std::int64_t Send(const u8 *b, std::size_t n) override {
    vp_assert(opened && !closed, "sent on an open connection"); vp_assert(!busy, "one transfer at a time"); busy = true;
    while (hold) vp_block_while(&hold);
    if (slow) vp_yield();
    if (fail_after >= 0 && (long)calls >= fail_after) { busy = false; mState = State::eError; throw std::runtime_error("connection lost"); }
    calls++; got.insert(got.end(), b, b + n); vp_assert(!closed, "not closed during a transfer"); busy = false; return (std::int64_t)n;
  }
  std::int64_t Recv(u8 *, std::size_t) override { vp_fail("nothing is received"); return 0; }
  std::string ToString() const override { return "rec"; }
  void EstablishConnection() override { opened++; }
  void TeardownConnection() override { closed++; vp_assert(closed == 1 && !busy, "closed once, after the transfers"); }
};
static void queued() { // C23
  int how = (int)vp_param("how", 0); long k = vp_param("msgs", 3); auto *r = new Rec; std::unique_ptr<Connector> c(r); r->slow = how == 1; vp_spurious = (int)vp_param("spurious", 0); std::vector<u8> want; vp_noyield(1);
  {
    AsyncSenderChannel ch(c); std::vector<std::vector<u8>> m((size_t)k); for (long i = 0; i < k; i++) { m[(size_t)i].resize(vp_concrete(vp_range(0, (unsigned long)vp_param("max", 2), vp_name("n", i).c_str()))); vp_bytes(m[(size_t)i].data(), m[(size_t)i].size(), vp_name("m", i).c_str()); }
    vp_noyield(0); ch.Open(); vp_assert(r->opened == 1 && ch.State() == Connector::State::eActive, "open"); if (how == 2) r->hold = 1; if (how == 3) r->fail_after = vp_choose(0, k, "fail");
    for (auto &v : m) { std::vector<u8> copy = v; ch.Send(copy.data(), copy.size()); for (auto &b : copy) b = 0; want.insert(want.end(), v.begin(), v.end()); }
    if (how == 2) { vp_assert(r->got.empty(), "nothing was transferred yet, the peer being slow"); r->hold = 0; }
    ch.Close(); vp_assert(r->closed == 1, "the connection is closed");
    if (how != 3) vp_assert(ch.State() == Connector::State::eClosed, "closed");
    size_t n = 0; if (how == 3 && r->fail_after < k) { for (long i = 0; i < r->fail_after; i++) n += m[(size_t)i].size(); vp_assert(r->got.size() == n, "everything before the failure, nothing after it"); } else n = want.size();
    vp_assert(r->got.size() == n, "everything sent before close is transferred before close returns, and nothing else"); vp_assert_eq(r->got.data(), want.data(), n, 0, "the bytes sent, in order");
    std::vector<u8> before = r->got; vp_yield(); vp_assert(r->got.size() == before.size(), "nothing is transferred afterwards");
  }
  vp_reach("end");
}
struct Item { int by, seq; u8 v; };
static void fifo() { // C24: producers, one consumer
  int P = (int)vp_param("producers", 2), K = (int)vp_param("items", 2); vp_spurious = (int)vp_param("spurious", 0); SharedDeque<Item> q; std::vector<std::vector<Item>> put((size_t)P); vp_noyield(1);
  for (int p = 0; p < P; p++) for (int k = 0; k < K; k++) put[(size_t)p].push_back({p, k, (u8)vp_sym(8, vp_name("v", p, k).c_str())});
  vp_noyield(0); std::vector<std::thread> th; for (int p = 0; p < P; p++) th.emplace_back([&, p] { for (int k = 0; k < K; k++) { if (k & 1) q.PushBack(Item(put[(size_t)p][(size_t)k])); else q.PushBack(put[(size_t)p][(size_t)k]); } });
  std::vector<int> next((size_t)P, 0); int got = 0;
  for (int i = 0; i < P * K; i++) {
    if (vp_param("size", 0)) { size_t s = q.Size(); vp_assert(s <= (size_t)(P * K - got), "the size counts what was pushed and not popped"); }
    Item &f = q.Front(); Item x = f; vp_yield(); vp_assert(f.by == x.by && f.seq == x.seq && f.v == x.v, "the front stays in place until it is popped"); vp_assert(x.by >= 0 && x.by < P && x.seq == next[(size_t)x.by], "each producer's items in order, each once"); vp_assert(x.v == put[(size_t)x.by][(size_t)x.seq].v, "unchanged"); next[(size_t)x.by]++; q.PopFront(); got++;
  }
  for (auto &t : th) t.join(); vp_assert(q.Size() == 0, "nothing remains"); vp_reach("end");
}
static void poppers() { // C24: several consumers take items; none blocks while there are items for it
  int C = (int)vp_param("consumers", 2), extra = (int)vp_param("extra", 1); vp_spurious = (int)vp_param("spurious", 0); SharedDeque<int> q; int popped = 0; std::vector<std::thread> th;
  for (int c = 0; c < C; c++) th.emplace_back([&] { q.PopFront(); popped++; });
  for (int k = 0; k < C + extra; k++) { if (k & 1) { int v = k; q.PushBack(v); } else q.PushBack(int(k)); }
  for (auto &t : th) t.join(); vp_assert(popped == C && q.Size() == (size_t)extra, "every consumer took exactly one item"); for (int k = C; k < C + extra; k++) { vp_assert(q.Front() == k, "the last ones remain, in order"); q.PopFront(); } vp_assert(q.Size() == 0, "empty"); vp_reach("end");
}
static void readers() { // C24: readers return as soon as there is something to read
  int R = (int)vp_param("readers", 2); vp_spurious = (int)vp_param("spurious", 0); SharedDeque<int> q; int saw = 0; std::vector<std::thread> th; int pop = (int)vp_param("pop", 0);
  for (int c = 0; c < R; c++) th.emplace_back([&] { vp_assert(q.Front() == 7, "the item"); saw++; });
  if (pop) th.emplace_back([&] { q.PopFront(); }); // together with one that takes an item
  q.PushBack(7); if (pop) q.PushBack(7);
  for (auto &t : th) t.join(); vp_assert(saw == R && q.Size() == 1, "every reader saw the item"); vp_reach("end");
}
// C25
static std::vector<size_t> pieces(size_t n, const char *name, long maxp) { std::vector<size_t> r; size_t left = n; for (long i = 0; i < maxp && left; i++) { size_t k = i + 1 == maxp ? left : (size_t)vp_choose(1, (long)left, vp_name(name, i).c_str()); r.push_back(k); left -= k; } return r; }
static void stream(bool async) {
  vp_noyield(1); auto buf = LocalConnector::MakeBuffer(); std::unique_ptr<Connector> c = std::make_unique<LocalConnector>(buf, buf); std::unique_ptr<Channel> ch; if (async) ch.reset(new AsyncSenderChannel(c)); else ch.reset(new Channel(c));
  long k = vp_param("msgs", 3); std::vector<std::vector<u8>> m((size_t)k); std::vector<u8> all; for (long i = 0; i < k; i++) { m[(size_t)i].resize(vp_concrete(vp_range(0, (unsigned long)vp_param("max", 3), vp_name("n", i).c_str()))); vp_bytes(m[(size_t)i].data(), m[(size_t)i].size(), vp_name("m", i).c_str()); all.insert(all.end(), m[(size_t)i].begin(), m[(size_t)i].end()); }
  long early = vp_choose(0, k, "early"); size_t head = 0; for (long i = 0; i < early; i++) head += m[(size_t)i].size(); auto p1 = pieces(head, "r", vp_param("reads", 4)); size_t take1 = p1.empty() ? 0 : p1.size() - (size_t)vp_choose(0, 1, "leave"); // the last piece may be left for later
  vp_noyield(0); ch->Open(); std::vector<u8> got; auto recv = [&](size_t n) { std::vector<u8> b(n + 2, 0xa5); ch->Recv(b.data() + 1, n); vp_assert(b[0] == 0xa5 && b[n + 1] == 0xa5, "only the buffer is written"); got.insert(got.end(), b.begin() + 1, b.end() - 1); };
  for (long i = 0; i < early; i++) { std::vector<u8> v = m[(size_t)i]; ch->Send(v.data(), v.size()); for (auto &x : v) x = 0; }
  for (size_t i = 0; i < take1; i++) recv(p1[i]);
  for (long i = early; i < k; i++) { std::vector<u8> v = m[(size_t)i]; ch->Send(v.data(), v.size()); for (auto &x : v) x = 0; }
  size_t left = all.size() - got.size(); std::vector<size_t> p2 = pieces(left, "s", vp_param("reads2", 3)); for (size_t n : p2) recv(n);
  vp_assert(got.size() == all.size(), "complete"); vp_assert_eq(got.data(), all.data(), got.size(), 0, "in order and unaltered");
  if (async) { ch->Close(); vp_assert(ch->State() == Connector::State::eClosed, "closed"); }
  size_t rest = 0; while (buf->Size()) { rest += buf->Front().size(); buf->PopFront(); } vp_assert(rest == 0, "nothing is left over"); vp_reach("end");
}
static void two() { // the two ends of a pair of buffers
  auto a = LocalConnector::MakeBuffer(), b = LocalConnector::MakeBuffer(); LocalConnector x(a, b), y(b, a); u8 m[4], r[4]; vp_bytes(m, 4, "m"); x.Send(m, 2); y.Send(m + 2, 2); vp_assert(y.Recv(r, 2) == 2 && x.Recv(r + 2, 2) == 2, "both directions"); vp_assert_eq(m, r, 4, 0, "each side receives what the other sent");
  LocalConnector::BufferPtr none; vp_assert(vp_throws([&] { LocalConnector z(a, none); }) && vp_throws([&] { LocalConnector z(none, a); }), "missing buffers are refused"); vp_reach("end");
}
static void sizes() { // reads of any size at the connector itself
  auto buf = LocalConnector::MakeBuffer(); LocalConnector c(buf, buf); long k = vp_param("msgs", 2); std::vector<u8> all; std::vector<size_t> len; size_t at = 0, in = 0;
  for (long i = 0; i < k; i++) { size_t n = (size_t)vp_concrete(vp_range(1, (unsigned long)vp_param("max", 4), vp_name("n", i).c_str())); std::vector<u8> m(n); vp_bytes(m.data(), n, vp_name("m", i).c_str()); len.push_back(n); all.insert(all.end(), m.begin(), m.end()); vp_assert(c.Send(m.data(), n) == (long)n, "everything is taken"); }
  for (long i = 0, q = 0; q < k && i < vp_param("reads", 4); i++) {
    unsigned long want = vp_range(1, 1ul << 44, vp_name("want", i).c_str()); std::vector<u8> b(all.size() + 1, 0xa5); long n = c.Recv(b.data(), want);
    vp_assert(n > 0 && (unsigned long)n <= want && (unsigned long)n <= all.size() - at, "as much as asked for and available at most"); size_t m = (size_t)vp_concrete((unsigned long)n);
    vp_assert_eq(b.data(), all.data() + at, m, 0, "the next bytes"); vp_assert(b[m] == 0xa5, "and nothing else is written"); at += m; in += m; while (q < k && in >= len[(size_t)q]) in -= len[(size_t)q++];
  }
  vp_reach("end");
}
extern "C" void vp_main() { switch (vp_param("part", 0)) { case 0: queued(); break; case 1: fifo(); break; case 2: poppers(); break; case 3: readers(); break; case 4: stream(false); break; case 5: stream(true); break; case 6: two(); break; case 7: sizes(); break; } }
