// The experiment programs run by all parties over modelled TCP (C34). Built with -DVP_EXP="frn/exp_X.cc" and -DVP_KIND=0 (input), 1 (mult), 2 (check).
#include "kernel.h"
#include "vp.h"
#include <iostream>
#include "frn.h"
int main(int, char **) __asm__("vp_exp_main");  // keeps main's implicit return
#include VP_EXP
struct Arg { unsigned i; int running; int failed; char a1[24], a2[24], a3[24]; };
static void put(char *d, unsigned long v) { char b[24]; int k = 0; do { b[k++] = (char)('0' + v % 10); v /= 10; } while (v); for (int i = 0; i < k; i++) d[i] = b[k - 1 - i]; d[k] = 0; }
static void party(void *p) {
  auto *a = (Arg *)p; K->party[vp_self()] = (int)a->i; char name[] = "exp"; char *args[] = {name, a->a1, a->a2, a->a3, nullptr};
  try { if (main(4, args)) a->failed = 1; } catch (...) { a->failed = 1; } vp_rel(a); a->running = 0;
}
// the printed summaries, whatever the wording around the numbers
struct Tot { unsigned long sent = 0, recv = 0; bool seen = false; };
static std::vector<unsigned long> numbers(const std::string &l) { std::vector<unsigned long> num; for (size_t k = 0; k < l.size();) if (l[k] >= '0' && l[k] <= '9') { unsigned long v = 0; while (k < l.size() && l[k] >= '0' && l[k] <= '9') v = v * 10 + (unsigned long)(l[k++] - '0'); num.push_back(v); } else k++; return num; }
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (n - 1) / 3, U = 2 * t + 1; vp_noyield(1); unsigned long least = (unsigned long)vp_param("least", 0), work = vp_range(least, (unsigned long)vp_param("most", 3), "work");
  K = new Kernel; K->refuse = (int)vp_param("refuse", 1); K->cap = (size_t)vp_param("cap", 1 << 30); K->chunk = (size_t)vp_param("chunk", 1 << 30); K->splits = (int)vp_param("splits", 0); K->split = K->splits > 0;
  std::vector<unsigned> left, order; for (unsigned i = 0; i < n; i++) left.push_back(i); long fixed = vp_param("order", -1);
  if (fixed >= 0) for (unsigned i = 0; i < n; i++) order.push_back((i + (unsigned)fixed) % n); else while (left.size()) { long k = left.size() > 1 ? vp_choose(0, (long)left.size() - 1, "order") : 0; order.push_back(left[(size_t)k]); left.erase(left.begin() + k); }
  std::vector<Arg> a(n); for (unsigned k = 0; k < n; k++) { a[k].i = order[k]; a[k].running = 1; a[k].failed = 0; put(a[k].a1, n); put(a[k].a2, order[k]); a[k].a3[0] = (char)('0' + work); a[k].a3[1] = 0; }
  vp_stdout_capture(true); vp_noyield(0);
  for (auto &x : a) vp_thread(party, &x); for (auto &x : a) { while (x.running) vp_block_while(&x.running); vp_acq(&x); vp_assert(!x.failed, "no party fails"); }
  vp_noyield(1); std::string all = vp_stdout(); vp_stdout_capture(false);
  // what each party should have sent to each other one
  frn::lib::secret_sharing::Replicator<frn::Field> rep(n, t); std::vector<std::vector<size_t>> want(n, std::vector<size_t>(n, 0));
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) {
    size_t e = 0;
    if (VP_KIND == 0) e = rep.ShareSize() + (i == 0 ? work : 0); else e = work * (size_t)((i == 0 && j < n - t ? 1 : 0) + (i < U && j == 0 ? 1 : 0));
    size_t b = e * frn::Field::ByteSize(); if (VP_KIND == 2) { frn::ShrManipulator m(i, t, n); b += 8; for (auto &r : m.GetTableRec()) for (unsigned p : r.party_set) if (p == j) b += (r.value_or_hash == frn::VALUE ? U : 1) * frn::Field::ByteSize(); }
    want[i][j] = b;
  }
  vp_assert(K->conn.size() == n * (n - 1), "one connection per pair");
  for (auto *s : K->conn) { vp_assert(s->closed, "connections are closed"); vp_assert(s->in.empty(), "everything sent is received"); vp_assert(s->wrote == want[(size_t)s->party][(size_t)s->peer], "the traffic is that of the workload asked for"); }
  std::vector<std::vector<Tot>> tot(n, std::vector<Tot>(n)); int cur = -1; std::vector<int> seen(n, 0);
  for (size_t i = 0; i < all.size();) {
    size_t e = all.find('\n', i); if (e == std::string::npos) e = all.size(); std::string l = all.substr(i, e - i); i = e + 1; auto num = numbers(l);
    if (l.find("summary") != std::string::npos) { vp_assert(num.size() == 1 && num[0] < n && !seen[num[0]], "each party prints one summary"); if (num.size() != 1 || num[0] >= n) vp_end(); cur = (int)num[0]; seen[num[0]] = 1; continue; }
    bool se = l.find("sent") != std::string::npos, re = l.find("received") != std::string::npos; if (!se && !re) continue;
    vp_assert(cur >= 0 && num.size() == 1 + (size_t)se + (size_t)re && num[0] < n, "one line per peer, with its totals"); if (cur < 0 || num.size() != 1 + (size_t)se + (size_t)re || num[0] >= n) vp_end();
    Tot &x = tot[(size_t)cur][num[0]]; vp_assert(!x.seen, "one line per peer"); x.seen = true; if (se) x.sent = num[1]; if (re) x.recv = num[se ? 2 : 1];
  }
  for (unsigned i = 0; i < n; i++) { vp_assert(seen[i], "each party prints one summary"); for (unsigned j = 0; j < n; j++) vp_assert(tot[i][j].sent == want[i][j] && tot[i][j].recv == want[j][i], "the totals printed are those of the workload"); }
  vp_reach("end");
}
