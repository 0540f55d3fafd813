// Setup of the input protocol and the protocol itself (C16, C17).
#include "proto.h"
#include "frn/input.h"
static std::vector<unsigned> subset(unsigned n, unsigned k, long which) {
  std::vector<unsigned> c; for (unsigned i = 0; i < k; i++) c.push_back(i);
  while (which-- > 0) { int i = (int)k - 1; while (i >= 0 && c[(size_t)i] == n - k + (unsigned)i) i--; if (i < 0) return {}; c[(size_t)i]++; for (size_t j = (size_t)i + 1; j < k; j++) c[j] = c[j - 1] + 1; }
  return c;
}
static long choose_count(unsigned n, unsigned k) { unsigned long r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return (long)r; }
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (unsigned)vp_param("t", (long)((n - 1) / 3)), max = (unsigned)vp_param("max", 2), bulk = (unsigned)vp_param("bulk", 0), part = (unsigned)vp_param("part", 0), pat = (unsigned)vp_param("pattern", 0);
  Rep rep(n, t); auto hub = std::make_shared<Hub>(n); std::vector<std::shared_ptr<frn::Network>> net; std::vector<PRG> prg;
  for (unsigned i = 0; i < n; i++) { net.push_back(std::make_shared<MemNet>(hub, i)); unsigned char b[PRG::SeedSize()]; vp_bytes(b, sizeof b, vp_name("seed", i).c_str()); prg.emplace_back(b); }
  // how many secrets each party inputs
  std::vector<unsigned> cnt(n); for (unsigned i = 0; i < n; i++) cnt[i] = pat == 0 ? (unsigned)vp_choose(0, max, vp_name("inputs", i).c_str()) : pat == 1 ? max : pat == 2 ? (i == n - 1 ? max : 0) : (i + pat) % (max + 1);
  std::vector<std::vector<F>> secret(n); for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < cnt[i]; k++) secret[i].push_back(fsym(vp_name("secret", i, k)));
  std::vector<std::unique_ptr<frn::InputSetup::Correlator>> corr(n); std::vector<std::vector<std::vector<Shr>>> out(n);
  run_parties(n, [&](unsigned i) { frn::InputSetup s(net[i], rep, prg[i]); corr[i].reset(new frn::InputSetup::Correlator(s.Run())); });
  vp_assert(hub->drained(), "every setup message is received");
  // setup traffic: one share from everybody to everybody, and the shares from i form a sharing
  std::vector<std::vector<Shr>> dealt(n);
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { Shr s; unsigned k = 0; for (auto &m : hub->log[i][j]) { vp_assert(m.kind == SHARES, "setup sends shares"); for (auto &x : m.s) { s = x; k++; } } vp_assert(k == 1, "setup sends each party exactly one share of each key"); dealt[i].push_back(s); }
  if (part == 1) for (unsigned i = 0; i < n; i++) check_sharing(rep, dealt[i], "each party gets its own share of the key");
  hub->clearLog();
  run_parties(n, [&](unsigned i) {
    frn::Input in(net[i], frn::ShrManipulator(i, t, n), *corr[i]);
    if (bulk == 3) { // one by one and in bulk, mixed
      auto &v = secret[i]; size_t k = 0; bool one = true; while (k < v.size()) { if (one) in.Prepare(v[k++]); else { size_t m = std::min<size_t>(2, v.size() - k); in.Prepare(std::vector<F>(v.begin() + (long)k, v.begin() + (long)(k + m))); k += m; } one = !one; }
      for (unsigned j = 0; j < n; j++) if (j != i) { unsigned got = 0; bool sing = j % 2; while (got < cnt[j]) { if (sing) { in.PrepareToReceive(j); got++; } else { unsigned m = std::min(3u, cnt[j] - got); in.PrepareToReceive(j, m); got += m; } sing = !sing; } }
    } else if (bulk == 4) { // two batches
      auto &v = secret[i]; size_t h = v.size() / 2; in.Prepare(std::vector<F>(v.begin(), v.begin() + (long)h)); in.Prepare(std::vector<F>(v.begin() + (long)h, v.end()));
      for (unsigned j = 0; j < n; j++) if (j != i) { in.PrepareToReceive(j, cnt[j] - cnt[j] / 2); in.PrepareToReceive(j, cnt[j] / 2); }
    } else if (bulk == 2) { for (unsigned j = n; j-- > 0;) if (j != i) in.PrepareToReceive(j, cnt[j]); }
    if (bulk == 1 || bulk == 2) in.Prepare(secret[i]); else if (!bulk) for (auto &s : secret[i]) in.Prepare(s);
    if (bulk == 1) { for (unsigned j = 0; j < n; j++) if (j != i) in.PrepareToReceive(j, cnt[j]); }
    else if (!bulk) { for (unsigned k = 0; k < max; k++) for (unsigned j = 0; j < n; j++) if (j != i && k < cnt[j]) in.PrepareToReceive(j); }
    out[i] = in.Run();
  });
  vp_assert(hub->drained(), "every message is received");
  if (part == 0) {
    for (unsigned i = 0; i < n; i++) { vp_assert(out[i].size() == n, "one list per party"); for (unsigned j = 0; j < n; j++) vp_assert(out[i][j].size() == cnt[j], "one share per secret"); }
    for (unsigned j = 0; j < n; j++) for (unsigned k = 0; k < cnt[j]; k++) { std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(out[i][j][k]); feq(check_sharing(rep, z, "the input is shared consistently"), secret[j][k], "the input shared is the secret"); }
  } else {
    for (unsigned i = 0; i < n; i++) {
      std::vector<F> mask; for (unsigned k = 0; k < cnt[i]; k++) mask.push_back(corr[i]->GetMask()); // the copy given to the protocol advanced on its own
      for (unsigned j = 0; j < n; j++) { for (auto &m : hub->log[i][j]) vp_assert(m.kind == VALUES, "only masked values travel"); auto v = hub->vals(i, j); vp_assert(v.size() == cnt[i], "one masked value per secret to everybody, nothing without inputs"); for (unsigned k = 0; k < cnt[i]; k++) feq(v[k], secret[i][k] - mask[k], "what is sent is the secret minus a mask"); }
    }
    // t parties, none of them the one inputting: everything they received, and all masks they can derive themselves
    auto who = subset(n, t, vp_choose(0, choose_count(n, t) - 1, "coalition")); std::vector<int> bad(n, 0); for (unsigned i : who) bad[i] = 1;
    for (unsigned i : who) for (unsigned j = 0; j < n; j++) if (!bad[j]) { for (auto &e : dealt[j][i]) vp_view(&e); auto v = hub->vals(j, i); for (auto &e : v) vp_view(&e); for (unsigned k = 0; k < cnt[j]; k++) { Shr s = corr[i]->GetMaskShare(j); for (auto &e : s) vp_view(&e); } }
    vp_indist("what t parties see of the input protocol does not depend on the others' inputs");
  }
  vp_reach("end");
}
