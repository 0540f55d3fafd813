// Multiplication traffic (C14) and correlated randomness (C15).
#include "proto.h"
#include "frn/mult.h"
static std::vector<unsigned> subset(unsigned n, unsigned k, long which) {
  std::vector<unsigned> c; for (unsigned i = 0; i < k; i++) c.push_back(i);
  while (which-- > 0) { int i = (int)k - 1; while (i >= 0 && c[(size_t)i] == n - k + (unsigned)i) i--; if (i < 0) return {}; c[(size_t)i]++; for (size_t j = (size_t)i + 1; j < k; j++) c[j] = c[j - 1] + 1; }
  return c;
}
static long choose_count(unsigned n, unsigned k) { unsigned long r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return (long)r; }
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (unsigned)vp_param("t", (long)((n - 1) / 3)), batch = (unsigned)vp_param("batch", 2), bulk = (unsigned)vp_param("bulk", 0), part = (unsigned)vp_param("part", 0), U = 2 * t + 1;
  Rep rep(n, t); Keys keys = sym_keys(rep, "key");
  if (part <= 1) {
    auto hub = std::make_shared<Hub>(n);
    std::vector<Sharing> x, y; std::vector<std::vector<Shr>> out(n);
    for (unsigned k = 0; k < batch; k++) { x.push_back(sym_sharing(rep, vp_name("secret_x", k))); y.push_back(sym_sharing(rep, vp_name("secret_y", k))); }
    std::vector<std::unique_ptr<frn::ShrManipulator>> man; std::vector<std::unique_ptr<frn::Correlator>> corr; std::vector<std::unique_ptr<frn::CheckData>> cd; std::vector<std::shared_ptr<frn::Network>> net;
    for (unsigned i = 0; i < n; i++) { cd.emplace_back(new frn::CheckData(t)); corr.emplace_back(new frn::Correlator(correlator(rep, i, keys))); man.emplace_back(new frn::ShrManipulator(i, t, n)); net.emplace_back(std::make_shared<MemNet>(hub, i)); }
    run_parties(n, [&](unsigned i) {
      frn::Mult m(net[i], rep, *man[i], *corr[i], *cd[i]);
      if (bulk) { // bulk 1: one batch; otherwise batches of up to bulk - 1, from 3 on with single multiplications between them
        for (unsigned k = 0; k < batch;) { unsigned w = bulk == 1 ? batch : std::min(bulk - 1, batch - k); std::vector<Shr> a, b; for (unsigned e = k + w; k < e; k++) { a.push_back(x[k].share[i]); b.push_back(y[k].share[i]); } m.Prepare(a, b); if (bulk > 2 && k < batch) { m.Prepare(x[k].share[i], y[k].share[i]); k++; } }
      } else for (unsigned k = 0; k < batch; k++) m.Prepare(x[k].share[i], y[k].share[i]);
      out[i] = m.Run();
    });
    // sent[i]: what i handed over for opening; everything else is the reconstructor's
    std::vector<std::vector<F>> sent(n);
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) {
      auto v = hub->vals(i, j); bool opens = i == 0 && j < n - t, gives = i < U && j == 0;
      for (auto &m : hub->log[i][j]) vp_assert(m.kind == VALUES, "only field elements travel");
      vp_assert(v.size() == batch * ((opens ? 1 : 0) + (gives ? 1 : 0)), "the first 2t+1 parties send one element per multiplication to the reconstructor, n-t parties get one each, nobody else anything");
      if (gives) sent[i].assign(v.begin(), v.begin() + batch);
    }
    if (part == 0) {
      std::vector<F> opened(batch, F(0));
      for (unsigned u = 0; u < U; u++) { frn::Correlator fresh = correlator(rep, u, keys);
        for (unsigned k = 0; k < batch; k++) { F mask = fresh.GenRandomShare().add_share, prod = man[u]->MultiplyToAdditive(x[k].share[u], y[k].share[u]); feq(sent[u][k], prod - mask, "a message is the local product minus the own share of a fresh random value"); opened[k] += sent[u][k]; } }
      for (unsigned j = 0; j < n - t; j++) { auto v = hub->vals(0, j); for (unsigned k = 0; k < batch; k++) feq(v[v.size() - batch + k], opened[k], "the value opened is the sum of the messages"); }
      vp_assert(hub->drained(), "every message is received");
    } else { // whoever t parties are: the others' messages hide the inputs
      auto who = subset(n, t, vp_choose(0, choose_count(n, t) - 1, "coalition")); std::vector<int> bad(n, 0); for (unsigned i : who) bad[i] = 1;
      for (unsigned u = 0; u < U; u++) if (!bad[u]) for (unsigned k = 0; k < batch; k++) vp_view(&sent[u][k]);
      // ... together with all randomness those t parties hold
      for (unsigned i : who) { frn::Correlator c = correlator(rep, i, keys); for (unsigned k = 0; k < batch; k++) { auto r = c.GenRandomShare(); vp_view(&r.add_share); for (auto &s : r.rep_add_shares) for (auto &e : s) vp_view(&e); } }
      vp_indist("what t parties see of a multiplication does not depend on the inputs");
    }
  } else {
    std::vector<frn::Correlator> c; for (unsigned i = 0; i < n; i++) c.push_back(correlator(rep, i, keys));
    unsigned rounds = (unsigned)vp_param("rounds", 3);
    for (unsigned k = 0; k < rounds; k++) {
      std::vector<frn::RandomShare> r; for (unsigned i = 0; i < n; i++) { r.push_back(c[i].GenRandomShare()); if (part == 2 && vp_param("mix", 0)) { auto d = c[i].GenRandomShareDummy(); auto z = c[i].GenZeroShareDummy(); vp_assert(d.rep_add_shares.size() == r[i].rep_add_shares.size() && z.rep_add_shares.size() == d.rep_add_shares.size(), "shape"); } }
      if (part == 2) {
        std::vector<Shr> s; for (auto &e : r) s.push_back(e.rep_share); F v = check_sharing(rep, s, "the random value is shared consistently"), sum(0);
        for (unsigned i = 0; i < n; i++) { vp_assert(r[i].rep_add_shares.size() == U, "one sharing per additive share"); if (i < U) sum += r[i].add_share; else feq(r[i].add_share, F(0), "the other parties have no additive share"); }
        feq(sum, v, "the additive shares sum to the random value");
        for (unsigned u = 0; u < U; u++) { std::vector<Shr> z; for (auto &e : r) z.push_back(e.rep_add_shares[u]); feq(check_sharing(rep, z, "each additive share is shared consistently"), r[u].add_share, "each additive share is correctly shared"); }
      } else // fresh: adding them to secrets hides the secrets, all together
        for (unsigned u = 0; u < U; u++) { F m = r[u].add_share + fsym(vp_name("secret", u, k)); vp_view(&m); }
    }
    if (part == 3) vp_indist("successive random values are fresh");
    if (part == 2) for (unsigned i = 0; i < n; i++) {
      auto d = c[i].GenRandomShareDummy(); auto z = c[i].GenZeroShareDummy(); size_t S = rep.ShareSize(); F o(0);
      vp_assert(d.rep_share.size() == S && d.rep_add_shares.size() == U && z.rep_add_shares.size() == U, "dummies have the shape of real ones"); vp_assert(d.add_share == o && z.add_share == o, "dummies are zero");
      for (auto &e : d.rep_share) vp_assert(e == o, "dummies are zero"); for (auto &s : d.rep_add_shares) { vp_assert(s.size() == S, "dummies have the shape of real ones"); for (auto &e : s) vp_assert(e == o, "dummies are zero"); }
      for (auto &s : z.rep_add_shares) { vp_assert(s.size() == S, "dummies have the shape of real ones"); for (auto &e : s) vp_assert(e == o, "dummies are zero"); }
    }
  }
  vp_reach("end");
}
