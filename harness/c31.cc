// Parties that deviate in the multiplication (C31) or input (C32) protocols, and whole computations (C33).
#include "proto.h"
#include "frn/check.h"
#include "frn/input.h"
#include <functional>
// a party that replaces what it sends: hook(receiver, how many times it sent field elements to that receiver before, values)
struct Deviator : MemNet {
  std::function<void(unsigned, unsigned, std::vector<F> &)> hook; std::function<void(unsigned, std::vector<Shr> &)> shook; std::vector<unsigned> sent;
  Deviator(std::shared_ptr<Hub> h, unsigned id) : MemNet(h, id), sent(h->n, 0) {}
  void Send(unsigned to, const std::vector<F> &v) override { std::vector<F> w = v; if (hook && to < sent.size()) hook(to, sent[to]++, w); MemNet::Send(to, w); }
  void SendShares(unsigned to, const std::vector<Shr> &v) override { std::vector<Shr> w = v; if (shook) shook(to, w); MemNet::SendShares(to, w); }
};
typedef std::vector<std::unique_ptr<frn::Correlator>> Corrs;
static Corrs correlators(const Rep &rep, unsigned n, const char *name) { Keys k = sym_keys(rep, name); Corrs c; for (unsigned i = 0; i < n; i++) c.emplace_back(new frn::Correlator(correlator(rep, i, k))); return c; }
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (unsigned)vp_param("t", (long)((n - 1) / 3)), batch = (unsigned)vp_param("batch", 2), rounds = (unsigned)vp_param("rounds", 1), part = (unsigned)vp_param("part", 0), U = 2 * t + 1;
  Rep rep(n, t), dbl(n, 2 * t); std::vector<std::unique_ptr<frn::ShrManipulator>> man; for (unsigned i = 0; i < n; i++) man.emplace_back(new frn::ShrManipulator(i, t, n));
  auto hub = std::make_shared<Hub>(n); std::vector<std::shared_ptr<Deviator>> net; for (unsigned i = 0; i < n; i++) net.push_back(std::make_shared<Deviator>(hub, i));
  if (part <= 1) { // 0: any of the senders deviate; 1: the reconstructor does
    std::vector<std::unique_ptr<frn::CheckData>> cd; for (unsigned i = 0; i < n; i++) cd.emplace_back(new frn::CheckData(t));
    std::vector<std::vector<F>> e(n), masks(U); // e[i]: what was added to i's messages, or to the messages to i
    unsigned same = (unsigned)vp_param("same", 0);
    for (unsigned r = 0; r < rounds; r++) {
      Corrs corr = correlators(rep, n, vp_name("key", r).c_str()); std::vector<Sharing> x, y; std::vector<std::vector<Shr>> out(n), plain(batch);
      for (unsigned k = 0; k < batch; k++) { x.push_back(sym_sharing(rep, vp_name("x", r, k))); y.push_back(sym_sharing(rep, vp_name("y", r, k))); }
      std::vector<F> all; if (same) for (unsigned k = 0; k < batch; k++) all.push_back(fsym(vp_name("f", r, k)));
      for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < batch; k++) e[i].push_back(same ? all[k] : fsym(vp_name("e", i, (long)(r * batch + k))));
      for (unsigned u = 0; u < U; u++) { frn::Correlator c = *corr[u]; for (unsigned k = 0; k < batch; k++) masks[u].push_back(c.GenRandomShare().add_share); }
      for (unsigned i = 0; i < n; i++) { // the first message to the reconstructor is the product, the reconstructor's other ones are openings
        net[i]->sent.assign(n, 0);
        net[i]->hook = [&, i, r](unsigned to, unsigned nth, std::vector<F> &v) {
          bool opens = i == 0 && (to || nth); if (opens != (part == 1)) return; unsigned who = part ? to : i;
          for (size_t k = 0; k < v.size() && k < batch; k++) v[k] += e[who][r * batch + k];
        };
      }
      run_parties(n, [&](unsigned i) { frn::Mult p(net[i], rep, *man[i], *corr[i], *cd[i]); for (unsigned k = 0; k < batch; k++) p.Prepare(x[k].share[i], y[k].share[i]); out[i] = p.Run(); });
      for (unsigned i = 0; i < n; i++) vp_assert(out[i].size() == batch, "one output per product");
      for (unsigned k = 0; k < batch; k++) {
        F want = x[k].value * y[k].value; size_t q = r * batch + k; std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(out[i][k]);
        if (part == 0) { for (unsigned u = 0; u < U; u++) want += e[u][q]; } else if (same) want += e[0][q];
        else for (unsigned i = 0; i < n; i++) z[i] = man[i]->AddConstant(z[i], -e[i][q]); // each party's output is off by what it was told too much
        feq(check_sharing(rep, z, "the outputs are consistent up to what each party was told"), want, "the output is the product plus what was added");
      }
    }
    vp_assert(hub->drained(), "every message is received"); for (auto &d : net) d->hook = nullptr;
    std::vector<std::unique_ptr<frn::Check>> chk; for (unsigned i = 0; i < n; i++) chk.emplace_back(new frn::Check(net[i], rep, *man[i], *cd[i]));
    run_parties(n, [&](unsigned i) { chk[i]->ComputeRandomCoefficients(); chk[i]->PrepareLinearCombinations(); chk[i]->PrepareMsgs(); });
    auto &c = chk[0]->VerifCoefficients(); size_t total = (size_t)batch * rounds; vp_assert(c.size() == total, "one coefficient per multiplication"); if (c.size() != total) vp_end();
    // no change vanishes on its own, and no two opposite changes cancel out
    for (size_t k = 0; k < total; k++) { vp_assert(c[k] != F(0), "no coefficient is zero"); for (size_t l = 0; l < k; l++) vp_assert(c[k] != c[l], "every multiplication has a coefficient of its own"); }
    auto weighted = [&](unsigned i) { F s(0); for (size_t k = 0; k < total; k++) s += c[k] * e[i][k]; return s; };
    auto &rec = chk[0]->VerifCompressed().shares_recv_by_p1; vp_assert(rec.size() == U, "one combined value per sender"); if (rec.size() != U) vp_end(); F sum(0); for (auto &v : rec) sum += v;
    for (unsigned u = 0; u < U; u++) {
      auto &d = chk[u]->VerifCompressed();
      if (u) { feq(rec[u], part == 0 ? d.shares_sent_to_p1 + weighted(u) : d.shares_sent_to_p1, "what the reconstructor got differs from what was sent by the weighted change"); feq(d.values_recv_from_p1, part == 0 ? sum : sum + weighted(u), "what a party was told differs from the sum of what was received by the weighted change"); }
      std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(chk[i]->VerifCompressed().msgs[u]); F m(0); for (size_t k = 0; k < total; k++) m += c[k] * masks[u][k];
      feq(check_sharing(dbl, z, "the combined messages stay consistent sharings"), part == 0 ? rec[u] + m - weighted(u) : rec[u] + m, "the combined messages share what should have been sent");
    }
  } else if (part == 2) { // any set of parties deviate in the input protocol; mode 0: announce other values, the same to everybody; 1: different ones; 2: deal other keys as well; 3: deal other keys consistently
    unsigned mode = (unsigned)vp_param("mode", 0); std::vector<int> bad(n, 0); for (unsigned i = 0; i < n; i++) bad[i] = (int)((unsigned)vp_param("bad", 1) >> i & 1);
    std::vector<PRG> prg; bool fixed = vp_param("fixed", 0); // fixed: the generators of the setup are known, so that comparisons with dealt keys do not multiply
    for (unsigned i = 0; i < n; i++) { unsigned char b[PRG::SeedSize()] = {(unsigned char)(i + 1)}; if (!fixed) vp_bytes(b, sizeof b, vp_name("seed", i).c_str()); prg.emplace_back(b); }
    std::vector<std::vector<F>> other(n); if (mode == 3) for (unsigned i = 0; i < n; i++) for (size_t k = 0; k < rep.AdditiveShareSize(); k++) other[i].push_back(fsym(vp_name("piece", i, (long)k)));
    std::vector<std::vector<F>> secret(n), all(n); for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < batch; k++) { secret[i].push_back(fsym(vp_name("secret", i, k))); all[i].push_back(fsym(vp_name("all", i, k))); }
    std::vector<std::unique_ptr<frn::InputSetup::Correlator>> corr(n); std::vector<std::vector<std::vector<Shr>>> out(n);
    for (unsigned i = 0; i < n; i++) if (bad[i]) {
      if (mode == 2) net[i]->shook = [i](unsigned to, std::vector<Shr> &v) { for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v[a].size(); b++) v[a][b] = fsym(vp_name("dealt", (long)(i * 100 + to), (long)(a * 1000 + b))); };
      if (mode == 3) net[i]->shook = [&, i](unsigned to, std::vector<Shr> &v) { auto is = rep.IndexSetFor(to); for (auto &s : v) { vp_assert(s.size() == is.size(), "one key piece for each piece held"); for (size_t b = 0; b < s.size() && b < is.size(); b++) s[b] = other[i][(size_t)is[b]]; } };
      net[i]->hook = [&, i](unsigned to, unsigned, std::vector<F> &v) { for (size_t k = 0; k < v.size() && k < batch; k++) v[k] += mode ? fsym(vp_name("d", (long)(i * 100 + to), (long)k)) : all[i][k]; };
    }
    run_parties(n, [&](unsigned i) { frn::InputSetup s(net[i], rep, prg[i]); corr[i].reset(new frn::InputSetup::Correlator(s.Run())); });
    run_parties(n, [&](unsigned i) { frn::Input in(net[i], frn::ShrManipulator(i, t, n), *corr[i]); for (auto &s : secret[i]) in.Prepare(s); for (unsigned j = 0; j < n; j++) if (j != i) in.PrepareToReceive(j, batch); out[i] = in.Run(); });
    vp_assert(hub->drained(), "every message is received");
    for (unsigned j = 0; j < n; j++) {
      for (unsigned i = 0; i < n; i++) vp_assert(out[i].size() == n && out[i][j].size() == batch, "one share per secret");
      if (bad[j] && mode) continue;
      for (unsigned k = 0; k < batch; k++) { std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(out[i][j][k]); feq(check_sharing(rep, z, "inputs are shared consistently"), bad[j] ? secret[j][k] + all[j][k] : secret[j][k], bad[j] ? "a changed announcement is a changed input" : "the inputs of the others are not affected"); }
    }
  } else { // 3: a whole computation: inputs, linear steps, two layers of products, the check, the openings
    unsigned layers = (unsigned)vp_param("layers", 2); std::vector<PRG> prg; for (unsigned i = 0; i < n; i++) { unsigned char b[PRG::SeedSize()]; vp_bytes(b, sizeof b, vp_name("seed", i).c_str()); prg.emplace_back(b); }
    std::vector<std::vector<F>> secret(n); for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < batch; k++) secret[i].push_back(fsym(vp_name("secret", i, k)));
    std::vector<Corrs> corr; for (unsigned l = 0; l < layers; l++) corr.push_back(correlators(rep, n, vp_name("key", l).c_str()));
    F c0 = fsym("c0"), c1 = fsym("c1"); std::vector<std::unique_ptr<frn::CheckData>> cd; for (unsigned i = 0; i < n; i++) cd.emplace_back(new frn::CheckData(t));
    std::vector<std::vector<Shr>> res(n); std::vector<std::vector<F>> opened(n); std::vector<F> wire;
    { // in the clear: wire k starts as party k's inputs combined; a layer multiplies each wire with the next one and adds the constants
      for (unsigned k = 0; k < 2; k++) { F v = c1; for (unsigned i = k; i < n; i += 2) for (unsigned b = 0; b < batch; b++) v = v + (b % 2 ? c0 * secret[i][b] : secret[i][b]); wire.push_back(v); }
      for (unsigned l = 0; l < layers; l++) { F a = wire[0] * wire[1], b = wire[1] * wire[1]; wire[0] = a - wire[1]; wire[1] = c0 * b + c1; }
    }
    std::vector<std::unique_ptr<frn::Check>> chk(n);
    run_parties(n, [&](unsigned i) {
      frn::InputSetup s(net[i], rep, prg[i]); auto ic = s.Run(); frn::Input in(net[i], *man[i], ic); in.Prepare(secret[i]); for (unsigned j = 0; j < n; j++) if (j != i) in.PrepareToReceive(j, batch); auto got = in.Run();
      std::vector<Shr> w; auto &m = *man[i];
      for (unsigned k = 0; k < 2; k++) { Shr v = m.AddConstant(Shr(rep.ShareSize(), F(0)), c1); for (unsigned j = k; j < n; j += 2) for (unsigned b = 0; b < batch; b++) v = m.Add(v, b % 2 ? m.MultiplyConstant(c0, got[j][b]) : got[j][b]); w.push_back(v); }
      for (unsigned l = 0; l < layers; l++) { frn::Mult p(net[i], rep, m, *corr[l][i], *cd[i]); p.Prepare(w, {w[1], w[1]}); auto o = p.Run(); vp_assert(o.size() == 2, "one output per product"); Shr nw = m.Subtract(o[0], w[1]); w[1] = m.AddConstant(m.MultiplyConstant(c0, o[1]), c1); w[0] = nw; }
      res[i] = w; chk[i].reset(new frn::Check(net[i], rep, m, *cd[i])); chk[i]->ComputeRandomCoefficients(); chk[i]->PrepareLinearCombinations(); chk[i]->PrepareMsgs(); chk[i]->ReconstructMsgs();
      // everybody opens both wires to everybody
      for (unsigned j = 0; j < n; j++) net[i]->SendShares(j, w);
      std::vector<Shr> a, b; for (unsigned j = 0; j < n; j++) { auto v = net[i]->RecvShares(j, 2); a.push_back(v[0]); b.push_back(v[1]); }
      opened[i] = {rep.ErrorDetection(a), rep.Reconstruct(b)};
    });
    vp_assert(hub->drained(), "every message is received");
    for (unsigned i = 0; i < n; i++) for (unsigned k = 0; k < 2; k++) feq(opened[i][k], wire[k], "every party opens the function of the inputs");
    auto &rec = chk[0]->VerifCompressed().shares_recv_by_p1; F sum(0); for (auto &v : rec) sum += v;
    for (unsigned u = 1; u < U; u++) { feq(chk[u]->VerifCompressed().shares_sent_to_p1, rec[u], "the check agrees on what was sent"); feq(chk[u]->VerifCompressed().values_recv_from_p1, sum, "the check agrees on what was opened"); }
  }
  vp_reach("end");
}
