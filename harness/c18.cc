// Verification of multiplications: transcripts (C18) and openings (C19).
#include "proto.h"
#include "frn/check.h"
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (unsigned)vp_param("t", (long)((n - 1) / 3)), batch = (unsigned)vp_param("batch", 2), rounds = (unsigned)vp_param("rounds", 1), part = (unsigned)vp_param("part", 0), U = 2 * t + 1;
  Rep rep(n, t), dbl(n, 2 * t); std::vector<std::unique_ptr<frn::ShrManipulator>> man; for (unsigned i = 0; i < n; i++) man.emplace_back(new frn::ShrManipulator(i, t, n));
  if (part == 1) { // the opening plan
    std::vector<int> valueSenders(dbl.AdditiveShareSize(), 0);
    for (unsigned i = 0; i < n; i++) {
      auto tab = man[i]->GetTableRec(); auto is = dbl.IndexSetFor(i); vp_assert(tab.size() == is.size(), "one entry per piece held");
      for (size_t k = 0; k < is.size(); k++) {
        auto set = dbl.Combination(is[k]); std::vector<int> lacks(n, 1), got(n, 0); for (int h : set) lacks[(size_t)h] = 0;
        for (unsigned p : tab[k].party_set) { vp_assert(p < n, "receivers exist"); if (p < n) got[p]++; }
        for (unsigned p = 0; p < n; p++) vp_assert(got[p] == lacks[p], "a piece goes exactly to the parties lacking it, once");
        vp_assert(tab[k].value_or_hash == frn::VALUE || tab[k].value_or_hash == frn::HASH, "a value or a digest"); if (tab[k].value_or_hash == frn::VALUE) valueSenders[(size_t)is[k]]++;
      }
    }
    for (int v : valueSenders) vp_assert(v == 1, "exactly one holder sends the value");
    vp_reach("end"); return;
  }
  Keys keys = sym_keys(rep, "key"); auto hub = std::make_shared<Hub>(n);
  std::vector<std::unique_ptr<frn::Correlator>> corr; std::vector<std::unique_ptr<frn::CheckData>> cd; std::vector<std::shared_ptr<frn::Network>> net;
  for (unsigned i = 0; i < n; i++) { cd.emplace_back(new frn::CheckData(t)); corr.emplace_back(new frn::Correlator(correlator(rep, i, keys))); net.emplace_back(std::make_shared<MemNet>(hub, i)); }
  std::vector<std::vector<F>> masks(U);
  for (unsigned r = 0; r < rounds; r++) {
    unsigned m = batch > r ? batch - r : 1; // batches of different sizes
    std::vector<Sharing> x, y; for (unsigned k = 0; k < m; k++) { x.push_back(sym_sharing(rep, vp_name("x", r, k))); y.push_back(sym_sharing(rep, vp_name("y", r, k))); }
    for (unsigned u = 0; u < U; u++) { frn::Correlator c = *corr[u]; for (unsigned k = 0; k < m; k++) masks[u].push_back(c.GenRandomShare().add_share); }
    run_parties(n, [&](unsigned i) { 
      frn::Mult p(net[i], rep, *man[i], *corr[i], *cd[i]); unsigned bulk = (unsigned)vp_param("bulk", 0);
      for (unsigned k = 0; k < m;) { std::vector<Shr> a, b; for (unsigned e = std::min(m, k + bulk); k < e; k++) { a.push_back(x[k].share[i]); b.push_back(y[k].share[i]); } if (bulk) p.Prepare(a, b); if (k < m) { p.Prepare(x[k].share[i], y[k].share[i]); k++; } }
      p.Run();
    });
  }
  vp_assert(hub->drained(), "every message is received"); hub->clearLog();
  std::vector<std::unique_ptr<frn::Check>> chk; for (unsigned i = 0; i < n; i++) chk.emplace_back(new frn::Check(net[i], rep, *man[i], *cd[i]));
  run_parties(n, [&](unsigned i) { chk[i]->ComputeRandomCoefficients(); chk[i]->PrepareLinearCombinations(); chk[i]->PrepareMsgs(); if (part == 2) chk[i]->ReconstructMsgs(); });
  auto &c0 = chk[0]->VerifCoefficients(); size_t total = masks[0].size();
  for (unsigned i = 0; i < n; i++) { auto &c = chk[i]->VerifCoefficients(); vp_assert(c.size() == total, "one coefficient per multiplication"); for (size_t k = 0; k < c.size(); k++) feq(c[k], c0[k], "all parties use the same coefficients"); }
  if (part == 0) {
    auto &rec = chk[0]->VerifCompressed().shares_recv_by_p1; vp_assert(rec.size() == U, "one combined value per sender"); F sum(0); for (auto &v : rec) sum += v;
    for (unsigned u = 1; u < U; u++) { auto &d = chk[u]->VerifCompressed(); feq(d.shares_sent_to_p1, rec[u], "what a party says it sent is what the reconstructor received"); feq(d.values_recv_from_p1, sum, "what a party received is the sum of what was sent"); }
    for (unsigned u = 0; u < U; u++) {
      std::vector<Shr> z; for (unsigned i = 0; i < n; i++) { vp_assert(chk[i]->VerifCompressed().msgs.size() == U, "one combined message per sender"); z.push_back(chk[i]->VerifCompressed().msgs[u]); }
      F m(0); for (size_t k = 0; k < total; k++) m += c0[k] * masks[u][k];
      feq(check_sharing(dbl, z, "the combined messages are consistent sharings"), rec[u] + m, "a combined message shares what was sent plus the masks");
    }
  } else {
    for (unsigned i = 0; i < n; i++) { auto tab = man[i]->GetTableRec(); auto &msgs = chk[i]->VerifCompressed().msgs;
      for (unsigned j = 0; j < n; j++) {
        std::vector<F> want; size_t digests = 0;
        for (size_t k = 0; k < tab.size(); k++) { bool to = false; for (unsigned p : tab[k].party_set) to |= p == j; if (!to) continue; if (tab[k].value_or_hash == frn::VALUE) for (unsigned u = 0; u < U; u++) want.push_back(msgs[u][k]); else digests++; }
        // length, values, length, digests
        std::vector<unsigned char> len; std::vector<F> v; for (auto &m : hub->log[i][j]) { vp_assert(m.kind != SHARES, "lengths and elements travel"); for (auto b : m.b) len.push_back(b); for (auto &f : m.f) v.push_back(f); }
        vp_assert(len.size() == 8, "two lengths are announced"); vp_assert(v.size() == want.size() + digests, "the number of elements the opening plan gives"); if (len.size() != 8 || v.size() != want.size() + digests) continue;
        uint32_t a, b; memcpy(&a, &len[0], 4); memcpy(&b, &len[4], 4); vp_assert(a == want.size() && b == digests, "the announced numbers of elements are sent");
        for (size_t k = 0; k < want.size(); k++) feq(v[k], want[k], "the values sent are the pieces of the combined messages");
      } }
    vp_assert(hub->drained(), "every message is received");
  }
  vp_reach("end");
}
