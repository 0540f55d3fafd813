// Secure multiplication: all parties run it, outputs are sharings of the products.
#include "proto.h"
#include "frn/mult.h"
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (n - 1) / 3, batch = (unsigned)vp_param("batch", 2), rounds = (unsigned)vp_param("rounds", 2), bulk = (unsigned)vp_param("bulk", 0);
  Rep rep(n, t); Keys keys = sym_keys(rep, "key");
  auto hub = std::make_shared<Hub>(n);
  std::vector<std::unique_ptr<frn::CheckData>> cd; std::vector<std::unique_ptr<frn::Correlator>> corr; std::vector<std::unique_ptr<frn::ShrManipulator>> man; std::vector<std::shared_ptr<frn::Network>> net;
  for (unsigned i = 0; i < n; i++) { cd.emplace_back(new frn::CheckData(t)); corr.emplace_back(new frn::Correlator(correlator(rep, i, keys))); man.emplace_back(new frn::ShrManipulator(i, t, n)); net.emplace_back(std::make_shared<MemNet>(hub, i)); }
  for (unsigned r = 0; r < rounds; r++) {
    std::vector<Sharing> x, y; for (unsigned k = 0; k < batch; k++) { x.push_back(sym_sharing(rep, vp_name("x", r, k))); y.push_back(sym_sharing(rep, vp_name("y", r, k))); }
    std::vector<std::vector<Shr>> out(n);
    run_parties(n, [&](unsigned i) {
      frn::Mult m(net[i], rep, *man[i], *corr[i], *cd[i]);
      if (bulk) { // bulk 1: one batch; otherwise batches of up to bulk - 1, from 3 on with single multiplications between them
        for (unsigned k = 0; k < batch;) { unsigned w = bulk == 1 ? batch : std::min(bulk - 1, batch - k); std::vector<Shr> a, b; for (unsigned e = k + w; k < e; k++) { a.push_back(x[k].share[i]); b.push_back(y[k].share[i]); } m.Prepare(a, b); if (bulk > 2 && k < batch) { m.Prepare(x[k].share[i], y[k].share[i]); k++; } }
      } else for (unsigned k = 0; k < batch; k++) m.Prepare(x[k].share[i], y[k].share[i]);
      out[i] = m.Run();
    });
    for (unsigned i = 0; i < n; i++) vp_assert(out[i].size() == batch, "one output per multiplication");
    for (unsigned k = 0; k < batch; k++) {
      std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(out[i][k]);
      F v = check_sharing(rep, z, "the output is a consistent sharing");
      feq(v, x[k].value * y[k].value, "the output shares the product");
    }
  }
  vp_assert(hub->drained(), "every message is received");
  vp_reach("end");
}
