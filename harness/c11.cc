// Local operations on sharings.
#include "proto.h"
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (unsigned)vp_param("t", (long)((n - 1) / 3));
  Rep rep(n, t); std::vector<std::unique_ptr<frn::ShrManipulator>> man; for (unsigned i = 0; i < n; i++) man.emplace_back(new frn::ShrManipulator(i, t, n));
  Sharing x = sym_sharing(rep, "x"), y = sym_sharing(rep, "y"); F c = fsym("c");
  auto all = [&](const char *what, const F &want, auto op) { std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(op(*man[i], x.share[i], y.share[i])); feq(check_sharing(rep, z, what), want, what); };
  switch (vp_param("part", 0)) {
    case 0: {
      typedef frn::ShrManipulator M;
      all("addition", x.value + y.value, [&](M &m, const Shr &a, const Shr &b) { return m.Add(a, b); });
      all("subtraction", x.value - y.value, [&](M &m, const Shr &a, const Shr &b) { return m.Subtract(a, b); });
      all("subtracting itself", F(0), [&](M &m, const Shr &a, const Shr &) { return m.Subtract(a, a); });
      all("adding a constant", x.value + c, [&](M &m, const Shr &a, const Shr &) { return m.AddConstant(a, c); });
      all("constant plus sharing", c + x.value, [&](M &m, const Shr &a, const Shr &) { return m.AddConstant(c, a); });
      all("subtracting a constant", x.value - c, [&](M &m, const Shr &a, const Shr &) { return m.SubtractConstant(a, c); });
      all("constant minus sharing", c - x.value, [&](M &m, const Shr &a, const Shr &) { return m.SubtractConstant(c, a); });
      all("multiplying by a constant", x.value * c, [&](M &m, const Shr &a, const Shr &) { return m.MultiplyConstant(a, c); });
      all("constant times sharing", c * x.value, [&](M &m, const Shr &a, const Shr &) { return m.MultiplyConstant(c, a); });
      F k = fsym("k"); all("a chain of operations", (x.value + y.value) * c - k, [&](M &m, const Shr &a, const Shr &b) { return m.SubtractConstant(m.MultiplyConstant(m.Add(a, b), c), k); });
      for (unsigned i = 0; i < n; i++) { vp_assert(man[i]->ShareSize() == rep.ShareSize(), "share size"); auto r = man[i]->GetReplicator(); vp_assert(r.Size() == n && r.Threshold() == t, "replicator"); }
      break;
    }
    case 1: { // products
      Rep dbl(n, 2 * t); std::vector<Shr> z; for (unsigned i = 0; i < n; i++) z.push_back(man[i]->MultiplyToDoubleDegree(x.share[i], y.share[i]));
      feq(check_sharing(dbl, z, "the local products form a consistent double-threshold sharing"), x.value * y.value, "the local products share the product"); feq(man[0]->GetDoubleReplicator().Reconstruct(z), x.value * y.value, "the product reconstructs");
      F s(0); for (unsigned i = 0; i < n; i++) { F a = man[i]->MultiplyToAdditive(x.share[i], y.share[i]); if (i < 2 * t + 1) s += a; else feq(a, F(0), "only the first 2t+1 parties contribute"); }
      feq(s, x.value * y.value, "the additive products sum to the product");
      std::vector<Shr> q; for (unsigned i = 0; i < n; i++) q.push_back(man[i]->MultiplyToDoubleDegree(x.share[i], x.share[i])); feq(check_sharing(dbl, q, "squares are consistent"), x.value * x.value, "squaring");
      break;
    }
    case 2: { // position lookup: where the product of a pair of pieces goes
      F u = fsym("u"), v = fsym("v"); size_t S = rep.ShareSize(), D = Rep(n, 2 * t).ShareSize(); unsigned i = (unsigned)vp_choose(0, n - 1, "party");
      for (size_t a = 0; a < S; a++) for (size_t b = 0; b < S; b++) {
        Shr p(S, F(0)), q(S, F(0)); p[a] = u; q[b] = v; auto r = man[i]->MultiplyToDoubleDegree(p, q); vp_assert(r.size() == D, "size of a double-threshold share"); int idx = man[i]->ComputeIndexForDoubleMultiplication(a, b);
        vp_assert(idx >= -1 && idx < (int)D, "the position exists"); for (size_t k = 0; k < D; k++) feq(r[k], (int)k == idx ? u * v : F(0), "the product goes where the lookup says");
      }
      break;
    }
  }
  vp_reach("end");
}
