// Sharing, reconstruction, privacy of the sharing, detection of tampered shares.
#include "proto.h"
using namespace frn::lib::secret_sharing;
static PRG sym_prg(const char *name) { unsigned char b[PRG::SeedSize()]; vp_bytes(b, sizeof b, name); return PRG(b); }
// the parties of subset number `which` among the k-subsets of n, counted here and not by the code
static std::vector<unsigned> subset(unsigned n, unsigned k, long which) {
  std::vector<unsigned> c; for (unsigned i = 0; i < k; i++) c.push_back(i);
  while (which-- > 0) { int i = (int)k - 1; while (i >= 0 && c[(size_t)i] == n - k + (unsigned)i) i--; if (i < 0) return {}; c[(size_t)i]++; for (size_t j = (size_t)i + 1; j < k; j++) c[j] = c[j - 1] + 1; }
  return c;
}
static long choose_count(unsigned n, unsigned k) { unsigned long r = 1; for (unsigned i = 1; i <= k; i++) r = r * (n - k + i) / i; return (long)r; }
extern "C" void vp_main() {
  unsigned n = (unsigned)vp_param("n", 4), t = (unsigned)vp_param("t", 1), batch = (unsigned)vp_param("batch", 2);
  Rep rep(n, t);
  switch (vp_param("part", 0)) {
    case 0: { // share, reconstruct, detect
      PRG prg = sym_prg("seed"), again = prg;
      F s = fsym("secret"); auto sh = rep.Share(s, prg); vp_assert(sh.size() == n, "one share per party");
      feq(check_sharing(rep, sh, "a sharing is consistent"), s, "the pieces add up to the secret");
      feq(rep.Reconstruct(sh), s, "reconstruction returns the secret"); F d; bool threw = false; try { d = rep.ErrorDetection(sh); } catch (...) { threw = true; } vp_assert(!threw, "a proper sharing is accepted"); feq(d, s, "checked reconstruction returns the secret");
      F s2 = fsym("secret2"); auto sh2 = rep.Share(s2, prg); feq(rep.Reconstruct(sh2), s2, "sharing again with the same generator");
      std::vector<F> v; for (unsigned k = 0; k < batch; k++) v.push_back(fsym(vp_name("b", k)));
      auto all = rep.Share(v, again); vp_assert(all.size() == n, "one list of shares per party"); for (auto &a : all) vp_assert(a.size() == batch, "one share per secret");
      for (unsigned k = 0; k < batch; k++) { std::vector<Shr> one; for (unsigned i = 0; i < n; i++) one.push_back(all[i][k]); feq(check_sharing(rep, one, "batch entries are consistent sharings"), v[k], "batch entry k shares secret k"); feq(rep.Reconstruct(one), v[k], "batch entry k reconstructs"); F e; bool th = false; try { e = rep.ErrorDetection(one); } catch (...) { th = true; } vp_assert(!th, "a proper batch sharing is accepted"); feq(e, v[k], "batch entry k passes the check"); }
      std::vector<F> none; auto emp = rep.Share(none, again); vp_assert(emp.size() == n, "an empty batch gives empty lists"); for (auto &a : emp) vp_assert(a.empty(), "an empty batch gives empty lists");
      break;
    }
    case 1: { // any consistent pieces, any generator: additive sharing
      PRG prg = sym_prg("seed"); F s = fsym("secret"); auto a = ShareAdditive(s, n, prg); vp_assert(a.size() == n, "one piece per party"); F sum(0); for (auto &x : a) sum += x; feq(sum, s, "additive pieces add up to the secret");
      vp_assert(vp_throws([&] { ShareAdditive(s, 0, prg); }), "sharing among nobody is refused");
      Sharing z = sym_sharing(rep, "z"); feq(rep.Reconstruct(z.share), z.value, "reconstruction adds up the pieces"); F d; bool th = false; try { d = rep.ErrorDetection(z.share); } catch (...) { th = true; } vp_assert(!th, "any consistent sharing is accepted"); feq(d, z.value, "checked reconstruction adds up the pieces");
      break;
    }
    case 2: { // t parties learn nothing: joint view of `batch` sharings from one generator
      PRG prg = sym_prg("seed"); std::vector<F> v; for (unsigned k = 0; k < batch; k++) v.push_back(fsym(vp_name("secret", k)));
      auto all = rep.Share(v, prg); F extra = fsym("secret_single"); auto one = rep.Share(extra, prg);
      long m = choose_count(n, t); auto who = subset(n, t, vp_choose(0, m - 1, "coalition"));
      for (unsigned i : who) { for (unsigned k = 0; k < batch; k++) for (auto &x : all[i][k]) vp_view(&x); for (auto &x : one[i]) vp_view(&x); }
      vp_indist("the view of t parties does not depend on the secrets");
      break;
    }
    case 3: { // t+1 parties hold every piece
      PRG prg = sym_prg("seed"); F s = fsym("secret"); auto sh = rep.Share(s, prg);
      long m = choose_count(n, t + 1); auto who = subset(n, t + 1, vp_choose(0, m - 1, "coalition"));
      std::vector<int> have(rep.AdditiveShareSize(), 0); F sum(0); for (unsigned i : who) { auto is = rep.IndexSetFor(i); for (size_t j = 0; j < is.size(); j++) if (!have[(size_t)is[j]]) { have[(size_t)is[j]] = 1; sum += sh[i][j]; } }
      for (int h : have) vp_assert(h, "t+1 parties hold every piece"); feq(sum, s, "t+1 parties can recover the secret");
      break;
    }
    case 4: { // whatever anybody submits: exactly inconsistent shares are refused
      std::vector<Shr> sh; for (unsigned i = 0; i < n; i++) { Shr x; for (size_t j = 0; j < rep.ShareSize(); j++) x.push_back(fsym(vp_name("w", i, (long)j))); sh.push_back(x); }
      std::vector<std::vector<F>> copies(rep.AdditiveShareSize()); for (unsigned i = 0; i < n; i++) { auto is = rep.IndexSetFor(i); for (size_t j = 0; j < is.size(); j++) copies[(size_t)is[j]].push_back(sh[i][j]); }
      int differ = 0; F sum(0); for (auto &c : copies) { sum += c[0]; for (auto &x : c) differ |= (int)(x != c[0]); }
      F d; bool threw = false; try { d = rep.ErrorDetection(sh); } catch (const std::exception &) { threw = true; }
      if (threw) vp_assert(differ, "consistent shares are never refused"); else { vp_assert(!differ, "disagreeing shares are refused"); feq(d, sum, "the value returned is the shared one"); }
      break;
    }
    case 5: { // at most t tampered shares: the original secret or an exception
      Sharing z = sym_sharing(rep, "z"); unsigned bad = (unsigned)vp_param("bad", t); auto who = subset(n, bad, vp_choose(0, choose_count(n, bad) - 1, "coalition"));
      auto sh = z.share; for (unsigned i : who) for (size_t j = 0; j < rep.ShareSize(); j++) sh[i][j] = fsym(vp_name("w", i, (long)j));
      F d; bool threw = false; try { d = rep.ErrorDetection(sh); } catch (const std::exception &) { threw = true; }
      if (!threw) feq(d, z.value, "tampering is detected or has no effect");
      break;
    }
  }
  vp_reach("end");
}
