// Combinatorics behind the index sets.
#include "proto.h"
using namespace frn::lib::secret_sharing;
typedef std::vector<int> Set;
static bool less_lex(const Set &a, const Set &b) { int r = 0, eq = 1; for (size_t i = 0; i < a.size(); i++) { r |= eq & (a[i] < b[i]); eq &= a[i] == b[i]; } return r != 0; }
static bool same(const Set &a, const Set &b) { int eq = 1; for (size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i]; return eq != 0; }
// a symbolic k-subset of {0..m-1}
static Set sym_set(size_t k, int m, const char *name) { Set s; int ok = 1; for (size_t i = 0; i < k; i++) { s.push_back((int)vp_sym(31, vp_name(name, (long)i).c_str())); ok &= s[i] < m; if (i) ok &= s[i - 1] < s[i]; } vp_assume(ok); return s; }
extern "C" void vp_main() {
  switch (vp_param("part", 0)) {
    case 0: { // binomial coefficients against Pascal's triangle
      const size_t M = (size_t)vp_param("max", 40); std::vector<std::vector<size_t>> p(M + 1); for (size_t m = 0; m <= M; m++) { p[m].assign(M + 1, 0); p[m][0] = 1; for (size_t k = 1; k <= m; k++) p[m][k] = p[m - 1][k - 1] + p[m - 1][k]; }
      size_t m = (size_t)vp_choose(0, (long)M, "m"), k = (size_t)vp_range(0, m, "k"); size_t b = Binom(m, k); size_t want = 0; for (size_t q = 0; q <= m; q++) want |= q == k ? p[m][q] : 0;
      vp_assert(b == want, "binomial coefficient"); break;
    }
    case 1: { // successor of a symbolic k-subset of a symbolic m
      size_t k = (size_t)vp_param("k", 3); int m = (int)vp_range(k, (1u << 30), "m"); Set c = sym_set(k, m, "c"), d = sym_set(k, m, "d"), r = c;
      bool more = NextCombination(r, m, (int)k);
      if (more) { int ok = 1; for (size_t i = 0; i < k; i++) { ok &= (r[i] >= 0) & (r[i] < m); if (i) ok &= r[i - 1] < r[i]; } vp_assert(ok, "the successor is a subset"); vp_assert(less_lex(c, r), "the successor is larger"); vp_assert(!less_lex(c, d) || !less_lex(d, r), "no subset lies between"); }
      else { vp_assert(!less_lex(c, d), "only the last subset has no successor"); vp_assert(same(c, r), "the last subset stays"); }
      break;
    }
    case 2: { // n-th subset
      int m = (int)vp_param("m", 5), k = (int)vp_choose(1, m, "k"); Set c; for (int i = 0; i < k; i++) c.push_back(i);
      long idx = 0; for (;;) { Set got((size_t)k, -7); NthCombination(got, (int)idx, m); vp_assert(got == c, "the n-th subset in lexicographic order"); int i = k - 1; while (i >= 0 && c[(size_t)i] == m - k + i) i--; if (i < 0) break; c[(size_t)i]++; for (int j = i + 1; j < k; j++) c[(size_t)j] = c[(size_t)(j - 1)] + 1; idx++; }
      Set got((size_t)k, -7); NthCombination(got, (int)idx + 3, m); vp_assert(got == c, "beyond the end the last subset"); break;
    }
    case 3: { // intersection and difference of symbolic ascending sets
      size_t a = (size_t)vp_choose(0, vp_param("max", 3), "a"), b = (size_t)vp_choose(0, vp_param("max", 3), "b"); Set x, y; int ok = 1;
      for (size_t i = 0; i < a; i++) { x.push_back((int)vp_sym(32, vp_name("x", (long)i).c_str())); if (i) ok &= x[i - 1] < x[i]; } for (size_t i = 0; i < b; i++) { y.push_back((int)vp_sym(32, vp_name("y", (long)i).c_str())); if (i) ok &= y[i - 1] < y[i]; } vp_assume(ok);
      std::vector<int> in, out; Intersection(x, y, [&](int i) { in.push_back(i); }); Difference(x, y, [&](int i) { out.push_back(i); });
      std::vector<int> hin(a, 0), hout(a, 0); int last = -1; for (int i : in) { vp_assert(i > last && i < (int)a, "indices ascend and are in range"); last = i; hin[(size_t)i] = 1; } last = -1; for (int i : out) { vp_assert(i > last && i < (int)a, "indices ascend and are in range"); last = i; hout[(size_t)i] = 1; }
      for (size_t i = 0; i < a; i++) { int mem = 0; for (int v : y) mem |= v == x[i]; vp_assert(hin[i] == mem, "intersection holds exactly the common elements"); vp_assert(hout[i] == !mem, "difference holds exactly the others"); }
      break;
    }
    case 4: { // tables of a replicator
      size_t n = (size_t)vp_choose(2, vp_param("max", 8), "n"), t = (size_t)vp_choose(1, (long)n - 1, "t"); Rep r(n, t); size_t k = n - t;
      std::vector<Set> all; { Set c; for (size_t i = 0; i < k; i++) c.push_back((int)i); for (;;) { all.push_back(c); int i = (int)k - 1; while (i >= 0 && c[(size_t)i] == (int)(n - k) + i) i--; if (i < 0) break; c[(size_t)i]++; for (size_t j = (size_t)i + 1; j < k; j++) c[j] = c[j - 1] + 1; } }
      vp_assert(r.Size() == n && r.Threshold() == t, "parameters"); vp_assert(r.AdditiveShareSize() == all.size(), "one piece per subset");
      for (size_t i = 0; i < all.size(); i++) { Set c = r.Combination(i); vp_assert(c == all[i], "pieces are numbered in lexicographic order"); vp_assert(r.RevComb(c) == (int)i, "the tables are inverse to each other"); }
      for (size_t p = 0; p < n; p++) { Set is = r.IndexSetFor(p), want; for (size_t i = 0; i < all.size(); i++) for (int q : all[i]) if (q == (int)p) want.push_back((int)i); vp_assert(is == want, "a party holds exactly the pieces of the subsets it belongs to"); vp_assert(is.size() == r.ShareSize(), "share size"); }
      vp_assert(r.ShareSizeBytes() == r.ShareSize() * F::ByteSize(), "share size in bytes"); size_t d = 0; { Set a = r.IndexSetFor(0), b = r.IndexSetFor(1); for (int q : a) { bool in = false; for (int z : b) in |= z == q; d += !in; } } vp_assert(r.DifferenceSize() == d, "difference size");
      break;
    }
    case 5: { // parameters without a sharing, any size
      size_t n = (size_t)vp_sym(64, "n"), t = (size_t)vp_sym(64, "t"); vp_assume((int)((t == 0) | (t >= n))); bool threw = false; try { Rep r(n, t); } catch (const std::exception &) { threw = true; } vp_assert(threw, "parameters without a sharing are refused"); break;
    }
  }
  vp_reach("end");
}
