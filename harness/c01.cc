// Element arithmetic against integer arithmetic modulo the prime, bit for bit.
#include "vp.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
using namespace frn::lib::math;
#ifndef P127
typedef Mp61 P; typedef uint64_t U; static const int W = 61;
#else
typedef Mp127 P; typedef u128_t U; static const int W = 127;
#endif
typedef FpElement<P> F;
static const U p = ((U)1 << W) - 1;
static U raw(const F &f) { U u; unsigned char b[sizeof(U)]; f.ToBytes(b); memcpy(&u, b, sizeof u); return u; }
static F elem(const char *n) { U u = (U)vp_u128(W, n); vp_assume(u != p); return F(u); }
static U add(U x, U y) { U e = x + y; return e >= p ? e - p : e; }
static U sub(U x, U y) { return x >= y ? x - y : p - (y - x); }
// z is the residue of x*y below p: x*y = hi*2^W + lo, so z is hi+lo or hi+lo-p
static void isProduct(U z, U x, U y, const char *msg) {
  vp_assert(z < p, "product is canonical");
#ifndef P127
  u128_t pr = (u128_t)x * y; U lo = (U)pr & p, hi = (U)(pr >> 61);
#else
  uint64_t a = (uint64_t)(x >> 64), b = (uint64_t)x, c = (uint64_t)(y >> 64), d = (uint64_t)y;
  u128_t h = (u128_t)a * c, l = (u128_t)b * d, m = (u128_t)a * d, n = (u128_t)b * c, t;
  t = l + (m << 64); h += (m >> 64) + (t < l); l = t; t = l + (n << 64); h += (n >> 64) + (t < l); l = t;
  U lo = l & p, hi = (h << 1) | (l >> 127);
#endif
  U s = hi + lo; // at most 2p
  vp_assert((z == s) | (z + p == s) | (z + p + p == s), msg);
}
extern "C" void vp_main() {
  if (vp_param("construct", 0)) {
    U w = (U)vp_u128(8 * sizeof(U), "w"); U r = raw(F(w)); vp_assert(r < p, "construction is canonical");
    bool ok = false; for (int k = 0; k <= (1 << (8 * (int)sizeof(U) - W)); k++) ok |= (w >= (U)k * p) & (w - (U)k * p == r);
    vp_assert(ok, "construction reduces the word modulo the prime");
    unsigned char b[sizeof(U)]; memcpy(b, &w, sizeof w); vp_assert(raw(F::FromBytes(b)) == r, "decoding reduces the word modulo the prime");
    F a(w), c(r); vp_assert(a == c, "congruent words give equal elements");
    vp_assert(raw(F()) == 0 && raw(F::kZero) == 0 && raw(F::kOne) == 1, "constants");
    vp_reach("end"); return;
  }
  F a = elem("a"), b = elem("b"); U x = raw(a), y = raw(b);
  vp_assert((x < p) & (y < p), "elements are canonical");
  F s = a + b; vp_assert(raw(s) == add(x, y), "sum"); F d = a - b; vp_assert(raw(d) == sub(x, y), "difference");
  F n = -a; vp_assert(raw(n) == (x == 0 ? 0 : p - x), "negation");
  F c = a; F &cr = (c += b); vp_assert(raw(c) == raw(s), "in-place sum"); vp_assert(&cr == &c, "in-place forms return the object"); c = a; c -= b; vp_assert(raw(c) == raw(d), "in-place difference"); c = a; c.Negate(); vp_assert(raw(c) == raw(n), "in-place negation");
  vp_assert((a == b) == (x == y), "equality"); vp_assert((a != b) == (x != y), "inequality"); vp_assert(a.Equal(b) == (x == y) && a.NotEqual(b) == (x != y), "named comparisons");
  // operands that are the same object
  c = a; c += c; vp_assert(raw(c) == add(x, x), "doubling in place"); c = a; c -= c; vp_assert(raw(c) == 0, "subtracting an element from itself in place"); vp_assert(a == a, "self equality");
  vp_assert(raw(a) == x && raw(b) == y, "operands are unchanged");
  if (vp_param("mul", 1)) { F m = a * b; isProduct(raw(m), x, y, "product"); c = a; c *= b; vp_assert(raw(c) == raw(m), "in-place product"); vp_assert(raw(b * a) == raw(m), "product commutes"); }
  if (vp_param("sq", 0)) { c = a; c *= c; isProduct(raw(c), x, x, "squaring in place"); isProduct(raw(a * a), x, x, "square"); }
  vp_reach("end");
}
