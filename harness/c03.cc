// Inverses: modulo powers of two, modulo small primes through the same template, and modulo 2^61-1 on bounded families.
#include "vp.h"
#include "frn/lib/math/arithmetic.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
using namespace frn::lib::math;
typedef FpElement<Mp61> F;
#ifndef VK
#define VK 16
#endif
#ifndef VT
#define VT uint64_t
#endif
#ifndef VP_
#define VP_ Mp61
#endif
#ifndef VS
#define VS int64_t
#endif
extern "C" void vp_main() {
  switch (vp_param("part", 0)) {
    case 0: { // Newton inverse modulo 2^VK, every word: low two bits split, the rest symbolic
      unsigned c = (unsigned)vp_choose(0, 3, "low"); VT v = (VT)((VT)((VT)vp_u128(8 * sizeof(VT) - 2, "v") << 2) | (VT)c); VT r = 0; bool threw = false;
      try { r = details::inv2<VK, VT>(v); } catch (const std::logic_error &) { threw = true; }
      if (c & 1) { vp_assert(!threw, "odd numbers are invertible"); VT pr = (VT)(v * r); VT mask = (VT)(VK >= 8 * sizeof(VT) ? ~(VT)0 : (VT)(((VT)1 << (VK % (8 * sizeof(VT)))) - 1)); vp_assert((VT)(pr & mask) == (VT)1, "v * inv2(v) is one modulo 2^K"); }
      else vp_assert(threw, "even numbers are refused");
      break;
    }
    case 1: { // extended Euclid modulo a small prime n, every residue
      unsigned long n = (unsigned long)vp_param("n", 251); unsigned w = 1; while (n >> w) w++;
      VT v = (VT)vp_sym(w, "v"); vp_assume(v < n); VT r = 0; bool threw = false;
      try { r = details::invp<VT, VS>(v, (VT)n); } catch (const std::logic_error &) { threw = true; }
      vp_assert(threw == (v == 0), "exactly zero is refused");
      if (!threw) { vp_assert(r < n, "the inverse is canonical"); uint32_t a = (uint32_t)v & 0xffff, b = (uint32_t)r & 0xffff; vp_assert((a * b) % (uint32_t)n == 1, "v * inverse(v) is one"); }
      break;
    }
    case 2: { // modulo the real primes: low, high and shifted residues
      typedef VP_::ValueType U; typedef FpElement<VP_> E; U p = VP_::kPrime;
      unsigned sb = (unsigned)vp_param("bits", 6), sh = (unsigned)vp_param("shift", 0); long neg = vp_param("neg", 0);
      U x = (U)vp_concrete(vp_sym(sb, "v")); U u = x << sh; if (neg) u = p - u; E e(u); E q; bool threw = false;
      try { q = e.Inverse(); } catch (const std::logic_error &) { threw = true; }
      bool zero = e == E(0); vp_assert(threw == zero, "exactly zero is refused");
      E y(U(vp_u128(8 * sizeof(U) - 3, "y"))); E z; bool t2 = false; try { z = y / e; } catch (const std::logic_error &) { t2 = true; } vp_assert(t2 == zero, "division by exactly zero is refused");
      E i = e; bool t3 = false; try { i.Invert(); } catch (const std::logic_error &) { t3 = true; } vp_assert(t3 == zero, "in-place inversion of exactly zero is refused");
      E d = y; bool t4 = false; try { d /= e; } catch (const std::logic_error &) { t4 = true; } vp_assert(t4 == zero, "in-place division by exactly zero is refused");
      if (!zero) { vp_assert(q * e == E(1), "inverse times element is one"); vp_assert(i == q, "in-place inverse"); vp_assert(z == y * q, "division is multiplication by the inverse"); vp_assert(d == z, "in-place division"); vp_assert(z * e == y, "division undoes multiplication"); }
      else { vp_assert(i == e, "a refused inversion leaves the element alone"); vp_assert(d == y, "a refused division leaves the element alone"); }
      break;
    }
  }
  vp_reach("end");
}
