// The generator: AES-128 in counter mode (C20).
#include "vp.h"
#include <type_traits>
#include "frn/lib/primitives/prg.h"
using frn::lib::primitives::PRG;
typedef unsigned char u8;
// ---- FIPS-197, over the S-box the checker treats as an arbitrary permutation of bytes (and evaluates exactly in a replay)
static u8 S(u8 b) { return (u8)vp_sbox(b); }
static u8 xt(u8 b) { return (u8)(((unsigned)b << 1) ^ (0x1bu & (0u - ((unsigned)b >> 7)))); }
struct RefAes {
  u8 w[44][4];
  explicit RefAes(const u8 *key) {
    for (int i = 0; i < 16; i++) w[i / 4][i % 4] = key[i];
    u8 rcon = 1;
    for (int i = 4; i < 44; i++) { u8 t[4]; for (int j = 0; j < 4; j++) t[j] = w[i - 1][j]; if (i % 4 == 0) { u8 a = t[0]; t[0] = (u8)(S(t[1]) ^ rcon); t[1] = S(t[2]); t[2] = S(t[3]); t[3] = S(a); rcon = xt(rcon); } for (int j = 0; j < 4; j++) w[i][j] = w[i - 4][j] ^ t[j]; }
  }
  void key(u8 *s, int r) const { for (int i = 0; i < 16; i++) s[i] ^= w[4 * r + i / 4][i % 4]; }
  void enc(const u8 *in, u8 *s) const {
    memcpy(s, in, 16); key(s, 0);
    for (int r = 1; r <= 10; r++) {
      u8 t[16]; for (int c = 0; c < 4; c++) for (int j = 0; j < 4; j++) t[4 * c + j] = S(s[4 * ((c + j) % 4) + j]);
      if (r < 10) for (int c = 0; c < 4; c++) { u8 *a = t + 4 * c, b[4]; for (int j = 0; j < 4; j++) b[j] = xt(a[j]) ^ xt(a[(j + 1) % 4]) ^ a[(j + 1) % 4] ^ a[(j + 2) % 4] ^ a[(j + 3) % 4]; memcpy(a, b, 4); }
      memcpy(s, t, 16); key(s, r);
    }
  }
  void block(uint64_t ctr, u8 *out) const { u8 in[16]; uint64_t nonce = 0x0123456789ABCDEFull; for (int i = 0; i < 8; i++) { in[i] = (u8)(ctr >> (8 * i)); in[8 + i] = (u8)(nonce >> (8 * i)); } enc(in, out); }
};
template <class T> static auto put(T &p, long v, int) -> decltype(p.mCounter = v, bool()) { p.mCounter = v; return true; }
template <class T> static bool put(T &, long, ...) { return false; }
static const size_t PAD = 5;
// one request of k bytes, checking that nothing outside it is written
template <class Rq> static std::vector<u8> draw(size_t k, const char *what, Rq rq) {
  std::vector<u8> b(k + 2 * PAD, 0); for (size_t i = 0; i < PAD; i++) { b[i] = (u8)vp_sym(8, "before"); b[PAD + k + i] = (u8)vp_sym(8, "after"); }
  auto was = b; rq(b.data() + PAD); vp_assert_eq(b.data(), was.data(), PAD, 0, what); vp_assert_eq(b.data() + PAD + k, was.data() + PAD + k, PAD, 0, what);
  return std::vector<u8>(b.begin() + (long)PAD, b.begin() + (long)(PAD + k));
}
extern "C" void vp_main() {
  u8 seed[16]; vp_bytes(seed, 16, "seed"); size_t max = (size_t)vp_param("max", 40);
  vp_assert(PRG::BlockSize() == 16 && PRG::SeedSize() == 16, "block and seed sizes");
  switch (vp_param("part", 0)) {
    case 0: { // the blocks are AES encryptions of counter blocks, wherever the counter stands
      PRG g(seed); long c = 0; if (vp_param("wide", 0)) { c = (long)vp_sym(64, "counter"); vp_assume(c >= 0 && c < 0x7ffffffffffffff0l); if (!put(g, c, 0)) { vp_reach("end"); return; } }
      size_t nb = (size_t)vp_param("blocks", 2), cut = (size_t)vp_param("cut", 0); std::vector<u8> out(16 * nb - cut, 0); RefAes ref(seed);
      vp_assert(memcmp(g.Seed(), seed, 16) == 0, "the seed is kept"); g.Next(out.data(), out.size());
      for (size_t k = 0; k < nb; k++) { u8 want[16]; ref.block((uint64_t)c + k, want); vp_assert_eq(&out[16 * k], want, k + 1 == nb ? 16 - cut : 16, 1, "a block is the AES encryption of its counter block"); }
      vp_assert(g.Counter() == c + (long)nb, "the counter moves by the blocks used"); break;
    }
    case 1: { // the default generator is the one seeded with zeros
      u8 zero[16] = {0}; PRG a, b(zero); RefAes ref(zero); std::vector<u8> x(40), y(40); a.Next(x); b.Next(y); vp_assert(x == y, "the default seed is zero"); u8 w[16]; for (int k = 0; k < 2; k++) { ref.block((uint64_t)k, w); vp_assert_eq(&x[16 * (size_t)k], w, 16, 0, "blocks under the zero seed"); } break;
    }
    case 2: { // any sequence of requests: block k of the stream is the k-th block of a fresh generator
      std::vector<std::vector<u8>> blk; PRG f(seed); size_t need = 3 * (max / 16 + 1) + 2; for (size_t k = 0; k < need; k++) { std::vector<u8> b(16); f.Next(b); blk.push_back(b); }
      PRG g(seed); size_t at = 0;
      for (int r = 0; r < 3; r++) {
        size_t k = (size_t)vp_choose(0, (long)max, vp_name("size", r).c_str()); int how = r == 0 ? 0 : (int)vp_choose(0, r == 1 ? 3 : 2, vp_name("how", r).c_str());
        auto b = draw(k, "only the requested bytes are written", [&](u8 *p) { if (how == 0) g.Next(p, k); else if (how == 1) { std::vector<u8> v(k); g.Next(v); if (k) memcpy(p, v.data(), k); } else if (how == 2) { std::vector<u8> v(k + 3, 7); g.Next(v, k); if (k) memcpy(p, v.data(), k); for (size_t i = k; i < k + 3; i++) vp_assert(v[i] == 7, "only the requested bytes of a vector are written"); } else { g.Reset(); at = 0; g.Next(p, k); } });
        vp_assert(b.size() == k, "size"); for (size_t i = 0; i < k; i++) vp_assert_eq(&b[i], &blk[at + i / 16][i % 16], 1, 0, "the stream continues at a fresh block"); at += (k + 15) / 16; vp_assert(g.Counter() == (long)at, "the counter moves by the blocks used");
      }
      break;
    }
    case 3: { // copies and resets
      PRG g(seed); size_t k0 = (size_t)vp_choose(0, (long)max, "size0"), k1 = (size_t)vp_choose(0, (long)max, "size1"); std::vector<u8> a(k0), b(k1), c(k1), d(k0), e(k1);
      g.Next(a); PRG copy = g, other(seed); g.Next(b); copy.Next(c); vp_assert_eq(b.data(), c.data(), k1, 0, "a copy continues with the same stream"); vp_assert(g.Counter() == copy.Counter(), "a copy stands where the original stood");
      other = g; g.Next(e); std::vector<u8> h(k1); other.Next(h); vp_assert_eq(e.data(), h.data(), k1, 0, "an assigned generator continues with the same stream");
      g.Reset(); vp_assert(g.Counter() == 0, "reset rewinds"); g.Next(d); vp_assert_eq(a.data(), d.data(), k0, 0, "a reset generator repeats its stream"); std::vector<u8> b2(k1); g.Next(b2); vp_assert_eq(b.data(), b2.data(), k1, 0, "a reset generator repeats its stream");
      vp_assert(memcmp(g.Seed(), seed, 16) == 0, "the seed is kept"); break;
    }
    case 4: { // a vector smaller than the request is refused and nothing is consumed
      PRG g(seed), h(seed); std::vector<u8> v((size_t)vp_choose(0, (long)max, "have")); auto was = v; size_t k = (size_t)vp_sym(64, "want"); vp_assume(k > v.size());
      vp_assert(vp_throws([&] { g.Next(v, k); }), "an over-long request is refused"); vp_assert(v == was, "a refused request writes nothing"); vp_assert(g.Counter() == h.Counter(), "a refused request consumes nothing"); break;
    }
  }
  vp_reach("end");
}
