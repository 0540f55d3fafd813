// The hash is SHA-3, whatever the message and however it is split (C21).
#include "vp.h"
#include "frn/lib/primitives/hash.h"
using namespace frn::lib::primitives;
typedef unsigned char u8;
#ifndef VT
#define VT SHA3_256
#endif
// ---- FIPS 202
static uint64_t rol(uint64_t x, unsigned k) { return k ? (x << k) | (x >> (64 - k)) : x; }
static void permute(uint64_t A[5][5]) { // A[x][y]
  unsigned lfsr = 1;
  for (int ir = 0; ir < 24; ir++) {
    uint64_t C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    unsigned off[5][5] = {{0}}; { int x = 1, y = 0; for (unsigned t = 0; t < 24; t++) { off[x][y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; } }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], off[x][y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
    for (unsigned j = 0; j <= 6; j++) { if (lfsr & 1) A[0][0] ^= 1ull << ((1u << j) - 1); lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171u); }
  }
}
static void sha3(const u8 *m, size_t n, u8 *out, size_t bytes) {
  size_t rate = 200 - 2 * bytes; uint64_t A[5][5] = {{0}}; std::vector<u8> p(m, m + n); p.push_back(0x06); while (p.size() % rate) p.push_back(0); p.back() ^= 0x80;
  for (size_t o = 0; o < p.size(); o += rate) { for (size_t i = 0; i < rate / 8; i++) { uint64_t w = 0; for (size_t b = 0; b < 8; b++) w |= (uint64_t)p[o + 8 * i + b] << (8 * b); A[i % 5][i / 5] ^= w; } permute(A); }
  for (size_t i = 0; i < bytes; i++) out[i] = (u8)(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8)));
}
extern "C" void vp_main() {
  typedef Hash<VT> Hs; const size_t D = sizeof(Hs::DigestType); size_t n = vp_param("hi", 0) ? (size_t)vp_choose(vp_param("lo", 0), vp_param("hi", 0), "len") : (size_t)vp_param("len", 0), at = (size_t)vp_param("at", 0), span = (size_t)vp_param("span", 0);
  std::vector<u8> m(n + 1); vp_bytes(m.data(), n, "m"); u8 want[64];
  Hs one; one.Update(m.data(), n); auto d = one.Finalize(); vp_assert(d.size() == D && D == (sizeof want == 64 ? d.size() : 0), "digest size");
  if (vp_param("part", 0) == 0) { sha3(m.data(), n, want, D); vp_assert_eq(d.data(), want, D, 1, "the digest is the SHA-3 digest of the data"); }
  else { // any split into up to four pieces, the cuts between at and at+span
    size_t hi = at + span < n ? at + span : n, pieces = (size_t)vp_param("pieces", 3), pos = 0; Hs h;
    for (size_t k = 0; k + 1 < pieces; k++) { size_t lo = pos > at ? pos : at, to = (size_t)vp_choose((long)lo, (long)hi, vp_name("cut", (long)k).c_str()); if (k & 1) { std::vector<u8> v(m.begin() + (long)pos, m.begin() + (long)to); h.Update(v); } else { Hs &r = h.Update(m.data() + pos, to - pos); vp_assert(&r == &h, "update returns the hash"); } pos = to; }
    h.Update(m.data() + pos, n - pos); auto e = h.Finalize(); vp_assert_eq(e.data(), d.data(), D, 1, "the digest does not depend on how the data is split");
  }
  vp_reach("end");
}
