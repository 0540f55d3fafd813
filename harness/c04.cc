// Binary encodings.
#include "proto.h"
#ifndef P
#define P frn::lib::math::Mp61
#endif
typedef frn::lib::math::FpElement<P> E; typedef P::ValueType U;
static U val(const E &e) { U u; unsigned char b[sizeof u]; e.ToBytes(b); memcpy(&u, b, sizeof u); return u; }
extern "C" void vp_main() {
  const U p = P::kPrime; const unsigned W = sizeof(U) == 8 ? 61 : 127; const size_t N = sizeof(U); (void)p;
  switch (vp_param("part", 0)) {
    case 0: { // one element: any bytes, bit for bit
      unsigned char in[2 * N], out[3 * N]; vp_bytes(in, 2 * N, "bytes"); memset(out, 0x5a, sizeof out);
      E e = E::FromBytes(in); U w = 0; for (size_t i = N; i-- > 0;) w = (U)((w << 8) | in[i]);
      U r = val(e); vp_assert(r < p, "decoded elements are in the field"); bool ok = false; for (int k = 0; k <= (1 << (8 * (int)N - (int)W)); k++) ok |= (w >= (U)k * p) & (w - (U)k * p == r); vp_assert(ok, "decoding is the little-endian word modulo the prime");
      e.ToBytes(out + N); for (size_t i = 0; i < N; i++) { vp_assert(out[i] == 0x5a && out[2 * N + i] == 0x5a, "encoding writes only its bytes"); vp_assert(out[N + i] == (unsigned char)(r >> (8 * i)), "encoding is little-endian"); }
      vp_assert(E::ByteSize() == N && E::BitSize() == 8 * N, "advertised sizes"); E f = E::FromBytes(out + N); vp_assert(f == e, "decode inverts encode"); vp_assert(val(f) == r, "decode inverts encode exactly");
      break;
    }
    case 1: { // vectors
      size_t n = (size_t)vp_param("n", 3); std::vector<E> v; for (size_t i = 0; i < n; i++) { E e; U u = (U)vp_u128(W, vp_name("e", (long)i).c_str()); v.push_back(E(u)); }
      std::vector<unsigned char> out((n + 2) * N, 0x5a); frn::lib::math::vector::ToBytes(out.data() + N, v);
      for (size_t i = 0; i < N; i++) vp_assert(out[i] == 0x5a && out[(n + 1) * N + i] == 0x5a, "encoding a vector writes only its bytes");
      for (size_t i = 0; i < n; i++) { unsigned char b[N]; v[i].ToBytes(b); vp_assert_eq(out.data() + (i + 1) * N, b, N, 0, "a vector is the concatenation of its elements"); }
      std::vector<E> w = frn::lib::math::vector::FromBytes<E>(out.data() + N, n); vp_assert(w.size() == n, "decoded length"); for (size_t i = 0; i < n; i++) vp_assert(val(w[i]) == val(v[i]), "decoding a vector inverts encoding");
      std::vector<unsigned char> any(n * N); if (n) vp_bytes(any.data(), n * N, "any"); std::vector<unsigned char> exact(any); std::vector<E> d = frn::lib::math::vector::FromBytes<E>(exact.data(), n); vp_assert(d.size() == n, "decoded length"); for (size_t i = 0; i < n; i++) { vp_assert(val(d[i]) < p, "decoded entries are in the field"); vp_assert(val(d[i]) == val(E::FromBytes(any.data() + i * N)), "entry i comes from word i"); }
      break;
    }
    case 2: { // replicated shares, lists of shares
      typedef frn::lib::secret_sharing::Replicator<E> R; size_t n = (size_t)vp_param("n", 4), t = (size_t)vp_param("t", 1), k = (size_t)vp_param("k", 2); R r(n, t);
      std::vector<typename R::ShareType> sh; for (size_t i = 0; i < k; i++) { typename R::ShareType s; for (size_t j = 0; j < r.ShareSize(); j++) { E e; vp_field(&e, vp_name("s", (long)i, (long)j).c_str()); s.push_back(e); } sh.push_back(s); }
      size_t B = r.ShareSizeBytes(); vp_assert(B == r.ShareSize() * N, "advertised share size");
      std::vector<unsigned char> one(B + 2 * N, 0x5a), all(k * B + 2 * N, 0x5a);
      r.SharesToBytes(sh, all.data() + N); for (size_t i = 0; i < N; i++) vp_assert(all[i] == 0x5a && all[k * B + N + i] == 0x5a, "encoding shares writes only their bytes");
      for (size_t i = 0; i < k; i++) { r.ShareToBytes(sh[i], one.data() + N); for (size_t j = 0; j < N; j++) vp_assert(one[j] == 0x5a && one[B + N + j] == 0x5a, "encoding a share writes only its bytes"); vp_assert_eq(one.data() + N, all.data() + N + i * B, B, 0, "a list of shares is the concatenation of the shares");
        typename R::ShareType b = r.ShareFromBytes(one.data() + N); vp_assert(b.size() == r.ShareSize(), "decoded share size"); for (size_t j = 0; j < b.size(); j++) vp_assert(b[j] == sh[i][j], "decoding a share inverts encoding"); }
      std::vector<unsigned char> ex(all.begin() + (long)N, all.begin() + (long)(N + k * B)); auto back = r.SharesFromBytes(ex.data(), k); vp_assert(back.size() == k, "decoded number of shares");
      for (size_t i = 0; i < k; i++) { vp_assert(back[i].size() == r.ShareSize(), "decoded share size"); for (size_t j = 0; j < r.ShareSize(); j++) vp_assert(back[i][j] == sh[i][j], "decoding shares inverts encoding"); }
      break;
    }
  }
  vp_reach("end");
}
