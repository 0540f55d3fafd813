// Hash-consed bit-vector terms (width <= 128), prime-field nodes, simplifier,
// concrete evaluation.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <wmmintrin.h>
#include <emmintrin.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)((v ^ s) - s);
}
static inline std::string hex128(u128 v) {
  char b[40];
  if (v >> 64) snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, sizeof b, "%llx", (unsigned long long)v);
  return b;
}

enum Op : u8 {
  T_CONST, T_VAR, T_ADD, T_SUB, T_MUL, T_UDIV, T_UREM, T_SDIV, T_SREM,
  T_AND, T_OR, T_XOR, T_NOT, T_SHL, T_LSHR, T_ASHR, T_CONCAT, T_EXTRACT,
  T_SEXT, T_ITE, T_EQ, T_ULT, T_SLT, T_UF, T_F2B, T_FEQ
};
static const char *opname[] = {"const","var","add","sub","mul","udiv","urem","sdiv","srem",
  "and","or","xor","not","shl","lshr","ashr","concat","extract","sext","ite","eq","ult","slt","uf","f2b","feq"};
enum Uf : u32 { UF_AESENC = 1, UF_AESENCLAST, UF_KEYGEN, UF_SBOX };

struct FNode;
struct Term {
  u8 op; uint16_t w; u32 id; u32 aux;
  Term *a, *b, *d;
  FNode *f, *g;
  u128 c;
  u128 lo, hi;   // unsigned range
  u32 bd;        // nesting of bitwise operations
};

enum FOp : u8 { F_CONST, F_VAR, F_ADD, F_SUB, F_MUL, F_NEG };
struct Poly;
struct FNode { u8 op; u32 id; u128 c; Term *w; FNode *a, *b; Poly *poly; };
struct Poly { std::vector<std::pair<u32, u128>> m; FNode *canon = nullptr; u32 id; };

// ---------------------------------------------------------------- prime field
static u128 FP = 0x1FFFFFFFFFFFFFFFull;  // modulus of the abstract field
static unsigned FPW = 61, FPBYTES = 8;
static inline u128 fadd(u128 a, u128 b) { u128 s = a + b; return s >= FP ? s - FP : s; }
static inline u128 fsub(u128 a, u128 b) { return a >= b ? a - b : a + FP - b; }
static inline u128 fmul(u128 a, u128 b) {
  if (FPW <= 64) return (a * b) % FP;
  u128 r = 0;  // double and add
  while (b) { if (b & 1) r = fadd(r, a); a = fadd(a, a); b >>= 1; }
  return r;
}
static inline u128 fpow(u128 a, u128 e) { u128 r = 1; while (e) { if (e & 1) r = fmul(r, a); a = fmul(a, a); e >>= 1; } return r; }
static inline u128 finv(u128 a) { return fpow(a, FP - 2); }

// ---------------------------------------------------------------- AES on concrete blocks
static inline __m128i tov(u128 x) { __m128i r; memcpy(&r, &x, 16); return r; }
static inline u128 fromv(__m128i x) { u128 r; memcpy(&r, &x, 16); return r; }
__attribute__((target("aes"))) static u128 aesenc_c(u128 a, u128 k) { return fromv(_mm_aesenc_si128(tov(a), tov(k))); }
__attribute__((target("aes"))) static u128 aesenclast_c(u128 a, u128 k) { return fromv(_mm_aesenclast_si128(tov(a), tov(k))); }
__attribute__((target("aes"))) static u128 keygen_c(u128 a, unsigned rc) {
  // X3..X0; compute via aesenclast on a broadcast column to obtain SubWord
  u32 x[4]; memcpy(x, &a, 16);
  auto sub = [](u32 v) { __m128i t = _mm_set1_epi32((int)v); t = _mm_aesenclast_si128(t, _mm_setzero_si128()); return (u32)_mm_cvtsi128_si32(t); };
  auto rot = [](u32 v) { return (v >> 8) | (v << 24); };
  u32 r[4]; u32 s1 = sub(x[1]), s3 = sub(x[3]);
  r[0] = s1; r[1] = rot(s1) ^ rc; r[2] = s3; r[3] = rot(s3) ^ rc;
  u128 o; memcpy(&o, r, 16); return o;
}
static u8 sbox_c(u8 v) { __m128i t = _mm_set1_epi8((char)v); u128 r = aesenclast_c(fromv(t), 0); return (u8)r; }

// ---------------------------------------------------------------- tables
struct TermHash {
  size_t operator()(const Term *t) const {
    size_t h = t->op * 0x9E3779B97F4A7C15ull + t->w * 31 + t->aux * 0x85ebca6bull;
    auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix((size_t)(t->a ? t->a->id + 1 : 0)); mix((size_t)(t->b ? t->b->id + 1 : 0)); mix((size_t)(t->d ? t->d->id + 1 : 0));
    mix((size_t)t->f); mix((size_t)t->g); mix((size_t)t->c); mix((size_t)(t->c >> 64));
    return h;
  }
};
struct TermEq {
  bool operator()(const Term *x, const Term *y) const {
    return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->d == y->d && x->f == y->f && x->g == y->g && x->c == y->c;
  }
};
static std::unordered_set<Term *, TermHash, TermEq> g_terms;
static std::vector<Term *> g_byid;
static std::vector<std::string> g_varnames;

static void setRange(Term *t);
static Term *intern(Term &k) {
  auto it = g_terms.find(&k);
  if (it != g_terms.end()) return *it;
  Term *t = (Term *)malloc(sizeof(Term));
  *t = k;
  t->id = (u32)g_byid.size();
  t->bd = 0; for (Term *x : {t->a, t->b, t->d}) if (x && x->bd > t->bd) t->bd = x->bd; if (t->op == T_AND || t->op == T_OR || t->op == T_XOR) t->bd++;
  setRange(t);
  g_byid.push_back(t);
  g_terms.insert(t);
  return t;
}
static Term *raw(u8 op, unsigned w, Term *a = nullptr, Term *b = nullptr, Term *d = nullptr, u32 aux = 0, u128 c = 0, FNode *f = nullptr, FNode *g = nullptr) {
  Term k; memset(&k, 0, sizeof k);
  k.op = op; k.w = (uint16_t)w; k.aux = aux; k.a = a; k.b = b; k.d = d; k.c = c; k.f = f; k.g = g;
  return intern(k);
}
static Term *mkConst(unsigned w, u128 c) { return raw(T_CONST, w, 0, 0, 0, 0, c & maskw(w)); }
static Term *mkVar(const std::string &name, unsigned w) { g_varnames.push_back(name); return raw(T_VAR, w, 0, 0, 0, (u32)g_varnames.size() - 1); }
static inline bool isC(const Term *t) { return t->op == T_CONST; }

static u128 pow2ge(u128 v) { // all-ones value >= v
  u128 r = 0; while (r < v) r = (r << 1) | 1; return r;
}
static bool mulov(u128 a, u128 b, u128 m) { if (!a || !b) return false; return a > m / b; }
static void setRange(Term *t) {
  u128 M = maskw(t->w); t->lo = 0; t->hi = M;
  switch (t->op) {
    case T_CONST: t->lo = t->hi = t->c; break;
    case T_CONCAT: t->lo = (t->a->lo << t->b->w) | t->b->lo; t->hi = (t->a->hi << t->b->w) | t->b->hi; break;
    case T_EXTRACT: { unsigned l = t->aux; if ((t->a->hi >> l) <= M) { t->hi = t->a->hi >> l; t->lo = t->a->lo >> l; } break; }
    case T_ADD: if (!(t->a->hi > M - t->b->hi)) { t->lo = t->a->lo + t->b->lo; t->hi = t->a->hi + t->b->hi; }
      else if (isC(t->b)) { u128 n = (~t->b->c + 1) & M; if (t->a->lo >= n) { t->lo = t->a->lo - n; t->hi = t->a->hi - n; } }
      break;
    case T_SUB: if (t->a->lo >= t->b->hi) { t->lo = t->a->lo - t->b->hi; t->hi = t->a->hi - t->b->lo; } break;
    case T_MUL: if (!mulov(t->a->hi, t->b->hi, M)) { t->lo = t->a->lo * t->b->lo; t->hi = t->a->hi * t->b->hi; } break;
    case T_UDIV: if (t->b->lo) { t->hi = t->a->hi / t->b->lo; t->lo = t->a->lo / t->b->hi; } break;
    case T_UREM: if (t->b->lo) { t->hi = t->b->hi - 1; if (t->a->hi < t->hi) t->hi = t->a->hi; } break;
    case T_AND: t->hi = std::min(t->a->hi, t->b->hi); break;
    case T_OR: t->lo = std::max(t->a->lo, t->b->lo); t->hi = std::min(M, pow2ge(std::max(t->a->hi, t->b->hi))); break;
    case T_XOR: t->hi = std::min(M, pow2ge(std::max(t->a->hi, t->b->hi))); break;
    case T_LSHR: t->hi = t->a->hi; break;
    case T_ITE: t->lo = std::min(t->b->lo, t->d->lo); t->hi = std::max(t->b->hi, t->d->hi); break;
    case T_F2B: t->hi = FP - 1; break;
    default: break;
  }
}

// ---------------------------------------------------------------- field nodes
struct FHash { size_t operator()(const FNode *n) const { size_t h = n->op; auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }; mix((size_t)n->c); mix((size_t)(n->c >> 64)); mix((size_t)n->w); mix((size_t)n->a); mix((size_t)n->b); return h; } };
struct FEqq { bool operator()(const FNode *x, const FNode *y) const { return x->op == y->op && x->c == y->c && x->w == y->w && x->a == y->a && x->b == y->b; } };
static std::unordered_set<FNode *, FHash, FEqq> g_fnodes;
static u32 g_fid = 0;
static std::vector<FNode *> g_fvars;  // index = field var id
static std::unordered_map<Term *, u32> g_fvarid;
static FNode *fintern(FNode &k) {
  auto it = g_fnodes.find(&k); if (it != g_fnodes.end()) return *it;
  FNode *n = new FNode(k); n->id = g_fid++; n->poly = nullptr; g_fnodes.insert(n); return n;
}
static FNode *fnode(u8 op, FNode *a = nullptr, FNode *b = nullptr, u128 c = 0, Term *w = nullptr) { FNode k; memset(&k, 0, sizeof k); k.op = op; k.a = a; k.b = b; k.c = c; k.w = w; return fintern(k); }
static FNode *FC(u128 c) { return fnode(F_CONST, 0, 0, c % FP); }
static FNode *FADD(FNode *a, FNode *b) {
  if (a->op == F_CONST && b->op == F_CONST) return FC(fadd(a->c, b->c));
  if (a->op == F_CONST && a->c == 0) return b;
  if (b->op == F_CONST && b->c == 0) return a;
  return fnode(F_ADD, a, b);
}
static FNode *FSUB(FNode *a, FNode *b) {
  if (a->op == F_CONST && b->op == F_CONST) return FC(fsub(a->c, b->c));
  if (b->op == F_CONST && b->c == 0) return a;
  if (a == b) return FC(0);
  return fnode(F_SUB, a, b);
}
static FNode *FNEG(FNode *a) { if (a->op == F_CONST) return FC(fsub(0, a->c)); return fnode(F_NEG, a); }
static FNode *FMUL(FNode *a, FNode *b) {
  if (a->op == F_CONST && b->op == F_CONST) return FC(fmul(a->c, b->c));
  if (a->op == F_CONST) std::swap(a, b);
  if (b->op == F_CONST) { if (b->c == 0) return FC(0); if (b->c == 1) return a; }
  else if (a->id > b->id) std::swap(a, b);
  return fnode(F_MUL, a, b);
}

// monomials
static std::map<std::vector<u32>, u32> g_mono;
static std::vector<std::vector<u32>> g_monos;
static u32 monoId(const std::vector<u32> &m) { auto it = g_mono.find(m); if (it != g_mono.end()) return it->second; u32 i = (u32)g_monos.size(); g_mono[m] = i; g_monos.push_back(m); return i; }
static std::unordered_map<u64, u32> g_monoMul;
static u32 monoMul(u32 a, u32 b) {
  if (a > b) std::swap(a, b);
  u64 k = ((u64)a << 32) | b; auto it = g_monoMul.find(k); if (it != g_monoMul.end()) return it->second;
  std::vector<u32> r(g_monos[a]); r.insert(r.end(), g_monos[b].begin(), g_monos[b].end()); std::sort(r.begin(), r.end());
  u32 i = monoId(r); g_monoMul[k] = i; return i;
}
struct PolyKeyHash { size_t operator()(const Poly *p) const { size_t h = 7; for (auto &t : p->m) { h ^= t.first + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h = h * 31 + (size_t)t.second; } return h; } };
struct PolyKeyEq { bool operator()(const Poly *a, const Poly *b) const { return a->m == b->m; } };
static std::unordered_set<Poly *, PolyKeyHash, PolyKeyEq> g_polys;
static u32 g_polyid = 0;
static Poly *internPoly(std::unordered_map<u32, u128> &acc) {
  Poly k; for (auto &t : acc) if (t.second) k.m.push_back(t);
  std::sort(k.m.begin(), k.m.end());
  auto it = g_polys.find(&k); if (it != g_polys.end()) return *it;
  Poly *p = new Poly(k); p->id = g_polyid++; g_polys.insert(p); return p;
}
static u32 fvarId(Term *w, FNode *n) { auto it = g_fvarid.find(w); if (it != g_fvarid.end()) return it->second; u32 i = (u32)g_fvars.size(); g_fvars.push_back(n); g_fvarid[w] = i; return i; }
static Poly *polyOf(FNode *f) {
  if (f->poly) return f->poly;
  if (g_monos.empty()) monoId({});
  std::unordered_map<u32, u128> acc;
  std::vector<std::pair<FNode *, u128>> st{{f, 1}};
  while (!st.empty()) {
    auto [n, k] = st.back(); st.pop_back();
    if (n->poly && n != f) { for (auto &t : n->poly->m) { auto &x = acc[t.first]; x = fadd(x, fmul(t.second, k)); } continue; }
    switch (n->op) {
      case F_CONST: { auto &x = acc[0]; x = fadd(x, fmul(n->c, k)); break; }
      case F_VAR: { u32 m = monoId({fvarId(n->w, n)}); auto &x = acc[m]; x = fadd(x, k); break; }
      case F_ADD: st.push_back({n->a, k}); st.push_back({n->b, k}); break;
      case F_SUB: st.push_back({n->a, k}); st.push_back({n->b, fsub(0, k)}); break;
      case F_NEG: st.push_back({n->a, fsub(0, k)}); break;
      case F_MUL:
        if (n->b->op == F_CONST) st.push_back({n->a, fmul(k, n->b->c)});
        else {
          Poly *p = polyOf(n->a), *q = polyOf(n->b);
          for (auto &s : p->m) for (auto &t : q->m) { u32 m = monoMul(s.first, t.first); auto &x = acc[m]; x = fadd(x, fmul(k, fmul(s.second, t.second))); }
        }
        break;
    }
  }
  return f->poly = internPoly(acc);
}
static FNode *canonF(FNode *f) { Poly *p = polyOf(f); if (!p->canon) p->canon = f; return p->canon; }
static bool polyConst(Poly *p, u128 &c) { if (p->m.empty()) { c = 0; return true; } if (p->m.size() == 1 && p->m[0].first == 0) { c = p->m[0].second; return true; } return false; }

// ---------------------------------------------------------------- constructors
static Term *mkExtract(Term *t, unsigned hi, unsigned lo);
static Term *mkConcat(Term *h, Term *l);
static Term *mkNot(Term *a);
static Term *mkEq(Term *a, Term *b);
static Term *mkUlt(Term *a, Term *b);
static Term *mkIte(Term *c, Term *a, Term *b);
static Term *mkBit(u8 op, Term *a, Term *b);
static Term *mkAdd(Term *a, Term *b);
static Term *mkSub(Term *a, Term *b);
static Term *mkMul(Term *a, Term *b);
static Term *mkUdiv(Term *a, Term *b);
static Term *mkUrem(Term *a, Term *b);
static Term *mkZext(Term *t, unsigned w) { return t->w == w ? t : mkConcat(mkConst(w - t->w, 0), t); }
static Term *mkTrue() { static Term *t = mkConst(1, 1); return t; }
static Term *mkFalse() { static Term *t = mkConst(1, 0); return t; }
static Term *mkBool(bool b) { return b ? mkTrue() : mkFalse(); }

static bool hasF(Term *t) { if (t->op == T_F2B) return true; if (t->op == T_CONCAT) return hasF(t->a) || hasF(t->b); if (t->op == T_EXTRACT) return hasF(t->a); return false; }
static Term *mkF2B(FNode *f) { if (f->op == F_CONST) return mkConst(FPBYTES * 8, f->c); return raw(T_F2B, FPBYTES * 8, 0, 0, 0, 0, 0, f); }
// replace field elements used as bits by the representative of their polynomial
static Term *canonT(Term *t) {
  if (!hasF(t)) return t;
  if (t->op == T_F2B) { u128 c; if (polyConst(polyOf(t->f), c)) return mkConst(t->w, c); return mkF2B(canonF(t->f)); }
  if (t->op == T_CONCAT) return mkConcat(canonT(t->a), canonT(t->b));
  return mkExtract(canonT(t->a), t->aux + t->w - 1, t->aux);
}
static FNode *mkBV2F(Term *t) {
  if (t->op == T_F2B) return t->f;
  if (isC(t)) return FC(t->c);
  if (t->op == T_CONCAT && isC(t->a) && t->a->c == 0) return mkBV2F(t->b);
  if (t->op == T_UREM && isC(t->b)) {
    if (t->b->c == FP) return mkBV2F(t->a);
    return FSUB(mkBV2F(t->a), FMUL(mkBV2F(mkUdiv(t->a, t->b)), FC(t->b->c)));
  }
  if (t->op == T_EXTRACT && t->aux == 0 && t->a->hi <= maskw(t->w)) return mkBV2F(t->a);
  if (t->op == T_ADD && !(t->a->hi > maskw(t->w) - t->b->hi)) return FADD(mkBV2F(t->a), mkBV2F(t->b));
  if (t->op == T_ADD && isC(t->b)) { u128 n = (~t->b->c + 1) & maskw(t->w); if (t->a->lo >= n) return FSUB(mkBV2F(t->a), FC(n)); }
  if (t->op == T_SUB && t->a->lo >= t->b->hi) return FSUB(mkBV2F(t->a), mkBV2F(t->b));
  if (t->op == T_MUL && isC(t->b) && !mulov(t->a->hi, t->b->c, maskw(t->w))) return FMUL(mkBV2F(t->a), FC(t->b->c));
  return fnode(F_VAR, 0, 0, 0, t);
}

static Term *mkExtract(Term *t, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (lo == 0 && w == t->w) return t;
  switch (t->op) {
    case T_CONST: return mkConst(w, t->c >> lo);
    case T_EXTRACT: return mkExtract(t->a, hi + t->aux, lo + t->aux);
    case T_CONCAT: {
      unsigned bw = t->b->w;
      if (hi < bw) return mkExtract(t->b, hi, lo);
      if (lo >= bw) return mkExtract(t->a, hi - bw, lo - bw);
      return mkConcat(mkExtract(t->a, hi - bw, 0), mkExtract(t->b, bw - 1, lo));
    }
    case T_SEXT: if (hi < t->a->w) return mkExtract(t->a, hi, lo); if (lo >= t->a->w - 1 && w == 1) return mkExtract(t->a, t->a->w - 1, t->a->w - 1); break;
    case T_ITE: if (isC(t->b) || isC(t->d)) return mkIte(t->a, mkExtract(t->b, hi, lo), mkExtract(t->d, hi, lo)); break;
    case T_NOT: if (w <= 16) return mkNot(mkExtract(t->a, hi, lo)); break;
    case T_AND: case T_OR: case T_XOR: if (isC(t->b) || (w == 1 && t->bd <= 8)) return mkBit(t->op, mkExtract(t->a, hi, lo), mkExtract(t->b, hi, lo)); break;
    case T_ADD: case T_SUB: // low part of narrow values
      if (lo == 0 && w < t->w && t->a->hi <= maskw(w) && t->b->hi <= maskw(w)) {
        Term *x = mkExtract(t->a, hi, 0), *y = mkExtract(t->b, hi, 0);
        return t->op == T_ADD ? mkAdd(x, y) : mkSub(x, y);
      }
      if (lo == 0 && isC(t->b) && w <= 32 && t->op == T_ADD) return mkAdd(mkExtract(t->a, hi, 0), mkExtract(t->b, hi, 0));
      break;
    default: break;
  }
  if (lo > 0 && (t->hi >> lo) == 0) return mkConst(w, 0);
  return raw(T_EXTRACT, w, t, 0, 0, lo);
}
static Term *mkConcat(Term *h, Term *l) {
  if (h->op == T_CONCAT) return mkConcat(h->a, mkConcat(h->b, l));
  if (isC(h) && isC(l)) return mkConst(h->w + l->w, (h->c << l->w) | l->c);
  Term *head = l->op == T_CONCAT ? l->a : l;
  Term *m = nullptr;
  if (isC(h) && isC(head)) m = mkConst(h->w + head->w, (h->c << head->w) | head->c);
  else if (h->op == T_EXTRACT && head->op == T_EXTRACT && h->a == head->a && h->aux == head->aux + head->w) m = mkExtract(h->a, h->aux + h->w - 1, head->aux);
  else if (isC(h) && h->c == 0 && head->op == T_EXTRACT && head->aux + head->w < head->a->w && (head->a->hi >> (head->aux + head->w)) == 0) {
    unsigned room = head->a->w - head->aux - head->w; unsigned k = std::min<unsigned>(room, h->w);
    m = mkExtract(head->a, head->aux + head->w + k - 1, head->aux);
    if (k < h->w) m = raw(T_CONCAT, h->w + head->w, mkConst(h->w - k, 0), m);
  }
  if (m) { if (head == l) return m; if (m->op == T_CONCAT) return raw(T_CONCAT, m->w + l->b->w, m->a, mkConcat(m->b, l->b)); return mkConcat(m, l->b); }
  return raw(T_CONCAT, h->w + l->w, h, l);
}
static Term *mkNot(Term *a) {
  if (isC(a)) return mkConst(a->w, ~a->c);
  if (a->op == T_NOT) return a->a;
  a = canonT(a);
  return raw(T_NOT, a->w, a);
}
static void slicesOf(Term *t, std::vector<Term *> &out) { // msb first
  while (t->op == T_CONCAT) { out.push_back(t->a); t = t->b; }
  out.push_back(t);
}
static int runs(u128 c, unsigned w) { int r = 1; for (unsigned i = 1; i < w; i++) if (((c >> i) & 1) != ((c >> (i - 1)) & 1)) r++; return r; }
static Term *mkBit(u8 op, Term *a, Term *b) {
  unsigned w = a->w; u128 M = maskw(w);
  if (isC(a) && isC(b)) return mkConst(w, op == T_AND ? a->c & b->c : op == T_OR ? a->c | b->c : a->c ^ b->c);
  if (isC(a)) std::swap(a, b);
  if (a == b) return op == T_XOR ? mkConst(w, 0) : a;
  if (isC(b)) {
    if (op == T_AND) { if (b->c == 0) return b; if (b->c == M) return a; }
    if (op == T_OR) { if (b->c == 0) return a; if (b->c == M) return b; if (a->op != T_CONCAT && w > 1 && a->hi < M && !(pow2ge(a->hi) & b->c)) return mkAdd(a, b); }
    if (op == T_XOR) { if (b->c == 0) return a; if (b->c == M) return mkNot(a); }
  }
  // slice-wise when useful
  if (w > 1) {
    bool sl = false;
    std::vector<unsigned> cuts; // lower bit offsets
    auto addcuts = [&](Term *t) {
      if (t->op == T_CONCAT) { Term *x = t; while (x->op == T_CONCAT) { cuts.push_back(x->b->w); if (isC(x->a)) sl = true; x = x->b; } if (isC(x)) sl = true; }
      else if (isC(t) && op == T_AND) { if (runs(t->c, w) <= 4) { for (unsigned i = 1; i < w; i++) if (((t->c >> i) & 1) != ((t->c >> (i - 1)) & 1)) cuts.push_back(i); sl = true; } }
    };
    addcuts(a); addcuts(b);
    if (sl && !cuts.empty()) {
      std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
      cuts.push_back(w);
      Term *r = nullptr; unsigned lo = 0;
      for (unsigned c : cuts) {
        Term *x = mkExtract(a, c - 1, lo), *y = mkExtract(b, c - 1, lo);
        Term *z = mkBit(op, x, y);
        r = r ? mkConcat(z, r) : z; lo = c;
      }
      return r;
    }
  }
  a = canonT(a); b = canonT(b);
  if (isC(a) || isC(b)) if (isC(a)) return mkBit(op, b, a);
  if (a == b) return op == T_XOR ? mkConst(w, 0) : a;
  if ((a->op == T_NOT && a->a == b) || (b->op == T_NOT && b->a == a)) return op == T_AND ? mkConst(w, 0) : mkConst(w, M);
  if (op == T_XOR) { // normalise nots
    bool inv = false;
    if (a->op == T_NOT) { a = a->a; inv = !inv; }
    if (b->op == T_NOT) { b = b->a; inv = !inv; }
    if (inv) return mkNot(mkBit(T_XOR, a, b));
    if (a->op == T_XOR && (a->a == b || a->b == b)) return a->a == b ? a->b : a->a;
    if (b->op == T_XOR && (b->a == a || b->b == a)) return b->a == a ? b->b : b->a;
    if (isC(b) && a->op == T_XOR && isC(a->b)) return mkBit(T_XOR, a->a, mkConst(w, a->b->c ^ b->c));
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(op, w, a, b);
}
static bool disjoint(Term *a, Term *b) { // known-zero slices never overlap
  std::vector<Term *> x, y; slicesOf(a, x); slicesOf(b, y);
  // compare from lsb
  size_t i = x.size(), j = y.size(); unsigned pi = 0, pj = 0;
  if (i == 0 || j == 0) return false;
  --i; --j;
  while (true) {
    unsigned ei = pi + x[i]->w, ej = pj + y[j]->w;
    bool zi = isC(x[i]) && x[i]->c == 0, zj = isC(y[j]) && y[j]->c == 0;
    if (!zi && !zj) {
      if (isC(x[i]) && isC(y[j]) ) { return false; }
      return false;
    }
    if (ei <= ej) { pi = ei; if (i == 0) { if (ei == ej) return true; } else { --i; } if (ei == ej) { pj = ej; if (j == 0) return true; --j; } else if (pi == a->w) return true; }
    else { pj = ej; if (j == 0) return true; --j; }
  }
}
static Term *mkAdd(Term *a, Term *b) {
  unsigned w = a->w;
  if (w == 1) return mkBit(T_XOR, a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c + b->c);
    if (b->c == 0) return a;
    if (a->op == T_ADD && isC(a->b)) return mkAdd(a->a, mkConst(w, a->b->c + b->c));
    if (a->op == T_CONCAT && isC(a->a) && a->a->c == 0 && a->b->op == T_ADD && isC(a->b->b) && !(a->b->a->hi > maskw(a->b->w) - a->b->b->c)) return mkAdd(mkZext(a->b->a, w), mkConst(w, a->b->b->c + b->c));
    if (a->op == T_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->d, b));
  } else {
    if (a->op == T_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->op == T_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    // (x/c)*c + x%c
    for (int s = 0; s < 2; s++) {
      Term *m = s ? b : a, *r = s ? a : b;
      if (m->op == T_MUL && isC(m->b) && r->op == T_UREM && isC(r->b) && r->b->c == m->b->c && m->a == mkUdiv(r->a, r->b)) return r->a;
    }
    if (b->op == T_SUB && b->b == a) return b->a;
    if (a->op == T_SUB && a->b == b) return a->a;
  }
  if ((a->op == T_CONCAT || b->op == T_CONCAT) && (a->op == T_CONCAT || isC(a)) && (b->op == T_CONCAT || isC(b)) && disjoint(a, b)) return mkBit(T_OR, a, b);
  // narrow additions that cannot overflow their low part
  a = canonT(a); b = canonT(b);
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(T_ADD, w, a, b);
}
static Term *mkSub(Term *a, Term *b) {
  unsigned w = a->w;
  if (w == 1) return mkBit(T_XOR, a, b);
  if (isC(b)) return mkAdd(a, mkConst(w, ~b->c + 1));
  if (a == b) return mkConst(w, 0);
  a = canonT(a); b = canonT(b);
  if (a == b) return mkConst(w, 0);
  if (a->op == T_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (b->op == T_ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), mkConst(w, ~b->b->c + 1));
  if (a->op == T_ADD && isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
  if (a->op == T_SUB && a->a == b) return mkSub(mkConst(w, 0), a->b);
  if (b->op == T_MUL && isC(b->b) && b->b->c && b->a == mkUdiv(a, b->b)) return mkUrem(a, b->b);
  return raw(T_SUB, w, a, b);
}
static int ctz128(u128 c) { int n = 0; while (!(c & 1)) { c >>= 1; n++; } return n; }
static Term *mkShlC(Term *a, unsigned k) { if (k == 0) return a; if (k >= a->w) return mkConst(a->w, 0); return mkConcat(mkExtract(a, a->w - 1 - k, 0), mkConst(k, 0)); }
static Term *mkLshrC(Term *a, unsigned k) { if (k == 0) return a; if (k >= a->w) return mkConst(a->w, 0); return mkConcat(mkConst(k, 0), mkExtract(a, a->w - 1, k)); }
static Term *mkSext(Term *a, unsigned w);
static Term *mkMul(Term *a, Term *b) {
  unsigned w = a->w;
  if (w == 1) return mkBit(T_AND, a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c * b->c);
    if (b->c == 0) return b; if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) return mkShlC(a, ctz128(b->c));
  }
  a = canonT(a); b = canonT(b);
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(T_MUL, w, a, b);
}
static Term *mkUdiv(Term *a, Term *b) {
  unsigned w = a->w;
  if (isC(b) && b->c) {
    if (isC(a)) return mkConst(w, a->c / b->c);
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) return mkLshrC(a, ctz128(b->c));
    if (a->hi < b->c) return mkConst(w, 0);
  }
  a = canonT(a); b = canonT(b);
  if (isC(b) && b->c && a->op == T_CONCAT && isC(a->a) && a->a->c == 0 && b->c <= maskw(a->b->w)) // narrow
    return mkZext(mkUdiv(a->b, mkConst(a->b->w, b->c)), w);
  if (isC(b) && b->c && a->op == T_UDIV && isC(a->b) && a->b->c) { if (mulov(a->b->c, b->c, maskw(w))) return mkConst(w, 0); return mkUdiv(a->a, mkConst(w, a->b->c * b->c)); }
  return raw(T_UDIV, w, a, b);
}
static Term *mkUrem(Term *a, Term *b) {
  unsigned w = a->w;
  if (isC(b) && b->c) {
    if (isC(a)) return mkConst(w, a->c % b->c);
    if (b->c == 1) return mkConst(w, 0);
    if ((b->c & (b->c - 1)) == 0) { unsigned k = ctz128(b->c); return mkZext(mkExtract(a, k - 1, 0), w); }
    if (a->hi < b->c) return a;
  }
  a = canonT(a); b = canonT(b);
  if (isC(b) && b->c && a->op == T_CONCAT && isC(a->a) && a->a->c == 0 && b->c <= maskw(a->b->w))
    return mkZext(mkUrem(a->b, mkConst(a->b->w, b->c)), w);
  return raw(T_UREM, w, a, b);
}
static bool nonneg(Term *t) { return !((t->hi >> (t->w - 1)) & 1); }
static Term *mkSdiv(Term *a, Term *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b) && b->c) { i128 x = sxt(a->c, w), y = sxt(b->c, w); if (y == -1) return mkConst(w, (u128)0 - (u128)x); return mkConst(w, (u128)(x / y)); }
  if (nonneg(a) && nonneg(b)) return mkUdiv(a, b);
  return raw(T_SDIV, w, canonT(a), canonT(b));
}
static Term *mkSrem(Term *a, Term *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b) && b->c) { i128 x = sxt(a->c, w), y = sxt(b->c, w); if (y == -1) return mkConst(w, 0); return mkConst(w, (u128)(x % y)); }
  if (nonneg(a) && nonneg(b)) return mkUrem(a, b);
  return raw(T_SREM, w, canonT(a), canonT(b));
}
static Term *mkShl(Term *a, Term *b) { if (isC(b)) return mkShlC(a, b->c > 200 ? 200 : (unsigned)b->c); return raw(T_SHL, a->w, canonT(a), canonT(b)); }
static Term *mkLshr(Term *a, Term *b) { if (isC(b)) return mkLshrC(a, b->c > 200 ? 200 : (unsigned)b->c); return raw(T_LSHR, a->w, canonT(a), canonT(b)); }
static Term *mkAshr(Term *a, Term *b) {
  if (nonneg(a)) return mkLshr(a, b);
  if (isC(b)) { unsigned k = b->c >= a->w ? a->w - 1 : (unsigned)b->c; if (!k) return a; return mkSext(mkExtract(a, a->w - 1, k), a->w); }
  return raw(T_ASHR, a->w, canonT(a), canonT(b));
}
static Term *mkSext(Term *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (u128)sxt(a->c, a->w));
  if (nonneg(a)) return mkZext(a, w);
  if (a->op == T_SEXT) return mkSext(a->a, w);
  if (a->op == T_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return raw(T_SEXT, w, canonT(a));
}
static Term *mkIte(Term *c, Term *a, Term *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == T_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBit(T_OR, c, b) : mkBit(T_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBit(T_OR, mkNot(c), a) : mkBit(T_AND, c, a);
  }
  if (hasF(a) || hasF(b)) { a = canonT(a); b = canonT(b); if (a == b) return a; }
  return raw(T_ITE, a->w, c, a, b);
}
static Term *mkFeq(FNode *f, FNode *g) {
  if (f == g) return raw(T_FEQ, 1, 0, 0, 0, 0, 0, f, g); // kept: decided by the solver
  if (f->op == F_CONST && g->op == F_CONST) return mkBool(f->c == g->c);
  return raw(T_FEQ, 1, 0, 0, 0, 0, 0, f, g);
}
static Term *mkEq(Term *a, Term *b) {
  if (a == b) return mkTrue();
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(mkBit(T_XOR, a, b)); }
  if (a->lo > b->hi || b->lo > a->hi) return mkFalse();
  if (a->op == T_F2B && b->op == T_F2B) return mkFeq(a->f, b->f);
  if (a->op == T_F2B && isC(b)) return b->c < FP ? mkFeq(a->f, FC(b->c)) : mkFalse();
  a = canonT(a); b = canonT(b);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (isC(b)) {
    if (a->op == T_UDIV && isC(a->b) && a->b->c && b->c == 0) return mkUlt(a->a, a->b);
    if (a->op == T_CONCAT) return mkBit(T_AND, mkEq(a->a, mkConst(a->a->w, b->c >> a->b->w)), mkEq(a->b, mkConst(a->b->w, b->c)));
    if (a->op == T_ADD && isC(a->b)) return mkEq(a->a, mkConst(a->w, b->c - a->b->c));
    if (a->op == T_XOR && isC(a->b)) return mkEq(a->a, mkConst(a->w, b->c ^ a->b->c));
    if (a->op == T_NOT) return mkEq(a->a, mkConst(a->w, ~b->c));
    if (a->op == T_SEXT) { Term *t = mkConst(a->a->w, b->c); if ((u128)(sxt(t->c, t->w)) << (128 - a->w) == b->c << (128 - a->w)) return mkEq(a->a, t); return mkFalse(); }
    if (a->op == T_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
  } else if (a->op == T_CONCAT && b->op == T_CONCAT) {
    if (a->b->w == b->b->w) return mkBit(T_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (isC(a->a) && a->a->c == 0 && isC(b->a) && b->a->c == 0) { unsigned w = std::max(a->b->w, b->b->w); return mkEq(mkZext(a->b, w), mkZext(b->b, w)); }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(T_EQ, 1, a, b);
}
static Term *mkUlt(Term *a, Term *b) {
  if (a == b) return mkFalse();
  if (a->hi < b->lo) return mkTrue();
  if (a->lo >= b->hi) return mkFalse();
  if (isC(a) && isC(b)) return mkBool(a->c < b->c);
  a = canonT(a); b = canonT(b);
  if (a == b) return mkFalse();
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(a->w, 0));
  if (a->w == 1) return mkBit(T_AND, mkNot(a), b);
  if (a->op == T_CONCAT && isC(a->a) && a->a->c == 0) {
    unsigned k = a->b->w;
    if (isC(b)) { if (b->c > maskw(k)) return mkTrue(); return mkUlt(a->b, mkConst(k, b->c)); }
    if (b->op == T_CONCAT && isC(b->a) && b->a->c == 0 && b->b->w == k) return mkUlt(a->b, b->b);
  }
  if (b->op == T_CONCAT && isC(b->a) && b->a->c == 0 && isC(a)) { unsigned k = b->b->w; if (a->c > maskw(k)) return mkFalse(); return mkUlt(mkConst(k, a->c), b->b); }
  if (isC(a) && a->c == maskw(a->w) - 1) return mkEq(b, mkConst(a->w, maskw(a->w)));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  if (isC(b) && a->op == T_UDIV && isC(a->b) && a->b->c && !mulov(b->c, a->b->c, maskw(a->w))) return mkUlt(a->a, mkConst(a->w, b->c * a->b->c));
  if (isC(a) && b->op == T_UDIV && isC(b->b) && b->b->c && !mulov(a->c + 1, b->b->c, maskw(a->w))) return mkNot(mkUlt(b->a, mkConst(a->w, (a->c + 1) * b->b->c)));
  if (isC(a) && b->op == T_ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->d));
  if (isC(b) && a->op == T_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->d, b));
  return raw(T_ULT, 1, a, b);
}
static Term *mkSlt(Term *a, Term *b) {
  unsigned w = a->w;
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return mkBool(sxt(a->c, w) < sxt(b->c, w));
  if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
  if (isC(b) && b->c == 0) return mkExtract(canonT(a), w - 1, w - 1);
  if (w > 1 && isC(a) && a->c == maskw(w)) return mkNot(mkExtract(canonT(b), w - 1, w - 1));
  if (a->op == T_SEXT && isC(b)) { unsigned k = a->a->w; i128 v = sxt(b->c, w); if (v == sxt(b->c & maskw(k), k)) return mkSlt(a->a, mkConst(k, b->c)); return mkBool(v > 0); }
  if (b->op == T_SEXT && isC(a)) { unsigned k = b->a->w; i128 v = sxt(a->c, w); if (v == sxt(a->c & maskw(k), k)) return mkSlt(mkConst(k, a->c), b->a); return mkBool(v < 0); }
  return raw(T_SLT, 1, canonT(a), canonT(b));
}
static Term *mkUf(u32 uf, unsigned w, Term *a, Term *b) {
  a = canonT(a); if (b) b = canonT(b);
  if (isC(a) && (!b || isC(b))) switch (uf) {
    case UF_AESENC: return mkConst(w, aesenc_c(a->c, b->c));
    case UF_AESENCLAST: return mkConst(w, aesenclast_c(a->c, b->c));
    case UF_KEYGEN: return mkConst(w, keygen_c(a->c, (unsigned)b->c));
    case UF_SBOX: return mkConst(w, sbox_c((u8)a->c));
  }
  return raw(T_UF, w, a, b, 0, uf);
}
static Term *mkOp(u8 op, Term *a, Term *b) {
  switch (op) {
    case T_ADD: return mkAdd(a, b); case T_SUB: return mkSub(a, b); case T_MUL: return mkMul(a, b);
    case T_UDIV: return mkUdiv(a, b); case T_UREM: return mkUrem(a, b); case T_SDIV: return mkSdiv(a, b); case T_SREM: return mkSrem(a, b);
    case T_AND: case T_OR: case T_XOR: return mkBit(op, a, b);
    case T_SHL: return mkShl(a, b); case T_LSHR: return mkLshr(a, b); case T_ASHR: return mkAshr(a, b);
    case T_EQ: return mkEq(a, b); case T_ULT: return mkUlt(a, b); case T_SLT: return mkSlt(a, b);
  }
  abort();
}
static u128 evalOp(u8 op, unsigned w, u128 a, u128 b) { // concrete, operand width w
  u128 M = maskw(w);
  switch (op) {
    case T_ADD: return (a + b) & M; case T_SUB: return (a - b) & M; case T_MUL: return (a * b) & M;
    case T_UDIV: return b ? a / b : M; case T_UREM: return b ? a % b : a;
    case T_SDIV: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return ((u128)0 - (u128)x) & M; return (u128)(x / y) & M; }
    case T_SREM: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case T_AND: return a & b; case T_OR: return a | b; case T_XOR: return a ^ b;
    case T_SHL: return b >= w ? 0 : (a << (unsigned)b) & M; case T_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case T_ASHR: return (u128)(sxt(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & M;
    case T_EQ: return a == b; case T_ULT: return a < b; case T_SLT: return sxt(a, w) < sxt(b, w);
  }
  abort();
}

// ---------------------------------------------------------------- evaluation
struct Model { std::unordered_map<u32, u128> v; /* var index -> value */ };
struct Evaluator {
  const Model *m; bool complete = true; u128 dflt = 0;
  std::unordered_map<const Term *, u128> memo; std::unordered_map<const FNode *, u128> fmemo;
  std::function<u128(u32, unsigned)> missing;
  Evaluator(const Model *mm) : m(mm) {}
  u128 fev(const FNode *f) {
    auto it = fmemo.find(f); if (it != fmemo.end()) return it->second;
    // iterative post-order
    std::vector<const FNode *> st{f};
    while (!st.empty()) {
      const FNode *n = st.back();
      if (fmemo.count(n)) { st.pop_back(); continue; }
      bool ready = true;
      if (n->a && !fmemo.count(n->a)) { st.push_back(n->a); ready = false; }
      if (n->b && !fmemo.count(n->b)) { st.push_back(n->b); ready = false; }
      if (!ready) continue;
      u128 r = 0;
      switch (n->op) {
        case F_CONST: r = n->c; break;
        case F_VAR: r = ev(n->w) % FP; break;
        case F_ADD: r = fadd(fmemo[n->a], fmemo[n->b]); break;
        case F_SUB: r = fsub(fmemo[n->a], fmemo[n->b]); break;
        case F_MUL: r = fmul(fmemo[n->a], fmemo[n->b]); break;
        case F_NEG: r = fsub(0, fmemo[n->a]); break;
      }
      fmemo[n] = r; st.pop_back();
    }
    return fmemo[f];
  }
  u128 ev(const Term *t) {
    if (t->op == T_CONST) return t->c;
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    std::vector<const Term *> st{t};
    while (!st.empty()) {
      const Term *n = st.back();
      if (n->op == T_CONST) { memo[n] = n->c; st.pop_back(); continue; }
      if (memo.count(n)) { st.pop_back(); continue; }
      bool ready = true;
      for (const Term *k : {n->a, n->b, n->d}) if (k && !memo.count(k)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      u128 r = 0; auto A = [&] { return memo[n->a]; }; auto B = [&] { return memo[n->b]; };
      switch (n->op) {
        case T_VAR: { auto f = m->v.find(n->aux); if (f != m->v.end()) r = f->second & maskw(n->w); else { complete = false; r = missing ? missing(n->aux, n->w) & maskw(n->w) : 0; } break; }
        case T_NOT: r = ~A() & maskw(n->w); break;
        case T_CONCAT: r = (A() << n->b->w) | B(); break;
        case T_EXTRACT: r = (A() >> n->aux) & maskw(n->w); break;
        case T_SEXT: r = (u128)sxt(A(), n->a->w) & maskw(n->w); break;
        case T_ITE: r = A() ? B() : memo[n->d]; break;
        case T_UF: switch (n->aux) { case UF_AESENC: r = aesenc_c(A(), B()); break; case UF_AESENCLAST: r = aesenclast_c(A(), B()); break; case UF_KEYGEN: r = keygen_c(A(), (unsigned)B()); break; case UF_SBOX: r = sbox_c((u8)A()); break; } break;
        case T_F2B: r = fev(n->f); break;
        case T_FEQ: r = fev(n->f) == fev(n->g); break;
        case T_EQ: case T_ULT: case T_SLT: r = evalOp(n->op, n->a->w, A(), B()); break;
        default: r = evalOp(n->op, n->w, A(), B());
      }
      memo[n] = r; st.pop_back();
    }
    return memo[t];
  }
};
static std::string tstr(const Term *t, int depth = 6) {
  if (t->op == T_CONST) return "0x" + hex128(t->c) + ":" + std::to_string(t->w);
  if (t->op == T_VAR) return g_varnames[t->aux];
  if (depth == 0) return "..";
  std::string s = "("; s += opname[t->op];
  if (t->op == T_EXTRACT) s += "[" + std::to_string(t->aux + t->w - 1) + ":" + std::to_string(t->aux) + "]";
  if (t->op == T_F2B || t->op == T_FEQ) { s += " f" + std::to_string(t->f->id); if (t->g) s += " f" + std::to_string(t->g->id); }
  for (Term *k : {t->a, t->b, t->d}) if (k) s += " " + tstr(k, depth - 1);
  return s + ")";
}
