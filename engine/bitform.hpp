#pragma once
// Normal form of bit-vector terms, bit by bit: every bit is a GF(2) sum of atoms. An atom is a
// variable bit, a conjunction of two such sums, or a bit of any other operation, identified by the
// normal forms of its operands. Equal normal forms imply equal values, for every assignment.
struct BitForms {
  typedef std::vector<u32> Form; // sorted atoms; atom 0 is the constant one
  struct H { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
  std::unordered_map<Form, u32, H> ids; std::vector<Form> forms; u32 atoms = 1; bool tooBig = false; size_t limit = 6000;
  std::unordered_map<std::vector<u32>, u32, H> atomOf; std::unordered_map<u64, u32> xorMemo; std::unordered_map<u32, std::vector<u32>> memo;
  BitForms() { intern({}); intern({0}); } // form 0: zero, form 1: one
  u32 intern(Form f) { auto it = ids.find(f); if (it != ids.end()) return it->second; if (f.size() > limit) tooBig = true; u32 i = (u32)forms.size(); forms.push_back(f); ids.emplace(std::move(f), i); return i; }
  u32 single(u32 atom) { return intern({atom}); }
  u32 X(u32 a, u32 b) {
    if (!a) return b; if (!b) return a; if (a == b) return 0; if (a > b) std::swap(a, b); u64 k = (u64)a << 32 | b; auto it = xorMemo.find(k); if (it != xorMemo.end()) return it->second;
    Form r; std::set_symmetric_difference(forms[a].begin(), forms[a].end(), forms[b].begin(), forms[b].end(), std::back_inserter(r)); return xorMemo[k] = def(std::move(r));
  }
  // a sum over a conjunction that has grown is named, so that sums of sums stay short
  u32 def(Form r) {
    if (r.size() <= 8) return intern(std::move(r));
    bool and_ = false; for (u32 a : r) if (isAnd.size() > a && isAnd[a]) and_ = true;
    if (!and_) return intern(std::move(r));
    bool one = r[0] == 0; if (one) r.erase(r.begin());
    u32 f = intern(std::move(r)), d = single(atom({9000, f})); return one ? X(d, 1) : d;
  }
  std::vector<char> isAnd;
  u32 atom(std::vector<u32> key) { auto it = atomOf.find(key); if (it != atomOf.end()) return it->second; u32 a = atoms++; isAnd.resize(atoms, 0); isAnd[a] = key[0] == T_AND; atomOf.emplace(std::move(key), a); return a; }
  u32 R(u32 a, u32 b) { Form r; std::set_symmetric_difference(forms[a].begin(), forms[a].end(), forms[b].begin(), forms[b].end(), std::back_inserter(r)); return intern(std::move(r)); }
  u32 A(u32 a, u32 b) { if (!a || !b) return 0; if (a == 1) return b; if (b == 1) return a; if (a == b) return a; if (forms[a][0] == 0) return R(b, A(X(a, 1), b)); if (forms[b][0] == 0) return R(a, A(a, X(b, 1))); if (a > b) std::swap(a, b); return single(atom({T_AND, a, b})); }
  const std::vector<u32> &of(Term *root) {
    std::vector<Term *> st{root};
    while (!st.empty()) {
      Term *t = st.back(); if (memo.count(t->id)) { st.pop_back(); continue; }
      bool ready = true; if (t->op != T_F2B && t->op != T_FEQ) for (Term *k : {t->a, t->b, t->d}) if (k && !memo.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back(); std::vector<u32> r(t->w); auto M = [&](Term *k) -> std::vector<u32> & { return memo[k->id]; };
      auto opaque = [&] { std::vector<u32> key{1000u + t->op, t->aux, t->w}; for (Term *k : {t->a, t->b, t->d}) { if (!k) continue; auto &f = M(k); key.push_back((u32)f.size()); key.insert(key.end(), f.begin(), f.end()); } for (unsigned i = 0; i < t->w; i++) { auto k2 = key; k2.push_back(i); r[i] = single(atom(k2)); } };
      switch (t->op) {
        case T_CONST: for (unsigned i = 0; i < t->w; i++) r[i] = (u32)((t->c >> i) & 1); break;
        case T_VAR: for (unsigned i = 0; i < t->w; i++) r[i] = single(atom({T_VAR, t->aux, i})); break;
        case T_F2B: case T_FEQ: for (unsigned i = 0; i < t->w; i++) r[i] = single(atom({T_F2B, t->id, i})); break;
        case T_CONCAT: { auto &lo = M(t->b), &hi = M(t->a); for (unsigned i = 0; i < t->w; i++) r[i] = i < t->b->w ? lo[i] : hi[i - t->b->w]; break; }
        case T_EXTRACT: { auto &x = M(t->a); for (unsigned i = 0; i < t->w; i++) r[i] = x[t->aux + i]; break; }
        case T_SEXT: { auto &x = M(t->a); for (unsigned i = 0; i < t->w; i++) r[i] = x[i < t->a->w ? i : t->a->w - 1]; break; }
        case T_NOT: { auto &x = M(t->a); for (unsigned i = 0; i < t->w; i++) r[i] = X(x[i], 1); break; }
        case T_XOR: { auto x = M(t->a), y = M(t->b); for (unsigned i = 0; i < t->w; i++) r[i] = X(x[i], y[i]); break; }
        case T_AND: { auto x = M(t->a), y = M(t->b); for (unsigned i = 0; i < t->w; i++) r[i] = A(x[i], y[i]); break; }
        case T_OR: { auto x = M(t->a), y = M(t->b); for (unsigned i = 0; i < t->w; i++) r[i] = X(X(x[i], y[i]), A(x[i], y[i])); break; }
        case T_ITE: { auto c = M(t->a), x = M(t->b), y = M(t->d); for (unsigned i = 0; i < t->w; i++) r[i] = X(y[i], A(c[0], X(x[i], y[i]))); break; }
        case T_EQ: if (t->a->w == 1) { r[0] = X(X(M(t->a)[0], M(t->b)[0]), 1); break; } opaque(); break;
        case T_ADD: case T_SUB: { auto x = M(t->a), y = M(t->b); u32 c = 0; if (t->op == T_SUB) { for (auto &b : y) b = X(b, 1); c = 1; } for (unsigned i = 0; i < t->w; i++) { u32 s = X(x[i], y[i]); r[i] = X(s, c); c = X(A(x[i], y[i]), A(c, s)); } break; }
        default: opaque();
      }
      memo[t->id] = r; if (tooBig) {  static std::vector<u32> none; return none; }
    }
    return memo[root->id];
  }
  bool equal(Term *a, Term *b) { if (tooBig) return false; auto x = of(a); if (tooBig) return false; auto y = of(b); return !tooBig && x == y; }
};
