// z3 back end
#pragma once
#include "term.hpp"
#include <z3++.h>
#include <chrono>
#include <random>

enum R { UNSAT, SAT, UNKNOWN };
static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct SolverStats { u64 queries = 0, unsat = 0, sat = 0, unknown = 0, sweepLemmas = 0; double time = 0; u64 maxms = 0; };

struct Solver {
  z3::context c;
  SolverStats st;
  bool mulUF = true;
  unsigned defTimeout = 120000;
  std::mt19937_64 rng{1};
  std::unordered_map<u32, z3::expr> cache;       // term id -> expr (Bool for width 1)
  std::unordered_map<u32, z3::expr> cacheExact;
  std::unordered_map<u32, z3::expr> fcache;
  std::unordered_map<u32, std::pair<z3::expr, z3::expr>> divs; // term id of udiv/urem key
  std::map<std::pair<std::pair<u32, u32>, int>, std::pair<z3::expr, z3::expr>> divdef;
  u32 fresh = 0;

  z3::expr num(unsigned w, u128 v) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr inum(u128 v) { // integer literal
    if (!(v >> 64)) return c.int_val((uint64_t)v);
    std::string s; u128 x = v; while (x) { s.push_back('0' + (int)(x % 10)); x /= 10; } std::reverse(s.begin(), s.end());
    return c.int_val(s.c_str());
  }
  z3::expr asbv(const z3::expr &e) { return e.is_bool() ? z3::ite(e, c.bv_val(1, 1), c.bv_val(0, 1)) : e; }
  z3::expr asbool(const z3::expr &e) { return e.is_bool() ? e : e == c.bv_val(1, 1); }
  z3::expr fint(FNode *f) {
    auto it = fcache.find(f->id); if (it != fcache.end()) return it->second;
    std::vector<FNode *> stk{f};
    while (!stk.empty()) {
      FNode *n = stk.back();
      if (fcache.count(n->id)) { stk.pop_back(); continue; }
      bool rdy = true;
      for (FNode *k : {n->a, n->b}) if (k && !fcache.count(k->id)) { stk.push_back(k); rdy = false; }
      if (!rdy) continue;
      z3::expr e(c);
      auto A = [&] { return fcache.at(n->a->id); }; auto B = [&] { return fcache.at(n->b->id); };
      switch (n->op) {
        case F_CONST: e = n->c > FP / 2 ? -inum(FP - n->c) : inum(n->c); break;
        case F_VAR: e = c.int_const(("f" + std::to_string(fvarId(n->w, n))).c_str()); break;
        case F_ADD: e = A() + B(); break; case F_SUB: e = A() - B(); break;
        case F_MUL: e = A() * B(); break; case F_NEG: e = -A(); break;
      }
      fcache.emplace(n->id, e); stk.pop_back();
    }
    return fcache.at(f->id);
  }
  z3::expr polyInt(Poly *p) {
    z3::expr_vector sum(c);
    for (auto &t : p->m) {
      z3::expr_vector pr(c);
      pr.push_back(t.second > FP / 2 ? -inum(FP - t.second) : inum(t.second));
      z3::expr e = pr[0];
      for (u32 v : g_monos[t.first]) e = e * c.int_const(("f" + std::to_string(v)).c_str());
      sum.push_back(e);
    }
    if (sum.empty()) return c.int_val(0);
    return z3::sum(sum);
  }
  // current substitution for field variables (from positive equalities)
  std::map<u32, Poly *> fsubst;
  Poly *applySubst(Poly *p) {
    if (fsubst.empty()) return p;
    bool any = false;
    for (auto &t : p->m) for (u32 v : g_monos[t.first]) if (fsubst.count(v)) any = true;
    if (!any) return p;
    std::unordered_map<u32, u128> acc;
    for (auto &t : p->m) {
      std::unordered_map<u32, u128> cur{{0u, t.second}};
      for (u32 v : g_monos[t.first]) {
        std::unordered_map<u32, u128> nx;
        auto it = fsubst.find(v);
        if (it == fsubst.end()) { u32 mv = monoId({v}); for (auto &q : cur) { auto &x = nx[monoMul(q.first, mv)]; x = fadd(x, q.second); } }
        else for (auto &q : cur) for (auto &s : it->second->m) { auto &x = nx[monoMul(q.first, s.first)]; x = fadd(x, fmul(q.second, s.second)); }
        cur.swap(nx);
      }
      for (auto &q : cur) { auto &x = acc[q.first]; x = fadd(x, q.second); }
    }
    return internPoly(acc);
  }
  z3::expr feqExpr(FNode *f, FNode *g) {
    if (!fsubst.empty()) {
      Poly *p = applySubst(polyOf(fnode(F_SUB, f, g)));
      return z3::mod(polyInt(p), inum(FP)) == 0;
    }
    z3::params ps(c); ps.set("som", true); ps.set("som_blowup", 100000u);
    z3::expr d = (fint(f) - fint(g)).simplify(ps);
    return z3::mod(d, inum(FP)) == 0;
  }
  bool exact = false, lastAbstract = false;
  z3::expr tr(Term *t) {
    auto &C = exact ? cacheExact : cache;
    { auto it = C.find(t->id); if (it != C.end()) return it->second; }
    std::vector<Term *> stk{t};
    while (!stk.empty()) {
      Term *n = stk.back();
      if (C.count(n->id)) { stk.pop_back(); continue; }
      bool rdy = true;
      for (Term *k : {n->a, n->b, n->d}) if (k && !C.count(k->id)) { stk.push_back(k); rdy = false; }
      if (!rdy) continue;
      C.emplace(n->id, node(n, [&](Term *k) { return C.at(k->id); }));
      stk.pop_back();
    }
    return C.at(t->id);
  }
  template <class G> z3::expr node(Term *n, G get) {
    auto A = [&] { return asbv(get(n->a)); }; auto B = [&] { return asbv(get(n->b)); };
    auto bA = [&] { return asbool(get(n->a)); }; auto bB = [&] { return asbool(get(n->b)); };
    bool b1 = n->w == 1;
    switch (n->op) {
      case T_CONST: return b1 ? c.bool_val(n->c != 0) : num(n->w, n->c);
      case T_VAR: { std::string nm = "v" + std::to_string(n->aux); return b1 ? c.bool_const(nm.c_str()) : c.bv_const(nm.c_str(), n->w); }
      case T_ADD: return A() + B(); case T_SUB: return A() - B();
      case T_MUL:
        if (mulUF && !exact && n->w >= 32 && !isC(n->a) && !isC(n->b)) return c.bv_const(("m" + std::to_string(n->id)).c_str(), n->w);
        { // by a constant with few signed digits: shifts and adds
          Term *k = isC(n->b) ? n->b : isC(n->a) ? n->a : nullptr;
          if (k && n->w >= 16) {
            u128 v = k->c; std::vector<std::pair<int, int>> dg; int i = 0;
            while (v && i < (int)n->w && dg.size() < 5) { if (v & 1) { int d = (v & 3) == 3 && i + 1 < (int)n->w ? -1 : 1; dg.push_back({i, d}); if (d < 0) v += 1; else v -= 1; } v >>= 1; i++; if (i == 127 && n->w == 128 && v > 1) break; }
            if ((!v || i >= (int)n->w) && dg.size() && dg.size() < 5) {
              z3::expr x = k == n->b ? A() : B(), r(c); bool f = true;
              for (size_t j = dg.size(); j--;) { z3::expr sh = dg[j].first ? z3::shl(x, num(n->w, dg[j].first)) : x; if (f) { r = dg[j].second < 0 ? -sh : sh; f = false; } else r = dg[j].second < 0 ? r - sh : r + sh; }
              return r;
            }
          }
        }
        return A() * B();
      case T_UDIV: case T_UREM:
        if (isC(n->b) && n->b->c && n->w >= 16) {
          return n->op == T_UDIV ? c.bv_const(("q" + std::to_string(n->a->id) + "_" + std::to_string(n->b->id)).c_str(), n->w)
                                 : c.bv_const(("r" + std::to_string(n->a->id) + "_" + std::to_string(n->b->id)).c_str(), n->w);
        }
        return n->op == T_UDIV ? z3::udiv(A(), B()) : z3::urem(A(), B());
      case T_SDIV: return A() / B(); case T_SREM: return z3::srem(A(), B());
      case T_AND: return b1 ? (bA() && bB()) : (A() & B());
      case T_OR: return b1 ? (bA() || bB()) : (A() | B());
      case T_XOR: return b1 ? (bA() != bB()) : (A() ^ B());
      case T_NOT: return b1 ? !bA() : ~A();
      case T_SHL: return z3::shl(A(), B()); case T_LSHR: return z3::lshr(A(), B()); case T_ASHR: return z3::ashr(A(), B());
      case T_CONCAT: return z3::concat(A(), B());
      case T_EXTRACT: { z3::expr e = A().extract(n->aux + n->w - 1, n->aux); return b1 ? asbool(e) : e; }
      case T_SEXT: return z3::sext(A(), n->w - n->a->w);
      case T_ITE: return b1 ? z3::ite(bA(), bB(), asbool(get(n->d))) : z3::ite(bA(), B(), asbv(get(n->d)));
      case T_EQ: return A() == B(); case T_ULT: return z3::ult(A(), B()); case T_SLT: return A() < B();
      case T_UF: {
        std::string nm = "uf" + std::to_string(n->aux);
        z3::sort s = c.bv_sort(n->w), sa = c.bv_sort(n->a->w);
        if (n->b) return c.function((nm).c_str(), sa, c.bv_sort(n->b->w), s)(A(), B());
        return c.function(nm.c_str(), sa, s)(A());
      }
      case T_F2B: { Term *k = canonT(n); if (k != n) return tr(k); return c.bv_const(("F" + std::to_string(n->f->id)).c_str(), n->w); }
      case T_FEQ: return feqExpr(n->f, n->g);
    }
    abort();
  }
  // side constraints for everything reachable from cs
  void sides(const std::vector<Term *> &cs, std::vector<z3::expr> &out, std::unordered_map<u32, char> &seen, std::vector<Term *> *vars) {
    std::vector<Term *> stk(cs.begin(), cs.end());
    while (!stk.empty()) {
      Term *n = stk.back(); stk.pop_back();
      if (seen.count(n->id)) continue;
      seen[n->id] = 1;
      for (Term *k : {n->a, n->b, n->d}) if (k) stk.push_back(k);
      if (n->op == T_VAR && vars) vars->push_back(n);
      if (n->op == T_MUL && mulUF && !exact && n->w >= 32 && !isC(n->a) && !isC(n->b)) lastAbstract = true;
      if (n->op == T_MUL && mulUF && !exact && n->w >= 32 && !isC(n->a) && !isC(n->b) && n->hi != maskw(n->w)) { out.push_back(z3::ule(tr(n), num(n->w, n->hi))); }
      if ((n->op == T_UDIV || n->op == T_UREM) && isC(n->b) && n->b->c && n->w >= 16) {
        Term *q = raw(T_UDIV, n->w, n->a, n->b), *r = raw(T_UREM, n->w, n->a, n->b);
        u64 key = ((u64)n->a->id << 32) | n->b->id; (void)key;
        u128 d = n->b->c, M = maskw(n->w);
        z3::expr Q = tr(q), Rr = tr(r), X = asbv(tr(n->a));
        // multiply by constant through shift/add when d = 2^k +- 1
        z3::expr prod(c); int k = 0; while (((u128)1 << k) <= d && k < 127) k++; // 2^k > d
        if (((u128)1 << k) - 1 == d && k < (int)n->w) prod = z3::shl(Q, num(n->w, k)) - Q;
        else prod = Q * num(n->w, d);
        out.push_back(X == prod + Rr);
        out.push_back(z3::ult(Rr, num(n->w, d)));
        out.push_back(z3::ule(Q, num(n->w, M / d)));
        out.push_back(z3::ule(prod, X)); // no wrap-around
      }
      if (n->op == T_F2B) { Term *k = canonT(n); if (k == n) out.push_back(z3::ult(tr(n), num(n->w, FP))); else if (!seen.count(k->id)) stk.push_back(k); }
      if (n->op == T_FEQ && vars) { collectFV(n->f, *vars, seen); collectFV(n->g, *vars, seen); }
    }
  }
  std::unordered_map<u32, char> fseen;
  void collectFV(FNode *f, std::vector<Term *> &vars, std::unordered_map<u32, char> &seen) {
    Poly *p = polyOf(f);
    for (auto &t : p->m) for (u32 v : g_monos[t.first]) {
      std::vector<Term *> s{g_fvars[v]->w};
      while (!s.empty()) { Term *n = s.back(); s.pop_back(); if (seen.count(n->id)) continue; seen[n->id] = 1; if (n->op == T_VAR) vars.push_back(n); if (n->op == T_F2B) collectFV(n->f, vars, seen); for (Term *k : {n->a, n->b, n->d}) if (k) s.push_back(k); }
    }
  }
  static void flat(Term *t, std::vector<Term *> &out) { if (t->op == T_AND && t->w == 1) { flat(t->a, out); flat(t->b, out); } else out.push_back(t); }
  // Gaussian elimination over top-level field equalities. Returns false if inconsistent.
  bool eliminate(const std::vector<Term *> &lits, std::vector<Term *> &rest) {
    fsubst.clear();
    for (Term *t : lits) {
      if (t->op != T_FEQ) { rest.push_back(t); continue; }
      Poly *p = applySubst(polyOf(fnode(F_SUB, t->f, t->g)));
      u128 k; if (polyConst(p, k)) { if (k) return false; continue; }
      // pivot: variable occurring only as a linear monomial
      std::unordered_map<u32, int> cnt; for (auto &m : p->m) for (u32 v : g_monos[m.first]) cnt[v]++;
      int best = -1; u32 bv = 0; u128 bc = 0;
      for (auto &m : p->m) if (g_monos[m.first].size() == 1) { u32 v = g_monos[m.first][0]; if (cnt[v] != 1) continue; int sc = g_fvars[v]->w->op == T_VAR ? 2 : 1; if (sc > best || (sc == best && v > bv)) { best = sc; bv = v; bc = m.second; } }
      if (best < 0) { rest.push_back(t); continue; }
      u128 f = fsub(0, finv(bc)); std::unordered_map<u32, u128> acc; u32 mv = monoId({bv});
      for (auto &m : p->m) if (m.first != mv) acc[m.first] = fmul(m.second, f);
      Poly *np = internPoly(acc);
      // back-substitute
      std::map<u32, Poly *> saved = fsubst; fsubst.clear(); fsubst[bv] = np;
      std::map<u32, Poly *> nx; for (auto &e : saved) nx[e.first] = applySubst(e.second);
      nx[bv] = np; fsubst = nx;
    }
    return true;
  }
  R check(const std::vector<Term *> &cs, unsigned timeout, Model *out, bool exactMul = false, const char *why = "") {
    double t0 = now_s(); st.queries++;
    std::vector<Term *> lits, rest; for (Term *t : cs) flat(t, lits);
    R res = UNKNOWN; fsubst.clear();
    for (Term *t : lits) if (isC(t) && !t->c) { st.unsat++; return UNSAT; }
    bool hasFeq = false; for (Term *t : lits) if (t->op == T_FEQ) hasFeq = true;
    if (hasFeq) { if (!eliminate(lits, rest)) { fsubst.clear(); st.unsat++; st.time += now_s() - t0; return UNSAT; } }
    else rest = lits;
    exact = exactMul; lastAbstract = false;
    std::vector<std::pair<u32, z3::expr>> dropped;
    try {
      bool subst = !fsubst.empty();
      std::unordered_map<u32, z3::expr> saveC;
      if (subst) { saveC.swap(cache); cache.clear(); }
      std::vector<z3::expr> es; std::unordered_map<u32, char> seen; std::vector<Term *> vars;
      for (Term *t : rest) es.push_back(asbool(tr(t)));
      sides(rest, es, seen, &vars);
      bool ints = false; for (auto &k : seen) (void)k;
      for (Term *t : rest) if (t) {}
      for (auto &sid : seen) if (g_byid[sid.first]->op == T_FEQ) ints = true;
      z3::solver s = ints ? z3::solver(c) : z3::tactic(c, "qfufbv").mk_solver();
      z3::params p(c); p.set("timeout", timeout); s.set(p);
      for (auto &e : es) s.add(e);
      z3::check_result r = s.check();
      res = r == z3::unsat ? UNSAT : r == z3::sat ? SAT : UNKNOWN;
      if (res == SAT && out) {
        z3::model m = s.get_model();
        for (Term *v : vars) {
          z3::expr val = m.eval(tr(v), false);
          u128 x = 0; bool got = false;
          if (v->w == 1) { if (val.is_true()) { x = 1; got = true; } else if (val.is_false()) got = true; }
          else if (val.is_numeral()) { std::string d = val.get_decimal_string(0); for (char ch : d) x = x * 10 + (ch - '0'); got = true; }
          if (!got) { auto it = g_fvarid.find(v); if (it != g_fvarid.end()) { z3::expr fv = m.eval(c.int_const(("f" + std::to_string(it->second)).c_str()), false); if (fv.is_numeral()) { std::string d = fv.get_decimal_string(0); bool neg = d[0] == '-'; u128 y = 0; for (char ch : d) if (ch >= '0' && ch <= '9') y = fadd(fmul(y, 10), (u128)(ch - '0')); if (neg) y = fsub(0, y); x = y; got = true; } } }
          if (got) out->v[v->aux] = x;
        }
        // the canonical words of field elements: choose a variable of each so that the element has that value
        auto numeral = [](const z3::expr &val) { u128 x = 0; for (char ch : val.get_decimal_string(0)) x = x * 10 + (u128)(ch - '0'); return x; };
        std::unordered_map<u32, char> fixed; { std::vector<Term *> stk(rest.begin(), rest.end()); std::unordered_map<u32, char> was; while (!stk.empty()) { Term *n = stk.back(); stk.pop_back(); if (was.count(n->id)) continue; was[n->id] = 1; if (n->op == T_VAR) fixed[n->id] = 1; for (Term *k : {n->a, n->b, n->d}) if (k) stk.push_back(k); } }
        for (auto &sid : seen) {
          Term *n = g_byid[sid.first]; if (n->op != T_F2B || canonT(n) != n) continue;
          z3::expr val = m.eval(tr(n), false); if (!val.is_numeral()) continue;
          Poly *p = polyOf(n->f); u128 rest_ = 0, cf = 0; Term *pick = nullptr; bool lin = true; Evaluator ev(out); ev.missing = [](u32, unsigned) { return (u128)0; };
          for (auto &t : p->m) { auto &mo = g_monos[t.first]; if (!pick && mo.size() == 1 && g_fvars[mo[0]]->w->op == T_VAR && !fixed.count(g_fvars[mo[0]]->w->id)) { bool only = true; for (auto &t2 : p->m) if (&t2 != &t) for (u32 v : g_monos[t2.first]) if (v == mo[0]) only = false; if (only) { pick = g_fvars[mo[0]]->w; cf = t.second; continue; } } u128 q = t.second; for (u32 v : mo) q = fmul(q, ev.ev(g_fvars[v]->w) % FP); rest_ = fadd(rest_, q); }
          if (!pick || !lin) continue;
          fixed[pick->id] = 1; out->v[pick->aux] = fmul(fsub(numeral(val) % FP, rest_), finv(cf));
        }
      }
      if (subst) cache.swap(saveC);
    } catch (z3::exception &e) { fprintf(stderr, "z3 exception: %s\n", e.msg()); res = UNKNOWN; }
    exact = false;
    double dt = now_s() - t0; st.time += dt; st.maxms = std::max<u64>(st.maxms, (u64)(dt * 1000));
    if (res == UNSAT) st.unsat++; else if (res == SAT) st.sat++; else st.unknown++;
    if (getenv("SYMIR_DEBUG") && dt > 1) fprintf(stderr, "[solver] %s %d in %.2fs\n", why, res, dt);
    return res;
  }
  // try to turn an (abstract) model into one on which every constraint really evaluates to true
  bool holds(const std::vector<Term *> &cs, const Model &m) { Evaluator ev(&m); for (Term *t : cs) if (!ev.ev(t)) return false; return true; }
  void varsOf(const std::vector<Term *> &cs, std::vector<Term *> &vars) { std::unordered_map<u32, char> seen; std::vector<z3::expr> dummy; std::vector<Term *> stk(cs.begin(), cs.end());
    while (!stk.empty()) { Term *n = stk.back(); stk.pop_back(); if (seen.count(n->id)) continue; seen[n->id] = 1; if (n->op == T_VAR) vars.push_back(n); for (Term *k : {n->a, n->b, n->d}) if (k) stk.push_back(k);
      if (n->op == T_FEQ || n->op == T_F2B) { collectFV(n->f, vars, seen); if (n->g) collectFV(n->g, vars, seen); } } }
  bool concretise(const std::vector<Term *> &cs, Model &m, int tries) {
    if (holds(cs, m)) return true;
    std::vector<Term *> vars; varsOf(cs, vars);
    std::vector<Term *> lits, rest; for (Term *t : cs) flat(t, lits);
    fsubst.clear(); bool anyF = false; for (Term *t : lits) if (t->op == T_FEQ) anyF = true;
    std::map<u32, Poly *> sub; if (anyF) { if (!eliminate(lits, rest)) return false; sub = fsubst; fsubst.clear(); }
    // constants worth trying
    std::vector<u128> special{0, 1, 2, 3, 7, 8, 9, 10, FP - 1, FP, FP - 2, FP + 1, ~(u128)0, (u128)1 << 63, (u128)1 << 61, (u128)1 << 64, (u128)1 << 127, ((u128)1 << 64) - 1, ((u128)1 << 32), ((u128)1 << 127) - 1, ((u128)1<<60), ((u128)1<<126)};
    for (int k = 0; k < tries; k++) {
      Model x = m;
      for (Term *v : vars) {
        bool fld = g_fvarid.count(v);
        int mode = rng() % 4;
        if (k < 8 && !fld) { if (!x.v.count(v->aux)) x.v[v->aux] = rng() & maskw(v->w); continue; }
        u128 r = ((u128)rng() << 64) | rng();
        if (mode == 0 && !fld) { if (m.v.count(v->aux)) continue; }
        if (mode == 1 && !(fld && k < 32)) { r = special[rng() % special.size()]; if (rng() & 1) r += rng() % 5; }
        if (mode == 2) r = r >> (rng() % 128);
        x.v[v->aux] = r & maskw(v->w);
      }
      if (!sub.empty()) {
        Evaluator ev(&x);
        std::map<u32, u128> set;
        for (auto &e : sub) { u128 s = 0; for (auto &t : e.second->m) { u128 q = t.second; for (u32 v : g_monos[t.first]) q = fmul(q, ev.ev(g_fvars[v]->w) % FP); s = fadd(s, q); } if (g_fvars[e.first]->w->op == T_VAR) set[g_fvars[e.first]->w->aux] = s; }
        for (auto &e : set) x.v[e.first] = e.second;
      }
      if (holds(cs, x)) { m = x; return true; }
    }
    return false;
  }

  // ------------------------------------------------------------ sweeping
  z3::expr cutTr(Term *t, int depth, std::unordered_map<u32, z3::expr> &loc, std::unordered_map<u32, int> &dep) {
    auto it = loc.find(t->id); if (it != loc.end() && dep[t->id] >= depth) return it->second;
    z3::expr e(c);
    if (t->op == T_CONST || t->op == T_VAR) e = node(t, [&](Term *) { return c.bool_val(true); });
    else if (depth <= 0 || t->op == T_F2B || t->op == T_FEQ) { std::string nm = "n" + std::to_string(t->id); e = t->w == 1 ? c.bool_const(nm.c_str()) : c.bv_const(nm.c_str(), t->w); }
    else {
      std::vector<z3::expr> kids; std::vector<Term *> ks;
      for (Term *k : {t->a, t->b, t->d}) if (k) { kids.push_back(cutTr(k, depth - (t->op == T_CONCAT || t->op == T_EXTRACT ? 0 : 1), loc, dep)); ks.push_back(k); }
      e = node(t, [&](Term *k) { for (size_t i = 0; i < ks.size(); i++) if (ks[i] == k) return kids[i]; abort(); });
    }
    loc.erase(t->id); loc.emplace(t->id, e); dep[t->id] = depth;
    return e;
  }
  std::unordered_map<u32, Term *> rep; // sweeping representatives (global: lemmas are unconditional)
  Term *rebuild(Term *n) {
    auto R = [&](Term *k) -> Term * { if (!k) return nullptr; auto it = rep.find(k->id); return it == rep.end() ? k : it->second; };
    Term *a = R(n->a), *b = R(n->b), *d = R(n->d);
    if (a == n->a && b == n->b && d == n->d) return n;
    switch (n->op) {
      case T_CONST: case T_VAR: case T_F2B: case T_FEQ: return n;
      case T_NOT: return mkNot(a); case T_CONCAT: return mkConcat(a, b); case T_EXTRACT: return mkExtract(a, n->aux + n->w - 1, n->aux);
      case T_SEXT: return mkSext(a, n->w); case T_ITE: return mkIte(a, b, d); case T_UF: return mkUf(n->aux, n->w, a, b);
      default: return mkOp(n->op, a, b);
    }
  }
  std::map<std::pair<u32, std::vector<u64>>, std::vector<Term *>> classes;
  std::unordered_map<u32, char> swept;
  std::vector<Model> simModels; std::vector<Evaluator *> sims;
  Term *sweep(Term *cond) {
    if (sims.empty()) { for (int i = 0; i < 4; i++) simModels.push_back(Model()); for (int i = 0; i < 4; i++) { auto *e = new Evaluator(&simModels[i]); u64 sd = 0x1234567 + i * 7919; e->missing = [sd](u32 v, unsigned) { std::mt19937_64 g(sd * 1000003 + v); g(); return ((u128)g() << 64) | g(); }; sims.push_back(e); } }
    std::vector<Term *> order; { std::vector<Term *> stk{cond}; std::unordered_map<u32, char> seen; while (!stk.empty()) { Term *n = stk.back(); stk.pop_back(); if (seen.count(n->id)) continue; seen[n->id] = 1; order.push_back(n); for (Term *k : {n->a, n->b, n->d}) if (k) stk.push_back(k); } }
    std::sort(order.begin(), order.end(), [](Term *x, Term *y) { return x->id < y->id; });
    double t0 = now_s();
    for (Term *n : order) {
      if (swept.count(n->id)) continue;
      swept[n->id] = 1;
      if (n->op == T_CONST || n->op == T_VAR || n->op == T_CONCAT) { if (n->op != T_CONCAT) continue; }
      Term *m = rebuild(n);
      if (m != n) { auto it = rep.find(m->id); if (it != rep.end()) m = it->second; rep[n->id] = m; if (swept.count(m->id)) continue; }
      if (m->op == T_CONST || m->op == T_VAR) continue;
      std::vector<u64> sig; for (auto *e : sims) { u128 v = e->ev(m); sig.push_back((u64)v); sig.push_back((u64)(v >> 64)); }
      if (m->w == 1) continue; // booleans: leave to the final query
      auto &cl = classes[{m->w, sig}];
      bool merged = false;
      for (Term *r : cl) {
        if (r == m) { merged = true; break; }
        for (int depth : {2, 4, 8}) {
          std::unordered_map<u32, z3::expr> loc; std::unordered_map<u32, int> dep;
          z3::solver s = z3::tactic(c, "qfufbv").mk_solver(); z3::params p(c); p.set("timeout", 4000u); s.set(p);
          z3::expr x = cutTr(m, depth, loc, dep); z3::expr y = cutTr(r, depth, loc, dep);
          s.add(asbv(x) != asbv(y)); st.sweepLemmas++; st.queries++;
          auto q = s.check();
          if (q == z3::unsat) { st.unsat++; merged = true; break; }
          if (q == z3::sat) st.sat++; else st.unknown++;
        }
        if (merged) { rep[m->id] = r; rep[n->id] = r; break; }
      }
      if (!merged && cl.size() < 3) cl.push_back(m);
      swept[m->id] = 1;
    }
    st.time += now_s() - t0;
    auto it = rep.find(cond->id); return it == rep.end() ? rebuild(cond) : it->second;
  }
};
