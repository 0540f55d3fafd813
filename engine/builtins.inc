// ---- modelled functions (included inside Engine)
typedef std::function<Act(State &, FnInfo *, Inst &, V &)> Handler;
std::vector<Handler> H; std::vector<std::string> HN; std::vector<std::pair<std::string, int>> biPrefix;
void reg(const std::string &n, Handler h) { biIndex[n] = (int)H.size(); H.push_back(h); HN.push_back(n); }
void regP(const std::string &n, Handler h) { biPrefix.push_back({n, (int)H.size()}); H.push_back(h); HN.push_back(n); }
int findBuiltin(const std::string &n) { auto it = biIndex.find(n); if (it != biIndex.end()) return it->second; for (auto &p : biPrefix) if (n.compare(0, p.first.size(), p.first) == 0) return p.second; return -1; }
Act builtin(State &s, int bi, FnInfo *fn, Inst &I, V &r) { return H[bi](s, fn, I, r); }

u64 argC(State &s, size_t k, unsigned w = 64) { u128 x; conc(s, args[k], w, x); return (u64)x; }
Act throwExc(State &s, Inst &I, Exc e) { s.th[s.cur].cur = e; return unwind(s, &I); }
Act doAbort(State &s, Inst &I, const std::string &msg) {
  if (s.abortOk) {
    if (!s.abortFn) { A_END0(s); return A_END; }
    u64 fa = s.abortFn; s.abortOk = false; Obj *o = obj(s, fa); pushFrame(s, s.th[s.cur], o->fn, {}, -1, &I); return A_JUMP;
  }
  return fail(s, "abort", msg);
}
Act doAlloc(State &s, u64 n, u8 kind, bool zero, V &r) {
  if (n > (1ull << 30)) return fail(s, "memory", "allocation of " + std::to_string(n) + " bytes");
  if (n > (1ull << 28)) return fail(s, "unsupported", "allocation of " + std::to_string(n) + " bytes");
  u64 a = newObj(s, (u32)n, K_HEAP, !zero, kind); r = cv(a); return A_NEXT;
}
Act doFree(State &s, u64 p, u8 kind) {
  if (!p) return A_NEXT;
  Obj *o = obj(s, p); if (!o) return fail(s, "memory", "freeing a wild pointer");
  if (o->dead) return fail(s, "memory", "double free"); if (o->kind != K_HEAP || (u32)p) return fail(s, "memory", "freeing a pointer that was not allocated");
  if (o->alloc != kind) return fail(s, "memory", "allocation released with the wrong kind of deallocation");
  killObj(s, p); return A_NEXT;
}
Act memsetAt(State &s, u64 d, const V &c, u64 n) {
  if (!n) return A_NEXT; Obj *o; u32 off; std::string err; if (!access(s, d, n, true, o, off, err)) return fail(s, "memory", err);
  if (races && !raceAccess(s, d, n, true, err)) return fail(s, "race", err);
  V b = c.t ? tv(mkExtract(c.t, 7, 0)) : cv(c.c & 255);
  if (!b.t) { memset(o->b + off, (int)b.c, n); memset(o->st + off, 0, n); } else for (u64 i = 0; i < n; i++) storeBytes(o, off + (u32)i, 1, b);
  return A_NEXT;
}
bool bytesT(State &s, u64 a, u64 n, V &v, std::string &err) { Obj *o; u32 off; if (!access(s, a, n, false, o, off, err)) return false; v = loadBytes(s, a, o, off, (unsigned)n); return true; }
static Term *bswapT(Term *t) { unsigned n = t->w / 8; Term *r = mkExtract(t, 7, 0); for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(t, 8 * i + 7, 8 * i)); return r; }
std::string symName(State &s, const std::string &n) { int k = s.symCnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
Term *newSym(State &s, const std::string &n, unsigned w) { Term *t = namedVar(n, w); s.syms.push_back({n, t, (w + 7) / 8}); return t; }
// polynomial normal form over Z/2^w (low w bits), used for equations between products
typedef std::map<std::vector<u32>, u128> RPoly; std::map<u32, Term *> rleaf;
bool rAdd(RPoly &d, const RPoly &x, u128 f, unsigned w) { for (auto &e : x) { u128 v = (d[e.first] + e.second * f) & maskw(w); if (v) d[e.first] = v; else d.erase(e.first); } return d.size() < 20000; }
bool rMul(const RPoly &x, const RPoly &y, RPoly &d, unsigned w) {
  if (x.size() * y.size() > 400000) return false;
  for (auto &a : x) for (auto &b : y) { u128 c = (a.second * b.second) & maskw(w); if (!c) continue; std::vector<u32> m(a.first); m.insert(m.end(), b.first.begin(), b.first.end()); std::sort(m.begin(), m.end()); if (m.size() > 600) return false; u128 v = (d[m] + c) & maskw(w); if (v) d[m] = v; else d.erase(m); }
  return d.size() < 20000;
}
bool ringPoly(Term *t, unsigned w, RPoly &r, std::map<std::pair<u32, unsigned>, RPoly> &memo, int depth = 0) {
  if (depth > 300) return false;
  auto key = std::make_pair(t->id, w); { auto it = memo.find(key); if (it != memo.end()) { r = it->second; return true; } }
  RPoly x, y; r.clear(); bool ok = true;
  auto sub = [&](Term *q, unsigned v, RPoly &o) { return ringPoly(q, v, o, memo, depth + 1); };
  auto leaf = [&](Term *q) { rleaf[q->id] = q; r.clear(); r[{q->id}] = 1; };
  switch (t->op) {
    case T_CONST: { u128 c = t->c & maskw(w); if (c) r[{}] = c; break; }
    case T_ADD: ok = sub(t->a, w, x) && sub(t->b, w, y) && rAdd(r, x, 1, w) && rAdd(r, y, 1, w); break;
    case T_SUB: ok = sub(t->a, w, x) && sub(t->b, w, y) && rAdd(r, x, 1, w) && rAdd(r, y, ~(u128)0, w); break;
    case T_MUL: ok = sub(t->a, w, x) && sub(t->b, w, y) && rMul(x, y, r, w); break;
    case T_NOT: ok = sub(t->a, w, x) && rAdd(r, x, ~(u128)0, w); if (ok) { RPoly one; one[{}] = 1; ok = rAdd(r, one, ~(u128)0, w); } break;
    case T_CONCAT: // hi * 2^k + lo
      if (w <= t->b->w) { ok = sub(t->b, w, r); break; }
      if (isC(t->a) && t->a->c == 0) { if (t->b->op == T_VAR || t->b->hi == 0) leaf(t->b); else leaf(t); break; }
      { Term *hi = t->a; if (isC(t->b)) { if (w <= t->w) { ok = sub(hi, w - t->b->w, x); u128 f = (u128)1 << t->b->w; ok = ok && rAdd(r, x, f, w); if (t->b->c) { RPoly k; k[{}] = t->b->c; ok = ok && rAdd(r, k, 1, w); } break; } } leaf(t); }
      break;
    case T_EXTRACT: if (t->aux == 0 && w <= t->w) { ok = sub(t->a, w, r); break; } leaf(t); break;
    case T_XOR: if (isC(t->b) && w <= t->w) { ok = sub(t->a, w, r); u128 c = t->b->c; RPoly base = r;
        for (unsigned i = 0; ok && i < w; i++) if ((c >> i) & 1) { RPoly lowp; for (auto &e : base) { u128 v = e.second & maskw(i + 1); if (v) lowp[e.first] = v; } if (lowp.size() > 1 || (lowp.size() == 1 && !lowp.begin()->first.empty())) { leaf(t); break; } u128 v = lowp.empty() ? 0 : lowp.begin()->second; RPoly k; k[{}] = (u128)1 << i; ok = rAdd(r, k, (v >> i) & 1 ? ~(u128)0 : 1, w); }
        break; }
      leaf(t); break;
    default: if (w == t->w || t->op == T_VAR) leaf(t); else leaf(t); break;
  }
  if (ok) memo[key] = r;
  return ok;
}
bool hasMul(Term *t, int d = 0) { if (!t || d > 40) return false; if (t->op == T_MUL) return true; if (t->op == T_ADD || t->op == T_SUB || t->op == T_XOR || t->op == T_EXTRACT || t->op == T_CONCAT) return hasMul(t->a, d + 1) || hasMul(t->b, d + 1); return false; }
// as functions: in the basis of products of falling factorials a polynomial vanishes modulo 2^w
// exactly if each coefficient times the factorials of its degrees does
static unsigned fact2(unsigned i) { return i - (unsigned)__builtin_popcount(i); }
bool ringNull(const RPoly &p, unsigned w, std::map<u32, unsigned> &deg) {
  deg.clear(); for (auto &e : p) { std::map<u32, unsigned> d; for (u32 v : e.first) d[v]++; for (auto &x : d) deg[x.first] = std::max(deg[x.first], x.second); }
  if (p.empty()) return true; if (deg.size() > 4) return false; double size = 1; for (auto &x : deg) { if (x.second > 120) return false; size *= x.second + 1; } if (size > 20000) return false;
  std::map<std::vector<unsigned>, u128> cur; std::vector<u32> vs; for (auto &x : deg) vs.push_back(x.first);
  for (auto &e : p) { std::vector<unsigned> k(vs.size()); for (u32 v : e.first) k[(size_t)(std::find(vs.begin(), vs.end(), v) - vs.begin())]++; cur[k] += e.second; }
  for (size_t q = 0; q < vs.size(); q++) { unsigned D = deg[vs[q]]; std::vector<std::vector<u128>> st(D + 1, std::vector<u128>(D + 1, 0)); st[0][0] = 1; for (unsigned n = 1; n <= D; n++) for (unsigned k = 1; k <= n; k++) st[n][k] = st[n - 1][k - 1] + st[n - 1][k] * k;
    std::map<std::vector<unsigned>, u128> nx; for (auto &e : cur) for (unsigned k = 0; k <= e.first[q]; k++) if (st[e.first[q]][k]) { auto m = e.first; m[q] = k; nx[m] += e.second * st[e.first[q]][k]; } cur.swap(nx); }
  for (auto &e : cur) { unsigned f = 0; for (unsigned k : e.first) f += fact2(k); if (f >= w) continue; if (e.second & maskw(w - f)) return false; }
  return true;
}
bool ringEqual(Term *a, Term *b, std::map<u32, unsigned> *deg = nullptr) {
  if (!hasMul(a) && !hasMul(b)) return false; std::map<std::pair<u32, unsigned>, RPoly> memo; RPoly x, y; unsigned w = a->w; if (!ringPoly(a, w, x, memo) || !ringPoly(b, w, y, memo)) return false; if (x == y) return true;
  std::map<u32, unsigned> d; if (!rAdd(x, y, ~(u128)0, w)) return false; if (ringNull(x, w, d)) return true; if (deg) *deg = d; return false;
}
// a polynomial that does not vanish is not zero at one of the points 0 .. degree
bool ringWitness(State &s, Term *l, std::shared_ptr<MState> &ms) {
  std::map<u32, unsigned> deg; if (!s.modelOk || ringEqual(l->a, l->b, &deg) || deg.size() != 1) return false; Term *v = rleaf[deg.begin()->first]; if (v->op != T_VAR) return false;
  for (unsigned i = 0; i <= deg.begin()->second; i++) { Model m = s.ms->m; m.v[v->aux] = i & maskw(v->w); auto c = newMS(m); if (c->ev.ev(l)) continue; bool ok = true; for (Term *t : s.pc) if (!c->ev.ev(t)) ok = false; if (ok) { ms = c; return true; } }
  return false;
}
// field variables that are bit-vector expressions: those the path condition forces to be
// equal are identified before the polynomials are compared
Term *linkFeq(State &s, Term *l) {
  Poly *p = polyOf(FSUB(l->f, l->g)); u128 k; if (polyConst(p, k)) return l;
  std::vector<u32> vs; std::set<u32> seen; for (auto &m : p->m) for (u32 v : g_monos[m.first]) if (seen.insert(v).second) vs.push_back(v);
  bool any = false; for (u32 v : vs) if (g_fvars[v]->w->op != T_VAR) any = true;
  if (!any || vs.size() > 400 || !s.modelOk) return l;
  Model alt = s.ms->m; auto rs = newMS(alt); for (u32 v : vs) { (void)v; }
  std::map<u128, std::vector<u32>> cls; std::map<u32, Poly *> sub; int tries = 0;
  for (u32 v : vs) {
    Term *w = g_fvars[v]->w; u128 x = rs->ev.ev(w); bool done = false;
    if (w->op != T_VAR && tries < 200) { tries++; std::shared_ptr<MState> ms; bool good; R r = feasible(s, mkNot(mkEq(w, mkConst(w->w, x))), &ms, &good, 3000, "link"); if (r == UNSAT) { std::unordered_map<u32, u128> acc; acc[monoId({})] = x % FP; if (!acc[monoId({})]) acc.clear(); sub[v] = internPoly(acc); continue; } }
    for (u32 u : cls[x]) {
      Term *z = g_fvars[u]->w; if (w->op == T_VAR && z->op == T_VAR) continue;
      unsigned W = std::max(w->w, z->w); if (++tries > 200) break;
      std::shared_ptr<MState> ms; bool good; R r = feasible(s, mkNot(mkEq(mkZext(w, W), mkZext(z, W))), &ms, &good, 5000, "link");
      if (r == UNSAT) { std::unordered_map<u32, u128> acc; acc[monoId({u})] = 1; sub[v] = internPoly(acc); done = true; break; }
    }
    if (!done) cls[x].push_back(v);
  }
  if (sub.empty()) return l;
  auto saved = S.fsubst; S.fsubst = sub; Poly *q = S.applySubst(p); S.fsubst = saved;
  if (polyConst(q, k)) return mkBool(k == 0);
  return l;
}
BitForms bitForms;
// ask the solver whether the condition can be false
Act doAssert(State &s, Term *c, const std::string &msg, bool sw) {
  asserts++; auto &as = assertStats[msg]; as.first++;
  if (isC(c)) { assertTrivial++; if (c->c) return A_NEXT; return fail(s, "assert", msg); }
  if (s.modelOk && !evalB(s, c)) return fail(s, "assert", msg);
  Term *q = c; if (getenv("SYMIR_DEBUG")) { fprintf(stderr, "[assert] %s: %s\n", msg.c_str(), tstr(c).c_str()); if (c->op == T_FEQ) { for (FNode *z : {c->f, c->g}) { Poly *p = polyOf(z); for (auto &m : p->m) { fprintf(stderr, "   %s *", hex128(m.second).c_str()); for (u32 v : g_monos[m.first]) fprintf(stderr, " [%s]", tstr(g_fvars[v]->w).c_str()); fprintf(stderr, "\n"); } fprintf(stderr, "  =\n"); } } }
  if (sw) { std::vector<Term *> ls; Solver::flat(c, ls); bool all = true; for (Term *l : ls) if (!(l->op == T_EQ && bitForms.equal(l->a, l->b))) all = false; if (all) { assertSolver++; as.second++; return A_NEXT; } }
  if (sw) { q = S.sweep(c); if (isC(q) && q->c) { assertSolver++; as.second++; addPc(s, c); return A_NEXT; } }
  std::vector<Term *> lits; Solver::flat(q, lits);
  for (Term *l : lits) {
    if (isC(l) && l->c) continue;
    if (inPc(s, l)) continue;
    if (l->op == T_EQ && ringEqual(l->a, l->b)) { assertSolver++; as.second++; continue; }
    if (l->op == T_EQ) { std::shared_ptr<MState> wm; if (ringWitness(s, l, wm)) { violation(s, "assert", msg, wm, true); pathsErr++; return A_END; } }
    if (l->op == T_FEQ) { l = linkFeq(s, l); if (isC(l) && l->c) { assertSolver++; as.second++; continue; } }
    std::shared_ptr<MState> ms; bool good = false; R r = feasible(s, mkNot(l), &ms, &good, qTimeout, "assert");
    if (r == UNSAT) { assertSolver++; as.second++; addPc(s, l); continue; }
    if (r == SAT && good) { violation(s, "assert", msg, ms, true); pathsErr++; return A_END; }
    if (r == SAT) { violation(s, "assert", msg, ms, false); assertUnknown++; incomplete++; addPc(s, l); continue; }
    assertUnknown++; incomplete++; note("assertion not decided within the solver limit: " + msg); addPc(s, l);
  }
  return A_NEXT;
}
// ------------------------------------------------------------ field operations
int fieldOp(State &s, FnInfo *fn, Inst &I, V &r) {
  int k = fn->fieldOp; V x[2]; size_t n = args.size();
  if (k >= 8) {
    V m; if (n < 2) return 0; n--; k -= 8;
    if (fn->f->getFunctionType()->getParamType((unsigned)n)->isPointerTy()) { u128 a; conc(s, args[n], 64, a); std::string err; if (!bytesT(s, (u64)a, FPBYTES, m, err)) { fail(s, "memory", err); return 2; } } else m = args[n];
    if (m.t || m.c != FP) return 0;
  }
  if (n > 2) n = 2;
  for (size_t i = 0; i < n; i++) {
    bool ptr = fn->f->getFunctionType()->getParamType((unsigned)i)->isPointerTy();
    if (ptr) { u128 a; conc(s, args[i], 64, a); std::string err; if (!bytesT(s, (u64)a, FPBYTES, x[i], err)) { fail(s, "memory", err); return 2; } }
    else x[i] = args[i];
  }
  unsigned W = FPBYTES * 8;
  bool allc = true, canon = true; for (size_t i = 0; i < n; i++) { if (x[i].t) allc = false; else if (x[i].c >= FP) canon = false; }
  if (allc && !canon) return 0;
  if (!canon && k != 4) return 0;
  if (k <= 2 && n < 2) return 0;
  if (allc) {
    switch (k) { case 0: r = cv(fadd(x[0].c, x[1].c)); break; case 1: r = cv(fsub(x[0].c, x[1].c)); break; case 2: r = cv(fmul(x[0].c, x[1].c)); break; case 3: r = cv(fsub(0, x[0].c)); break; case 4: return 0; case 5: r = cv(x[0].c == x[1].c); break; }
    return 1;
  }
  auto F = [&](int i) { return mkBV2F(asT(x[i], W)); };
  switch (k) {
    case 0: r = tv(mkF2B(FADD(F(0), F(1)))); break; case 1: r = tv(mkF2B(FSUB(F(0), F(1)))); break; case 2: r = tv(mkF2B(FMUL(F(0), F(1)))); break;
    case 3: r = tv(mkF2B(FNEG(F(0)))); break; case 4: r = tv(mkF2B(F(0))); break;
    case 5: { Term *e = mkFeq(F(0), F(1)); if (I.w2 > 1) e = mkZext(e, I.w2); r = tv(e); break; }
  }
  return 1;
}
// ------------------------------------------------------------ information leakage
// the AES instructions over an uninterpreted S-box (the rest exactly as the instruction set manual defines it)
bool aesExp = false;
static Term *sb(Term *b) { return mkUf(UF_SBOX, 8, b, nullptr); }
static Term *xtime(Term *b) { return mkBit(T_XOR, mkShl(b, mkConst(8, 1)), mkBit(T_AND, mkSext(mkExtract(b, 7, 7), 8), mkConst(8, 0x1b))); }
static Term *join(std::vector<Term *> &b) { Term *r = b[0]; for (size_t i = 1; i < b.size(); i++) r = mkConcat(b[i], r); return r; }
static Term *aesRound(Term *x, Term *k, bool mix) {
  std::vector<Term *> s(16), o(16); auto X = [](Term *a, Term *b) { return mkBit(T_XOR, a, b); };
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { int src = ((c + r) % 4) * 4 + r; s[(size_t)(c * 4 + r)] = sb(mkExtract(x, (unsigned)src * 8 + 7, (unsigned)src * 8)); }
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { auto a = [&](int i) { return s[(size_t)(c * 4 + (r + i) % 4)]; }; Term *v = mix ? X(X(xtime(a(0)), X(xtime(a(1)), a(1))), X(a(2), a(3))) : a(0); int i = c * 4 + r; o[(size_t)i] = X(v, mkExtract(k, (unsigned)i * 8 + 7, (unsigned)i * 8)); }
  return join(o);
}
static Term *aesKeygen(Term *x, unsigned rc) {
  std::vector<Term *> o; auto B = [&](int w, int i) { return sb(mkExtract(x, (unsigned)(w * 32 + i * 8 + 7), (unsigned)(w * 32 + i * 8))); };
  for (int w : {1, 3}) { for (int i = 0; i < 4; i++) o.push_back(B(w, i)); for (int i = 0; i < 4; i++) { Term *b = B(w, (i + 1) % 4); o.push_back(i ? b : mkBit(T_XOR, b, mkConst(8, rc))); } }
  return join(o);
}
bool independentBits(const std::vector<u32> &cols) {
  // Gaussian elimination over GF(2); a bit with an atom of its own needs no work
  std::unordered_map<u32, u32> pivot; unsigned low = FP >> 64 ? 127 : 61; bool all = true;
  std::vector<std::vector<u32>> bs; for (u32 c : cols) { bs.push_back(bitForms.of(g_fvars[c]->w)); if (bitForms.tooBig) { bitForms = BitForms(); return false; } if (bs.back().size() < low) return false; }
  for (int pass = 0; pass < 2; pass++) for (auto &b : bs) for (unsigned j = 0; j < b.size(); j++) {
    u32 f = b[j]; bool single = f > 1 && bitForms.forms[f].size() == 1; if (single != (pass == 0)) continue;
    while (f > 1) { u32 a = bitForms.forms[f].back(); auto it = pivot.find(a); if (it == pivot.end()) { pivot[a] = f; break; } f = bitForms.X(f, it->second); }
    if (f <= 1 && j < low) all = false;
  }
  return all;
}
Act doIndist(State &s, const std::string &msg) {
  // view_k = sum_j A[k][j] r_j + g_k(secrets).  Independent of the secrets iff every row
  // combination that cancels the randomness has a constant g.
  asserts++; auto &as = assertStats[msg]; as.first++;
  size_t n = s.view.size(); std::map<u32, int> col; std::vector<u32> cols;
  auto isSecret = [&](u32 v) { Term *w = g_fvars[v]->w; return w->op == T_VAR && g_varnames[w->aux].compare(0, 6, "secret") == 0; };
  std::vector<std::map<u32, u128>> A(n), Gm(n); // random column -> coeff, secret monomial -> coeff
  for (size_t k = 0; k < n; k++) {
    Poly *p = polyOf(s.view[k]);
    for (auto &t : p->m) {
      auto &mo = g_monos[t.first]; int rnd = 0; u32 rv = 0; for (u32 v : mo) if (!isSecret(v)) { rnd++; rv = v; }
      if (!rnd) { if (!mo.empty()) Gm[k][t.first] = t.second; }
      else if (mo.size() == 1) { A[k][rv] = t.second; if (!col.count(rv)) { col[rv] = 1; cols.push_back(rv); } }
      else { note("view is not affine in the randomness: " + msg); incomplete++; assertUnknown++; return A_NEXT; }
    }
  }
  // Gaussian elimination, tracking the combination
  std::vector<std::map<u32, u128>> A0 = A; std::vector<std::map<u32, u128>> C(n); for (size_t k = 0; k < n; k++) C[k][(u32)k] = 1;
  auto axpy = [](std::map<u32, u128> &d, const std::map<u32, u128> &x, u128 f) { for (auto &e : x) { u128 v = fadd(d.count(e.first) ? d[e.first] : 0, fmul(e.second, f)); if (v) d[e.first] = v; else d.erase(e.first); } };
  std::vector<char> used(n, 0); std::vector<std::pair<size_t, u32>> piv;
  for (size_t k = 0; k < n; k++) {
    for (auto &pv : piv) { auto it = A[k].find(pv.second); if (it != A[k].end()) { u128 f = fsub(0, it->second); axpy(A[k], A[pv.first], f); axpy(Gm[k], Gm[pv.first], f); axpy(C[k], C[pv.first], f); } }
    if (A[k].empty()) {
      if (!Gm[k].empty()) { // a combination that depends on the secrets only
        Violation v; v.kind = "leak"; v.msg = msg; v.where = where(s); v.modelOk = true; v.model = dumpModel(s, *s.ms); v.sched = schedStr(s); v.t = now_s() - t0;
        // second model: other secret values
        bool found = false;
        for (int tr = 0; tr < 50 && !found; tr++) {
          Model m2 = s.ms->m; for (auto &d : s.syms) if (d.name.compare(0, 6, "secret") == 0) { u128 x = ((u128)S.rng() << 64 | S.rng()) & maskw(d.t->w); m2.v[d.t->aux] = x; }
          auto ms2 = newMS(m2); bool ok = true; for (Term *t : s.pc) if (!ms2->ev.ev(t)) ok = false; if (!ok) continue;
          auto g = [&](MState &m) { u128 a = 0; for (auto &e : Gm[k]) { u128 q = e.second; for (u32 x : g_monos[e.first]) q = fmul(q, m.ev.ev(g_fvars[x]->w) % FP); a = fadd(a, q); } return a; };
          if (g(*s.ms) != g(*ms2)) { v.model2 = dumpModel(s, *ms2); found = true; }
        }
        v.modelOk = found; for (auto &e : C[k]) v.lam.push_back(std::to_string(e.first) + ":" + hex128(e.second));
        std::string key = "leak:" + msg; if (violCount[key]++ < (u64)maxViolPerMsg) { viols.push_back(v); fprintf(stderr, "[violation] leak: %s\n", msg.c_str()); }
        pathsErr++; return A_END;
      }
      continue;
    }
    // pivot
    u32 pc = A[k].begin()->first; u128 f = finv(A[k].begin()->second);
    for (auto *mp : {&A[k], &Gm[k], &C[k]}) for (auto &e : *mp) e.second = fmul(e.second, f);
    for (auto &pv : piv) { auto it = A[pv.first].find(pc); if (it != A[pv.first].end()) { u128 g = fsub(0, it->second); axpy(A[pv.first], A[k], g); axpy(Gm[pv.first], Gm[k], g); axpy(C[pv.first], C[k], g); } }
    piv.push_back({k, pc});
  }
  // the randomness itself: the bits behind the random columns have to be independent (over GF(2)) bits of variables
  // and generator blocks. Columns for which they are not are predictable in part, or related to one another.
  if (!independentBits(cols)) {
    std::map<u32, std::vector<u32>> bits; std::vector<std::pair<size_t, u32>> iso; // rows that show a single column
    for (auto &pv : piv) if (A[pv.first].size() == 1) { Term *w = g_fvars[pv.second]->w; auto f = bitForms.of(w); f.resize(FP >> 64 ? 128 : 64, 0); bits[pv.second] = f; iso.push_back(pv); }
    Violation v; auto g = [&](size_t k, MState &m) { u128 a = 0; for (auto &c : C[k]) for (auto &t : polyOf(s.view[c.first])->m) { auto &mo = g_monos[t.first]; bool rnd = false; for (u32 x : mo) if (!isSecret(x)) rnd = true; if (rnd) continue; u128 q = fmul(t.second, c.second); for (u32 x : mo) q = fmul(q, m.ev.ev(g_fvars[x]->w) % FP); a = fadd(a, q); } return a; };
    unsigned low = FP >> 64 ? 127 : 61; std::map<u32, std::pair<size_t, unsigned>> owner; std::vector<std::array<size_t, 4>> ties; std::vector<u128> mask(iso.size(), 0), val(iso.size(), 0); bool useful = false;
    for (size_t i = 0; i < iso.size(); i++) {
      auto &b = bits[iso[i].second]; unsigned nc = 0; std::map<size_t, unsigned> tc;
      for (unsigned j = 0; j < b.size(); j++) {
        if (b[j] <= 1) { mask[i] |= (u128)1 << j; val[i] |= (u128)b[j] << j; if (j < low) nc++; continue; }
        auto o = owner.find(b[j]); if (o == owner.end()) owner[b[j]] = {i, j}; else { ties.push_back({i, j, o->second.first, o->second.second}); tc[o->second.first]++; }
      }
      if (nc >= 6 && !Gm[iso[i].first].empty()) useful = true;
      for (auto &e : tc) if (e.second >= 6 && (!Gm[iso[i].first].empty() || !Gm[iso[e.first].first].empty())) useful = true;
    }
    if (useful) {
      v.kind = "leak"; v.msg = msg; v.where = where(s); v.sched = schedStr(s); v.t = now_s() - t0; bool found = false; std::shared_ptr<MState> ms2;
      for (int tr = 0; tr < 50 && !found; tr++) { Model m2 = s.ms->m; for (auto &d : s.syms) if (d.name.compare(0, 6, "secret") == 0) m2.v[d.t->aux] = ((u128)S.rng() << 64 | S.rng()) & maskw(d.t->w); ms2 = newMS(m2); found = true; for (Term *t : s.pc) if (!ms2->ev.ev(t)) found = false; }
      v.modelOk = found; v.model = dumpModel(s, *s.ms); if (found) v.model2 = dumpModel(s, *ms2);
      std::ostringstream o; o << "{\"rows\":[";
      for (size_t i = 0; i < iso.size(); i++) { size_t k = iso[i].first; o << (i ? "," : "") << "{\"lam\":\""; bool f = true; for (auto &e : C[k]) { o << (f ? "" : " ") << e.first << ":" << hex128(e.second); f = false; } o << "\",\"ga\":\"" << hex128(g(k, *s.ms)) << "\",\"gb\":\"" << hex128(found ? g(k, *ms2) : 0) << "\",\"w\":" << (FP >> 64 ? 128 : 64) << ",\"mask\":\"" << hex128(mask[i]) << "\",\"val\":\"" << hex128(val[i]) << "\"}"; }
      o << "],\"ties\":["; for (size_t i = 0; i < ties.size(); i++) o << (i ? "," : "") << "[" << ties[i][0] << "," << ties[i][1] << "," << ties[i][2] << "," << ties[i][3] << "]"; o << "]}"; v.expect = o.str();
      std::string key = "leak:" + msg; if (violCount[key]++ < (u64)maxViolPerMsg) { viols.push_back(v); fprintf(stderr, "[violation] leak (weak randomness): %s\n", msg.c_str()); }
      pathsErr++; return A_END;
    }
    note("the randomness of a view is not made of independent bits: " + msg); incomplete++; assertUnknown++; return A_NEXT;
  }
  // witness: r_pivot' = r_pivot + g(S) - g(S');  the solver confirms view(S, r) == view(S', r')
  std::map<u32, FNode *> sub; // var -> node for primed world
  auto nodeOf = [&](u32 v) { return g_fvars[v]; };
  auto primed = [&](u32 v) -> FNode * { auto it = sub.find(v); if (it != sub.end()) return it->second; FNode *nn; if (isSecret(v)) { Term *w = g_fvars[v]->w; nn = fnode(F_VAR, 0, 0, 0, namedVar("other_" + g_varnames[w->aux], w->w)); } else nn = nodeOf(v); return sub[v] = nn; };
  auto mkG = [&](const std::map<u32, u128> &g, bool pr) { FNode *a = FC(0); for (auto &e : g) { FNode *q = FC(e.second); for (u32 v : g_monos[e.first]) q = FMUL(q, pr ? primed(v) : nodeOf(v)); a = FADD(a, q); } return a; };
  for (auto &pv : piv) sub[pv.second] = FADD(nodeOf(pv.second), FSUB(mkG(Gm[pv.first], false), mkG(Gm[pv.first], true)));
  for (size_t k = 0; k < n; k++) {
    FNode *b = FC(0); Poly *p = polyOf(s.view[k]);
    for (auto &t : p->m) { FNode *q = FC(t.second); for (u32 v : g_monos[t.first]) q = FMUL(q, primed(v)); b = FADD(b, q); }
    Term *ne = mkNot(mkFeq(s.view[k], b)); R r = isC(ne) ? (ne->c ? SAT : UNSAT) : S.check({ne}, qTimeout, nullptr, false, "indist");
    if (r != UNSAT) { note("the simulation of a view could not be confirmed: " + msg); incomplete++; assertUnknown++; return A_NEXT; }
    assertSolver++;
  }
  as.second++;
  return A_NEXT;
}
V ov(u8 kind, unsigned w, const V &a, const V &b, V &res) { // overflow flag
  Term *x = asT(a, w), *y = asT(b, w);
  switch (kind) {
    case 0: { V r = bin1(T_ADD, w, a, b); res = r; return cmp1(CmpInst::ICMP_ULT, w, r, a); }
    case 1: { res = bin1(T_SUB, w, a, b); return cmp1(CmpInst::ICMP_ULT, w, a, b); }
    case 2: { res = bin1(T_MUL, w, a, b); if (w <= 64) { Term *m = mkMul(mkZext(x, 2 * w), mkZext(y, 2 * w)); return tv(mkNot(mkEq(mkExtract(m, 2 * w - 1, w), mkConst(w, 0)))); } return cv(0); }
    case 3: { res = bin1(T_ADD, w, a, b); Term *e = mkAdd(mkSext(x, w + 1), mkSext(y, w + 1)); return tv(mkNot(mkEq(e, mkSext(asT(res, w), w + 1)))); }
    case 4: { res = bin1(T_SUB, w, a, b); Term *e = mkSub(mkSext(x, w + 1), mkSext(y, w + 1)); return tv(mkNot(mkEq(e, mkSext(asT(res, w), w + 1)))); }
    default: { res = bin1(T_MUL, w, a, b); Term *e = mkMul(mkSext(x, 2 * w), mkSext(y, 2 * w)); return tv(mkNot(mkEq(e, mkSext(asT(res, w), 2 * w)))); }
  }
}
#define BI [this](State &s, FnInfo *fn, Inst &I, V &r) -> Act
void initBuiltins() {
  // ---- allocation
  reg("malloc", BI { return doAlloc(s, argC(s, 0), 1, false, r); });
  reg("calloc", BI { u64 n = argC(s, 0), m = argC(s, 1); return doAlloc(s, n * m, 1, true, r); });
  reg("realloc", BI { u64 p = argC(s, 0), n = argC(s, 1); if (!p) return doAlloc(s, n, 1, false, r); Obj *o = obj(s, p); if (!o || o->dead) return fail(s, "memory", "realloc of a dead object"); u64 a = newObj(s, (u32)n, K_HEAP, true, 1); std::string e; copyMem(s, a, p, std::min<u64>(n, o->size), e); killObj(s, p); r = cv(a); return A_NEXT; });
  reg("free", BI { return doFree(s, argC(s, 0), 1); });
  for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) reg(n, BI { return doAlloc(s, argC(s, 0), 2, false, r); });
  for (auto n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) reg(n, BI { return doAlloc(s, argC(s, 0), 3, false, r); });
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, BI { return doFree(s, argC(s, 0), 2); });
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) reg(n, BI { return doFree(s, argC(s, 0), 3); });
  // ---- memory
  auto cpy = BI { u64 d = argC(s, 0), a = argC(s, 1), n = argC(s, 2, I.argw[2]); std::string e; if (!copyMem(s, d, a, n, e)) return fail(s, "memory", e); if (races && !(raceAccess(s, a, n, false, e) && raceAccess(s, d, n, true, e))) return fail(s, "race", e); r = cv(d); return A_NEXT; };
  reg("memcpy", cpy); reg("memmove", cpy); regP("llvm.memcpy.", cpy); regP("llvm.memmove.", cpy);
  auto mset = BI { u64 d = argC(s, 0), n = argC(s, 2, I.argw[2]); r = cv(d); return memsetAt(s, d, args[1], n); };
  reg("memset", mset); regP("llvm.memset.", mset);
  reg("bcmp", BI { u64 a = argC(s, 0), b = argC(s, 1), n = argC(s, 2); Term *e = mkTrue(); for (u64 i = 0; i < n; i += 16) { unsigned k = (unsigned)std::min<u64>(16, n - i); V x, y; std::string err; if (!bytesT(s, a + i, k, x, err) || !bytesT(s, b + i, k, y, err)) return fail(s, "memory", err); if (!x.t && !y.t) { if (x.c != y.c) { e = mkFalse(); break; } } else e = mkBit(T_AND, e, mkEq(asT(x, 8 * k), asT(y, 8 * k))); } r = tv(mkZext(mkNot(e), I.w2)); return A_NEXT; });
  reg("memcmp", BI { u64 a = argC(s, 0), b = argC(s, 1), n = argC(s, 2); unsigned W = I.w2; V acc = cv(0); std::vector<std::pair<Term *, Term *>> ch; 
    for (u64 i = 0; i < n; i += 16) { unsigned k = (unsigned)std::min<u64>(16, n - i); V x, y; std::string err; if (!bytesT(s, a + i, k, x, err) || !bytesT(s, b + i, k, y, err)) return fail(s, "memory", err); ch.push_back({bswapT(asT(x, 8 * k)), bswapT(asT(y, 8 * k))}); }
    Term *t = mkConst(W, 0); for (size_t i = ch.size(); i-- > 0;) t = mkIte(mkEq(ch[i].first, ch[i].second), t, mkIte(mkUlt(ch[i].first, ch[i].second), mkConst(W, ~(u128)0), mkConst(W, 1))); r = tv(t); return A_NEXT; });
  // ---- intrinsics
  regP("llvm.expect.", BI { r = args[0]; return A_NEXT; });
  regP("llvm.is.constant.", BI { r = cv(0); return A_NEXT; });
  regP("llvm.objectsize.", BI { r = cv(maskw(I.w2)); return A_NEXT; });
  regP("llvm.launder.invariant.group", BI { r = args[0]; return A_NEXT; });
  regP("llvm.strip.invariant.group", BI { r = args[0]; return A_NEXT; });
  regP("llvm.threadlocal.address", BI { r = args[0]; return A_NEXT; });
  { const char *nm[] = {"llvm.uadd.with.overflow.", "llvm.usub.with.overflow.", "llvm.umul.with.overflow.", "llvm.sadd.with.overflow.", "llvm.ssub.with.overflow.", "llvm.smul.with.overflow."};
    for (u8 k = 0; k < 6; k++) regP(nm[k], [this, k](State &s, FnInfo *, Inst &I, V &) -> Act { V res; V o = ov(k, I.argw[0], args[0], args[1], res); multi = {res, o}; return A_NEXT; }); }
  { struct MM { const char *n; u8 p; } mm[] = {{"llvm.umin.", CmpInst::ICMP_ULT}, {"llvm.umax.", CmpInst::ICMP_UGT}, {"llvm.smin.", CmpInst::ICMP_SLT}, {"llvm.smax.", CmpInst::ICMP_SGT}};
    for (auto &m : mm) { u8 p = m.p; regP(m.n, [this, p](State &s, FnInfo *, Inst &I, V &r) -> Act { unsigned L = I.lanes, lw = I.w / L; std::vector<V> l; for (unsigned i = 0; i < L; i++) { V a = L == 1 ? args[0] : lane(args[0], I.w, lw, i), b = L == 1 ? args[1] : lane(args[1], I.w, lw, i); l.push_back(ite(cmp1(p, lw, a, b), a, b, lw)); } r = L == 1 ? l[0] : fromLanes(l, lw); return A_NEXT; }); } }
  regP("llvm.usub.sat.", BI { unsigned w = I.w; r = ite(cmp1(CmpInst::ICMP_ULT, w, args[0], args[1]), cv(0), bin1(T_SUB, w, args[0], args[1]), w); return A_NEXT; });
  regP("llvm.uadd.sat.", BI { unsigned w = I.w; V x = bin1(T_ADD, w, args[0], args[1]); r = ite(cmp1(CmpInst::ICMP_ULT, w, x, args[0]), cv(maskw(w)), x, w); return A_NEXT; });
  regP("llvm.abs.", BI { unsigned w = I.w; r = ite(cmp1(CmpInst::ICMP_SLT, w, args[0], cv(0)), bin1(T_SUB, w, cv(0), args[0]), args[0], w); return A_NEXT; });
  regP("llvm.bswap.", BI { if (!args[0].t) { u128 x = 0; for (unsigned i = 0; i < I.w / 8; i++) x |= ((args[0].c >> (8 * i)) & 255) << (I.w - 8 - 8 * i); r = cv(x); } else r = tv(bswapT(args[0].t)); return A_NEXT; });
  auto fsh = [this](bool left, State &s, Inst &I, V &r) -> Act { unsigned w = I.w; u128 k; conc(s, args[2], w, k); unsigned sh = (unsigned)(k % w); if (!left) sh = (w - sh) % w; bool zero = k % w == 0; if (zero) { r = left ? args[0] : args[1]; return A_NEXT; }
    // result = top w bits of (a:b) << sh
    if (!args[0].t && !args[1].t) { r = cv(((args[0].c << sh) | (args[1].c >> (w - sh))) & maskw(w)); return A_NEXT; }
    Term *a = asT(args[0], w), *b = asT(args[1], w); r = tv(mkConcat(mkExtract(a, w - 1 - sh, 0), mkExtract(b, w - 1, w - sh))); return A_NEXT; };
  regP("llvm.fshl.", [this, fsh](State &s, FnInfo *, Inst &I, V &r) -> Act { return fsh(true, s, I, r); });
  regP("llvm.fshr.", [this, fsh](State &s, FnInfo *, Inst &I, V &r) -> Act { return fsh(false, s, I, r); });
  regP("llvm.ctlz.", BI { unsigned w = I.w; if (!args[0].t) { unsigned n = 0; for (int i = (int)w - 1; i >= 0 && !((args[0].c >> i) & 1); i--) n++; r = cv(n); return A_NEXT; } Term *t = mkConst(w, w); for (unsigned i = 0; i < w; i++) t = mkIte(mkExtract(args[0].t, i, i), mkConst(w, w - 1 - i), t); r = tv(t); return A_NEXT; });
  regP("llvm.cttz.", BI { unsigned w = I.w; if (!args[0].t) { unsigned n = 0; for (unsigned i = 0; i < w && !((args[0].c >> i) & 1); i++) n++; r = cv(n); return A_NEXT; } Term *t = mkConst(w, w); for (unsigned i = w; i-- > 0;) t = mkIte(mkExtract(args[0].t, i, i), mkConst(w, i), t); r = tv(t); return A_NEXT; });
  regP("llvm.ctpop.", BI { unsigned w = I.w; V acc = cv(0); for (unsigned i = 0; i < w; i++) { V b = lane(args[0], w, 1, i); acc = bin1(T_ADD, w, acc, b.t ? tv(mkZext(b.t, w)) : b); } r = acc; return A_NEXT; });
  reg("llvm.trap", BI { return doAbort(s, I, "trap"); });
  regP("llvm.stacksave", BI { r = cv(0); return A_NEXT; }); regP("llvm.stackrestore", BI { return A_NEXT; });
  reg("llvm.x86.sse2.pause", BI { return A_NEXT; });
  reg("llvm.x86.aesni.aesenc", BI { if (!args[0].t && !args[1].t) r = cv(aesenc_c(args[0].c, args[1].c)); else if (aesExp) r = tv(aesRound(asT(args[0], 128), asT(args[1], 128), true)); else r = tv(mkUf(UF_AESENC, 128, asT(args[0], 128), asT(args[1], 128))); return A_NEXT; });
  reg("llvm.x86.aesni.aesenclast", BI { if (!args[0].t && !args[1].t) r = cv(aesenclast_c(args[0].c, args[1].c)); else if (aesExp) r = tv(aesRound(asT(args[0], 128), asT(args[1], 128), false)); else r = tv(mkUf(UF_AESENCLAST, 128, asT(args[0], 128), asT(args[1], 128))); return A_NEXT; });
  reg("llvm.x86.aesni.aeskeygenassist", BI { u64 rc = argC(s, 1, I.argw[1]); r = args[0].t ? tv(aesExp ? aesKeygen(args[0].t, (unsigned)rc) : mkUf(UF_KEYGEN, 128, args[0].t, mkConst(8, rc))) : cv(keygen_c(args[0].c, (unsigned)rc)); return A_NEXT; });
  regP("llvm.eh.typeid.for", BI { u64 ti = argC(s, 0); r = cv(ti ? (u32)(ti >> 32) : 1); return A_NEXT; });
  // ---- exceptions
  reg("__cxa_allocate_exception", BI { u64 n = argC(s, 0); u64 a = newObj(s, (u32)std::max<u64>(n, 1), K_HEAP, true, 4); r = cv(a); return A_NEXT; });
  reg("__cxa_free_exception", BI { return A_NEXT; });
  reg("__cxa_throw", BI { Exc e{argC(s, 0), argC(s, 1)}; s.excs[e.obj] = e; return throwExc(s, I, e); });
  reg("__cxa_begin_catch", BI { u64 p = argC(s, 0); auto it = s.excs.find(p); s.th[s.cur].caught.push_back(it != s.excs.end() ? it->second : Exc{p, 0}); r = cv(p); return A_NEXT; });
  reg("__cxa_end_catch", BI { auto &c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); return A_NEXT; });
  reg("__cxa_rethrow", BI { auto &c = s.th[s.cur].caught; if (c.empty()) return doAbort(s, I, "rethrow without an exception"); return throwExc(s, I, c.back()); });
  reg("__cxa_get_exception_ptr", BI { r = args[0]; return A_NEXT; });
  reg("vp_current_exc", BI { auto &c = s.th[s.cur].caught; r = cv(c.empty() ? 0 : c.back().obj); return A_NEXT; });
  reg("vp_rethrow", BI { u64 p = argC(s, 0); auto it = s.excs.find(p); if (it == s.excs.end()) return doAbort(s, I, "rethrow of an empty exception pointer"); return throwExc(s, I, it->second); });
  reg("__cxa_pure_virtual", BI { return fail(s, "abort", "pure virtual call"); });
  reg("__cxa_atexit", BI { r = cv(0); return A_NEXT; }); reg("__cxa_thread_atexit", BI { r = cv(0); return A_NEXT; });
  reg("_ZSt9terminatev", BI { auto &t = s.th[s.cur]; return doAbort(s, I, "std::terminate" + (t.caught.empty() ? std::string() : " on " + excDesc(s, t.caught.back()))); });
  reg("abort", BI { return doAbort(s, I, "abort()"); });
  reg("exit", BI { return doAbort(s, I, "exit()"); }); reg("_exit", BI { return doAbort(s, I, "_exit()"); });
  reg("__assert_fail", BI { return doAbort(s, I, "assertion failed: " + readStr(s, argC(s, 0))); });
  reg("__errno_location", BI { if (!errnoA.count(s.cur)) errnoA[s.cur] = 0; r = cv(errnoAddr(s)); return A_NEXT; });
  reg("_ZNSt6chrono3_V212system_clock3nowEv", BI { r = cv(0); return A_NEXT; }); reg("_ZNSt6chrono3_V212steady_clock3nowEv", BI { r = cv(0); return A_NEXT; });
  // ---- verification interface
  reg("vp_sym", BI { u64 w = argC(s, 0, I.argw[0]); std::string n = symName(s, readStr(s, argC(s, 1))); Term *t = newSym(s, n, (unsigned)w); r = tv(mkZext(t, 64)); return A_NEXT; });
  reg("vp_sym128", BI { u64 p = argC(s, 0), w = argC(s, 1, I.argw[1]); std::string n = symName(s, readStr(s, argC(s, 2))); Term *t = newSym(s, n, (unsigned)w); Obj *o; u32 off; std::string e; if (!access(s, p, 16, true, o, off, e)) return fail(s, "memory", e); storeBytes(o, off, 16, tv(mkZext(t, 128))); return A_NEXT; });
  reg("vp_bytes", BI { u64 p = argC(s, 0), n = argC(s, 1); std::string nm = readStr(s, argC(s, 2)); nm = symName(s, nm); Obj *o; u32 off; std::string e; if (n && !access(s, p, n, true, o, off, e)) return fail(s, "memory", e);
    for (u64 i = 0, c = 0; i < n; i += 16, c++) { unsigned k = (unsigned)std::min<u64>(16, n - i); Term *t = newSym(s, nm + "." + std::to_string(c), 8 * k); storeBytes(o, off + (u32)i, k, tv(t)); } return A_NEXT; });
  reg("vp_field", BI { u64 p = argC(s, 0); std::string nm = symName(s, readStr(s, argC(s, 1))); Obj *o; u32 off; std::string e; if (!access(s, p, FPBYTES, true, o, off, e)) return fail(s, "memory", e); Term *t = newSym(s, nm, FPW); storeBytes(o, off, FPBYTES, tv(mkF2B(fnode(F_VAR, 0, 0, 0, t)))); return A_NEXT; });
  reg("vp_range", BI { u64 lo = argC(s, 0), hi = argC(s, 1); if (lo == hi) { r = cv(lo); return A_NEXT; } std::string nm = symName(s, readStr(s, argC(s, 2))); u64 d = hi - lo; unsigned w = 1; while (w < 64 && (d >> w)) w++; Term *t = newSym(s, nm, w); Term *z = mkZext(t, 64); r = tv(mkAdd(z, mkConst(64, lo)));
    if (d == (u64)maskw(w)) return A_NEXT;
    return assume(s, mkNot(mkUlt(mkConst(64, d), z))); });
  reg("vp_choose", BI { i64 lo = (i64)argC(s, 0), hi = (i64)argC(s, 1); std::string raw = readStr(s, argC(s, 2)); auto pk = params.find("fix." + raw + (s.symCnt[raw] ? "#" + std::to_string(s.symCnt[raw]) : "")); std::string nm = symName(s, raw);
    if (pk != params.end()) { lo = hi = pk->second; }
    for (i64 v = hi; v > lo; v--) { State *n = fork(s); n->syms.push_back({nm, mkConst(64, (u64)v), 8}); auto &f = n->th[n->cur].fr.back(); n->th[n->cur].regs[f.base + I.dst] = cv((u64)v); advance(*n, I); work.push_back(n); }
    s.syms.push_back({nm, mkConst(64, (u64)lo), 8}); r = cv((u64)lo); return A_NEXT; });
  reg("vp_assume", BI { V c = args[0]; Term *t = c.t ? mkNot(mkEq(c.t, mkConst(I.argw[0], 0))) : mkBool(c.c != 0); return assume(s, t); });
  auto as = [this](bool sw, State &s, Inst &I) -> Act { V c = args[0]; std::string m = readStr(s, argC(s, 1)); Term *t = c.t ? mkNot(mkEq(c.t, mkConst(I.argw[0], 0))) : mkBool(c.c != 0); return doAssert(s, t, m, sw); };
  reg("vp_assert", [this, as](State &s, FnInfo *, Inst &I, V &) -> Act { return as(false, s, I); });
  reg("vp_assert_sweep", [this, as](State &s, FnInfo *, Inst &I, V &) -> Act { return as(true, s, I); });
  // equality of two byte ranges, decided as one assertion (kind 1: through sweeping)
  reg("vp_assert_eq", BI { u64 a = argC(s, 0), b = argC(s, 1), n = argC(s, 2); bool sw = argC(s, 3, I.argw[3]); std::string m = readStr(s, argC(s, 4));
    for (u64 i = 0; i < n; i += 8) { unsigned k = (unsigned)std::min<u64>(8, n - i); V x, y; std::string err; if (!bytesT(s, a + i, k, x, err) || !bytesT(s, b + i, k, y, err)) return fail(s, "memory", err); Act q = doAssert(s, x.t || y.t ? mkEq(asT(x, 8 * k), asT(y, 8 * k)) : mkBool(x.c == y.c), m, sw); if (q != A_NEXT) return q; }
    return A_NEXT; });
  reg("vp_reach", BI { reach[readStr(s, argC(s, 0))]++; return A_NEXT; });
  reg("vp_param", BI { auto it = params.find(readStr(s, argC(s, 0))); if (it != params.end()) r = cv((u64)it->second); else r = args[1]; return A_NEXT; });
  reg("vp_observe", BI { s.obs.push_back({readStr(s, argC(s, 0)), asT(args[1], 64)}); return A_NEXT; });
  reg("vp_view", BI { V x; std::string e; if (!bytesT(s, argC(s, 0), FPBYTES, x, e)) return fail(s, "memory", e); s.view.push_back(mkBV2F(asT(x, FPBYTES * 8))); return A_NEXT; });
  reg("vp_view_reset", BI { s.view.clear(); return A_NEXT; });
  reg("vp_indist", BI { return doIndist(s, readStr(s, argC(s, 0))); });
  reg("vp_thread", BI { u64 f = argC(s, 0); V arg = args[1]; Obj *o = obj(s, f); if (!o || o->kind != K_FUNC) return fail(s, "memory", "thread entry"); int id = (int)s.th.size(); if ((u64)id >> (32 - TIDSHIFT)) return fail(s, "unsupported", "too many threads"); s.th.emplace_back(); s.mem.emplace_back(); s.mem.back().add((g_dead->rc++, g_dead)); pushFrame(s, s.th[id], o->fn, {arg}, -1, nullptr); raceThread(s, id); r = cv((u64)id); return A_NEXT; });
  reg("vp_self", BI { r = cv((u64)s.cur); return A_NEXT; });
  reg("vp_acq", BI { raceAcq(s, argC(s, 0)); return A_NEXT; }); reg("vp_rel", BI { raceRel(s, argC(s, 0)); return A_NEXT; });
  reg("vp_yield", BI { advance(s, I); if (s.th.size() < 2 || s.noYield) return A_JUMP; return schedule(s, false); });
  reg("vp_block_while", BI { u64 p = argC(s, 0); advance(s, I); Obj *o = obj(s, p); int v = 1; if (o && !o->dead && !o->st[(u32)p]) memcpy(&v, o->b + (u32)p, 4); if (!v) return A_JUMP; s.th[s.cur].block = p; return schedule(s, true); });
  reg("vp_noyield", BI { s.noYield = argC(s, 0, I.argw[0]); return A_NEXT; });
  reg("vp_fail", BI { return fail(s, "assert", readStr(s, argC(s, 0))); });
  reg("vp_abort_ok", BI { s.abortOk = true; s.abortFn = argC(s, 0); return A_NEXT; });
  reg("vp_end", BI { A_END0(s); return A_END; });
  reg("vp_concrete", BI { u64 x = argC(s, 0); r = cv(x); return A_NEXT; });
  reg("vp_issym", BI { r = cv(args[0].t != nullptr); return A_NEXT; });
  reg("vp_log", BI { if (getenv("SYMIR_LOG")) { std::string m = readStr(s, argC(s, 0)); V v = args[1]; fprintf(stderr, "[log] %s %s\n", m.c_str(), v.t ? tstr(v.t).c_str() : hex128(v.c).c_str()); } return A_NEXT; });
  reg("vp_where", BI { fprintf(stderr, "[where] %s\n", where(s).c_str()); return A_NEXT; });
  reg("vp_sbox", BI { V a = args[0]; r = a.t ? tv(mkZext(mkUf(UF_SBOX, 8, mkExtract(a.t, 7, 0), nullptr), I.w2)) : cv(sbox_c((u8)a.c)); return A_NEXT; });
}
Act assume(State &s, Term *t) {
  if (isC(t)) { if (!t->c) { pathsAssumed++; return A_END; } return A_NEXT; }
  if (inPc(s, t)) return A_NEXT;
  if (s.modelOk && evalB(s, t)) { addPc(s, t); return A_NEXT; }
  std::shared_ptr<MState> ms; bool good = false; R q = feasible(s, t, &ms, &good, qTimeout, "assume");
  if (q == UNSAT) { pathsAssumed++; return A_END; }
  if (q == UNKNOWN && !good) { incomplete++; note("an assumption could not be decided within the solver limit"); pathsAssumed++; return A_END; }
  addPc(s, t); s.ms = ms; s.modelOk = good; return A_NEXT;
}
void advance(State &s, Inst &I) { auto &t = s.th[s.cur]; if (I.op == I_INVOKE) jump(s, t, I.tgt[0]); else t.fr.back().ip++; }
std::map<int, u64> errnoA;
u64 errnoBase = 0; // one object with a slot per thread
u64 errnoAddr(State &s) { return errnoBase + 4ull * (u64)s.cur; }
