// ---- interpreter (included inside Engine)
V val(State &s, const V *R, const Opd &o) { if (o.slot >= 0) return R[o.slot]; if (o.undef) return tv(mkVar("undef" + std::to_string(anon++), o.w)); return o.k; }

bool jump(State &s, Thread &t, int to) { // returns false never; handles phi nodes
  Frame &f = t.fr.back(); Block &B = f.fn->bb[to];
  if (!B.phiDst.empty()) {
    size_t pi = 0; for (; pi < B.predIds.size(); pi++) if (B.predIds[pi] == f.bb) break;
    if (pi == B.predIds.size()) { fprintf(stderr, "phi predecessor missing in %s\n", f.fn->name.c_str()); abort(); }
    auto &src = B.phiFrom[pi]; V *R = &t.regs[f.base]; static std::vector<V> tmp; tmp.resize(src.size());
    for (size_t i = 0; i < src.size(); i++) tmp[i] = val(s, R, src[i]);
    for (size_t i = 0; i < src.size(); i++) R[B.phiDst[i]] = tmp[i];
  }
  f.bb = to; f.ip = 0; return true;
}
static bool inRepoFn(const FnInfo *f) { return f->inRepo; }
void pushFrame(State &s, Thread &t, FnInfo *fn, const std::vector<V> &args, int retSlot, Inst *call) {
  if (!fn->decoded) decode(fn);
  fn->hits++;
  Frame f; f.fn = fn; f.bb = 0; f.ip = 0; f.retSlot = retSlot; f.call = call;
  f.base = t.fr.empty() ? 0 : t.fr.back().base + (u32)t.fr.back().fn->nslots;
  if (t.regs.size() < f.base + fn->nslots + 8) t.regs.resize((f.base + fn->nslots) * 3 / 2 + 64);
  for (size_t i = 0; i < args.size() && (int)i < fn->nargs; i++) t.regs[f.base + i] = args[i];
  t.fr.push_back(std::move(f));
}
void popFrame(State &s, Thread &t) { Frame &f = t.fr.back(); for (u32 a : f.allocas) killObj(s, (u64)a << 32); t.fr.pop_back(); }

// exceptions ---------------------------------------------------------------
std::string tiName(u64 addr, State &s) { Obj *o = obj(s, addr); return o && o->gv ? o->gv->getName().str() : ""; }
bool derives(State &s, u64 ti, u64 target) {
  if (ti == target) return true;
  std::string a = tiName(ti, s), b = tiName(target, s); if (!a.empty() && a == b) return true;
  Obj *o = obj(s, ti); if (!o || !o->gv || !o->gv->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(o->gv->getInitializer()); if (!cs) return false;
  std::string vt; if (auto *g = dyn_cast<GlobalVariable>(cs->getOperand(0)->stripInBoundsConstantOffsets())) vt = g->getName().str();
  if (vt.find("si_class_type_info") != std::string::npos) { if (auto *g = dyn_cast<GlobalValue>(cs->getOperand(2)->stripPointerCasts())) return derives(s, addrOf(g), target); }
  if (vt.find("vmi_class_type_info") != std::string::npos) { for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) if (auto *g = dyn_cast<GlobalValue>(cs->getOperand(i)->stripPointerCasts())) if (derives(s, addrOf(g), target)) return true; }
  return false;
}
std::string excDesc(State &s, const Exc &e) {
  std::string n = demangle(tiName(e.tinfo, s)); std::string r = n.substr(0, 17) == "typeinfo for std:" ? n.substr(13) : n;
  Obj *o = obj(s, e.obj); // std::exception with a message pointer behind the vtable
  if (o && o->size >= 16 && !o->st[8]) { u64 p; memcpy(&p, o->b + 8, 8); Obj *m = obj(s, p); if (m && !m->dead && m->kind != K_FUNC) { std::string t = readStr(s, p); bool ok = t.size() > 2; for (unsigned char c : t) if (c < 32 || c > 126) ok = false; if (ok) r += ": " + t; } }
  return r;
}
Act unwind(State &s, Inst *ci) {
  Thread &t = s.th[s.cur];
  while (true) {
    if (ci && ci->op == I_INVOKE) {
      Frame &f = t.fr.back(); Inst &lp = f.fn->bb[ci->tgt[1]].in[0]; bool hit = false; u32 sel = 0;
      for (auto &c : lp.clauses) if (c.first == 0 || derives(s, t.cur.tinfo, c.first)) { hit = true; sel = c.first ? (u32)(c.first >> 32) : 1; break; }
      if (hit || lp.cleanup) { jump(s, t, ci->tgt[1]); t.caughtSel = sel; return A_JUMP; }
    }
    ci = t.fr.back().call; popFrame(s, t);
    if (t.fr.empty()) { t.fr.clear(); violation(s, "exception", "uncaught exception " + excDesc(s, t.cur), s.ms, s.modelOk); pathsErr++; return A_END; }
  }
}

// scheduling ---------------------------------------------------------------
bool enabled(State &s, int k) { Thread &t = s.th[k]; if (t.done) return false; if (!t.block) return true; Obj *o = obj(s, t.block); if (!o || o->dead) return true; u32 off = (u32)t.block; if (o->st[off]) return true; int v; memcpy(&v, o->b + off, 4); return v == 0; }
// choose the next thread. cur blocked/finished => forced switch
Act schedule(State &s, bool forced) {
  std::vector<int> en; for (int k = 0; k < (int)s.th.size(); k++) if (enabled(s, k)) en.push_back(k);
  if (en.empty()) { violation(s, "deadlock", "no thread can make progress", s.ms, s.modelOk); pathsErr++; return A_END; }
  int cur = s.cur; bool curEn = false; for (int k : en) if (k == cur) curEn = true;
  std::vector<int> opts; if (curEn) opts.push_back(cur);
  if (!curEn || s.preempt < preemptBound) { for (int k : en) if (k != cur) opts.push_back(k); }
  else if (en.size() > 1) preemptCut++;
  if (preemptBound < 0) { // one fixed scheduler (lowest or highest thread first), departing from it at most `delays` times
    opts.clear(); if (curEn) opts.push_back(cur);
    std::vector<int> o2; for (int k : en) if (k != cur) o2.push_back(k); if (preemptBound == -2) std::reverse(o2.begin(), o2.end());
    for (int k : o2) opts.push_back(k);
    u32 left = s.preempt < delays ? delays - s.preempt : 0; if (opts.size() > left + 1) { opts.resize(left + 1); preemptCut++; }
    bool rec = en.size() > 1;
    for (size_t i = opts.size(); i-- > 1;) { State *n = fork(s); if (rec) n->sched.push_back(opts[i]); n->preempt += (u32)i; n->cur = opts[i]; n->th[opts[i]].block = 0; work.push_back(n); }
    if (rec) s.sched.push_back(opts[0]);
    s.cur = opts[0]; s.th[s.cur].block = 0; return A_JUMP;
  }
  if (dedupe && !races && opts.size() > 1) { u64 h = hashState(s); if (!seenStates.insert(h).second) { dedup++; s.th[0].done = true; return A_END; } }
  bool rec = en.size() > 1;
  for (size_t i = opts.size(); i-- > 1;) { State *n = fork(s); if (rec) n->sched.push_back(opts[i]); if (curEn) n->preempt++; n->cur = opts[i]; n->th[opts[i]].block = 0; work.push_back(n); }
  if (rec) s.sched.push_back(opts[0]);
  s.cur = opts[0]; s.th[s.cur].block = 0; return A_JUMP;
}
u64 preemptCut = 0;
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
u64 hashState(State &s) {
  u64 h = mixh(1, s.cur);
  for (auto &t : s.th) { h = mixh(h, t.done * 2 + (t.block != 0)); h = mixh(h, t.block); for (auto &f : t.fr) { h = mixh(h, (u64)f.fn); h = mixh(h, ((u64)f.bb << 20) + f.ip); V *R = &t.regs[f.base]; for (int i = 0; i < f.fn->nslots; i++) { h = mixh(h, (u64)R[i].t); h = mixh(h, (u64)R[i].c); } } for (auto &c : t.caught) h = mixh(h, c.obj); }
  for (size_t k = 0; k < s.mem.size(); k++) { Table &T = s.mem[k]; for (u32 i = 0; i < T.n; i++) { Obj *o = T.ch[i >> 6]->o[i & 63]; if (!o || o->dead || o->kind == K_CONST || o->kind == K_FUNC) continue; if (!o->hashed) { u64 x = o->size; for (u32 j = 0; j < o->size; j++) { x = mixh(x, o->st[j] * 256 + (o->st[j] ? 0 : o->b[j])); if (o->st[j] == 1) { x = mixh(x, (u64)o->sy[j].t); x = mixh(x, o->sy[j].k); } } o->hash = x; o->hashed = true; } h = mixh(h, ((u64)k << 32) | i); h = mixh(h, o->hash); } }
  for (auto *t : s.pc) h = mixh(h, t->id);
  if (preemptBound < 1000) h = mixh(h, s.preempt);
  return h;
}

// ---------------------------------------------------------------- operators
V bin1(u8 op, unsigned w, const V &a, const V &b) {
  if (!a.t && !b.t) return cv(evalOp(op, w, a.c, b.c));
  return tv(mkOp(op, asT(a, w), asT(b, w)));
}
V lane(const V &v, unsigned w, unsigned lw, unsigned i) { if (!v.t) return cv((v.c >> (i * lw)) & maskw(lw)); return tv(mkExtract(v.t, i * lw + lw - 1, i * lw)); }
V fromLanes(const std::vector<V> &l, unsigned lw) { bool sy = false; for (auto &x : l) if (x.t) sy = true; if (!sy) { u128 r = 0; for (size_t i = 0; i < l.size(); i++) r |= l[i].c << (i * lw); return cv(r); } Term *r = asT(l[0], lw); for (size_t i = 1; i < l.size(); i++) r = mkConcat(asT(l[i], lw), r); return tv(r); }
V cmp1(u8 p, unsigned w, const V &a, const V &b) {
  bool cc = !a.t && !b.t;
  auto E = [&] { return cc ? cv(a.c == b.c) : tv(mkEq(asT(a, w), asT(b, w))); };
  auto UL = [&](const V &x, const V &y) { return cc ? cv(x.c < y.c) : tv(mkUlt(asT(x, w), asT(y, w))); };
  auto SL = [&](const V &x, const V &y) { return cc ? cv(sxt(x.c, w) < sxt(y.c, w)) : tv(mkSlt(asT(x, w), asT(y, w))); };
  auto N = [&](const V &x) { return x.t ? tv(mkNot(x.t)) : cv(!x.c); };
  switch (p) {
    case CmpInst::ICMP_EQ: return E(); case CmpInst::ICMP_NE: return N(E());
    case CmpInst::ICMP_ULT: return UL(a, b); case CmpInst::ICMP_UGT: return UL(b, a); case CmpInst::ICMP_ULE: return N(UL(b, a)); case CmpInst::ICMP_UGE: return N(UL(a, b));
    case CmpInst::ICMP_SLT: return SL(a, b); case CmpInst::ICMP_SGT: return SL(b, a); case CmpInst::ICMP_SLE: return N(SL(b, a)); case CmpInst::ICMP_SGE: return N(SL(a, b));
  }
  abort();
}
V ite(const V &c, const V &a, const V &b, unsigned w) { if (!c.t) return c.c ? a : b; if (!a.t && !b.t && a.c == b.c) return a; return tv(mkIte(c.t, asT(a, w), asT(b, w))); }

// ---------------------------------------------------------------- main loop
void runState(State *sp) {
  State &s = *sp;
  while (true) {
    Act a = runThread(s);
    if (a == A_END) break;
  }
  totInstrs += s.instrs - s.t0;
}
bool timeUp() { return now_s() > deadline; }
Act runThread(State &s) {
  Thread *t = &s.th[s.cur]; Frame *f = &t->fr.back(); V *R = &t->regs[f->base]; Inst *I;
  u64 tick = 0;
#define RELOAD do { t = &s.th[s.cur]; f = &t->fr.back(); R = &t->regs[f->base]; } while (0)
  while (true) {
    I = &f->fn->bb[f->bb].in[f->ip];
    if (++s.instrs > maxInstrs) { violation(s, "hang", "instruction budget of one execution exhausted", s.ms, s.modelOk); pathsErr++; return A_END; }
    if (((++tick & 0x3fff) == 0 || S.st.queries != lastQ) && (lastQ = S.st.queries, timeUp())) {
      incomplete++; note("time budget exhausted before all paths were explored");
      if (viols.empty() && s.modelOk && (!paths || s.instrs > 3 * maxPathInstrs)) violation(s, "hang", "no end of this execution within the time budget", s.ms, true); // the replay decides
      return A_END;
    }
    switch (I->op) {
      case I_BIN: {
        V a = val(s, R, I->o[0]), b = val(s, R, I->o[1]);
        if (I->sub >= T_UDIV && I->sub <= T_SREM) {
          unsigned lw = I->w / I->lanes;
          if (I->lanes == 1) { if (!b.t) { if (!b.c) return fail(s, "div0", "division by zero"); } else { bool dead; bool z = decide(s, mkEq(b.t, mkConst(lw, 0)), dead); if (dead) return A_END; RELOAD; if (z) return fail(s, "div0", "division by zero"); } }
        }
        if (I->lanes == 1) R[I->dst] = bin1(I->sub, I->w, a, b);
        else { unsigned lw = I->w / I->lanes; std::vector<V> l; for (unsigned i = 0; i < I->lanes; i++) l.push_back(bin1(I->sub, lw, lane(a, I->w, lw, i), lane(b, I->w, lw, i))); R[I->dst] = fromLanes(l, lw); }
        f->ip++; break;
      }
      case I_CMP: {
        V a = val(s, R, I->o[0]), b = val(s, R, I->o[1]);
        if (I->lanes == 1) R[I->dst] = cmp1(I->sub, I->w2, a, b);
        else { unsigned lw = I->w2 / I->lanes; std::vector<V> l; for (unsigned i = 0; i < I->lanes; i++) l.push_back(cmp1(I->sub, lw, lane(a, I->w2, lw, i), lane(b, I->w2, lw, i))); R[I->dst] = fromLanes(l, 1); }
        f->ip++; break;
      }
      case I_LOAD: {
        u128 ad; V p = val(s, R, I->o[0]); if (!p.t) ad = p.c; else { conc(s, p, 64, ad); RELOAD; }
        for (size_t k = 0; k < I->leaves.size(); k++) {
          auto &l = I->leaves[k]; Obj *o; u32 off; std::string err;
          if (!access(s, (u64)ad + l.off, l.bytes, false, o, off, err)) return fail(s, "memory", err);
          if (races && !raceAccess(s, (u64)ad + l.off, l.bytes, false, err)) return fail(s, "race", err);
          V v = loadBytes(s, (u64)ad + l.off, o, off, l.bytes);
          if (l.w < 8 * l.bytes) v = v.t ? tv(mkExtract(v.t, l.w - 1, 0)) : cv(v.c & maskw(l.w));
          R[I->dst + k] = v;
        }
        f->ip++; break;
      }
      case I_STORE: {
        u128 ad; V p = val(s, R, I->o[0]); if (!p.t) ad = p.c; else { conc(s, p, 64, ad); RELOAD; }
        for (size_t k = 0; k < I->leaves.size(); k++) {
          auto &l = I->leaves[k]; Obj *o; u32 off; std::string err;
          if (!access(s, (u64)ad + l.off, l.bytes, true, o, off, err)) return fail(s, "memory", err);
          if (races && !raceAccess(s, (u64)ad + l.off, l.bytes, true, err)) return fail(s, "race", err);
          V v = val(s, R, I->o[1 + k]); if (v.t && l.w < 8 * l.bytes) v = tv(mkZext(v.t, 8 * l.bytes));
          storeBytes(o, off, l.bytes, v);
        }
        f->ip++; break;
      }
      case I_GEP: {
        V b = val(s, R, I->o[0]); V acc; bool sy = b.t;
        if (I->scale.empty() && !sy) { R[I->dst] = cv((u64)(b.c + (u64)I->off)); f->ip++; break; }
        acc = b.t ? tv(mkAdd(b.t, mkConst(64, (u64)I->off))) : cv((u64)(b.c + (u64)I->off));
        for (auto &sc : I->scale) { const Opd &o = I->o[sc.first]; V x = val(s, R, o); V y = x.t ? tv(mkMul(mkSext(x.t, 64), mkConst(64, (u64)sc.second))) : cv((u64)((u64)(i64)sxt(x.c, o.w) * (u64)sc.second)); acc = bin1(T_ADD, 64, acc, y); }
        R[I->dst] = acc; f->ip++; break;
      }
      case I_ALLOCA: { u128 n; conc(s, val(s, R, I->o[0]), 64, n); RELOAD; u64 a = newObj(s, (u32)(n * (u64)I->off), K_STACK, true); f->allocas.push_back((u32)(a >> 32)); R[I->dst] = cv(a); f->ip++; break; }
      case I_BR: jump(s, *t, I->tgt[0]); break;
      case I_CBR: {
        V c = val(s, R, I->o[0]); bool v;
        if (!c.t) v = c.c & 1; else { bool dead; v = decide(s, c.t, dead); if (dead) { return A_END; } RELOAD; }
        jump(s, *t, I->tgt[v ? 0 : 1]); break;
      }
      case I_SWITCH: {
        u128 x; V v = val(s, R, I->o[0]); int to = I->tgt[0];
        if (v.t) { // decide case by case
          bool found = false, dead = false;
          for (size_t k = 0; k < I->cases.size() && !found; k++) { Term *e = mkEq(v.t, mkConst(I->w2, I->cases[k])); if (decide(s, e, dead)) { to = I->tgt[k + 1]; found = true; } if (dead) return A_END; }
          RELOAD;
        } else { x = v.c; for (size_t k = 0; k < I->cases.size(); k++) if (I->cases[k] == x) { to = I->tgt[k + 1]; break; } }
        jump(s, *t, to); break;
      }
      case I_SELECT: {
        V c = val(s, R, I->o[0]); size_t n = (I->o.size() - 1) / 2;
        if (I->w2 > 1) { unsigned lw = I->w / I->w2; V a = val(s, R, I->o[1]), b = val(s, R, I->o[2]); std::vector<V> l; for (unsigned i = 0; i < I->w2; i++) l.push_back(ite(lane(c, I->w2, 1, i), lane(a, I->w, lw, i), lane(b, I->w, lw, i), lw)); R[I->dst] = fromLanes(l, lw); f->ip++; break; }
        for (size_t k = 0; k < n; k++) R[I->dst + k] = ite(c, val(s, R, I->o[1 + k]), val(s, R, I->o[1 + n + k]), I->o[1 + k].w);
        f->ip++; break;
      }
      case I_ZEXT: { V a = val(s, R, I->o[0]); if (I->lanes == 1) R[I->dst] = a.t ? tv(mkZext(a.t, I->w)) : a; else { unsigned lw = I->w / I->lanes, sw = I->w2 / I->lanes; std::vector<V> l; for (unsigned i = 0; i < I->lanes; i++) { V x = lane(a, I->w2, sw, i); l.push_back(x.t ? tv(mkZext(x.t, lw)) : x); } R[I->dst] = fromLanes(l, lw); } f->ip++; break; }
      case I_SEXT: { V a = val(s, R, I->o[0]); unsigned lw = I->w / I->lanes, sw = I->w2 / I->lanes; std::vector<V> l; for (unsigned i = 0; i < I->lanes; i++) { V x = lane(a, I->w2, sw, i); l.push_back(x.t ? tv(mkSext(x.t, lw)) : cv((u128)sxt(x.c, sw) & maskw(lw))); } R[I->dst] = fromLanes(l, lw); f->ip++; break; }
      case I_TRUNC: { V a = val(s, R, I->o[0]); if (I->lanes == 1) R[I->dst] = a.t ? tv(mkExtract(a.t, I->w - 1, 0)) : cv(a.c & maskw(I->w)); else { unsigned lw = I->w / I->lanes, sw = I->w2 / I->lanes; std::vector<V> l; for (unsigned i = 0; i < I->lanes; i++) { V x = lane(a, I->w2, sw, i); l.push_back(x.t ? tv(mkExtract(x.t, lw - 1, 0)) : cv(x.c & maskw(lw))); } R[I->dst] = fromLanes(l, lw); } f->ip++; break; }
      case I_MOVE: R[I->dst] = val(s, R, I->o[0]); f->ip++; break;
      case I_EXTRACTVAL: { static std::vector<V> tmp; tmp.clear(); for (auto &o : I->o) tmp.push_back(val(s, R, o)); for (size_t k = 0; k < tmp.size(); k++) R[I->dst + k] = tmp[k]; f->ip++; break; }
      case I_EXTRACTELT: { V v = val(s, R, I->o[0]); u128 ix; conc(s, val(s, R, I->o[1]), I->o[1].w, ix); RELOAD; R[I->dst] = lane(v, I->o[0].w, I->w, (unsigned)ix); f->ip++; break; }
      case I_INSERTELT: { V v = val(s, R, I->o[0]), e = val(s, R, I->o[1]); u128 ix; conc(s, val(s, R, I->o[2]), I->o[2].w, ix); RELOAD; unsigned lw = I->w / I->lanes; std::vector<V> l; for (unsigned i = 0; i < I->lanes; i++) l.push_back(i == ix ? e : lane(v, I->w, lw, i)); R[I->dst] = fromLanes(l, lw); f->ip++; break; }
      case I_SHUFFLE: { V a = val(s, R, I->o[0]), b = val(s, R, I->o[1]); std::vector<V> l; unsigned lw = I->w2; for (int m : I->mask) { if (m < 0) l.push_back(cv(0)); else if ((unsigned)m < I->lanes) l.push_back(lane(a, I->o[0].w, lw, (unsigned)m)); else l.push_back(lane(b, I->o[1].w, lw, (unsigned)m - I->lanes)); } R[I->dst] = fromLanes(l, lw); f->ip++; break; }
      case I_RET: {
        static std::vector<V> rv; rv.clear(); for (auto &o : I->o) rv.push_back(val(s, R, o));
        int rs = f->retSlot; Inst *ci = f->call; popFrame(s, *t);
        if (t->fr.empty()) { t->done = true; if (s.cur == 0) return A_END0(s); return scheduleAfter(s); }
        f = &t->fr.back(); R = &t->regs[f->base];
        if (rs >= 0) for (size_t k = 0; k < rv.size(); k++) R[rs + k] = rv[k];
        if (ci && ci->op == I_INVOKE) jump(s, *t, ci->tgt[0]); else if (ci) f->ip++;
        break;
      }
      case I_UNREACH: return fail(s, "unreachable", "execution reached code declared unreachable");
      case I_CALL: case I_INVOKE: {
        FnInfo *fn = I->callee; int bi = I->builtin; size_t na = I->o.size() - (fn ? 0 : 1);
        if (!fn) {
          u128 ad; conc(s, val(s, R, I->o.back()), 64, ad); RELOAD; Obj *o = obj(s, (u64)ad);
          if (!o || o->kind != K_FUNC || (u32)ad) return fail(s, "memory", "call through an invalid function pointer");
          fn = o->fn; bi = fn->builtin;
        }
        args.clear(); for (size_t k = 0; k < na; k++) args.push_back(val(s, R, I->o[k]));
        if (fn->fieldOp >= 0 && fieldMode) { V r; int q = fieldOp(s, fn, *I, r); if (q == 2) return A_END; RELOAD; if (q == 1) { fn->hits++; if (I->dst >= 0) { if (fn->f->getReturnType()->isStructTy()) { R[I->dst] = r.t ? tv(mkExtract(r.t, 63, 0)) : cv((u64)r.c); R[I->dst + 1] = r.t ? tv(mkExtract(r.t, 127, 64)) : cv((u64)(r.c >> 64)); } else R[I->dst] = r; } if (I->op == I_INVOKE) jump(s, *t, I->tgt[0]); else f->ip++; break; } args.clear(); for (size_t k = 0; k < na; k++) args.push_back(val(s, R, I->o[k])); }
        if (bi < 0) {
          if (fn->f->isDeclaration()) { unsup.insert(fn->name); return fail(s, "unsupported", "call to unmodelled function " + fn->dem); }
          if (I->flags & 1) for (auto &c : I->cases) { u64 ai = (u64)(c >> 32), sz = (u64)(c & 0xffffffff); u64 slot = 0; for (u64 q = 0; q < ai; q++) slot += I->argn[q]; u64 na2 = newObj(s, (u32)sz, K_STACK, true); std::string err; u128 sa; conc(s, args[slot], 64, sa); if (!copyMem(s, na2, (u64)sa, sz, err)) return fail(s, "memory", err); args[slot] = cv(na2); }
          RELOAD;
          if (t->fr.size() > 2000) return fail(s, "hang", "call depth exceeds 2000");
          pushFrame(s, *t, fn, args, I->dst, I); f = &t->fr.back(); R = &t->regs[f->base]; break;
        }
        V r{nullptr, 0}; Act a = builtin(s, bi, fn, *I, r);
        if (a == A_END) return A_END;
        if (a == A_JUMP) { if (s.th[s.cur].fr.empty()) return A_END; if (!s.th[s.cur].block) { RELOAD; break; } return A_JUMP; }
        RELOAD;
        if (I->dst >= 0 && !I->leaves.empty()) { if (!multi.empty()) { for (size_t k = 0; k < multi.size(); k++) R[I->dst + k] = multi[k]; multi.clear(); } else R[I->dst] = r; }
        if (I->op == I_INVOKE) jump(s, *t, I->tgt[0]); else f->ip++;
        break;
      }
      case I_LANDING: R[I->dst] = cv(t->cur.obj); R[I->dst + 1] = cv(t->caughtSel); f->ip++; break;
      case I_RESUME: { Inst *ci = nullptr; ci = f->call; popFrame(s, *t); if (t->fr.empty()) { violation(s, "exception", "uncaught exception " + excDesc(s, t->cur), s.ms, s.modelOk); pathsErr++; return A_END; } Act a = unwind(s, ci); if (a == A_END) return a; RELOAD; break; }
      case I_CMPXCHG: {
        u128 ad; conc(s, val(s, R, I->o[0]), 64, ad); RELOAD; Obj *o; u32 off; std::string err; unsigned nb = I->w2 / 8;
        if (!access(s, (u64)ad, nb, true, o, off, err)) return fail(s, "memory", err);
        V old = loadBytes(s, (u64)ad, o, off, nb); u128 a, b; conc(s, old, I->w2, a); conc(s, val(s, R, I->o[1]), I->w2, b); RELOAD;
        o = objW(s, (u64)ad); if (a == b) storeBytes(o, off, nb, val(s, R, I->o[2])); R[I->dst] = cv(a); R[I->dst + 1] = cv(a == b); f->ip++; break;
      }
      case I_RMW: {
        u128 ad; conc(s, val(s, R, I->o[0]), 64, ad); RELOAD; Obj *o; u32 off; std::string err; unsigned nb = I->w / 8;
        if (!access(s, (u64)ad, nb, true, o, off, err)) return fail(s, "memory", err);
        V old = loadBytes(s, (u64)ad, o, off, nb), x = val(s, R, I->o[1]), nv;
        switch (I->sub) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = bin1(T_ADD, I->w, old, x); break; case AtomicRMWInst::Sub: nv = bin1(T_SUB, I->w, old, x); break; case AtomicRMWInst::Or: nv = bin1(T_OR, I->w, old, x); break; case AtomicRMWInst::And: nv = bin1(T_AND, I->w, old, x); break; default: return fail(s, "unsupported", "atomicrmw"); }
        o = objW(s, (u64)ad); storeBytes(o, off, nb, nv); R[I->dst] = old; f->ip++; break;
      }
      case I_FBIN: { u128 a, b; conc(s, val(s, R, I->o[0]), I->w, a); conc(s, val(s, R, I->o[1]), I->w, b); RELOAD; double x, y, z = 0; if (I->w == 64) { memcpy(&x, &a, 8); memcpy(&y, &b, 8); } else { float q; memcpy(&q, &a, 4); x = q; memcpy(&q, &b, 4); y = q; }
        switch (I->sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; case 255: z = -x; break; }
        u128 r = 0; if (I->w == 64) memcpy(&r, &z, 8); else { float q = (float)z; memcpy(&r, &q, 4); } R[I->dst] = cv(r); f->ip++; break; }
      case I_FCMP: { u128 a, b; conc(s, val(s, R, I->o[0]), I->w2, a); conc(s, val(s, R, I->o[1]), I->w2, b); RELOAD; double x, y; if (I->w2 == 64) { memcpy(&x, &a, 8); memcpy(&y, &b, 8); } else { float q; memcpy(&q, &a, 4); x = q; memcpy(&q, &b, 4); y = q; }
        bool un = x != x || y != y, r = false; unsigned p = I->sub; if (un) r = p & 8; else r = (x == y && (p & 1)) || (x > y && (p & 2)) || (x < y && (p & 4)); R[I->dst] = cv(r); f->ip++; break; }
      case I_FCAST: { u128 a; conc(s, val(s, R, I->o[0]), I->w2, a); RELOAD; u128 r = 0; double x; auto ld = [&] { if (I->w2 == 64) memcpy(&x, &a, 8); else { float q; memcpy(&q, &a, 4); x = q; } }; auto st = [&] { if (I->w == 64) memcpy(&r, &x, 8); else { float q = (float)x; memcpy(&r, &q, 4); } };
        switch (I->sub) { case Instruction::UIToFP: x = (double)a; st(); break; case Instruction::SIToFP: x = (double)sxt(a, I->w2); st(); break; case Instruction::FPToUI: ld(); r = (u128)x & maskw(I->w); break; case Instruction::FPToSI: ld(); r = (u128)(i128)x & maskw(I->w); break; case Instruction::FPExt: case Instruction::FPTrunc: ld(); st(); break; default: return fail(s, "unsupported", "cast"); }
        R[I->dst] = cv(r); f->ip++; break; }
      default: { std::string q; raw_string_ostream os(q); if (I->src) I->src->print(os); return fail(s, "unsupported", "instruction " + os.str()); }
    }
  }
}
std::vector<V> args, multi;
Act A_END0(State &s) { // main finished
  paths++; maxPathInstrs = std::max(maxPathInstrs, s.instrs);
  if (pathSamples.size() < maxSamples && s.modelOk) {
    std::string j = "{\"model\":{"; bool first = true; for (auto &e : dumpModel(s, *s.ms)) { if (!first) j += ","; first = false; j += "\"" + jesc(e.first) + "\":\"" + e.second + "\""; }
    j += "},\"sched\":["; first = true; for (int k : s.sched) { if (!first) j += ","; first = false; j += std::to_string(k); }
    j += "],\"obs\":["; first = true; for (auto &o : s.obs) { if (!first) j += ","; first = false; j += "[\"" + jesc(o.first) + "\",\"" + hex128(s.ms->ev.ev(o.second)) + "\"]"; }
    j += "],\"constraints\":" + std::to_string(s.pc.size()) + ",\"instructions\":" + std::to_string(s.instrs) + "}"; pathSamples.push_back(j);
  }
  return A_END;
}
Act scheduleAfter(State &s) { s.th[s.cur].block = 0; return schedule(s, true); }
