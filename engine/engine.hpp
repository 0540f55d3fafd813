#pragma once
#include "exec.hpp"
#include <llvm/IR/Instructions.h>
using namespace llvm;

static std::string jesc(const std::string &s) { std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }

struct Engine {
  Module *M; const DataLayout *DL; Solver S;
  std::vector<std::unique_ptr<FnInfo>> fns; std::unordered_map<const Function *, FnInfo *> fnMap; std::unordered_map<const GlobalValue *, u64> gaddr;
  std::map<std::string, i64> params; bool fieldMode = true;
  std::vector<State *> work; std::vector<Violation> viols; std::map<std::string, u64> reach; std::map<std::string, u64> violCount; std::vector<std::string> notes; std::set<std::string> noteSet;
  u64 paths = 0, pathsAssumed = 0, pathsErr = 0, totInstrs = 0, asserts = 0, assertTrivial = 0, assertSolver = 0, assertUnknown = 0, forks = 0, dedup = 0, branchUnknown = 0, incomplete = 0;
  u64 lastQ = 0, maxPathInstrs = 0; u64 maxInstrs = 400000000ull; double deadline = 1e18; int preemptBound = 1000; u32 delays = 0; u64 maxPaths = 1u << 30; int maxViolPerMsg = 2, maxViol = 12; int concLimit = 300; unsigned qTimeout = 60000, brTimeout = 20000;
  std::vector<std::string> pathSamples; u64 maxSamples = 3; std::unordered_map<std::string, Term *> varByName; u64 stateIds = 0;
  std::unordered_set<u64> seenStates; bool dedupe = false; double t0 = now_s(); std::set<std::string> unsup;
  std::map<std::string, std::pair<u64,u64>> assertStats; // msg -> (checked, proved by solver)

  void note(const std::string &s) { if (noteSet.insert(s).second) notes.push_back(s); }

  // ------------------------------------------------------------ types
  void leavesOf(Type *t, unsigned off, std::vector<Leaf> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + (unsigned)sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { unsigned es = (unsigned)DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + (unsigned)i * es, out); return; }
    if (t->isVoidTy()) return;
    unsigned w = (unsigned)DL->getTypeSizeInBits(t); out.push_back({w, off, (w + 7) / 8});
  }
  std::vector<Leaf> leaves(Type *t) { std::vector<Leaf> v; leavesOf(t, 0, v); return v; }
  unsigned bits(Type *t) { return (unsigned)DL->getTypeSizeInBits(t); }
  static unsigned lanesOf(Type *t) { if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements(); return 1; }

  // ------------------------------------------------------------ constants
  u64 addrOf(const GlobalValue *g) {
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    if (auto *a = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
    fprintf(stderr, "unknown global %s\n", g->getName().str().c_str()); abort();
  }
  u128 constInt(const Constant *c) { // scalar / vector constants flattened
    if (auto *ci = dyn_cast<ConstantInt>(c)) { const APInt &v = ci->getValue(); u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; return r & maskw(v.getBitWidth()); }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); return v.getRawData()[0]; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *g = dyn_cast<GlobalValue>(c)) return addrOf(g);
    if (auto *cd = dyn_cast<ConstantDataVector>(c)) { u128 r = 0; unsigned ew = bits(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) r |= constInt(cd->getElementAsConstant(i)) << (i * ew); return r; }
    if (auto *cvv = dyn_cast<ConstantVector>(c)) { u128 r = 0; unsigned ew = bits(cvv->getType()->getElementType()); for (unsigned i = 0; i < cvv->getNumOperands(); i++) r |= constInt(cvv->getOperand(i)) << (i * ew); return r; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) break; return (u64)(constInt(ce->getOperand(0)) + off.getSExtValue()); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constInt(ce->getOperand(0)) & maskw(bits(ce->getType()));
        case Instruction::Trunc: return constInt(ce->getOperand(0)) & maskw(bits(ce->getType()));
        case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(bits(ce->getType()));
        case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(bits(ce->getType()));
        case Instruction::Mul: return (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & maskw(bits(ce->getType()));
        case Instruction::Xor: return (constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1))) & maskw(bits(ce->getType()));
        case Instruction::Select: return constInt(constInt(ce->getOperand(0)) ? ce->getOperand(1) : ce->getOperand(2));
        case Instruction::ICmp: { auto p = (CmpInst::Predicate)ce->getPredicate(); u128 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; if (p == CmpInst::ICMP_ULT) return a < b; if (p == CmpInst::ICMP_UGT) return a > b; break; }
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); abort();
  }
  void initBytes(u8 *dst, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(dst, r.data(), r.size()); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(dst + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { unsigned es = (unsigned)DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(dst + (u64)i * es, ca->getOperand(i)); return; }
    u128 v = constInt(c); unsigned n = (bits(t) + 7) / 8; memcpy(dst, &v, n);
  }

  // ------------------------------------------------------------ decoding
  FnInfo *fnInfo(const Function *f) { auto it = fnMap.find(f); if (it != fnMap.end()) return it->second; abort(); }
  struct DecCtx { FnInfo *fi; std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bid; };
  std::vector<Opd> opds(DecCtx &d, const Value *v) { // flattened operands
    std::vector<Leaf> ls = leaves(v->getType()); std::vector<Opd> r(ls.size());
    for (size_t i = 0; i < ls.size(); i++) r[i].w = ls[i].w;
    auto it = d.slot.find(v);
    if (it != d.slot.end()) { for (size_t i = 0; i < r.size(); i++) r[i].slot = it->second + (int)i; return r; }
    if (auto *c = dyn_cast<Constant>(v)) {
      if (v->getType()->isAggregateType()) { std::vector<u8> buf(DL->getTypeAllocSize(v->getType()) + 16); initBytes(buf.data(), c); for (size_t i = 0; i < r.size(); i++) { u128 x = 0; memcpy(&x, buf.data() + ls[i].off, ls[i].bytes); r[i].k = cv(x & maskw(ls[i].w)); } return r; }
      if (r.size()) { r[0].k = cv(constInt(c)); if (isa<UndefValue>(c) && !isa<PoisonValue>(c) && !v->getType()->isVectorTy()) r[0].undef = true; }
      return r;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { r.clear(); return r; }
    fprintf(stderr, "operand?\n"); abort();
  }
  Opd opd(DecCtx &d, const Value *v) { auto r = opds(d, v); return r.empty() ? Opd() : r[0]; }
  void decode(FnInfo *fi) {
    Function *f = fi->f; fi->decoded = true; DecCtx d; d.fi = fi;
    int ns = 0;
    for (auto &a : f->args()) { int k = (int)leaves(a.getType()).size(); d.slot[&a] = ns; fi->argSlot.push_back(ns); fi->argSlots.push_back(k); ns += k; }
    fi->nargs = ns;
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) { int k = (int)leaves(i.getType()).size(); d.slot[&i] = ns; ns += k; }
    fi->nslots = ns;
    int nb = 0; for (auto &bb : *f) d.bid[&bb] = nb++;
    fi->bb.resize(nb);
    for (auto &bb : *f) {
      Block &B = fi->bb[d.bid[&bb]];
      // phis
      std::vector<const BasicBlock *> preds;
      if (isa<PHINode>(bb.front())) {
        const PHINode &p0 = cast<PHINode>(bb.front());
        for (unsigned i = 0; i < p0.getNumIncomingValues(); i++) { bool dup = false; for (auto *x : preds) if (x == p0.getIncomingBlock(i)) dup = true; if (!dup) preds.push_back(p0.getIncomingBlock(i)); }
        for (auto *p : preds) { B.predIds.push_back(d.bid[p]); B.phiFrom.emplace_back(); }
        for (auto &phi : bb.phis()) {
          int k = (int)leaves(phi.getType()).size(); for (int j = 0; j < k; j++) B.phiDst.push_back(d.slot[&phi] + j);
          for (size_t pi = 0; pi < preds.size(); pi++) for (auto &o : opds(d, phi.getIncomingValueForBlock(preds[pi]))) B.phiFrom[pi].push_back(o);
        }
      }
      for (auto &i : bb) { if (isa<PHINode>(i)) continue; Inst x; if (!decodeInst(d, i, x)) continue; x.src = &i; B.in.push_back(std::move(x)); }
    }
    fi->retw.clear(); for (auto &l : leaves(f->getReturnType())) fi->retw.push_back(l.w);
  }
  bool decodeInst(DecCtx &d, Instruction &i, Inst &x) {
    if (!i.getType()->isVoidTy()) { x.dst = d.slot[&i]; }
    Type *ty = i.getType(); if (!ty->isVoidTy() && !ty->isAggregateType()) x.w = bits(ty);
    x.lanes = lanesOf(ty);
    if (auto *b = dyn_cast<BinaryOperator>(&i)) {
      x.o = {opd(d, b->getOperand(0)), opd(d, b->getOperand(1))};
      if (ty->isFPOrFPVectorTy()) { x.op = I_FBIN; x.sub = (u8)b->getOpcode(); return true; }
      x.op = I_BIN;
      switch (b->getOpcode()) {
        case Instruction::Add: x.sub = T_ADD; break; case Instruction::Sub: x.sub = T_SUB; break; case Instruction::Mul: x.sub = T_MUL; break;
        case Instruction::UDiv: x.sub = T_UDIV; break; case Instruction::SDiv: x.sub = T_SDIV; break; case Instruction::URem: x.sub = T_UREM; break; case Instruction::SRem: x.sub = T_SREM; break;
        case Instruction::Shl: x.sub = T_SHL; break; case Instruction::LShr: x.sub = T_LSHR; break; case Instruction::AShr: x.sub = T_ASHR; break;
        case Instruction::And: x.sub = T_AND; x.lanes = 1; break; case Instruction::Or: x.sub = T_OR; x.lanes = 1; break; case Instruction::Xor: x.sub = T_XOR; x.lanes = 1; break;
        default: x.op = I_UNSUP;
      }
      return true;
    }
    if (auto *u = dyn_cast<UnaryOperator>(&i)) { x.o = {opd(d, u->getOperand(0)), opd(d, u->getOperand(0))}; x.op = I_FBIN; x.sub = 255; return true; }
    if (auto *c = dyn_cast<ICmpInst>(&i)) { x.op = I_CMP; x.o = {opd(d, c->getOperand(0)), opd(d, c->getOperand(1))}; x.sub = (u8)c->getPredicate(); x.w2 = bits(c->getOperand(0)->getType()); return true; }
    if (auto *c = dyn_cast<FCmpInst>(&i)) { x.op = I_FCMP; x.o = {opd(d, c->getOperand(0)), opd(d, c->getOperand(1))}; x.sub = (u8)c->getPredicate(); x.w2 = bits(c->getOperand(0)->getType()); return true; }
    if (auto *l = dyn_cast<LoadInst>(&i)) { x.op = I_LOAD; x.o = {opd(d, l->getPointerOperand())}; x.leaves = leaves(ty); return true; }
    if (auto *s = dyn_cast<StoreInst>(&i)) { x.op = I_STORE; x.o = {opd(d, s->getPointerOperand())}; for (auto &o : opds(d, s->getValueOperand())) x.o.push_back(o); x.leaves = leaves(s->getValueOperand()->getType()); return true; }
    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
      x.op = I_GEP; x.o = {opd(d, g->getPointerOperand())}; i64 off = 0;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value *idx = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) { off += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
        i64 es = (i64)DL->getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * es; continue; }
        x.scale.push_back({(int)x.o.size(), es}); x.o.push_back(opd(d, idx));
      }
      x.off = off; return true;
    }
    if (auto *a = dyn_cast<AllocaInst>(&i)) { x.op = I_ALLOCA; x.off = (i64)DL->getTypeAllocSize(a->getAllocatedType()); x.o = {opd(d, a->getArraySize())}; return true; }
    if (auto *b = dyn_cast<BranchInst>(&i)) { if (b->isUnconditional()) { x.op = I_BR; x.tgt = {d.bid[b->getSuccessor(0)]}; } else { x.op = I_CBR; x.o = {opd(d, b->getCondition())}; x.tgt = {d.bid[b->getSuccessor(0)], d.bid[b->getSuccessor(1)]}; } return true; }
    if (auto *s = dyn_cast<SwitchInst>(&i)) { x.op = I_SWITCH; x.o = {opd(d, s->getCondition())}; x.w2 = bits(s->getCondition()->getType()); x.tgt.push_back(d.bid[s->getDefaultDest()]); for (auto &c : s->cases()) { x.cases.push_back(constInt(c.getCaseValue())); x.tgt.push_back(d.bid[c.getCaseSuccessor()]); } return true; }
    if (auto *r = dyn_cast<ReturnInst>(&i)) { x.op = I_RET; if (r->getReturnValue()) x.o = opds(d, r->getReturnValue()); return true; }
    if (isa<UnreachableInst>(i)) { x.op = I_UNREACH; return true; }
    if (auto *cb = dyn_cast<CallBase>(&i)) return decodeCall(d, *cb, x);
    if (auto *lp = dyn_cast<LandingPadInst>(&i)) { x.op = I_LANDING; x.cleanup = lp->isCleanup(); for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { Constant *c = lp->getClause(k); x.clauses.push_back({(u64)constInt(c), 0}); } return true; }
    if (auto *r = dyn_cast<ResumeInst>(&i)) { x.op = I_RESUME; x.o = opds(d, r->getValue()); return true; }
    if (auto *s = dyn_cast<SelectInst>(&i)) { x.op = I_SELECT; x.o = {opd(d, s->getCondition())}; x.w2 = bits(s->getCondition()->getType()); for (auto &o : opds(d, s->getTrueValue())) x.o.push_back(o); for (auto &o : opds(d, s->getFalseValue())) x.o.push_back(o); return true; }
    if (auto *c = dyn_cast<CastInst>(&i)) {
      x.o = {opd(d, c->getOperand(0))}; Type *st = c->getOperand(0)->getType(); x.w2 = bits(st);
      switch (c->getOpcode()) {
        case Instruction::ZExt: x.op = I_ZEXT; break; case Instruction::SExt: x.op = I_SEXT; break; case Instruction::Trunc: x.op = I_TRUNC; break;
        case Instruction::BitCast: x.op = I_MOVE; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w == x.w2 ? I_MOVE : x.w < x.w2 ? I_TRUNC : I_ZEXT; break;
        default: x.op = I_FCAST; x.sub = (u8)c->getOpcode();
      }
      return true;
    }
    if (auto *f = dyn_cast<FreezeInst>(&i)) { x.op = I_MOVE; x.o = opds(d, f->getOperand(0)); if (ty->isAggregateType()) x.op = I_UNSUP; return true; }
    if (auto *e = dyn_cast<ExtractValueInst>(&i)) { x.op = I_EXTRACTVAL; auto all = opds(d, e->getAggregateOperand()); auto [off, n] = aggRange(e->getAggregateOperand()->getType(), e->getIndices()); x.o.assign(all.begin() + off, all.begin() + off + n); return true; }
    if (auto *e = dyn_cast<InsertValueInst>(&i)) { x.op = I_EXTRACTVAL; auto all = opds(d, e->getAggregateOperand()); auto ins = opds(d, e->getInsertedValueOperand()); auto [off, n] = aggRange(e->getAggregateOperand()->getType(), e->getIndices()); for (int k = 0; k < n; k++) all[off + k] = ins[k]; x.o = all; return true; }
    if (auto *e = dyn_cast<ExtractElementInst>(&i)) { x.op = I_EXTRACTELT; x.o = {opd(d, e->getVectorOperand()), opd(d, e->getIndexOperand())}; x.lanes = lanesOf(e->getVectorOperand()->getType()); return true; }
    if (auto *e = dyn_cast<InsertElementInst>(&i)) { x.op = I_INSERTELT; x.o = {opd(d, e->getOperand(0)), opd(d, e->getOperand(1)), opd(d, e->getOperand(2))}; return true; }
    if (auto *s = dyn_cast<ShuffleVectorInst>(&i)) { x.op = I_SHUFFLE; x.o = {opd(d, s->getOperand(0)), opd(d, s->getOperand(1))}; for (int m : s->getShuffleMask()) x.mask.push_back(m); x.w2 = bits(cast<VectorType>(ty)->getElementType()); x.lanes = lanesOf(s->getOperand(0)->getType()); return true; }
    if (isa<FenceInst>(i)) return false;
    if (auto *a = dyn_cast<AtomicCmpXchgInst>(&i)) { x.op = I_CMPXCHG; x.o = {opd(d, a->getPointerOperand()), opd(d, a->getCompareOperand()), opd(d, a->getNewValOperand())}; x.w2 = bits(a->getCompareOperand()->getType()); return true; }
    if (auto *a = dyn_cast<AtomicRMWInst>(&i)) { x.op = I_RMW; x.o = {opd(d, a->getPointerOperand()), opd(d, a->getValOperand())}; x.sub = (u8)a->getOperation(); return true; }
    x.op = I_UNSUP; return true;
  }
  std::pair<int, int> aggRange(Type *t, ArrayRef<unsigned> idx) {
    int off = 0;
    for (unsigned k : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) off += (int)leaves(st->getElementType(i)).size(); t = st->getElementType(k); }
      else { auto *at = cast<ArrayType>(t); off += (int)(k * leaves(at->getElementType()).size()); t = at->getElementType(); }
    }
    return {off, (int)leaves(t).size()};
  }
  static bool ignored(StringRef n) { return n.starts_with("llvm.dbg.") || n.starts_with("llvm.lifetime.") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n == "llvm.donothing" || n.starts_with("llvm.assume") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.var.annotation"); }
  std::unordered_map<std::string, int> biIndex;
  bool decodeCall(DecCtx &d, CallBase &cb, Inst &x) {
    x.op = isa<InvokeInst>(cb) ? I_INVOKE : I_CALL;
    if (auto *iv = dyn_cast<InvokeInst>(&cb)) x.tgt = {d.bid[iv->getNormalDest()], d.bid[iv->getUnwindDest()]};
    if (cb.isInlineAsm()) { if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty() && cb.getType()->isVoidTy()) return false; x.op = I_UNSUP; return true; }
    Function *f = cb.getCalledFunction();
    if (!f) if (auto *ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    if (f && ignored(f->getName())) return false;
    x.leaves = leaves(cb.getType()); x.w2 = x.leaves.empty() ? 0 : x.leaves[0].w;
    for (auto &a : cb.args()) { auto os = opds(d, a.get()); int n = 0; unsigned fw = 0; for (auto &o : os) { x.o.push_back(o); n++; fw = o.w; } x.argn.push_back(n); x.argw.push_back((int)fw); }
    // byval arguments
    for (unsigned k = 0; k < cb.arg_size(); k++) if (cb.isByValArgument(k)) { x.flags |= 1; x.cases.push_back(((u128)k << 32) | DL->getTypeAllocSize(cb.getParamByValType(k))); }
    if (f) {
      FnInfo *fi = fnInfo(f); x.callee = fi; x.builtin = fi->builtin;
    } else x.o.push_back(opd(d, cb.getCalledOperand())); // callee pointer last
    return true;
  }

  // ------------------------------------------------------------ state helpers
  V fresh(const std::string &name, unsigned w) { return tv(namedVar(name, w)); }
  Term *namedVar(const std::string &name, unsigned w) { std::string k = name + ":" + std::to_string(w); auto it = varByName.find(k); if (it != varByName.end()) return it->second; Term *t = mkVar(name, w); varByName[k] = t; return t; }
  u64 anon = 0;
  State *fork(State &s) { forks++; State *n = new State(s); n->id = ++stateIds; return n; }
  u64 newObj(State &s, u32 size, u8 kind, bool uninit, u8 alloc = 0) { Obj *o = Obj::make(size, kind, uninit); o->alloc = alloc; u32 tid = kind == K_GLOBAL || kind == K_CONST || kind == K_FUNC ? 0 : (u32)s.cur; u32 i = s.mem[tid].add(o); if (i >> TIDSHIFT) { fprintf(stderr, "object limit reached\n"); _Exit(4); } return ((u64)((tid << TIDSHIFT) | i)) << 32; }
  Obj *obj(State &s, u64 addr) { u32 id = (u32)(addr >> 32); u32 tid = id >> TIDSHIFT; if (tid >= s.mem.size()) return nullptr; return s.mem[tid].get(id & ((1u << TIDSHIFT) - 1)); }
  Obj *objW(State &s, u64 addr) { u32 id = (u32)(addr >> 32); return s.mem[id >> TIDSHIFT].wr(id & ((1u << TIDSHIFT) - 1)); }
  void killObj(State &s, u64 addr) { u32 id = (u32)(addr >> 32); s.mem[id >> TIDSHIFT].kill(id & ((1u << TIDSHIFT) - 1)); }

  // model
  static u128 defVal(u32 v) { std::mt19937_64 g(0x5eed * 1000003ull + v); g(); u128 r = ((u128)g() << 64) | g(); return r; }
  std::shared_ptr<MState> newMS(const Model &m) { auto p = std::make_shared<MState>(m); p->ev.missing = [](u32 v, unsigned) { return defVal(v); }; return p; }
  std::unordered_map<u32, std::shared_ptr<std::vector<u32>>> varSets;
  std::shared_ptr<std::vector<u32>> varSet(Term *t) {
    auto it = varSets.find(t->id); if (it != varSets.end()) return it->second;
    std::vector<Term *> vs; S.varsOf({t}, vs); auto r = std::make_shared<std::vector<u32>>(); for (auto *v : vs) r->push_back(v->aux); std::sort(r->begin(), r->end()); r->erase(std::unique(r->begin(), r->end()), r->end());
    return varSets[t->id] = r;
  }
  std::vector<Term *> slice(State &s, Term *c) {
    std::set<u32> vs(varSet(c)->begin(), varSet(c)->end()); std::vector<Term *> out; std::vector<char> used(s.pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { auto v = varSet(s.pc[i]); bool hit = false; for (u32 x : *v) if (vs.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; vs.insert(v->begin(), v->end()); } } }
    for (size_t i = 0; i < s.pc.size(); i++) if (used[i]) out.push_back(s.pc[i]);
    return out;
  }
  struct QRes { R r; std::shared_ptr<Model> m; bool good; };
  std::map<std::vector<u32>, QRes> qcache;
  // is pc && c satisfiable?  On SAT with a verified model, ms receives it.
  R feasible(State &s, Term *c, std::shared_ptr<MState> *out, bool *good, unsigned timeout, const char *why) {
    if (good) *good = false;
    if (isC(c)) { if (!c->c) return UNSAT; if (out) *out = s.ms; if (good) *good = s.modelOk; return SAT; }
    std::vector<Term *> q = slice(s, c); q.push_back(c);
    std::vector<u32> key; for (auto *t : q) key.push_back(t->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if (it == qcache.end()) {
      QRes r; r.m = std::make_shared<Model>(); r.good = false;
      r.r = S.check(q, timeout, r.m.get(), false, why);
      if (r.r == UNKNOWN && S.lastAbstract) r.r = S.check(q, timeout, r.m.get(), true, why);
      if (r.r != UNSAT) {
        Model full = s.ms->m; for (auto &e : r.m->v) full.v[e.first] = e.second;
        std::vector<Term *> vars; S.varsOf(q, vars); for (auto *v : vars) if (!full.v.count(v->aux)) full.v[v->aux] = defVal(v->aux) & maskw(v->w);
        bool ok = r.r == SAT && S.concretise(q, full, 200);
        if (!ok) { // try to pick values directly
          Model alt = s.ms->m; for (auto *v : vars) if (!alt.v.count(v->aux)) alt.v[v->aux] = defVal(v->aux) & maskw(v->w);
          if (S.concretise(q, alt, r.r == SAT ? 300 : 600)) { full = alt; ok = true; r.r = SAT; }
        }
        if (!ok && r.r == SAT && S.lastAbstract) { Model ex; R rr = S.check(q, timeout, &ex, true, why); if (rr == UNSAT) r.r = UNSAT; else if (rr == SAT) { full = s.ms->m; for (auto &e : ex.v) full.v[e.first] = e.second; for (auto *v : vars) if (!full.v.count(v->aux)) full.v[v->aux] = defVal(v->aux) & maskw(v->w); ok = S.concretise(q, full, 50); } }
        if (ok) { r.good = true; r.m->v.clear(); for (auto *v : vars) r.m->v[v->aux] = full.v[v->aux]; }
      }
      it = qcache.emplace(key, r).first;
    }
    QRes &r = it->second;
    if (r.r != UNSAT && out) { Model full = s.ms->m; for (auto &e : r.m->v) full.v[e.first] = e.second; *out = newMS(full); if (good) *good = r.good && s.modelOk; }
    return r.r;
  }
  bool inPc(State &s, Term *c) { for (size_t i = s.pc.size(); i-- > 0;) if (s.pc[i] == c) return true; return false; }
  void addPc(State &s, Term *c) { if (isC(c)) return; std::vector<Term *> l; Solver::flat(c, l); for (auto *t : l) if (!isC(t) && !inPc(s, t)) s.pc.push_back(t); }
  bool evalB(State &s, Term *c) { return s.ms->ev.ev(c) != 0; }

  // decide a branch condition; pushes a forked state for the other side
  bool decide(State &s, Term *c, bool &dead) {
    dead = false;
    if (isC(c)) return c->c != 0;
    if (inPc(s, c)) return true; Term *nc = mkNot(c); if (inPc(s, nc)) return false;
    if (s.modelOk) {
      bool v = evalB(s, c); Term *other = v ? nc : c;
      std::shared_ptr<MState> ms; bool good;
      R r = feasible(s, other, &ms, &good, brTimeout, "branch");
      if (r == UNKNOWN) { branchUnknown++; if (!good) { note("a branch could not be decided within the solver limit; its other side was not explored"); incomplete++; r = UNSAT; } }
      if (r != UNSAT) { State *n = fork(s); addPc(*n, other); n->ms = ms; n->modelOk = good; n->depth++; work.push_back(n); s.depth++; addPc(s, v ? c : nc); }
      else addPc(s, v ? c : nc), s.pc.size();
      return v;
    }
    std::shared_ptr<MState> m1, m0; bool g1, g0; R r1 = feasible(s, c, &m1, &g1, brTimeout, "branch1"); R r0 = feasible(s, nc, &m0, &g0, brTimeout, "branch0");
    if (r1 == UNSAT && r0 == UNSAT) { dead = true; return false; }
    if (r1 == UNSAT) { addPc(s, nc); if (g0) { s.ms = m0; } return false; }
    if (r0 == UNSAT) { addPc(s, c); return true; }
    State *n = fork(s); addPc(*n, nc); n->ms = m0; n->modelOk = g0; work.push_back(n);
    addPc(s, c); s.ms = m1; s.modelOk = g1; return true;
  }
  // concretise a value, forking over the alternatives
  bool conc(State &s, const V &v, unsigned w, u128 &out) {
    if (!v.t) { out = v.c; return true; }
    u128 x = s.ms->ev.ev(v.t); Term *eq = mkEq(v.t, mkConst(w, x));
    if (isC(eq)) { out = x; return true; }
    if (inPc(s, eq)) { out = x; return true; }
    std::shared_ptr<MState> ms; bool good; Term *ne = mkNot(eq);
    R r = feasible(s, ne, &ms, &good, brTimeout, "conc");
    if (r == SAT) {
      if (++concCount[curSite(s)] > (u64)concLimit * (paths + 1)) { note("concretisation limit reached"); incomplete++; }
      else { State *n = fork(s); addPc(*n, ne); n->ms = ms; n->modelOk = good; work.push_back(n); }
    } else if (r == UNKNOWN) { incomplete++; note("a value could not be enumerated within the solver limit"); }
    addPc(s, eq); out = x; return true;
  }
  std::map<const void *, u64> concCount;
  const void *curSite(State &s) { auto &f = s.th[s.cur].fr.back(); return &f.fn->bb[f.bb].in[f.ip]; }

  std::string where(State &s) { std::string r; auto &t = s.th[s.cur]; int n = 0; for (size_t i = t.fr.size(); i-- > 0 && n < 12; n++) { if (n) r += " < "; std::string d = t.fr[i].fn->dem; if (d.size() > 160) d = d.substr(0, 160) + "..."; r += d; } return r; }
  std::vector<std::pair<std::string, std::string>> dumpModel(State &s, MState &ms) { std::vector<std::pair<std::string, std::string>> r; for (auto &d : s.syms) r.push_back({d.name, hex128(ms.ev.ev(d.t))}); return r; }
  std::vector<std::string> schedStr(State &s) { std::vector<std::string> r; for (int k : s.sched) r.push_back(std::to_string(k)); return r; }
  void violation(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<MState> ms, bool good) {
    std::string key = kind + ":" + msg; u64 &c = violCount[key]; c++;
    if (c > (u64)maxViolPerMsg) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where(s); v.modelOk = good; v.model = dumpModel(s, *ms); v.sched = schedStr(s); v.t = now_s() - t0; for (auto &x : s.trace) v.trace += x + "; ";
    viols.push_back(v);
    fprintf(stderr, "[violation] %s: %s (model %s)\n   at %s\n", kind.c_str(), msg.c_str(), good ? "ok" : "NOT VERIFIED", v.where.c_str());
  }
  enum Act { A_NEXT, A_JUMP, A_END };
  Act fail(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg, s.ms, s.modelOk); pathsErr++; return A_END; }

  // ------------------------------------------------------------ memory access
  bool access(State &s, u64 addr, u64 n, bool write, Obj *&o, u32 &off, std::string &err) {
    o = obj(s, addr); off = (u32)addr;
    if (!o) { err = (addr >> 32) == 0 ? "null pointer access" : "access through a wild pointer"; return false; }
    if (o->dead) { err = "use of freed memory"; return false; }
    if (o->kind == K_FUNC) { err = "data access to a function"; return false; }
    if ((u64)off + n > o->size) { err = std::string(write ? "write" : "read") + " outside an object (offset " + std::to_string((int)off) + " size " + std::to_string(n) + " of " + std::to_string(o->size) + " bytes)"; return false; }
    if (write) { if (o->kind == K_CONST) { err = "write to constant memory"; return false; } o = objW(s, addr); }
    return true;
  }
  V loadBytes(State &s, u64 addr, Obj *o, u32 off, unsigned n) {
    u8 any = 0; for (unsigned i = 0; i < n; i++) any |= o->st[off + i];
    if (!any) { u128 v = 0; memcpy(&v, o->b + off, n); return cv(v); }
    if (any & 2) { // materialise uninitialised bytes
      o = objW(s, addr);
      for (unsigned i = 0; i < n;) { if (o->st[off + i] != 2) { i++; continue; } unsigned j = i; while (j < n && o->st[off + j] == 2) j++; Term *t = mkVar("uninit" + std::to_string(anon++), 8 * (j - i)); if (!o->sy) o->sy = (SymB *)calloc(o->size, sizeof(SymB)); for (unsigned k = i; k < j; k++) { o->st[off + k] = 1; o->sy[off + k] = {t, k - i}; } i = j; }
    }
    Term *r = nullptr;
    for (unsigned i = 0; i < n;) {
      if (o->st[off + i] == 0) { unsigned j = i; u128 v = 0; while (j < n && o->st[off + j] == 0) { v |= (u128)o->b[off + j] << (8 * (j - i)); j++; } Term *t = mkConst(8 * (j - i), v); r = r ? mkConcat(t, r) : t; i = j; }
      else { SymB sb = o->sy[off + i]; unsigned j = i + 1; while (j < n && o->st[off + j] == 1 && o->sy[off + j].t == sb.t && o->sy[off + j].k == sb.k + (j - i)) j++; Term *t = mkExtract(sb.t, 8 * (sb.k + j - i) - 1, 8 * sb.k); r = r ? mkConcat(t, r) : t; i = j; }
    }
    return tv(r);
  }
  void storeBytes(Obj *o, u32 off, unsigned n, const V &v) {
    if (!v.t) { memcpy(o->b + off, &v.c, n); memset(o->st + off, 0, n); return; }
    if (!o->sy) o->sy = (SymB *)calloc(o->size, sizeof(SymB));
    Term *t = v.t; if (t->w < 8 * n) t = mkZext(t, 8 * n);
    for (unsigned i = 0; i < n; i++) { Term *b = t; u32 k = i; if (b->op == T_CONCAT) { Term *e = mkExtract(t, 8 * i + 7, 8 * i); if (isC(e)) { o->b[off + i] = (u8)e->c; o->st[off + i] = 0; continue; } if (e->op == T_EXTRACT && (e->aux & 7) == 0) { b = e->a; k = e->aux / 8; } else if (e->op != T_EXTRACT && e->w == 8 && e->op != T_CONCAT) { b = e; k = 0; } else { b = t; k = i; } } o->st[off + i] = 1; o->sy[off + i] = {b, k}; }
  }
  bool copyMem(State &s, u64 dst, u64 src, u64 n, std::string &err) {
    if (!n) return true;
    Obj *a, *b; u32 oa, ob; if (!access(s, src, n, false, a, oa, err)) return false; if (!access(s, dst, n, true, b, ob, err)) return false;
    a = obj(s, src);
    memmove(b->b + ob, a->b + oa, n);
    bool sy = false; for (u64 i = 0; i < n; i++) if (a->st[oa + i] == 1) { sy = true; break; }
    if (sy) { if (!b->sy) b->sy = (SymB *)calloc(b->size, sizeof(SymB)); memmove(b->sy + ob, a->sy + oa, n * sizeof(SymB)); }
    memmove(b->st + ob, a->st + oa, n);
    return true;
  }
  std::string readStr(State &s, u64 addr) { std::string r; Obj *o = obj(s, addr); if (!o || o->dead) return "?"; for (u32 off = (u32)addr; off < o->size && o->b[off]; off++) r += (char)o->b[off]; return r; }

#include "race.inc"
#include "interp.inc"
#include "builtins.inc"
};
