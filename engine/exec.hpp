// Symbolic interpreter: state, memory, decoding.
#pragma once
#include "ir.hpp"
#include "solve.hpp"
#include "bitform.hpp"
#include <memory>
#include <set>
#include <deque>

// ---------------------------------------------------------------- memory
struct SymB { Term *t; u32 k; };
enum : u8 { K_HEAP, K_STACK, K_GLOBAL, K_CONST, K_FUNC };
struct Obj {
  u32 rc = 1; u32 size = 0; u8 kind = 0; u8 alloc = 0; /* 1 malloc, 2 new, 3 new[] */
  u8 *b = nullptr, *st = nullptr; SymB *sy = nullptr; FnInfo *fn = nullptr; const llvm::GlobalVariable *gv = nullptr; bool dead = false;
  u64 hash = 0; bool hashed = false;
  static Obj *make(u32 size, u8 kind, bool uninit) {
    Obj *o = new Obj; o->size = size; o->kind = kind; o->b = (u8 *)calloc(size ? size : 1, 1); o->st = (u8 *)malloc(size ? size : 1); memset(o->st, uninit ? 2 : 0, size); return o;
  }
  Obj *clone() const {
    Obj *o = new Obj(*this); o->rc = 1; o->hashed = false; u32 n = size ? size : 1;
    o->b = (u8 *)malloc(n); memcpy(o->b, b, n); o->st = (u8 *)malloc(n); memcpy(o->st, st, n);
    if (sy) { o->sy = (SymB *)malloc(sizeof(SymB) * n); memcpy(o->sy, sy, sizeof(SymB) * n); }
    return o;
  }
  ~Obj() { free(b); free(st); free(sy); }
  void unref() { if (--rc == 0) delete this; }
};
struct Chunk { u32 rc = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } };
static void unrefChunk(Chunk *c) { if (--c->rc == 0) { for (auto *x : c->o) if (x) x->unref(); delete c; } }
static Obj *g_dead = nullptr;
struct Table {
  std::vector<Chunk *> ch; u32 n = 0;
  Table() {}
  Table(const Table &t) : ch(t.ch), n(t.n) { for (auto *c : ch) c->rc++; }
  Table &operator=(const Table &) = delete;
  ~Table() { for (auto *c : ch) unrefChunk(c); }
  Obj *get(u32 i) const { return i < n ? ch[i >> 6]->o[i & 63] : nullptr; }
  Chunk *own(u32 ci) { Chunk *c = ch[ci]; if (c->rc > 1) { Chunk *d = new Chunk; memcpy(d->o, c->o, sizeof d->o); for (auto *x : d->o) if (x) x->rc++; c->rc--; ch[ci] = d; return d; } return c; }
  u32 add(Obj *o) { if ((n & 63) == 0) ch.push_back(new Chunk); own(n >> 6)->o[n & 63] = o; return n++; }
  Obj *wr(u32 i) { Chunk *c = own(i >> 6); Obj *o = c->o[i & 63]; if (o->rc > 1) { Obj *p = o->clone(); o->rc--; c->o[i & 63] = p; o = p; } o->hashed = false; return o; }
  void kill(u32 i) { Chunk *c = own(i >> 6); if (c->o[i & 63]) c->o[i & 63]->unref(); g_dead->rc++; c->o[i & 63] = g_dead; }
};
static unsigned TIDSHIFT = 25; // object id = thread << 25 | index

// ---------------------------------------------------------------- state
struct Frame { FnInfo *fn; int bb; int ip; u32 base; int retSlot; Inst *call; std::vector<u32> allocas; };
struct Exc { u64 obj; u64 tinfo; };
struct Thread { std::vector<Frame> fr; std::vector<V> regs; std::vector<Exc> caught; Exc cur{0, 0}; u32 caughtSel = 0; u64 block = 0; bool done = false; bool started = false; };
struct MState { Model m; Evaluator ev; MState() : ev(&m) {} MState(const Model &x) : m(x), ev(&m) {} };
struct SymDecl { std::string name; Term *t; unsigned bytes; };
// happens-before race detection
struct RaceE { u32 tid, clk; u8 mask; bool wr; const Inst *at; };
struct RaceSt { std::vector<std::vector<u32>> C; std::map<u64, std::vector<u32>> L; std::unordered_map<u64, std::vector<RaceE>> acc; };
struct State {
  std::shared_ptr<RaceSt> race;
  std::vector<Table> mem; std::vector<Thread> th; int cur = 0; int preempt = 0;
  std::vector<Term *> pc; std::shared_ptr<MState> ms; bool modelOk = true;
  std::vector<SymDecl> syms; std::map<std::string, int> symCnt;
  std::vector<std::pair<std::string, Term *>> obs; std::vector<FNode *> view; std::vector<std::string> trace;
  std::map<u64, Exc> excs; u64 instrs = 0; bool abortOk = false; u64 abortFn = 0; std::vector<u32> siteForks; int uncaught = 0; int depth = 0; bool noYield = false; u64 t0 = 0; u64 id = 0;
  std::vector<int> sched;
  State() {}
};
struct Violation { std::string kind, msg, where, trace; bool modelOk; std::vector<std::pair<std::string, std::string>> model, model2; std::vector<std::string> sched; std::vector<std::string> lam; std::string expect, expect2; double t; };
