// Pre-decoded LLVM IR.
#pragma once
#include "term.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>

struct V { Term *t; u128 c; };
static inline V cv(u128 c) { return V{nullptr, c}; }
static inline V tv(Term *t) { if (t->op == T_CONST) return V{nullptr, t->c}; return V{t, 0}; }
static inline Term *asT(const V &v, unsigned w) { return v.t ? v.t : mkConst(w, v.c); }

struct Opd { int slot = -1; V k{nullptr, 0}; unsigned w = 0; bool undef = false; };

enum IOp : uint16_t {
  I_BIN, I_CMP, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH,
  I_CALL, I_INVOKE, I_LANDING, I_RESUME, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_EXTRACTVAL, I_INSERTVAL,
  I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_FENCE, I_CMPXCHG, I_RMW, I_FBIN, I_FCMP, I_FCAST, I_UNSUP
};
struct Leaf { unsigned w; unsigned off; unsigned bytes; };
struct FnInfo; struct Builtin;
struct Inst {
  IOp op; u8 sub = 0; u8 flags = 0; unsigned w = 0, w2 = 0; int dst = -1; unsigned lanes = 1;
  std::vector<Opd> o;              // operands
  std::vector<Leaf> leaves;        // load/store/ret/call aggregates
  std::vector<std::pair<int, i64>> scale; // gep: operand index, scale
  i64 off = 0;                     // gep constant / alloca size / extract index
  std::vector<int> tgt;            // successor blocks
  std::vector<u128> cases;
  std::vector<int> mask;
  FnInfo *callee = nullptr; int builtin = -1; std::vector<int> argw; std::vector<int> argn;
  std::vector<std::pair<u64, int>> clauses; bool cleanup = false; // landing pad: typeinfo address (0 = all)
  const llvm::Instruction *src = nullptr;
};
struct Phi { int dst; std::vector<Opd> in; /* by predecessor order */ };
struct Block { std::vector<Inst> in; std::vector<int> phiDst; std::vector<std::vector<Opd>> phiFrom; std::vector<int> predIds; };
struct FnInfo {
  llvm::Function *f; bool decoded = false; std::vector<Block> bb; int nslots = 0; int nargs = 0; std::vector<int> argSlot; std::vector<int> argSlots;
  int builtin = -1; std::string name, dem; u64 hits = 0; bool inRepo = false; int fieldOp = -1; int retSlots = 0; std::vector<unsigned> retw;
};
