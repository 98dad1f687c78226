// Path-by-path symbolic executor for LLVM IR (the IR clang produces for the real code plus the contract file).
#pragma once
#include "real.h"
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <unordered_map>
#include <unordered_set>
#include <functional>

enum K : uint8_t { KC, KBV, KB, KR, KU, KA, KX };
struct V { uint64_t c = 0; uint32_t ref = 0; K k = KU; };
inline V vc_(uint64_t c) { V v; v.k = KC; v.c = c; return v; }
inline V vu_() { return V(); }
inline V vr_(rl::NodeId n) { V v; v.k = KR; v.ref = n; return v; }

struct Unsupported { std::string what; };
struct Violation { std::string kind, detail; };
struct PathEnd {};          // infeasible / discarded
struct TimeUp { std::string what; };

struct ByteX { uint8_t st; uint8_t c; uint8_t idx; uint8_t sz; V v; };   // st: 0 undef 1 concrete 2 byte idx of v
struct Region {
    uint64_t base = 0; uint32_t size = 0; uint16_t gen = 0; bool alive = false; uint8_t kind = 0;   // kind 1 global 2 stack 3 heap 4 const global
    std::vector<uint8_t> data, st; std::vector<V> sh; std::unordered_map<uint32_t, std::pair<uint8_t, V>> sm;
};
enum BT : uint8_t { BREAL, BNOT, BAND, BOR, BZ3 };
struct BoolN { BT t; uint8_t pred; bool hasR, hasB; uint32_t a, b; };   // pred: 0 ==,1 <,2 <=

struct Inst {
    unsigned op; const llvm::Instruction* I; int32_t dst = -1; std::vector<int32_t> o; std::vector<int64_t> imm; uint32_t w = 0, w2 = 0; uint8_t tk = 0, tk2 = 0; uint32_t t0 = 0, t1 = 0;
    const llvm::Type* ty = nullptr; const llvm::Function* callee = nullptr; int builtin = 0;
};
enum TK : uint8_t { TI, TP, TD, TF, TAGG, TV, TVOID, TX };
struct Phi { int32_t dst; std::vector<std::pair<uint32_t, int32_t>> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> is; const llvm::BasicBlock* bb; };
struct Code { const llvm::Function* F; std::vector<Block> b; uint32_t nslots = 0; };
struct Frame { Code* code; std::vector<V> r; uint32_t blk = 0, ip = 0, prev = 0; std::vector<uint64_t> allocas; int32_t retDst = -1; std::vector<V> va; };

struct Sample { uint64_t seed; bool fromModel = false; std::map<std::string, long double> fixed; rl::Ctx::Eval ev; };
struct IVar { std::string name; long lo, hi; bool choose; long val; uint32_t bv; };
struct Obl { std::string label; std::string status; std::string by; std::string detail; std::vector<std::pair<std::string, std::string>> model; double secs = 0; };
