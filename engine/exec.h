#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <deque>

struct V { E e = nullptr; std::shared_ptr<std::vector<V>> agg; V() {} V(E x) : e(x) {} };

struct ObjData;
struct Upd { bool range; E idx, val, len; std::shared_ptr<const ObjData> src; E srcOff; std::shared_ptr<const Upd> next; };
struct ObjData { E size; bool hasBytes = true; std::vector<E> bytes; std::vector<uint8_t> wid; /* width of the last store starting here */ std::string base; std::shared_ptr<const Upd> upd; };
enum Kind : uint8_t { GLOBAL, STACK, HEAP, FUNC, EXC };
struct Obj { uint64_t addr; uint64_t span; Kind kind; bool readonly = false, dead = false; uint32_t frameId = 0; std::string name; std::shared_ptr<ObjData> d; };
typedef std::shared_ptr<Obj> ObjP;

struct KFunc; struct KInst;
struct KBlock { llvm::BasicBlock *bb; unsigned first; int loopHeaderIdx = -1; };
struct KInst { llvm::Instruction *I; std::vector<int> ops; int dst; };
struct KLoop { llvm::BasicBlock *header; std::set<llvm::BasicBlock *> blocks; };
struct KFunc { llvm::Function *F; std::string dem; std::vector<KInst> insts; llvm::DenseMap<const llvm::BasicBlock *, unsigned> blockStart; llvm::DenseMap<const llvm::Value *, int> slots; unsigned nslots = 0;
  std::map<llvm::BasicBlock *, KLoop> loops; std::vector<V> consts; bool repo = false; std::string file; unsigned line = 0; };

struct LoopCtr { unsigned iters = 0, forks = 0; };
struct CutInfo;
struct Frame { KFunc *f; llvm::BasicBlock *prev = nullptr; unsigned pc = 0; std::vector<V> locals; std::vector<uint64_t> allocas; int retSlot = -1; llvm::BasicBlock *normalDest = nullptr, *unwindDest = nullptr; uint32_t id = 0;
  std::map<llvm::BasicBlock *, LoopCtr> loops; std::map<llvm::BasicBlock *, std::shared_ptr<CutInfo>> cuts; uint64_t freeOnReturn = 0; bool isInvEval = false; };

struct ExcInfo { uint64_t ti = 0, dtor = 0, primary = 0; int handlers = 0, refs = 0; };
struct Contract { std::string pat; uint64_t fn; int mode; };
struct Inv { uint64_t fn, ctx; std::string name; };

struct State {
  std::vector<Frame> stack;
  std::map<uint64_t, ObjP> mem;
  std::vector<E> pc; // path constraints
  std::shared_ptr<Model> model;
  std::map<std::string, unsigned> names;
  uint64_t nextStack = 0x700000000000ull, nextHeap = 0x100000000000ull; uint32_t nextFrame = 1;
  uint64_t nextSymObj = 0x1000000000000ull;
  std::map<uint64_t, ExcInfo> excs; std::vector<uint64_t> caught;
  std::vector<Contract> contracts; std::vector<Inv> invs, variants;
  std::set<uint64_t> heapMark, excMark; bool marked = false;
  bool abstract = false; // went through a loop cut / callee contract havoc
  unsigned depth = 0; uint64_t steps = 0;
  std::vector<std::string> trace;
};
typedef std::unique_ptr<State> StateP;

struct HavocLoc { bool local; int slot; uint64_t addr; unsigned off, bytes; E sym; E init; uint64_t base = 0, stride = 0; /* pointer: base + stride * sym */ };
struct CutInfo { int gen = 0; bool poly = false; llvm::BasicBlock *header; std::vector<HavocLoc> locs; std::vector<E> invs; std::vector<size_t> active; std::vector<E> variants; std::shared_ptr<State> base; };
