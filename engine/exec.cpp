#include "exec.h"
#include <cmath>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Operator.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <unordered_set>
#include <fstream>
#include <signal.h>
using namespace llvm;

static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string ustr(u128 v) { if (v >> 64) { char b[64]; snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; } return std::to_string((unsigned long long)v); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct EngineError { std::string msg; };
struct PathEnd {};   // current path is over
struct Restart { std::string why; };

struct Ob { std::string kind, name, loc; uint64_t checked = 0, trivial = 0, solved = 0, failed = 0, unknown = 0; };
struct Violation { std::string kind, name, loc, trace; std::shared_ptr<Model> model; bool abstract; std::map<std::string, unsigned> names; std::string detail; };

struct Ctx { std::vector<StateP> work; bool muted = false; BasicBlock *header = nullptr; uint32_t frameId = 0; size_t frameDepth = 0; std::vector<StateP> back; bool evalMode = false; size_t evalDepth = 0; std::vector<std::pair<StateP, E>> results; size_t basePc = 0; };

struct Engine {
  std::unique_ptr<Module> M; LLVMContext LC; const DataLayout *DL = nullptr;
  std::string repoPrefix = "/repo/";
  DenseMap<const Function *, KFunc *> kfs; DenseMap<const GlobalValue *, uint64_t> gaddr; std::unordered_map<uint64_t, Function *> faddr;
  std::map<uint64_t, ObjP> gmem; uint64_t nextGlobal = 0x10000000ull;
  std::map<std::string, Ob> obs; std::vector<Violation> viols; std::set<std::string> violKeys;
  Ctx *ctx = nullptr; std::vector<Ctx *> ctxStack;
  uint64_t nPaths = 0, nSteps = 0, nForks = 0; std::set<std::string> reach; std::set<KFunc *> used; std::set<std::string> contracted, boundedWhy, externalsUsed, cutLoops, assumes;
  std::map<std::string, int> loopMode; // "func:block" -> 1 cut ; -1 no cut; peel in loopPeel
  std::map<std::string, int> loopPeel; std::map<std::string, std::string> noCutWhy;
  bool allowCut = true; unsigned unrollLimit = 12; double timeLimit = 600, t0 = 0; size_t maxViol = 4; unsigned maxIter = 20000; unsigned boundedUnroll = 12;
  uint64_t freshCtr = 0; std::map<uint64_t, int> typeIds; bool incomplete = false; std::string incompleteWhy;
  bool verbose = false; unsigned cutDepth = 0; uint64_t cutsDone = 0, invsProved = 0; std::map<std::string, std::vector<std::string>> cutInfoText;

  // ---------- module loading ----------
  void load(const std::string &file) {
    SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("vfengine", errs()); exit(3); }
    DL = &M->getDataLayout();
    for (Function &F : *M) { uint64_t a = nextGlobal; nextGlobal += 64; gaddr[&F] = a; faddr[a] = &F; }
    for (GlobalVariable &G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64; if (sz == 0) sz = 1; if (G.isDeclaration() && sz < 256) sz = 256;
      uint64_t al = 64; nextGlobal = (nextGlobal + al - 1) / al * al; uint64_t a = nextGlobal; nextGlobal += sz + 256; gaddr[&G] = a;
      auto o = std::make_shared<Obj>(); o->addr = a; o->span = sz; o->kind = GLOBAL; o->readonly = G.isConstant(); o->name = G.getName().str(); o->d = std::make_shared<ObjData>(); o->d->size = mkC(sz, 64); o->d->bytes.assign(sz, mkC(0, 8)); gmem[a] = o;
    }
    for (GlobalAlias &A : M->aliases()) if (auto *b = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) { gaddr[&A] = gaddr[b]; }
    for (GlobalVariable &G : M->globals()) if (G.hasInitializer()) initConst(*gmem[gaddr[&G]]->d, 0, G.getInitializer());
  }
  static void setWid(ObjData &d, uint64_t off, unsigned n) { if (d.wid.size() != d.bytes.size()) d.wid.resize(d.bytes.size(), 0); for (uint64_t i = off >= 15 ? off - 15 : 0; i < off; i++) if (d.wid[i] && i + d.wid[i] > off) d.wid[i] = 0; for (unsigned i = 0; i < n && off + i < d.wid.size(); i++) d.wid[off + i] = 0; if (off < d.wid.size()) d.wid[off] = n; }
  void putBytes(ObjData &d, uint64_t off, E v, unsigned nbytes) { if (nbytes <= 8) setWid(d, off, nbytes); else setWid(d, off, 0);
    for (unsigned i = 0; i < nbytes; i++) { unsigned lo = i * 8; d.bytes[off + i] = lo + 8 <= v->w ? mkExtractR(v, lo, 8) : lo < v->w ? mkZExt(mkExtract(v, lo, v->w - lo), 8) : mkC(0, 8); } }
  void initConst(ObjData &d, uint64_t off, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) initConst(d, off + i * es, s->getElementAsConstant(i)); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(d, off + L->getElementOffset(i), s->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(d, off + i * es, s->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initConst(d, off + i * es, s->getOperand(i)); return; }
    V v = evalConst(c); if (!v.e) throw EngineError{"unsupported constant initializer"}; putBytes(d, off, v.e, (v.e->w + 7) / 8);
  }
  unsigned widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16; return 0; }
  E freshUndef(unsigned w) { return mkSym("undef" + std::to_string(freshCtr++), w); }
  V undefOf(Type *t) {
    if (unsigned w = widthOf(t)) return V(freshUndef(w));
    V v; v.agg = std::make_shared<std::vector<V>>(); if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) v.agg->push_back(undefOf(x)); else if (auto *a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) v.agg->push_back(undefOf(a->getElementType())); else if (auto *a = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) v.agg->push_back(undefOf(a->getElementType())); return v;
  }
  V zeroOf(Type *t) {
    if (unsigned w = widthOf(t)) return V(mkC(0, w));
    V v; v.agg = std::make_shared<std::vector<V>>(); if (auto *s = dyn_cast<StructType>(t)) for (auto *x : s->elements()) v.agg->push_back(zeroOf(x)); else if (auto *a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) v.agg->push_back(zeroOf(a->getElementType())); else if (auto *a = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) v.agg->push_back(zeroOf(a->getElementType())); return v;
  }
  V evalConst(const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { unsigned w = i->getBitWidth(); u128 v = w <= 64 ? (u128)i->getZExtValue() : ((u128)i->getValue().getRawData()[1] << 64 | i->getValue().getRawData()[0]); return mkC(v, w); }
    if (auto *f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); u128 v = b.getRawData()[0]; if (b.getNumWords() > 1) v |= (u128)b.getRawData()[1] << 64; return mkC(v, b.getBitWidth()); }
    if (isa<ConstantPointerNull>(c)) return mkC(0, 64);
    if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw EngineError{"no address for global " + g->getName().str()}; return mkC(it->second, 64); }
    if (isa<UndefValue>(c)) return undefOf(c->getType()); // undef and poison
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw EngineError{"const gep"}; return mk2(ADD, evalConst(cast<Constant>(g->getPointerOperand())).e, mkC((uint64_t)off.getSExtValue(), 64)); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
      case Instruction::PtrToInt: { E e = evalConst(ce->getOperand(0)).e; unsigned w = widthOf(ce->getType()); return w <= 64 ? mkExtract(e, 0, w) : mkZExt(e, w); }
      case Instruction::IntToPtr: { E e = evalConst(ce->getOperand(0)).e; return mkZExt(e, 64); }
      case Instruction::Sub: return mk2(SUB, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
      case Instruction::Add: return mk2(ADD, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
      case Instruction::Trunc: return mkExtract(evalConst(ce->getOperand(0)).e, 0, widthOf(ce->getType()));
      case Instruction::ICmp: { E a = evalConst(ce->getOperand(0)).e, b = evalConst(ce->getOperand(1)).e; return icmp((CmpInst::Predicate)ce->getPredicate(), a, b); }
      default: throw EngineError{std::string("const expr ") + ce->getOpcodeName()};
      } }
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { V v; v.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < s->getNumElements(); i++) v.agg->push_back(evalConst(s->getElementAsConstant(i))); return v; }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { V v; v.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < c->getNumOperands(); i++) v.agg->push_back(evalConst(cast<Constant>(c->getOperand(i)))); return v; }
    throw EngineError{"unsupported constant"};
  }
  E icmp(CmpInst::Predicate p, E a, E b) {
    switch (p) { case CmpInst::ICMP_EQ: return mk2(EQ, a, b); case CmpInst::ICMP_NE: return mkNe(a, b); case CmpInst::ICMP_ULT: return mk2(ULT, a, b); case CmpInst::ICMP_ULE: return mk2(ULE, a, b); case CmpInst::ICMP_UGT: return mk2(ULT, b, a); case CmpInst::ICMP_UGE: return mk2(ULE, b, a);
    case CmpInst::ICMP_SLT: return mk2(SLT, a, b); case CmpInst::ICMP_SLE: return mk2(SLE, a, b); case CmpInst::ICMP_SGT: return mk2(SLT, b, a); case CmpInst::ICMP_SGE: return mk2(SLE, b, a); default: throw EngineError{"icmp"}; }
  }
  KFunc *kf(Function *F) {
    auto it = kfs.find(F); if (it != kfs.end()) return it->second;
    KFunc *k = new KFunc(); k->F = F; k->dem = demangle(F->getName().str()); kfs[F] = k;
    if (auto *sp = F->getSubprogram()) { std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str(); k->file = (fn.size() && fn[0] == '/') ? fn : dir + "/" + fn; k->line = sp->getLine(); k->repo = k->file.compare(0, repoPrefix.size(), repoPrefix) == 0; }
    auto slot = [&](const Value *v) { auto i = k->slots.find(v); if (i != k->slots.end()) return i->second; int n = k->nslots++; k->slots[v] = n; return n; };
    for (auto &a : F->args()) slot(&a);
    for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot(&I);
    std::map<const Constant *, int> cidx;
    for (auto &B : *F) { k->blockStart[&B] = k->insts.size();
      for (auto &I : B) { KInst ki; ki.I = &I; ki.dst = I.getType()->isVoidTy() ? -1 : k->slots[&I];
        for (auto &op : I.operands()) { Value *v = op.get(); int o = INT_MIN; if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) o = INT_MIN; else if (auto *c = dyn_cast<Constant>(v)) { if (isa<UndefValue>(c)) o = INT_MIN; else { auto ci = cidx.find(c); if (ci == cidx.end()) { int n = k->consts.size(); k->consts.push_back(evalConst(c)); cidx[c] = n; o = -1 - n; } else o = -1 - ci->second; } } else o = k->slots[v]; ki.ops.push_back(o); }
        k->insts.push_back(std::move(ki)); } }
    if (F->isDeclaration()) return k;
    DominatorTree DT(*F); LoopInfo LI(DT);
    std::function<void(Loop *)> addL = [&](Loop *L) { KLoop kl; kl.header = L->getHeader(); for (auto *b : L->blocks()) kl.blocks.insert(b); k->loops[kl.header] = kl; for (Loop *s : *L) addL(s); };
    for (Loop *L : LI) addL(L);
    return k;
  }
  // ---------- memory ----------
  ObjP findObj(State &s, uint64_t a) {
    auto it = s.mem.upper_bound(a); if (it != s.mem.begin()) { --it; if (a - it->second->addr <= it->second->span) return it->second; }
    auto g = gmem.upper_bound(a); if (g != gmem.begin()) { --g; if (a - g->second->addr <= g->second->span) return g->second; }
    return nullptr;
  }
  Obj &own(State &s, ObjP &o) { // make writable copy in state
    auto it = s.mem.find(o->addr);
    if (it == s.mem.end()) { auto n = std::make_shared<Obj>(*o); n->d = std::make_shared<ObjData>(*o->d); s.mem[n->addr] = n; o = n; return *n; }
    if (it->second.use_count() > 2 || it->second->d.use_count() > 1) { auto n = std::make_shared<Obj>(*it->second); n->d = std::make_shared<ObjData>(*it->second->d); it->second = n; }
    o = it->second; return *o;
  }
  uint64_t allocObj(State &s, Kind k, E size, const std::string &name) {
    auto o = std::make_shared<Obj>(); o->kind = k; o->name = name; o->d = std::make_shared<ObjData>(); o->d->size = size;
    if (isC(size)) { uint64_t n = (uint64_t)size->c; if (n > (1u << 24)) { o->addr = s.nextSymObj; s.nextSymObj += 1ull << 41; o->span = n; o->d->hasBytes = false; o->d->base = "undefmem" + std::to_string(freshCtr++); } else { uint64_t &nx = k == STACK ? s.nextStack : s.nextHeap; o->addr = nx; o->span = n; nx += ((n + 15) & ~15ull) + 4096; o->d->bytes.assign(n, nullptr); } }
    else { o->addr = s.nextSymObj; s.nextSymObj += 1ull << 41; o->span = 1ull << 40; o->d->hasBytes = false; o->d->base = "undefmem" + std::to_string(freshCtr++); }
    s.mem[o->addr] = o; return o->addr;
  }
  E byteAt(State &s, const Obj *o, const ObjData &d, E off) { // no bounds check
    std::vector<std::pair<E, E>> chain; E base = nullptr;
    const Upd *u = d.upd.get();
    while (u) {
      E c, v;
      if (!u->range) { c = mk2(EQ, off, u->idx); v = nullptr; if (isTrue(c)) { base = u->val ? u->val : freshUndef(8); break; } if (!isFalse(c)) chain.push_back({c, u->val ? u->val : freshUndef(8)}); }
      else { E rel = mk2(SUB, off, u->idx); c = mk2(ULT, rel, u->len); if (!isFalse(c)) { 
          if (u->val) v = u->val; else v = byteAt(s, nullptr, *u->src, mk2(ADD, rel, u->srcOff)); if (isTrue(c)) { base = v; break; } chain.push_back({c, v}); } }
      u = u->next.get();
    }
    if (!base) {
      if (!d.hasBytes) base = mkUF(d.base, 8, {off});
      else if (isC(off)) { if (off->c < d.bytes.size()) { E &b = const_cast<ObjData &>(d).bytes[(size_t)off->c]; if (!b) b = freshUndef(8); base = b; } else base = mkC(0, 8); }
      else { if (d.bytes.size() > 4096) throw EngineError{"symbolic index into large object"};
        base = nullptr; for (size_t i = d.bytes.size(); i-- > 0;) { E &b = const_cast<ObjData &>(d).bytes[i]; if (!b) b = freshUndef(8); base = base ? mkIte(mk2(EQ, off, mkC(i, 64)), b, base) : b; } if (!base) base = mkC(0, 8); }
    }
    for (size_t i = chain.size(); i-- > 0;) base = mkIte(chain[i].first, chain[i].second, base);
    return base;
  }
  static unsigned tzOf(E e) { // known trailing zeros
    if (isC(e)) { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
    switch (e->op) { case CONCAT: { unsigned l = tzOf(e->a[1]); return l == e->a[1]->w ? l + tzOf(e->a[0]) : l; } case ZEXT: case SEXT: { unsigned l = tzOf(e->a[0]); return l; } case ADD: case SUB: case OR: case XOR: return std::min(tzOf(e->a[0]), tzOf(e->a[1])); case ITE: return std::min(tzOf(e->a[1]), tzOf(e->a[2])); case MUL: return std::min<unsigned>(e->w, tzOf(e->a[0]) + tzOf(e->a[1])); default: return 0; }
  }
  E readObj(State &s, const ObjP &o, E off, unsigned n) {
    ObjData &d = *o->d;
    if (isC(off) && !d.upd && d.hasBytes) {
      uint64_t p = (uint64_t)off->c; bool allc = true; u128 v = 0;
      if (n <= 16) { for (unsigned i = 0; i < n; i++) { E b = d.bytes[p + i]; if (!b || !isC(b)) { allc = false; break; } v |= b->c << (8 * i); } if (allc) return mkC(v, n * 8); }
      E r = nullptr; for (unsigned i = 0; i < n; i++) { E &b = d.bytes[p + i]; if (!b) b = freshUndef(8); r = r ? mkConcat(b, r) : b; } return r;
    }
    if (!isC(off) && d.hasBytes && !d.upd && d.bytes.size() <= 4096) { // table lookup with stride
      uint64_t sz = d.bytes.size(); unsigned tz = std::min(tzOf(off), 12u); uint64_t st = 1ull << tz; E r = nullptr;
      uint64_t cnt = (sz - n) / st + 1; bool allc = n <= 8 && cnt >= 8; for (uint64_t k = 0; k < cnt && allc; k++) for (unsigned i = 0; i < n; i++) if (!d.bytes[k * st + i] || !isC(d.bytes[k * st + i])) { allc = false; break; }
      if (allc) { // constant table: segments that are constant or advance by one
        std::vector<u128> v(cnt); for (uint64_t k = 0; k < cnt; k++) { u128 x = 0; for (unsigned i = 0; i < n; i++) x |= d.bytes[k * st + i]->c << (8 * i); v[k] = x; }
        u128 m = maskOf(n * 8); E ix = mkZExt(mkExtract(off, tz, 64 - tz), 64); E ixw = n * 8 <= 64 ? mkExtract(ix, 0, n * 8) : mkZExt(ix, n * 8); std::vector<std::pair<uint64_t, E>> segs;
        for (uint64_t k = 0; k < cnt;) { uint64_t a = k + 1; while (a < cnt && v[a] == v[k]) a++; uint64_t b = k + 1; while (b < cnt && v[b] == ((v[b - 1] + 1) & m)) b++; if (b > a) { segs.push_back({k, mk2(ADD, ixw, mkC((v[k] - k) & m, n * 8))}); k = b; } else { segs.push_back({k, mkC(v[k], n * 8)}); k = a; } }
        if (segs.size() <= cnt / 2) { for (size_t q = segs.size(); q-- > 0;) r = r ? mkIte(mk2(ULT, ix, mkC(segs[q + 1].first, 64)), segs[q].second, r) : segs[q].second; return r; } }
      for (int64_t p = (int64_t)((sz - n) / st * st); p >= 0; p -= st) { E v = nullptr; for (unsigned i = 0; i < n; i++) { E &b = d.bytes[p + i]; if (!b) b = freshUndef(8); v = v ? mkConcat(b, v) : b; } r = r ? mkIte(mk2(EQ, off, mkC(p, 64)), v, r) : v; }
      return r;
    }
    E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = byteAt(s, o.get(), d, mk2(ADD, off, mkC(i, 64))); r = r ? mkConcat(b, r) : b; } return r;
  }
  void writeObj(State &s, ObjP &o, E off, E v, unsigned n) {
    Obj &w = own(s, o); ObjData &d = *w.d; unsigned vw = v->w; if (vw < n * 8) v = mkZExt(v, n * 8);
    if (isC(off) && !d.upd && d.hasBytes) { putBytes(d, (uint64_t)off->c, v, n); return; }
    if (isC(off) && d.hasBytes) { bool newer = false; (void)newer; }
    for (unsigned i = 0; i < n; i++) { auto u = std::make_shared<Upd>(); u->range = false; u->idx = mk2(ADD, off, mkC(i, 64)); u->val = mkExtractR(v, i * 8, 8); u->next = d.upd; d.upd = u; }
  }
  // ---------- solver glue ----------
  void addC(State &s, E c) {
    if (isTrue(c)) return;
    if (c->op == AND && c->w == 1) { addC(s, c->a[0]); addC(s, c->a[1]); return; }
    if (c->op == XOR && c->w == 1 && isTrue(c->a[1]) && c->a[0]->op == OR) { addC(s, mkNot(c->a[0]->a[0])); addC(s, mkNot(c->a[0]->a[1])); return; }
    for (E x : s.pc) if (x == c) return;
    s.pc.push_back(c);
  }
  Res query(State &s, E extra, std::shared_ptr<Model> *out, bool heavy = true) {
    std::vector<E> sl = slice(s.pc, {extra}); sl.push_back(extra);
    if (!out) return solve(sl, nullptr, heavy);
    auto m = std::make_shared<Model>(s.model ? *s.model : Model()); m->touch(); Res r = solve(sl, m.get(), heavy);
    if (r == Res::SAT && !s.model) { // the rest of the path condition was not known to be satisfiable
      bool all = true; for (E x : s.pc) if (m->eval(x) != 1) { all = false; break; }
      if (!all) { std::vector<E> cs = s.pc; cs.push_back(extra); m = std::make_shared<Model>(); r = solve(cs, m.get(), heavy); } }
    if (r == Res::SAT) *out = m; return r;
  }
  // a / c for an `a` that is visibly c * y, with y small enough for c * y not to wrap
  bool linear(E x, uint64_t k, std::unordered_map<E, uint64_t> &t, std::vector<E> &order, uint64_t &cst) {
    if (isC(x)) { cst += k * (uint64_t)x->c; return true; }
    if (x->op == ADD) return linear(x->a[0], k, t, order, cst) && linear(x->a[1], k, t, order, cst);
    if (x->op == SUB) return linear(x->a[0], k, t, order, cst) && linear(x->a[1], -k, t, order, cst);
    if (x->op == MUL && isC(x->a[1])) return linear(x->a[0], k * (uint64_t)x->a[1]->c, t, order, cst);
    if (x->op == SHL && isC(x->a[1]) && x->a[1]->c < 64) return linear(x->a[0], k << (uint64_t)x->a[1]->c, t, order, cst);
    if (!t.count(x)) { if (order.size() >= 8) return false; order.push_back(x); } t[x] += k; return true;
  }
  E divided(State &s, E a, int64_t c) {
    std::unordered_map<E, uint64_t> t; std::vector<E> order; uint64_t cst = 0; if (!linear(a, 1, t, order, cst)) return nullptr;
    if ((int64_t)cst % c) return nullptr; E y = mkC((uint64_t)((int64_t)cst / c), 64);
    for (E x : order) { int64_t k = (int64_t)t[x]; if (!k) continue; if (k % c) return nullptr; k /= c; y = mk2(ADD, y, k == 1 ? x : mk2(MUL, x, mkC((uint64_t)k, 64))); }
    if (isC(y)) return y;
    uint64_t B = INT64_MAX / c; E ok = mk2(ULE, mk2(ADD, y, mkC(B, 64)), mkC(2 * B, 64));
    if (!isTrue(ok) && query(s, mkNot(ok), nullptr, false) != Res::UNSAT) return nullptr;
    return y;
  }
  // returns bit0: true feasible, bit1: false feasible
  int feas(State &s, E c, std::shared_ptr<Model> &mt, std::shared_ptr<Model> &mf) {
    if (isTrue(c)) { mt = s.model; return 1; } if (isFalse(c)) { mf = s.model; return 2; }
    E nc = mkNot(c);
    for (E x : s.pc) { if (x == c) { mt = s.model; return 1; } if (x == nc) { mf = s.model; return 2; } }
    int r = 0;
    if (s.model) { if (s.model->eval(c)) { r = 1; mt = s.model; } else { r = 2; mf = s.model; } }
    if (!(r & 1)) { Res q = query(s, c, &mt, false); if (q != Res::UNSAT) r |= 1; }
    if (!(r & 2)) { Res q = query(s, nc, &mf, false); if (q != Res::UNSAT) r |= 2; }
    return r;
  }
  std::string locOf(State &s) {
    for (size_t i = s.stack.size(); i-- > 0;) { Frame &f = s.stack[i]; unsigned pc = f.pc ? f.pc - 1 : 0; if (i == s.stack.size() - 1 && curI && f.f == curKF) { }
      Instruction *I = f.f->insts[std::min<size_t>(pc, f.f->insts.size() - 1)].I; if (f.f->file.find("/usr/") == 0) continue; std::string fn = f.f->file; unsigned line = 0; if (auto dl = I->getDebugLoc()) { line = dl.getLine(); if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) { fn = sc->getFilename().str(); if (fn.size() && fn[0] != '/') fn = sc->getDirectory().str() + "/" + fn; } } return fn + ":" + std::to_string(line); }
    return "?";
  }
  std::string traceOf(State &s) { std::string t; for (size_t i = s.stack.size(); i-- > 0;) { Frame &f = s.stack[i]; unsigned pc = f.pc ? f.pc - 1 : 0; Instruction *I = f.f->insts[std::min<size_t>(pc, f.f->insts.size() - 1)].I; unsigned line = 0; if (auto dl = I->getDebugLoc()) line = dl.getLine(); t += f.f->dem.substr(0, 200) + " (" + f.f->file + ":" + std::to_string(line) + ")\n"; if (t.size() > 6000) break; } return t; }
  Instruction *curI = nullptr; KFunc *curKF = nullptr;
  Ob &ob(const std::string &kind, const std::string &name, const std::string &loc) { std::string k = kind + "|" + name + "|" + loc; auto &o = obs[k]; if (o.kind.empty()) { o.kind = kind; o.name = name; o.loc = loc; } return o; }
  void violation(State &s, const std::string &kind, const std::string &name, std::shared_ptr<Model> m, const std::string &detail = "") {
    if (ctx && ctx->muted) return;
    if (!m && !s.model) { auto mm = std::make_shared<Model>(); Res r = solve(s.pc, mm.get(), true); if (r == Res::UNSAT) throw PathEnd{}; if (r == Res::SAT) s.model = mm; }
    std::string loc = locOf(s); auto &o = ob(kind, name, loc); o.failed++;
    std::string key = kind + "|" + name + "|" + loc + (s.abstract ? "|a" : ""); if (!violKeys.insert(key).second) return;
    Violation v{kind, name, loc, traceOf(s), m ? m : s.model, s.abstract, s.names, detail}; viols.push_back(v);
    if (verbose) fprintf(stderr, "VIOL %s %s %s %s\n%s", kind.c_str(), name.c_str(), loc.c_str(), detail.c_str(), v.trace.c_str());
    if (s.abstract && refine < 2 && now() - t0 < timeLimit * 0.4) throw Restart{"refine"}; // an invariant may have been too weak
    timeLimit = std::min(timeLimit, now() - t0 + 15); // decided: only look a little longer for other violations
    if (viols.size() >= maxViol) throw EngineError{"max-violations"};
  }
  unsigned refine = 0;
  // check obligation; continues assuming it. Throws PathEnd if it cannot hold.
  void check(State &s, E c, const char *kind, const std::string &name) {
    bool muted = ctx && ctx->muted;
    if (isTrue(c)) { if (!muted) { auto &o = ob(kind, name, kind[0] == 'a' ? "" : locOf(s)); o.checked++; o.trivial++; } return; }
    for (E x : s.pc) if (x == c) { if (!muted) { auto &o = ob(kind, name, kind[0] == 'a' ? "" : locOf(s)); o.checked++; o.trivial++; } return; }
    std::shared_ptr<Model> mf; E nc = mkNot(c); Res r;
    if (s.model && s.model->eval(c) == 0) { r = Res::SAT; mf = s.model; } else r = query(s, nc, &mf, true);
    if (r != Res::UNSAT && !s.model) { // feasibility of this path was never established
      auto mm = std::make_shared<Model>(); std::vector<E> cs = s.pc; cs.push_back(nc); r = solve(cs, mm.get(), true); if (r == Res::SAT) mf = mm; else mf = nullptr; }
    if (!muted) { auto &o = ob(kind, name, kind[0] == 'a' ? "" : locOf(s)); o.checked++; if (r == Res::UNSAT) o.solved++; else if (r == Res::UNKNOWN) { o.unknown++; } }
    if (r == Res::SAT) violation(s, kind, name, mf);
    if (isFalse(c)) throw PathEnd{};
    if (r != Res::UNSAT) { std::shared_ptr<Model> mt; Res t = (s.model && s.model->eval(c)) ? Res::SAT : query(s, c, &mt, false); if (t == Res::UNSAT) throw PathEnd{}; addC(s, c); if (mt) s.model = mt; else if (!(s.model && s.model->eval(c))) s.model = nullptr; }
  }
  void assume(State &s, E c) {
    if (isTrue(c)) return; if (isFalse(c)) throw PathEnd{};
    for (E x : s.pc) if (x == c) return;
    if (!(s.model && s.model->eval(c))) { std::shared_ptr<Model> mt; Res t = query(s, c, &mt, true); if (t == Res::UNSAT) throw PathEnd{}; s.model = mt; }
    addC(s, c);
  }
  StateP clone(State &s) { nForks++; auto n = std::make_unique<State>(s); n->depth++; return n; }
  // fork on condition: the current state takes true side if feasible; other side is queued, rewound to re-execute or via callback
  // mode: current instruction will be re-executed in the clone (pc already advanced by 1)
  bool forkRe(State &s, E c) { // returns true if current continues with c true; clone with !c re-executes current instruction. If only false feasible returns false.
    std::shared_ptr<Model> mt, mf; int r = feas(s, c, mt, mf);
    if (r == 0) throw PathEnd{};
    if (r == 3) { auto n = clone(s); addC(*n, mkNot(c)); n->model = mf; n->stack.back().pc--; noteFork(*n); noteFork(s); ctx->work.push_back(std::move(n)); addC(s, c); s.model = mt; return true; }
    if (r == 1) { if (mt) s.model = mt; return true; } if (mf) s.model = mf; return false;
  }
  void noteFork(State &s) { for (auto &f : s.stack) for (auto &l : f.loops) l.second.forks++; }
  uint64_t concretize(State &s, E e, const char *what) { // fork over values; current state takes one value, clone re-executes with != value
    if (isC(e)) return (uint64_t)e->c;
    for (int i = 0; i < 2; i++) {
      if (!s.model) { std::shared_ptr<Model> m; if (query(s, mkBool(true), &m) != Res::SAT) {} std::shared_ptr<Model> mm = std::make_shared<Model>(); std::vector<E> cs = s.pc; Res r = solve(cs, mm.get()); if (r != Res::SAT) throw EngineError{std::string("cannot concretize ") + what}; s.model = mm; }
      u128 v = s.model->eval(e); E c = mk2(EQ, e, mkC(v, e->w)); if (forkRe(s, c)) return (uint64_t)v; }
    throw EngineError{"concretize"};
  }
  // resolve pointer to object + offset, checking bounds of n bytes (n may be symbolic)
  ObjP resolve(State &s, E &ptr, E n, E &off, int opSlot, const char *what) {
    while (ptr->op == ITE) { E c = ptr->a[0]; bool t = forkRe(s, c); ptr = t ? ptr->a[1] : ptr->a[2]; (void)opSlot; }
    ObjP o; uint64_t a = 0; bool byModel = false;
    if (isC(ptr)) { a = (uint64_t)ptr->c; o = findObj(s, a);
      if (!o || (!o->d)) { if (isC(n, 0)) return nullptr; violation(s, "memory-safety", std::string(a < 4096 ? "null pointer " : "invalid or freed pointer ") + what, nullptr, "address " + ustr(a)); throw PathEnd{}; }
    } else {
      // constant part of the sum
      std::vector<E> st{ptr}; uint64_t cst = 0; bool has = false; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == ADD) { st.push_back(x->a[0]); st.push_back(x->a[1]); } else if (isC(x)) { cst += (uint64_t)x->c; has = true; } }
      if (has) { o = findObj(s, cst); if (!o) for (uint64_t d = 1; d <= 512 && !o; d++) { o = findObj(s, cst + d); if (!o && cst > d) o = findObj(s, cst - d); } }
      if (!o) { if (!s.model) { auto mm = std::make_shared<Model>(); std::vector<E> cs = s.pc; if (solve(cs, mm.get(), true) == Res::SAT) s.model = mm; } if (!s.model) throw EngineError{"symbolic pointer without model: " + str(ptr).substr(0, 400)}; byModel = true; a = (uint64_t)s.model->eval(ptr); o = findObj(s, a); if (!o) {
          // nested ite? try to fork on the first ITE inside
          E it = nullptr; std::vector<E> q{ptr}; std::unordered_set<E> seen; while (!q.empty() && !it) { E x = q.back(); q.pop_back(); if (!seen.insert(x).second) continue; if (x->op == ITE && x->w == 64) it = x; for (uint32_t i = 0; i < x->n; i++) q.push_back(x->a[i]); }
          if (it) { bool t = forkRe(s, it->a[0]); std::unordered_map<E, E> memo; memo[it] = t ? it->a[1] : it->a[2]; ptr = substitute(ptr, memo); return resolve(s, ptr, n, off, opSlot, what); }
          if (isC(n, 0)) return nullptr; violation(s, "memory-safety", std::string("wild pointer ") + what, nullptr, str(ptr)); throw PathEnd{}; } 
        else if (ptr->op == ADD || true) { // maybe an ITE inside: fork to single out
          E it = nullptr; std::vector<E> q{ptr}; std::unordered_set<E> seen; while (!q.empty() && !it) { E x = q.back(); q.pop_back(); if (!seen.insert(x).second) continue; if (x->op == ITE && x->w == 64 && (isC(x->a[1]) && x->a[1]->c > 0x1000000) ) it = x; for (uint32_t i = 0; i < x->n; i++) q.push_back(x->a[i]); }
          if (it) { bool t = forkRe(s, it->a[0]); std::unordered_map<E, E> memo; memo[it] = t ? it->a[1] : it->a[2]; ptr = substitute(ptr, memo); return resolve(s, ptr, n, off, opSlot, what); } } }
    }
    if (o->kind == FUNC) throw EngineError{"data access to function"};
    off = mk2(SUB, ptr, mkC(o->addr, 64));
    if (o->dead) { if (!isC(n, 0)) { violation(s, "memory-safety", std::string("use of dead stack object ") + what, nullptr, o->name); throw PathEnd{}; } }
    if (isC(off) && isC(n) && isC(o->d->size)) { uint64_t f = (uint64_t)off->c; if (f + (uint64_t)n->c > (uint64_t)o->d->size->c || f > (uint64_t)o->d->size->c) { violation(s, "memory-safety", std::string("out of bounds ") + what, nullptr, "object " + o->name + " size " + ustr(o->d->size->c) + " offset " + ustr(off->c)); throw PathEnd{}; } if (!(ctx && ctx->muted)) memOk++; return o; }
    E inb = mkAnd(mk2(ULE, n, o->d->size), mk2(ULE, off, mk2(SUB, o->d->size, n)));
    // a pointer that can point into several objects: one path for each
    if (byModel && s.model && s.model->eval(inb) && !isTrue(inb)) { if (!forkRe(s, inb)) throw EngineError{"symbolic pointer"}; return o; }
    check(s, inb, "memory-safety", std::string("in bounds ") + what); return o;
  }
  uint64_t memOk = 0;
  V loadT(State &s, Type *t, E ptr, int slot) {
    unsigned w = widthOf(t);
    if (w) { unsigned n = (w + 7) / 8; E off; ObjP o = resolve(s, ptr, mkC(n, 64), off, slot, "read"); E v = readObj(s, o, off, n); if (v->op == EXTRACT) v = mkExtract(v->a[0], v->aux, v->w); if (w < n * 8) v = mkExtract(v, 0, w); return v; }
    V r; r.agg = std::make_shared<std::vector<V>>();
    if (auto *st = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadT(s, st->getElementType(i), mk2(ADD, ptr, mkC(L->getElementOffset(i), 64)), slot)); return r; }
    Type *et; unsigned n; if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); } else if (auto *vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); } else throw EngineError{"load type"};
    for (unsigned i = 0; i < n; i++) r.agg->push_back(loadT(s, et, mk2(ADD, ptr, mkC(i * (uint64_t)DL->getTypeAllocSize(et), 64)), slot)); return r;
  }
  void storeT(State &s, Type *t, const V &v, E ptr, int slot) {
    unsigned w = widthOf(t);
    if (w) { unsigned n = (w + 7) / 8; E off; ObjP o = resolve(s, ptr, mkC(n, 64), off, slot, "write"); if (o->readonly) { violation(s, "memory-safety", "write to constant object", nullptr, o->name); throw PathEnd{}; } writeObj(s, o, off, v.e, n); return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, st->getElementType(i), (*v.agg)[i], mk2(ADD, ptr, mkC(L->getElementOffset(i), 64)), slot); return; }
    Type *et; unsigned n; if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); } else if (auto *vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); } else throw EngineError{"store type"};
    for (unsigned i = 0; i < n; i++) storeT(s, et, (*v.agg)[i], mk2(ADD, ptr, mkC(i * (uint64_t)DL->getTypeAllocSize(et), 64)), slot);
  }
  void doMemcpy(State &s, E dst, E src, E n) {
    if (isC(n, 0)) return; E so, dof; ObjP S = resolve(s, src, n, so, -1, "read (copy source)"); ObjP D = resolve(s, dst, n, dof, -1, "write (copy destination)");
    if (!S || !D) return; if (D->readonly) { violation(s, "memory-safety", "write to constant object", nullptr, D->name); throw PathEnd{}; }
    if (isC(n) && isC(so) && isC(dof) && S->d->hasBytes && !S->d->upd && D->d->hasBytes && !D->d->upd) {
      std::vector<E> tmp(S->d->bytes.begin() + (size_t)so->c, S->d->bytes.begin() + (size_t)so->c + (size_t)n->c); Obj &w = own(s, D); std::copy(tmp.begin(), tmp.end(), w.d->bytes.begin() + (size_t)dof->c); if (S->d->wid.size() == S->d->bytes.size()) { std::vector<uint8_t> tw(S->d->wid.begin() + (size_t)so->c, S->d->wid.begin() + (size_t)so->c + (size_t)n->c); setWid(*w.d, (uint64_t)dof->c, (unsigned)1); std::copy(tw.begin(), tw.end(), w.d->wid.begin() + (size_t)dof->c); } return; }
    if (isC(n) && n->c <= 64) { std::vector<E> tmp; for (uint64_t i = 0; i < (uint64_t)n->c; i++) tmp.push_back(readObj(s, S, mk2(ADD, so, mkC(i, 64)), 1)); for (uint64_t i = 0; i < (uint64_t)n->c; i++) writeObj(s, D, mk2(ADD, dof, mkC(i, 64)), tmp[i], 1); return; }
    auto snap = std::make_shared<ObjData>(*S->d); auto u = std::make_shared<Upd>(); u->range = true; u->idx = dof; u->val = nullptr; u->len = n; u->src = snap; u->srcOff = so; Obj &w = own(s, D); u->next = w.d->upd; w.d->upd = u;
  }
  void doMemset(State &s, E dst, E val, E n) {
    if (isC(n, 0)) return; E dof; ObjP D = resolve(s, dst, n, dof, -1, "write (memset)"); if (!D) return;
    if (isC(n) && isC(dof) && D->d->hasBytes && !D->d->upd) { Obj &w = own(s, D); for (uint64_t i = 0; i < (uint64_t)n->c; i++) w.d->bytes[(size_t)dof->c + i] = val; return; }
    auto u = std::make_shared<Upd>(); u->range = true; u->idx = dof; u->val = val; u->len = n; Obj &w = own(s, D); u->next = w.d->upd; w.d->upd = u;
  }
  // ---------- control ----------
  V operand(Frame &f, const KInst &ki, unsigned i) { int o = ki.ops[i]; if (o == INT_MIN) return undefOf(ki.I->getOperand(i)->getType()); return o >= 0 ? f.locals[o] : f.f->consts[-1 - o]; }
  E opE(Frame &f, const KInst &ki, unsigned i) { int o = ki.ops[i]; if (o == INT_MIN) return undefOf(ki.I->getOperand(i)->getType()).e; return o >= 0 ? f.locals[o].e : f.f->consts[-1 - o].e; }
  std::string loopKey(KFunc *k, BasicBlock *h) { unsigned idx = 0; for (auto &b : *k->F) { if (&b == h) break; idx++; } return k->F->getName().str() + ":" + std::to_string(idx); }
  unsigned cutThreshold = 5;

  void transfer(State &s, BasicBlock *to) {
    Frame &f = s.stack.back(); BasicBlock *from = curBlock(f);
    f.prev = from; unsigned st = f.f->blockStart[to]; unsigned pc = st; std::vector<std::pair<int, V>> ph;
    for (; pc < f.f->insts.size(); pc++) { auto *phi = dyn_cast<PHINode>(f.f->insts[pc].I); if (!phi) break; int idx = phi->getBasicBlockIndex(from); ph.push_back({f.f->insts[pc].dst, operand(f, f.f->insts[pc], idx)}); }
    for (auto &p : ph) f.locals[p.first] = p.second; f.pc = pc;
    if (f.f->loops.empty()) return;
    auto li = f.f->loops.find(to);
    // leaving loops: reset counters
    for (auto it = f.loops.begin(); it != f.loops.end();) { auto &L = f.f->loops[it->first]; if (!L.blocks.count(to)) { f.cuts.erase(it->first); it = f.loops.erase(it); } else ++it; }
    if (li == f.f->loops.end()) return;
    bool back = li->second.blocks.count(from) > 0;
    LoopCtr &ctr = f.loops[to];
    if (!back) { ctr = LoopCtr(); }
    else { ctr.iters++;
      if (ctr.iters > maxIter) { violationBound(s, "loop does not terminate within " + std::to_string(maxIter) + " iterations"); throw PathEnd{}; } }
    std::string key; int mode = 0, peel = 0;
    bool interesting = ctr.forks > 0 || !back;
    if (interesting) { key = loopKey(f.f, to); auto m = loopMode.find(key); if (m != loopMode.end()) mode = m->second; auto p = loopPeel.find(key); if (p != loopPeel.end()) peel = p->second; }
    if (back && f.cuts.count(to)) { // inductive step ends here
      auto ci = f.cuts[to]; if (ci->poly) { auto cp = std::make_unique<State>(s); if (!matchHeap(*cp, *ci->base, s.stack.size(), f.f, ci->header)) { f.cuts.erase(to); openCut(s, to, loopKey(f.f, to), ci->gen + 1); throw PathEnd{}; } } // another heap shape: a loop of its own
      closeCut(s, *ci); throw PathEnd{}; }
    if (ctx && ctx->header == to && back && s.stack.size() == ctx->frameDepth && f.id == ctx->frameId) { ctx->back.push_back(std::make_unique<State>(s)); throw PathEnd{}; }
    if (mode == 1 && (int)ctr.iters >= peel && (peel == 0 || ctr.forks > 0)) { openCut(s, to, key); throw PathEnd{}; }
    if (back && ctr.forks > 0) {
      unsigned lim = mode == 1 ? 1000 : (allowCut && mode == 0) ? cutThreshold : boundedUnroll;
      // forks counts both sides; iters with symbolic decisions
      if (ctr.iters >= lim && ctr.forks >= lim) {
        if (allowCut && mode == 0) { loopMode[key] = 1; loopPeel[key] = 0; throw Restart{"cut " + key}; }
        boundedWhy.insert("loop " + f.f->dem.substr(0, 120) + " unrolled " + std::to_string(lim) + " times" + (noCutWhy.count(key) ? " (not cut: " + noCutWhy[key] + ")" : "")); throw PathEnd{};
      } }
  }
  BasicBlock *curBlock(Frame &f) { return f.f->insts[f.pc ? f.pc - 1 : 0].I->getParent(); }
  void violationBound(State &s, const std::string &why) { violation(s, "termination", why, nullptr); }

  // ---------- loop cutting ----------
  E divExact(E e, uint64_t s) {
    if (s == 1) return e; if (isC(e)) return (int64_t)e->c % (int64_t)s == 0 ? mkC((uint64_t)((int64_t)e->c / (int64_t)s), 64) : nullptr;
    if (e->op == ADD) { E a = divExact(e->a[0], s), b = a ? divExact(e->a[1], s) : nullptr; return b ? mk2(ADD, a, b) : nullptr; }
    if (e->op == MUL) { for (int i = 0; i < 2; i++) if (isC(e->a[i])) { int64_t c = (int64_t)(uint64_t)e->a[i]->c; if (c % (int64_t)s == 0) return mk2(MUL, e->a[1 - i], mkC((uint64_t)(c / (int64_t)s), 64)); } return nullptr; }
    if (e->op == SHL && isC(e->a[1]) && e->a[1]->c < 60) { uint64_t c = 1ull << (uint64_t)e->a[1]->c; if (c % s == 0) return mk2(MUL, e->a[0], mkC(c / s, 64)); return nullptr; }
    if (e->op == CONCAT && e->n == 2 && isC(e->a[1], 0) && s == (1ull << e->a[1]->w)) return mkZExt(e->a[0], 64);
    if (e->op == ITE) { E a = divExact(e->a[1], s), b = a ? divExact(e->a[2], s) : nullptr; return b ? mkIte(e->a[0], a, b) : nullptr; }
    return nullptr; }
  E locValue(State &s, const HavocLoc &l, uint32_t frameDepth) {
    E v; if (l.local) v = s.stack[frameDepth - 1].locals[l.slot].e;
    else { ObjP o = findObj(s, l.addr); if (!o || !o->d) return nullptr; v = readObj(s, o, mkC(l.off, 64), l.bytes); }
    if (l.stride && v) v = divExact(mk2(SUB, v, mkC(l.base, 64)), l.stride); return v;
  }
  uint64_t ptrObj(State &s, E v) { // the object a pointer value points into (by its constant part)
    if (!v || v->w != 64) return 0; uint64_t cst = 0; std::vector<E> st{v}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == ADD) { st.push_back(x->a[0]); st.push_back(x->a[1]); } else if (isC(x)) cst += (uint64_t)x->c; }
    if (cst < 0x1000000ull) return 0; ObjP o = findObj(s, cst); return o && o->kind != FUNC ? o->addr : 0; }
  // a location holding a pointer that moves inside one object; false: it changes object
  bool pointerLoc(State &B, State &ref, State &s0, E bv, E rv, HavocLoc &l, E initVal) {
    uint64_t ob = ptrObj(B, bv), orf = ptrObj(ref, rv), oi = ptrObj(s0, initVal); if (!ob || ob != orf || ob != oi) return false;
    E d = mk2(SUB, bv, rv); uint64_t st = 1; if (isC(d) && d->c) { int64_t x = (int64_t)(uint64_t)d->c; st = (uint64_t)(x < 0 ? -x : x); }
    E io = divExact(mk2(SUB, initVal, mkC(ob, 64)), st); if (!io) { st = 1; io = mk2(SUB, initVal, mkC(ob, 64)); }
    l.base = ob; l.stride = st; l.init = io; return true; }
  bool sameBytes(const Obj &a, const Obj &b) { return a.d == b.d || (a.d->hasBytes == b.d->hasBytes && a.d->bytes == b.d->bytes && a.d->base == b.d->base && a.d->upd == b.d->upd && a.d->size == b.d->size); }
  // canonicalise heap of B relative to S (rename new objects to gone ones). false if shapes differ.
  std::string shapeWhy;
  bool matchHeap(State &B, const State &S, size_t depth, KFunc *f, BasicBlock *header) {
    for (int round = 0; round < 50; round++) {
      std::map<uint64_t, uint64_t> ren; std::set<uint64_t> news, gone;
      for (auto &p : B.mem) if (!S.mem.count(p.first)) { if (p.second->kind == HEAP) news.insert(p.first); }
      for (auto &p : S.mem) if (!B.mem.count(p.first)) { if (p.second->kind == HEAP) gone.insert(p.first); }
      if (news.empty() && gone.empty()) return true;
      auto objOf = [&](const std::set<uint64_t> &set, const std::map<uint64_t, ObjP> &mem, uint64_t a) -> uint64_t { auto it = set.upper_bound(a); if (it == set.begin()) return 0; --it; auto o = mem.at(*it); return a - *it <= o->span ? *it : 0; };
      auto consider = [&](E sv, E bv) { if (!sv || !bv || !isC(sv) || !isC(bv) || sv == bv) return; uint64_t g = objOf(gone, S.mem, (uint64_t)sv->c), n = objOf(news, B.mem, (uint64_t)bv->c); if (g && n && (uint64_t)sv->c - g == (uint64_t)bv->c - n && !ren.count(n)) { auto so = S.mem.at(g), bo = B.mem.at(n); if (so->d->size == bo->d->size) { for (auto &r : ren) if (r.second == g) return; ren[n] = g; } } };
      auto word = [&](const ObjP &o, size_t off) -> E { if (!o->d->hasBytes || o->d->upd) return nullptr; u128 v = 0; for (int i = 0; i < 8; i++) { E b = o->d->bytes[off + i]; if (!b || !isC(b)) return nullptr; v |= b->c << (8 * i); } return mkC(v, 64); };
      for (auto &p : B.mem) { auto si = S.mem.find(p.first); ObjP so; if (si != S.mem.end()) so = si->second; else { auto g = gmem.find(p.first); if (g == gmem.end()) continue; so = g->second; }
        if (so->d == p.second->d || !p.second->d->hasBytes || !so->d->hasBytes || so->d->bytes.size() != p.second->d->bytes.size()) continue;
        for (size_t i = 0; i + 8 <= so->d->bytes.size(); i += 8) consider(word(so, i), word(p.second, i)); }
      for (auto &I : *header) { auto *phi = dyn_cast<PHINode>(&I); if (!phi) break; int sl = f->slots[phi]; consider(S.stack[depth - 1].locals[sl].e, B.stack[depth - 1].locals[sl].e); }
      if (ren.empty()) { shapeWhy = "heap shape changes: " + std::to_string(news.size()) + " new, " + std::to_string(gone.size()) + " gone objects"; for (auto n : news) shapeWhy += " +" + B.mem[n]->name + "[" + str(B.mem[n]->d->size) + "]"; for (auto n : gone) shapeWhy += " -" + S.mem.at(n)->name + "[" + str(S.mem.at(n)->d->size) + "]"; return false; }
      auto renE = [&](E e) -> E { if (!e || !isC(e) || e->w != 64) return e; for (auto &r : ren) { uint64_t sp = B.mem[r.first]->span; if ((uint64_t)e->c >= r.first && (uint64_t)e->c <= r.first + sp) return mkC((uint64_t)e->c - r.first + r.second, 64); } return e; };
      for (auto &p : B.mem) { auto &o = p.second; if (!o->d || !o->d->hasBytes || o->d->upd) continue; for (size_t i = 0; i + 8 <= o->d->bytes.size(); i += 8) { E w = word(o, i); if (!w) continue; E r = renE(w); if (r != w) { auto n = std::make_shared<Obj>(*o); n->d = std::make_shared<ObjData>(*o->d); for (int k = 0; k < 8; k++) n->d->bytes[i + k] = mkExtract(r, k * 8, 8); p.second = n; } } }
      for (auto &fr : B.stack) for (auto &v : fr.locals) if (v.e) v.e = renE(v.e);
      std::vector<std::pair<uint64_t, ObjP>> moved; for (auto &r : ren) { auto o = B.mem[r.first]; B.mem.erase(r.first); auto n = std::make_shared<Obj>(*o); n->addr = r.second; moved.push_back({r.second, n}); } for (auto &m : moved) B.mem[m.first] = m.second;
    }
    return false;
  }
  void havocInto(State &h, CutInfo &ci) {
    for (auto &l : ci.locs) { unsigned w = l.local ? l.init->w : l.bytes * 8; if (!l.sym) l.sym = mkSym("havoc" + std::to_string(freshCtr++), w);
      E hv = l.stride ? mk2(ADD, mkC(l.base, 64), mk2(MUL, l.sym, mkC(l.stride, 64))) : l.sym;
      if (l.local) h.stack.back().locals[l.slot] = V(hv); else { ObjP o = findObj(h, l.addr); writeObj(h, o, mkC(l.off, 64), hv, l.bytes); } }
    h.abstract = true;
  }
  E evalInv(State &s, uint64_t fn, uint64_t cx) { // symbolic evaluation of bool fn(void*) in state s, merged over its paths
    auto it = faddr.find(fn); if (it == faddr.end()) throw EngineError{"bad invariant function"};
    Ctx c; c.muted = true; c.evalMode = true; c.evalDepth = s.stack.size(); auto n = std::make_unique<State>(s); size_t base = s.pc.size(); c.basePc = base;
    pushFrame(*n, it->second, {V(mkC(cx, 64))}, -1, nullptr, nullptr); n->stack.back().isInvEval = true; c.work.push_back(std::move(n)); explore(c);
    E r = mkBool(false); for (auto &p : c.results) { E g = mkNe(p.second, mkC(0, p.second->w)); for (size_t i = base; i < p.first->pc.size(); i++) g = mkAnd(p.first->pc[i], g); r = mkOr(r, g); } return r;
  }
  E evalVal(State &s, uint64_t fn, uint64_t cx) { // the same for uint64_t fn(void*)
    auto it = faddr.find(fn); if (it == faddr.end()) throw EngineError{"bad variant function"};
    Ctx c; c.muted = true; c.evalMode = true; c.evalDepth = s.stack.size(); auto n = std::make_unique<State>(s); size_t base = s.pc.size(); c.basePc = base;
    pushFrame(*n, it->second, {V(mkC(cx, 64))}, -1, nullptr, nullptr); n->stack.back().isInvEval = true; c.work.push_back(std::move(n)); explore(c);
    E r = nullptr; for (auto &p : c.results) { E g = mkBool(true); for (size_t i = base; i < p.first->pc.size(); i++) g = mkAnd(p.first->pc[i], g); r = r ? mkIte(g, p.second, r) : p.second; } if (!r) throw EngineError{"variant has no value"}; return r;
  }
  void explore(Ctx &c) { ctxStack.push_back(ctx); ctx = &c; std::vector<StateP> *w = &c.work;
    try { while (!w->empty()) { StateP s = std::move(w->back()); w->pop_back(); runState(std::move(s)); if (now() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit"; throw EngineError{"time limit"}; } } } catch (...) { ctx = ctxStack.back(); ctxStack.pop_back(); throw; }
    ctx = ctxStack.back(); ctxStack.pop_back(); }
  E weak(E c) { if (c->op == ULT) return mk2(ULE, c->a[0], c->a[1]); if (c->op == SLT) return mk2(SLE, c->a[0], c->a[1]); return c; }
  // which goals follow from the path condition (conservative); batches them and uses models to discard many at once
  std::vector<char> provable(State &s, const std::vector<E> &goals) {
    std::vector<char> ok(goals.size(), 1); for (size_t i = 0; i < goals.size(); i++) if (isFalse(goals[i])) ok[i] = 0;
    if (s.model) for (size_t i = 0; i < goals.size(); i++) if (ok[i] && s.model->eval(goals[i]) == 0) ok[i] = 0;
    while (true) {
      E all = mkBool(true); size_t cnt = 0; for (size_t i = 0; i < goals.size(); i++) if (ok[i]) { all = mkAnd(all, goals[i]); cnt++; }
      if (!cnt) return ok; std::shared_ptr<Model> m; Res r = query(s, mkNot(all), &m, false); if (r == Res::UNSAT) return ok;
      bool any = false; if (r == Res::SAT) for (size_t i = 0; i < goals.size(); i++) if (ok[i] && m->eval(goals[i]) == 0) { ok[i] = 0; any = true; }
      if (!any) { for (size_t i = 0; i < goals.size(); i++) if (ok[i] && query(s, mkNot(goals[i]), nullptr, false) != Res::UNSAT) ok[i] = 0; return ok; } }
  }
  void openCut(State &s0, BasicBlock *h, const std::string &key, int gen = 0) {
    cutsDone++; Frame &f0 = s0.stack.back(); size_t depth = s0.stack.size(); KFunc *k = f0.f; auto ci = std::make_shared<CutInfo>(); ci->header = h; ci->gen = gen; ci->base = std::make_shared<State>(s0);
    f0.loops.erase(h);
    for (auto &I : *h) { auto *phi = dyn_cast<PHINode>(&I); if (!phi) break; int sl = k->slots[phi]; V v = f0.locals[sl]; if (!v.e) throw EngineError{"aggregate phi in cut loop"}; }
    std::set<E> dropped; std::vector<E> cands; bool candsReady = false; std::vector<std::pair<std::string, E>> userInvs;
    // a user invariant takes part in this cut if it holds on arrival and is preserved (otherwise the cut does without it)
    { std::vector<E> goals; for (auto &iv : s0.invs) goals.push_back(evalInv(s0, iv.fn, iv.ctx)); std::vector<char> ok = provable(s0, goals); for (size_t i = 0; i < goals.size(); i++) if (ok[i]) ci->active.push_back(i); else { if (getenv("VF_CUTDBG")) fprintf(stderr, "user invariant '%s' does not hold on arrival at %s\n", s0.invs[i].name.c_str(), key.c_str()); } }
    auto fail = [&](const std::string &why) { int &p = loopPeel[key]; if (p < 2) { p++; throw Restart{"peel " + key + " " + why}; } loopMode[key] = -1; noCutWhy[key] = why; throw Restart{"nocut " + key + " " + why}; };
    for (int round = 0; round < 60; round++) {
      if (now() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit in loop cut"; throw EngineError{"time limit"}; }
      auto hs = std::make_unique<State>(s0); havocInto(*hs, *ci); hs->model = nullptr;
      // user invariants evaluated at the havoced header
      userInvs.clear(); for (auto ai : ci->active) { auto &iv = s0.invs[ai]; userInvs.push_back({iv.name, evalInv(*hs, iv.fn, iv.ctx)}); }
      for (auto &u : userInvs) { addC(*hs, u.second); }
      for (E c : cands) if (!dropped.count(c)) addC(*hs, c);
      { auto mm = std::make_shared<Model>(); Res r = solve(hs->pc, mm.get()); if (r == Res::UNSAT) { if (getenv("VF_CUTDBG")) fprintf(stderr, "loop header unreachable\n"); return; } if (r == Res::SAT) hs->model = mm; }
      size_t basePc = hs->pc.size(); StateP ref = std::make_unique<State>(*hs);
      Ctx c; c.muted = true; c.header = h; c.frameId = f0.id; c.frameDepth = depth; hs->stack.back().loops[h] = LoopCtr(); c.work.push_back(std::move(hs));
      // exploring: states leaving the loop are dropped (see runState/leave check)
      explore(c);
      bool grew = false; std::vector<E> newC;
      for (auto &B : c.back) {
        if (gen < 3) { auto cp = std::make_unique<State>(*B); if (!matchHeap(*cp, *ref, depth, k, h)) { ci->poly = true; B = nullptr; continue; } B = std::move(cp); } else if (!matchHeap(*B, *ref, depth, k, h)) fail(shapeWhy);
        for (auto &l : ci->locs) if (l.stride > 1 && !locValue(*B, l, depth)) { l.init = mk2(MUL, l.init, mkC(l.stride, 64)); l.stride = 1; grew = true; }
        // phis
        for (auto &I : *h) { auto *phi = dyn_cast<PHINode>(&I); if (!phi) break; int sl = k->slots[phi]; E a = ref->stack[depth - 1].locals[sl].e, b = B->stack[depth - 1].locals[sl].e; if (a != b) { bool have = false; for (auto &l : ci->locs) if (l.local && l.slot == sl) have = true; if (!have) { if (!b) fail("aggregate phi"); HavocLoc l{}; l.local = true; l.slot = sl; l.init = s0.stack.back().locals[sl].e; if (!pointerLoc(*B, *ref, s0, b, a, l, l.init) && phi->getType()->isPointerTy() && isC(a) && isC(b)) { fail("pointer phi changes"); } ci->locs.push_back(l); grew = true; } } }
        std::set<uint64_t> addrs; for (auto &p : B->mem) addrs.insert(p.first); for (auto &p : ref->mem) addrs.insert(p.first);
        for (uint64_t a : addrs) {
          auto bi = B->mem.find(a), ri = ref->mem.find(a); ObjP bo = bi == B->mem.end() ? nullptr : bi->second, ro = ri == ref->mem.end() ? nullptr : ri->second; if (!ro) { auto g = gmem.find(a); if (g != gmem.end()) ro = g->second; }
          if (!bo || !ro) { if (bo && bo->kind == STACK && bo->frameId != f0.id) continue; if (ro && ro->kind == STACK) continue; if (bo && bo->kind == STACK && bo->frameId == f0.id) continue; if (!bo && ro && ro->kind == GLOBAL) continue; fail("object set changes: " + (bo ? "new " + bo->name : "gone " + ro->name)); }
          if (bo->dead && ro->dead) continue; if (sameBytes(*bo, *ro)) continue; if (bo->kind == STACK && (bo->dead || ro->dead)) { continue; }
          if (!bo->d->hasBytes || !ro->d->hasBytes || bo->d->upd || ro->d->upd || bo->d->bytes.size() != ro->d->bytes.size()) { fail("symbolic object " + bo->name + " modified in loop"); }
          size_t n = bo->d->bytes.size();
          auto addLoc = [&](size_t off, size_t bytes) { for (auto &l : ci->locs) if (!l.local && l.addr == a && l.off <= off && off + bytes <= l.off + l.bytes) return;
            HavocLoc l{}; l.local = false; l.addr = a; l.off = off; l.bytes = bytes; ObjP io = findObj(*ci->base, a); l.init = io ? readObj(*ci->base, io, mkC(off, 64), bytes) : nullptr; if (!io) return;
            E bv = readObj(*B, bo, mkC(off, 64), bytes), rv = readObj(*ref, ro, mkC(off, 64), bytes);
            if (bytes == 8 && pointerLoc(*B, *ref, s0, bv, rv, l, l.init)) {}
            else if (bytes == 8 && isC(bv) && isC(rv) && (bv->c > 0x1000000ull || rv->c > 0x1000000ull) && (findObj(*B, (uint64_t)bv->c) || findObj(*ref, (uint64_t)rv->c))) { fail("pointer changes in loop in " + bo->name + "+" + std::to_string(off)); }
            ci->locs.erase(std::remove_if(ci->locs.begin(), ci->locs.end(), [&](HavocLoc &q) { return !q.local && q.addr == a && q.off >= off && q.off + q.bytes <= off + bytes; }), ci->locs.end());
            ci->locs.push_back(l); grew = true; };
          auto field = [&](const ObjData &d, size_t i, size_t &st, size_t &len) { if (d.wid.size() != d.bytes.size()) return false; for (size_t k = 0; k < 8 && k <= i; k++) if (d.wid[i - k] > k) { st = i - k; len = d.wid[i - k]; return true; } return false; };
          for (size_t i = 0; i < n; i++) { if (bo->d->bytes[i] == ro->d->bytes[i]) continue; size_t st = i, len = 1; if (!field(*bo->d, i, st, len)) field(*ro->d, i, st, len); if (st + len > n) { st = i; len = 1; } addLoc(st, len); i = std::max(i, st + len - 1); }
        }
      }
      c.back.erase(std::remove(c.back.begin(), c.back.end(), nullptr), c.back.end());
      // symbols must exist for new locs -> next round; keep candidate computation for when the set is stable
      if (grew) { for (auto &l : ci->locs) l.sym = nullptr; cands.clear(); candsReady = false; dropped.clear(); continue; }
      // values at back edge
      auto substB = [&](State &B) { std::unordered_map<E, E> memo; for (auto &l : ci->locs) { E v = locValue(B, l, depth); if (!v) return std::unordered_map<E, E>(); memo[l.sym] = v; } return memo; };
      std::unordered_map<E, E> memo0; for (auto &l : ci->locs) memo0[l.sym] = l.init;
      if (!candsReady) {
        candsReady = true; std::set<E> cs; auto add = [&](E x) { if (!isC(x)) cs.insert(x); };
        for (auto &l : ci->locs) { E v = l.sym, i = l.init; if (v->w > 64) continue; add(mk2(EQ, v, i)); if (v->w > 1) { add(mk2(ULE, v, i)); add(mk2(ULE, i, v)); if (v->w == 32 || v->w == 64) { add(mk2(SLE, v, i)); add(mk2(SLE, i, v)); } } else { add(mkImplies(v, i)); add(mkImplies(i, v)); } if (v->w == 8) { add(mk2(ULE, v, mkC(1, 8))); } }
        for (size_t i = 0; i < ci->locs.size(); i++) for (size_t j = i + 1; j < ci->locs.size(); j++) { auto &p = ci->locs[i], &q = ci->locs[j]; unsigned w = std::min(p.sym->w, q.sym->w); if (w < 8 || (w < 32 && p.sym->w != q.sym->w) || p.sym->w > 64 || q.sym->w > 64) continue; E dp = mk2(SUB, mkExtract(p.sym, 0, w), mkExtract(p.init, 0, w)), dq = mk2(SUB, mkExtract(q.sym, 0, w), mkExtract(q.init, 0, w)); add(mk2(EQ, dp, dq)); add(mk2(EQ, dp, mk2(SUB, mkC(0, w), dq))); if (p.sym->w == q.sym->w) { add(mk2(ULE, p.sym, q.sym)); add(mk2(ULE, q.sym, p.sym)); add(mk2(EQ, p.sym, q.sym)); } }
        for (auto &B : c.back) for (size_t i = basePc; i < B->pc.size(); i++) { E x = B->pc[i]; { E y = mkNot(x); if (y->op == EQ && y->a[0]->w == 64) { add(mk2(ULE, y->a[0], y->a[1])); add(mk2(ULE, y->a[1], y->a[0])); } } bool own = true; for (auto sy : symsOf(x)) { if (sy & 0x80000000u) continue; const std::string &nm = symName(sy); if (nm.compare(0, 2, "n:") == 0) {} } if (own) { add(x); add(weak(x)); } }
        // drop candidates that do not hold on arrival
        std::vector<std::pair<E, E>> pend; for (E x : cs) { bool hasSym = false; for (auto &l : ci->locs) for (auto sy : symsOf(x)) if (l.sym->op == SYM && l.sym->aux == sy) hasSym = true; if (!hasSym) continue; auto m = memo0; E x0 = substitute(x, m); if (isTrue(x0)) { cands.push_back(x); continue; } if (isFalse(x0)) continue; pend.push_back({x, x0}); }
        { std::vector<E> goals; for (auto &p : pend) goals.push_back(p.second); std::vector<char> ok = provable(s0, goals); for (size_t i = 0; i < pend.size(); i++) if (ok[i]) cands.push_back(pend[i].first); }
        if (!cands.empty()) continue;
      }
      // Houdini: all candidates must be preserved by every back edge
      bool drop = false;
      for (auto &B : c.back) { auto memo = substB(*B); if (memo.empty() && !ci->locs.empty()) fail("location vanished"); std::vector<E> goals, who; for (E x : cands) if (!dropped.count(x)) { auto m = memo; E xb = substitute(x, m); if (isTrue(xb)) continue; goals.push_back(xb); who.push_back(x); }
        std::vector<char> ok = provable(*B, goals); for (size_t i = 0; i < goals.size(); i++) if (!ok[i]) { dropped.insert(who[i]); drop = true; } }
      if (drop) continue;
      for (size_t q = ci->active.size(); q-- > 0;) { auto &iv = s0.invs[ci->active[q]]; bool keep = true; for (auto &B : c.back) { std::vector<E> g1{evalInv(*B, iv.fn, iv.ctx)}; if (!provable(*B, g1)[0]) { keep = false; break; } } if (!keep) { if (getenv("VF_CUTDBG")) fprintf(stderr, "user invariant '%s' not preserved at %s\n", iv.name.c_str(), key.c_str()); ci->active.erase(ci->active.begin() + q); drop = true; } }
      if (drop) continue;
      // stable. User invariants: base + step are real obligations.
      for (auto &l : ci->locs) (void)l;
      for (size_t ui = 0; ui < userInvs.size(); ui++) { auto m = memo0; E x0 = substitute(userInvs[ui].second, m); check(s0, x0, "loop-invariant", userInvs[ui].first + " (established)"); }
      for (E x : cands) if (!dropped.count(x)) { ci->invs.push_back(x); invsProved++; }
      cutLoops.insert(k->dem.substr(0, 160)); if (getenv("VF_CUTDBG")) { fprintf(stderr, "CUT %s\n", key.c_str()); for (auto &l : ci->locs) fprintf(stderr, "  loc %s init %s sym %s\n", l.local ? "phi" : (findObj(s0, l.addr)->name + "+" + std::to_string(l.off) + ":" + std::to_string(l.bytes)).c_str(), str(l.init, 4).c_str(), symName(l.sym->aux).c_str()); for (E x : ci->invs) fprintf(stderr, "  inv %s\n", str(x, 6).c_str()); }
      auto fin = std::make_unique<State>(s0); havocInto(*fin, *ci); fin->model = nullptr; for (auto &u : userInvs) addC(*fin, u.second); for (E x : ci->invs) addC(*fin, x);
      { auto mm = std::make_shared<Model>(); Res r = solve(fin->pc, mm.get()); if (r == Res::UNSAT) return; if (r == Res::SAT) fin->model = mm; }
      ci->variants.clear(); for (auto &vr : fin->variants) ci->variants.push_back(evalVal(*fin, vr.fn, vr.ctx));
      ci->base = std::make_shared<State>(*fin); fin->stack.back().cuts[h] = ci; fin->stack.back().loops[h] = LoopCtr(); ctx->work.push_back(std::move(fin)); return;
    }
    fail("no fixpoint");
  }
  void closeCut(State &s, CutInfo &ci) {
    Frame &f = s.stack.back(); if (!matchHeap(s, *ci.base, s.stack.size(), f.f, ci.header)) { violation(s, "loop-invariant", "heap shape preserved", nullptr, shapeWhy); return; }
    if (ctx && ctx->muted) return;
    std::unordered_map<E, E> memo; for (auto &l : ci.locs) { E v = locValue(s, l, s.stack.size()); if (!v) { violation(s, "loop-invariant", "location lost", nullptr); return; } memo[l.sym] = v; }
    for (size_t i = 0; i < ci.variants.size() && i < s.variants.size(); i++) { E x = evalVal(s, s.variants[i].fn, s.variants[i].ctx); check(s, mk2(ULT, x, ci.variants[i]), "termination", "every iteration decreases " + s.variants[i].name); }
    for (auto ai : ci.active) { auto &iv = s.invs[ai]; E x = evalInv(s, iv.fn, iv.ctx); check(s, x, "loop-invariant", iv.name + " (preserved)"); }
    for (E x : ci.invs) { auto m = memo; E y = substitute(x, m); if (!isTrue(y)) check(s, y, "loop-invariant", "inferred (preserved)"); }
  }
  // ---------- calls ----------
  void pushFrame(State &s, Function *F, const std::vector<V> &args, int retSlot, BasicBlock *nd, BasicBlock *ud) {
    if (s.stack.size() > 400) { violation(s, "termination", "unbounded recursion in " + demangle(F->getName().str()).substr(0, 100), nullptr); throw PathEnd{}; }
    KFunc *k = kf(F); if (!(ctx && ctx->evalMode)) used.insert(k); s.stack.emplace_back(); Frame &f = s.stack.back(); f.f = k; f.locals.resize(k->nslots); f.id = s.nextFrame++; f.retSlot = retSlot; f.normalDest = nd; f.unwindDest = ud; f.pc = 0;
    unsigned i = 0; for (auto &a : F->args()) { V v = i < args.size() ? args[i] : V(freshUndef(64)); if (a.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()); uint64_t n = allocObj(s, STACK, mkC(sz, 64), "byval"); s.mem[n]->frameId = f.id; s.stack.back().allocas.push_back(n); doMemcpy(s, mkC(n, 64), v.e, mkC(sz, 64)); v = V(mkC(n, 64)); } s.stack.back().locals[k->slots[&a]] = v; i++; }
  }
  void setRet(State &s, int slot, const V &v) { if (slot >= 0) s.stack.back().locals[slot] = v; }
  void popFrame(State &s) { Frame &f = s.stack.back(); for (auto a : f.allocas) s.mem.erase(a); s.stack.pop_back(); }
  // finish a builtin call at instruction I with value v
  void finish(State &s, const KInst &ki, const V &v) { if (ki.dst >= 0) s.stack.back().locals[ki.dst] = v; if (auto *inv = dyn_cast<InvokeInst>(ki.I)) transfer(s, inv->getNormalDest()); }
  int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
  std::string gname(uint64_t a) { auto it = gmem.find(a); return it == gmem.end() ? "" : it->second->name; }
  static const std::map<std::string, std::string> &stdBases() { static std::map<std::string, std::string> m = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}}; return m; }
  // does type 'from' (typeinfo addr) derive from 'to'? offset out
  bool derives(uint64_t from, uint64_t to, int64_t &off) {
    off = 0; if (from == to) return true; std::string fn = gname(from), tn = gname(to); if (!fn.empty() && fn == tn) return true;
    auto sb = stdBases().find(fn); auto *g = M->getNamedGlobal(fn);
    if (!g || !g->hasInitializer()) { if (sb == stdBases().end()) return false; if (sb->second == tn) return true; auto *b = M->getNamedGlobal(sb->second); if (b) return derives(gaddr[b], to, off); 
      // base typeinfo not in module: walk names
      std::string cur = sb->second; while (true) { auto n = stdBases().find(cur); if (n == stdBases().end()) return false; cur = n->second; if (cur == tn) return true; } }
    auto *st = dyn_cast<ConstantStruct>(g->getInitializer()); if (!st) return false; unsigned n = st->getNumOperands();
    if (n == 3) { uint64_t b = (uint64_t)evalConst(st->getOperand(2)).e->c; return derives(b, to, off); } // __si_class_type_info
    if (n >= 4 && st->getOperand(2)->getType()->isIntegerTy()) { unsigned cnt = cast<ConstantInt>(st->getOperand(3))->getZExtValue(); for (unsigned i = 0; i < cnt && 5 + 2 * i < n; i++) { uint64_t b = (uint64_t)evalConst(st->getOperand(4 + 2 * i)).e->c; int64_t fl = cast<ConstantInt>(st->getOperand(5 + 2 * i))->getSExtValue(); int64_t o2; if (derives(b, to, o2)) { if (fl & 1) throw EngineError{"virtual base"}; off = (fl >> 8) + o2; return true; } } }
    return false;
  }
  std::map<uint64_t, int64_t> catchAdj; // per landing; stored in exc
  // unwinding: start with the call instruction of the top frame
  void unwind(State &s, uint64_t exc, BasicBlock *pad) {
    ExcInfo &ei = s.excs[exc];
    while (true) {
      if (pad) { auto *lp = pad->getLandingPadInst(); int sel = 0; bool enter = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { E t = evalConst(cast<Constant>(lp->getClause(i)->stripPointerCasts())).e; uint64_t ta = (uint64_t)t->c; int64_t off; if (ta == 0) { enter = true; sel = 0x7fff; break; } if (derives(ei.ti, ta, off)) { enter = true; sel = typeId(ta); if (off) throw EngineError{"catch with base offset"}; break; } } else { throw EngineError{"filter clause"}; } }
        if (enter) { Frame &f = s.stack.back(); f.pc = f.pc; transfer(s, pad); Frame &g = s.stack.back(); KInst &lk = g.f->insts[g.pc]; V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(V(mkC(exc, 64))); v.agg->push_back(V(mkC(sel, 32))); g.locals[lk.dst] = v; g.pc++; return; } }
      // pop
      pad = s.stack.back().unwindDest; bool inv = s.stack.back().isInvEval; if (s.stack.size() == 1 || inv) { violation(s, "exceptions", "no exception escapes the contract: " + excName(ei.ti), nullptr); throw PathEnd{}; }
      if (ctx->header && s.stack.size() == ctx->frameDepth) throw PathEnd{}; // leaves the loop being analysed
      popFrame(s);
    }
  }
  std::string excName(uint64_t ti) { std::string n = gname(ti); if (n.size() > 4) return demangle("_Z" + n.substr(4).insert(0, "TI")); return n; }
  BasicBlock *padOf(const KInst &ki) { if (auto *i = dyn_cast<InvokeInst>(ki.I)) return i->getUnwindDest(); return nullptr; }
  void callFunc(State &s, const KInst &ki, Function *F, std::vector<V> &args) {
    auto *cb = cast<CallBase>(ki.I); BasicBlock *nd = nullptr, *ud = nullptr; if (auto *i = dyn_cast<InvokeInst>(cb)) { nd = i->getNormalDest(); ud = i->getUnwindDest(); }
    if (!s.contracts.empty()) { KFunc *k = kf(F); 
      for (auto &c : s.contracts) if (k->dem.compare(0, c.pat.size(), c.pat) == 0) { uint64_t stub = c.fn; auto sf = faddr.find(stub); if (sf == faddr.end()) throw EngineError{"bad contract stub"}; if (sf->second == F) continue;
        bool inStub = false; for (auto &fr : s.stack) if (fr.f->F == sf->second) inStub = true; if (inStub) continue;
        if (c.mode == 1) { bool on = false; for (auto &fr : s.stack) if (fr.f->F == F) on = true; if (!on) continue; }
        if (c.mode == 2) { // only for the same demangled prefix already on stack (recursion through other instantiations)
          bool on = false; for (auto &fr : s.stack) if (fr.f->dem.compare(0, c.pat.size(), c.pat) == 0) on = true; if (!on) continue; }
        contracted.insert(k->dem.substr(0, 200)); pushFrame(s, sf->second, args, ki.dst, nd, ud); return; } }
    if (!F->isDeclaration() && !((F->getName() == "memcmp" || F->getName() == "bcmp") && args.size() == 3 && isC(args[2].e) && args[2].e->c <= 256)) { pushFrame(s, F, args, ki.dst, nd, ud); return; }
    builtin(s, ki, F, args);
  }
  std::string cstr(State &s, E p) { std::string r; if (!isC(p)) throw EngineError{"symbolic C string"}; uint64_t a = (uint64_t)p->c; ObjP o = findObj(s, a); if (!o) throw EngineError{"bad C string"}; for (uint64_t i = a - o->addr; i < o->d->bytes.size(); i++) { E b = o->d->bytes[i]; if (!b || !isC(b)) throw EngineError{"symbolic C string"}; if (!b->c) break; r += (char)b->c; } return r; }
  void throwStd(State &s, const KInst &ki, const char *fn) { // call model function that throws
    Function *F = M->getFunction(fn); if (!F || F->isDeclaration()) throw EngineError{std::string("missing model function ") + fn}; BasicBlock *ud = padOf(ki); pushFrame(s, F, {}, -1, nullptr, ud); }
  void freeObj(State &s, E p, const char *what) {
    while (p->op == ITE) { p = forkRe(s, p->a[0]) ? p->a[1] : p->a[2]; }
    if (isC(p, 0)) return; if (!isC(p)) p = mkC(concretize(s, p, "freed pointer"), 64); auto it = s.mem.find((uint64_t)p->c); if (it == s.mem.end() || it->second->kind != HEAP) { violation(s, "memory-safety", std::string("invalid or double ") + what, nullptr, ustr(p->c)); throw PathEnd{}; }
    if (!(ctx && ctx->muted)) memOk++; s.mem.erase(it);
  }
  // Itanium C++ ABI exception reference counting (libsupc++): one reference for the throw, one per exception_ptr and per dependent exception
  void decRef(State &s, uint64_t exc) {
    auto it = s.excs.find(exc); if (it == s.excs.end()) { violation(s, "memory-safety", "exception object released twice", nullptr); throw PathEnd{}; }
    if (--it->second.refs > 0) return; uint64_t d = it->second.dtor; s.excs.erase(it);
    if (d) { Function *F = faddr[d]; if (F && !F->isDeclaration()) { pushFrame(s, F, {V(mkC(exc, 64))}, -1, nullptr, nullptr); s.stack.back().freeOnReturn = exc; return; } }
    s.mem.erase(exc);
  }
  void builtin(State &s, const KInst &ki, Function *F, std::vector<V> &a) {
    StringRef n = F->getName(); auto *I = ki.I; Frame *fp = &s.stack.back(); (void)fp;
    auto is = [&](const char *x) { return n == x; };
    if (n.starts_with("llvm.")) { intrinsic(s, ki, F, a); return; }
    if (n.starts_with("vf_")) { vfcall(s, ki, n, a); return; }
    if (is("_Znwm") || is("_Znam") || is("_ZnwmSt11align_val_t") || is("_ZnamSt11align_val_t") || is("malloc") || is("_ZnwmRKSt9nothrow_t") || is("_ZnamRKSt9nothrow_t")) {
      E sz = a[0].e; E tooBig = mk2(ULT, mkC(1ull << 39, 64), sz); bool big; if (isC(tooBig)) big = isTrue(tooBig); else big = forkRe(s, tooBig);
      if (big) { if (n.contains("nothrow") || is("malloc")) { finish(s, ki, V(mkC(0, 64))); return; } throwStd(s, ki, "vfm_throw_bad_alloc"); return; }
      uint64_t p = allocObj(s, HEAP, sz, "heap"); finish(s, ki, V(mkC(p, 64))); return; }
    if (is("_ZdlPv") || is("_ZdaPv") || is("_ZdlPvm") || is("_ZdaPvm") || is("_ZdlPvSt11align_val_t") || is("_ZdlPvmSt11align_val_t") || is("free") || is("_ZdlPvRKSt9nothrow_t") || is("_ZdaPvRKSt9nothrow_t")) { freeObj(s, a[0].e, "free"); finish(s, ki, V()); return; }
    if (is("__cxa_allocate_exception")) { uint64_t sz = (uint64_t)a[0].e->c; uint64_t p = allocObj(s, EXC, mkC(sz, 64), "exception"); s.excs[p] = ExcInfo(); finish(s, ki, V(mkC(p, 64))); return; }
    if (is("__cxa_free_exception")) { s.mem.erase((uint64_t)a[0].e->c); s.excs.erase((uint64_t)a[0].e->c); finish(s, ki, V()); return; }
    if (is("__cxa_throw")) { uint64_t p = (uint64_t)a[0].e->c; auto &e = s.excs[p]; e.ti = (uint64_t)a[1].e->c; e.dtor = (uint64_t)a[2].e->c; e.refs = 1; unwind(s, p, padOf(ki)); return; }
    if (is("__cxa_begin_catch")) { uint64_t p = (uint64_t)a[0].e->c; auto &e = s.excs[p]; e.handlers = e.handlers < 0 ? -e.handlers + 1 : e.handlers + 1; if (s.caught.empty() || s.caught.back() != p) s.caught.push_back(p); finish(s, ki, V(mkC(e.primary ? e.primary : p, 64))); return; }
    if (is("__cxa_end_catch")) { if (s.caught.empty()) { finish(s, ki, V()); return; } uint64_t p = s.caught.back(); auto &e = s.excs[p]; finish(s, ki, V());
      if (e.handlers < 0) { if (++e.handlers == 0) s.caught.pop_back(); return; }
      if (--e.handlers == 0) { s.caught.pop_back(); uint64_t pr = e.primary; if (pr) { s.excs.erase(p); decRef(s, pr); } else decRef(s, p); } return; }
    if (is("__cxa_rethrow")) { if (s.caught.empty()) { violation(s, "exceptions", "rethrow without active exception", nullptr); throw PathEnd{}; } uint64_t p = s.caught.back(); s.excs[p].handlers = -s.excs[p].handlers; unwind(s, p, padOf(ki)); return; }
    if (is("__cxa_get_exception_ptr")) { uint64_t p = (uint64_t)a[0].e->c; auto &e = s.excs[p]; finish(s, ki, V(mkC(e.primary ? e.primary : p, 64))); return; }
    if (is("_Unwind_Resume")) { unwind(s, (uint64_t)a[0].e->c, padOf(ki)); return; }
    if (is("_ZSt17current_exceptionv")) { uint64_t p = s.caught.empty() ? 0 : s.caught.back(); if (p) { if (s.excs[p].primary) p = s.excs[p].primary; s.excs[p].refs++; } storeT(s, Type::getInt64Ty(LC), V(mkC(p, 64)), a[0].e, -1); finish(s, ki, V()); return; }
    if (is("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv")) { E p = loadT(s, Type::getInt64Ty(LC), a[0].e, -1).e; if (p->c) s.excs[(uint64_t)p->c].refs++; finish(s, ki, V()); return; }
    if (is("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv")) { E p = loadT(s, Type::getInt64Ty(LC), a[0].e, -1).e; finish(s, ki, V()); if (p->c) decRef(s, (uint64_t)p->c); return; }
    if (is("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")) { E p = loadT(s, Type::getInt64Ty(LC), a[0].e, -1).e; uint64_t pr = (uint64_t)p->c; if (!s.excs.count(pr)) { violation(s, "memory-safety", "rethrow of a dead exception", nullptr); throw PathEnd{}; } ExcInfo d; d.ti = s.excs[pr].ti; d.primary = pr; s.excs[pr].refs++; uint64_t id = s.nextHeap; s.nextHeap += 4112; s.excs[id] = d; unwind(s, id, padOf(ki)); return; }
    if (is("_ZSt18uncaught_exceptionv")) { finish(s, ki, V(mkC(0, 1))); return; }
    if (is("_ZSt9terminatev") || is("abort") || is("__cxa_pure_virtual") || is("__cxa_call_unexpected") || is("exit")) { violation(s, "termination", std::string("program aborts: ") + n.str(), nullptr); throw PathEnd{}; }
    if (is("__assert_fail")) { std::string m; try { m = cstr(s, a[0].e); } catch (EngineError &) {} violation(s, "assert-in-code", "assert(" + m + ")", nullptr); throw PathEnd{}; }
    if (is("__cxa_guard_acquire")) { E g = loadT(s, Type::getInt8Ty(LC), a[0].e, -1).e; finish(s, ki, V(mkZExt(mk2(EQ, g, mkC(0, 8)), 32))); return; }
    if (is("__cxa_guard_release")) { storeT(s, Type::getInt8Ty(LC), V(mkC(1, 8)), a[0].e, -1); finish(s, ki, V()); return; }
    if (is("__cxa_guard_abort") || is("__cxa_atexit") || is("__cxa_thread_atexit")) { finish(s, ki, I->getType()->isVoidTy() ? V() : V(mkC(0, 32))); return; }
    if (is("memcpy") || is("memmove")) { V d = a[0]; doMemcpy(s, a[0].e, a[1].e, a[2].e); finish(s, ki, d); return; }
    if ((is("memcmp") || is("bcmp")) && a.size() == 3 && isC(a[2].e) && a[2].e->c <= 256) { uint64_t n = (uint64_t)a[2].e->c; E r = mkC(0, 32); if (n) { E xo, yo; ObjP X = resolve(s, a[0].e, a[2].e, xo, -1, "read (memcmp)"), Y = resolve(s, a[1].e, a[2].e, yo, -1, "read (memcmp)"); if (!X || !Y) throw EngineError{"memcmp"};
        for (uint64_t e = n; e > 0;) { uint64_t k = e % 8 ? e % 8 : 8; e -= k; E x = readObj(s, X, mk2(ADD, xo, mkC(e, 64)), k), y = readObj(s, Y, mk2(ADD, yo, mkC(e, 64)), k); auto be = [&](E v) { E o = mkExtract(v, 0, 8); for (uint64_t i = 1; i < k; i++) o = mkConcat(o, mkExtract(v, i * 8, 8)); return o; };
          E eq = mk2(EQ, x, y); if (isTrue(eq)) continue; r = mkIte(eq, r, mkIte(mk2(ULT, be(x), be(y)), mkC(maskOf(32), 32), mkC(1, 32))); } } finish(s, ki, V(r)); return; }
    if (is("memset")) { doMemset(s, a[0].e, mkExtract(a[1].e, 0, 8), a[2].e); finish(s, ki, a[0]); return; }
    if (is("__dynamic_cast")) { uint64_t o = concretize(s, a[0].e, "dynamic_cast"); if (!o) { finish(s, ki, V(mkC(0, 64))); return; } E vp = loadT(s, Type::getInt64Ty(LC), mkC(o, 64), -1).e; uint64_t v = concretize(s, vp, "vptr"); E ti = loadT(s, Type::getInt64Ty(LC), mkC(v - 8, 64), -1).e, ot = loadT(s, Type::getInt64Ty(LC), mkC(v - 16, 64), -1).e; int64_t off; uint64_t full = o + (int64_t)(uint64_t)ot->c; bool d = derives((uint64_t)ti->c, (uint64_t)a[2].e->c, off); finish(s, ki, V(mkC(d ? full + off : 0, 64))); return; }
    if (is("trunc") || is("truncf")) { finish(s, ki, V(mkF1(FRTZ, a[0].e, a[0].e->w))); return; }
    if (is("fabs") || is("fabsf")) { finish(s, ki, V(mk2(AND, a[0].e, mkC(maskOf(a[0].e->w) >> 1, a[0].e->w)))); return; }
    throw EngineError{"unmodelled external function " + demangle(n.str()) + " [" + n.str() + "] called from " + s.stack.back().f->dem.substr(0, 200)};
  }
  void intrinsic(State &s, const KInst &ki, Function *F, std::vector<V> &a) {
    auto id = F->getIntrinsicID(); unsigned w = a.size() && a[0].e ? a[0].e->w : 0;
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, a[0].e, a[1].e, mkZExt(a[2].e, 64)); break;
    case Intrinsic::memset: doMemset(s, a[0].e, a[1].e, mkZExt(a[2].e, 64)); break;
    case Intrinsic::lifetime_start: { E p = a[1].e; if (isC(p)) { auto it = s.mem.find((uint64_t)p->c); if (it != s.mem.end() && it->second->kind == STACK) { ObjP o = it->second; Obj &ww = own(s, o); ww.dead = false; std::fill(ww.d->bytes.begin(), ww.d->bytes.end(), nullptr); ww.d->upd = nullptr; } } break; }
    case Intrinsic::lifetime_end: { E p = a[1].e; if (isC(p)) { auto it = s.mem.find((uint64_t)p->c); if (it != s.mem.end() && it->second->kind == STACK) { ObjP o = it->second; Obj &ww = own(s, o); ww.dead = true; std::fill(ww.d->bytes.begin(), ww.d->bytes.end(), nullptr); ww.d->upd = nullptr; } } break; }
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::var_annotation: break;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: finish(s, ki, V(mkC(0, 64))); return;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: finish(s, ki, a[0]); return;
    case Intrinsic::is_constant: finish(s, ki, V(mkC(0, 1))); return;
    case Intrinsic::objectsize: finish(s, ki, V(mkC((u128)-1, 64))); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "termination", "trap", nullptr); throw PathEnd{};
    case Intrinsic::eh_typeid_for: finish(s, ki, V(mkC(typeId((uint64_t)a[0].e->c), 32))); return;
    case Intrinsic::umin: finish(s, ki, V(mkIte(mk2(ULT, a[0].e, a[1].e), a[0].e, a[1].e))); return;
    case Intrinsic::umax: finish(s, ki, V(mkIte(mk2(ULT, a[0].e, a[1].e), a[1].e, a[0].e))); return;
    case Intrinsic::smin: finish(s, ki, V(mkIte(mk2(SLT, a[0].e, a[1].e), a[0].e, a[1].e))); return;
    case Intrinsic::smax: finish(s, ki, V(mkIte(mk2(SLT, a[0].e, a[1].e), a[1].e, a[0].e))); return;
    case Intrinsic::abs: finish(s, ki, V(mkIte(mk2(SLT, a[0].e, mkC(0, w)), mk2(SUB, mkC(0, w), a[0].e), a[0].e))); return;
    case Intrinsic::fabs: finish(s, ki, V(mk2(AND, a[0].e, mkC(maskOf(w) >> 1, w)))); return;
    case Intrinsic::trunc: finish(s, ki, V(mkF1(FRTZ, a[0].e, w))); return;
    case Intrinsic::fmuladd: finish(s, ki, V(mk2(FADD, mk2(FMUL, a[0].e, a[1].e), a[2].e))); return;
    case Intrinsic::uadd_with_overflow: { V r; r.agg = std::make_shared<std::vector<V>>(); E x = mk2(ADD, a[0].e, a[1].e); r.agg->push_back(V(x)); r.agg->push_back(V(mk2(ULT, x, a[0].e))); finish(s, ki, r); return; }
    case Intrinsic::usub_with_overflow: { V r; r.agg = std::make_shared<std::vector<V>>(); r.agg->push_back(V(mk2(SUB, a[0].e, a[1].e))); r.agg->push_back(V(mk2(ULT, a[0].e, a[1].e))); finish(s, ki, r); return; }
    case Intrinsic::umul_with_overflow: { V r; r.agg = std::make_shared<std::vector<V>>(); E x; E o; if (w <= 64) { E p = mk2(MUL, mkZExt(a[0].e, 2 * w), mkZExt(a[1].e, 2 * w)); x = mk2(MUL, a[0].e, a[1].e); if (isC(a[1].e) && a[1].e->c) o = mk2(ULT, mkC(maskOf(w) / a[1].e->c, w), a[0].e); else o = mkNe(mkExtract(p, w, w), mkC(0, w)); } else throw EngineError{"umul128"}; r.agg->push_back(V(x)); r.agg->push_back(V(o)); finish(s, ki, r); return; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { V r; r.agg = std::make_shared<std::vector<V>>(); Op op = id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::ssub_with_overflow ? SUB : MUL; E x = mk2(op, a[0].e, a[1].e); r.agg->push_back(V(x)); r.agg->push_back(V(mkNot(noSOvf(op, a[0].e, a[1].e)))); finish(s, ki, r); return; }
    case Intrinsic::bswap: { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a[0].e, i * 8, 8); r = r ? mkConcat(r, b) : b; } finish(s, ki, V(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E sh = mk2(UREM, a[2].e, mkC(w, w)); E d = mkConcat(a[0].e, a[1].e), shz = mkZExt(sh, 2 * w); E r = id == Intrinsic::fshl ? mkExtract(mk2(SHL, d, shz), w, w) : mkExtract(mk2(LSHR, d, shz), 0, w); finish(s, ki, V(r)); return; }
    case Intrinsic::ctpop: { E r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mk2(ADD, r, mkZExt(mkExtract(a[0].e, i, 1), w)); finish(s, ki, V(r)); return; }
    case Intrinsic::ctlz: { E r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkC(w - 1 - i, w), r); finish(s, ki, V(r)); return; }
    case Intrinsic::cttz: { E r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a[0].e, i, 1), mkC(i, w), r); finish(s, ki, V(r)); return; }
    case Intrinsic::usub_sat: finish(s, ki, V(mkIte(mk2(ULT, a[0].e, a[1].e), mkC(0, w), mk2(SUB, a[0].e, a[1].e)))); return;
    case Intrinsic::is_fpclass: { // only nan test supported
      uint64_t m = (uint64_t)a[1].e->c; if (m == 3) { finish(s, ki, V(mk2(FUNO, a[0].e, a[0].e))); return; } throw EngineError{"is.fpclass"}; }
    case Intrinsic::threadlocal_address: finish(s, ki, a[0]); return;
    default: throw EngineError{"unmodelled intrinsic " + F->getName().str()};
    }
    finish(s, ki, V());
  }
  E noSOvf(Op op, E a, E b) { unsigned w = a->w; if (op == MUL) { if (w <= 64) { E p = mk2(MUL, mkSExt(a, 2 * w), mkSExt(b, 2 * w)); return mk2(EQ, p, mkSExt(mkExtract(p, 0, w), 2 * w)); } return mkBool(true); } E x = mk2(op, mkSExt(a, w + 1), mkSExt(b, w + 1)); 
    // (w+1)-bit result fits in w bits
    return mk2(EQ, mkExtract(x, w, 1), mkExtract(x, w - 1, 1)); }
  void vfcall(State &s, const KInst &ki, StringRef n, std::vector<V> &a) {
    if (n == "vf_nondet") { std::string nm = cstr(s, a[0].e); unsigned bits = (unsigned)a[1].e->c; unsigned k = s.names[nm]++; E e = mkSym("n:" + nm + "#" + std::to_string(k), bits); finish(s, ki, V(mkZExt(e, 64))); return; }
    if (n == "vf_assume") { assume(s, mkNe(a[0].e, mkC(0, a[0].e->w))); finish(s, ki, V()); return; }
    if (n == "vf_assert") { std::string nm = cstr(s, a[1].e); check(s, mkNe(a[0].e, mkC(0, a[0].e->w)), "assert", nm); finish(s, ki, V()); return; }
    if (n == "vf_uf") { std::string nm = cstr(s, a[0].e); unsigned bits = (unsigned)a[1].e->c, k = (unsigned)a[2].e->c; std::vector<E> args; for (unsigned i = 0; i < k; i++) args.push_back(a[3 + i].e); E e = mkUF("u:" + nm, bits, args); finish(s, ki, V(mkZExt(e, 64))); return; }
    if (n == "vf_reach") { std::string nm = cstr(s, a[0].e); if (!(ctx && ctx->muted)) reach.insert(nm); finish(s, ki, V()); return; }
    if (n == "vf_symbolic") { finish(s, ki, V(mkC(1, 32))); return; }
    if (n == "vf_contract") { std::string p = cstr(s, a[0].e); s.contracts.push_back({p, (uint64_t)a[1].e->c, (int)a[2].e->c}); finish(s, ki, V()); return; }
    if (n == "vf_contracts_clear") { s.contracts.clear(); finish(s, ki, V()); return; }
    if (n == "vf_invariant") { std::string p = cstr(s, a[0].e); s.invs.push_back({(uint64_t)a[1].e->c, (uint64_t)a[2].e->c, p}); finish(s, ki, V()); return; }
    if (n == "vf_variant") { std::string p = cstr(s, a[0].e); s.variants.push_back({(uint64_t)a[1].e->c, (uint64_t)a[2].e->c, p}); finish(s, ki, V()); return; }
    if (n == "vf_variant_clear") { s.variants.clear(); finish(s, ki, V()); return; }
    if (n == "vf_invariants_clear") { s.invs.clear(); finish(s, ki, V()); return; }
    if (n == "vf_heap_mark") { s.heapMark.clear(); for (auto &p : s.mem) if (p.second->kind == HEAP) s.heapMark.insert(p.first); s.excMark.clear(); for (auto &e : s.excs) s.excMark.insert(e.first); s.marked = true; finish(s, ki, V()); return; }
    if (n == "vf_leak_check") { std::string leak; size_t cnt = 0; for (auto &p : s.mem) if (p.second->kind == HEAP && !s.heapMark.count(p.first)) { cnt++; if (leak.size() < 200) leak += " object of size " + str(p.second->d->size); } for (auto &e : s.excs) if (e.second.refs > 0 && !s.excMark.count(e.first) && std::find(s.caught.begin(), s.caught.end(), e.first) == s.caught.end()) { cnt++; leak += " exception object"; } std::string nm = cstr(s, a[0].e); if (cnt) { violation(s, "assert", nm, nullptr, "leaked:" + leak); } else if (!(ctx && ctx->muted)) { auto &o = ob("assert", nm, ""); o.checked++; o.trivial++; } finish(s, ki, V()); return; }
    if (n == "vf_concretize") { uint64_t v = concretize(s, a[0].e, "vf_concretize"); finish(s, ki, V(mkC(v, 64))); return; }
    if (n == "vf_bytes") { // object with symbolic size and arbitrary content
      std::string nm = cstr(s, a[0].e); E sz = a[1].e; unsigned k = s.names["bytes:" + nm]++; uint64_t p = allocObj(s, HEAP, sz, nm); ObjP o = s.mem[p]; Obj &w = own(s, o); w.d->hasBytes = w.d->hasBytes && isC(sz); if (w.d->hasBytes) { for (size_t i = 0; i < w.d->bytes.size(); i++) w.d->bytes[i] = mkUF("u:bytes_" + nm + std::to_string(k), 8, {mkC(i, 64)}); } else w.d->base = "u:bytes_" + nm + std::to_string(k); finish(s, ki, V(mkC(p, 64))); return; }
    if (n == "vf_unroll") { boundedUnroll = (unsigned)a[0].e->c; finish(s, ki, V()); return; }
    if (n == "vf_function") { std::string p = cstr(s, a[0].e); uint64_t r = 0; for (Function &F2 : *M) { if (F2.isDeclaration()) continue; if (kf(&F2)->dem.compare(0, p.size(), p) == 0) { r = gaddr[&F2]; break; } } finish(s, ki, V(mkC(r, 64))); return; }
    if (n == "vf_cut_after") { cutThreshold = (unsigned)a[0].e->c; finish(s, ki, V()); return; }
    if (n == "vf_ite") { finish(s, ki, V(mkIte(mkNe(a[0].e, mkC(0, a[0].e->w)), a[1].e, a[2].e))); return; }
    if (n == "vf_nocut") { allowCut = false; finish(s, ki, V()); return; }
    if (n == "vf_bounded") { std::string nm = cstr(s, a[0].e); boundedWhy.insert(nm); finish(s, ki, V()); return; }
    if (n == "vf_abstract") { s.abstract = true; finish(s, ki, V()); return; }
    if (n == "vf_trace") { std::string nm = cstr(s, a[0].e); if (verbose) fprintf(stderr, "TRACE %s %s\n", nm.c_str(), str(a[1].e).c_str()); finish(s, ki, V()); return; }
    if (n == "vf_alive") { uint64_t p = concretize(s, a[0].e, "vf_alive"); ObjP o = findObj(s, p); finish(s, ki, V(mkC(o && !o->dead, 32))); return; }
    throw EngineError{"unknown intrinsic " + n.str()};
  }
  // ---------- main step ----------
  void runState(StateP sp) {
    State &s = *sp;
    try { while (true) { step(s); } }
    catch (PathEnd &) { if (!(ctx && ctx->muted)) nPaths++; }
  }
  E fcmp(CmpInst::Predicate p, E a, E b) {
    E un = mk2(FUNO, a, b), lt = mk2(FLT, a, b), gt = mk2(FLT, b, a), le = mk2(FLE, a, b), ge = mk2(FLE, b, a), eq = mk2(FEQ, a, b);
    switch (p) { case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge; case CmpInst::FCMP_ONE: return mkOr(lt, gt); case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return mkOr(un, eq); case CmpInst::FCMP_ULT: return mkOr(un, lt); case CmpInst::FCMP_ULE: return mkOr(un, le); case CmpInst::FCMP_UGT: return mkOr(un, gt); case CmpInst::FCMP_UGE: return mkOr(un, ge); case CmpInst::FCMP_UNE: return mkNot(eq); case CmpInst::FCMP_TRUE: return mkBool(true); case CmpInst::FCMP_FALSE: return mkBool(false); default: throw EngineError{"fcmp"}; }
  }
  V mapV(const V &a, const std::function<E(E)> &f) { if (a.e) return V(f(a.e)); V r; r.agg = std::make_shared<std::vector<V>>(); for (auto &x : *a.agg) r.agg->push_back(mapV(x, f)); return r; }
  V iteV(E c, const V &a, const V &b) { if (a.e) return V(mkIte(c, a.e, b.e)); V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(iteV(c, (*a.agg)[i], (*b.agg)[i])); return r; }
  void step(State &s) {
    Frame &f = s.stack.back(); const KInst &ki = f.f->insts[f.pc]; f.pc++; nSteps++; Instruction *I = ki.I; curI = I; curKF = f.f;
    if ((nSteps & 0x3fff) == 0 && now() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit"; throw EngineError{"time limit"}; }
    // leaving the analysed loop in a cut analysis?
    if (ctx->header && s.stack.size() == ctx->frameDepth && f.id == ctx->frameId) { auto &L = f.f->loops[ctx->header]; if (!L.blocks.count(I->getParent())) throw PathEnd{}; }
    auto ret = [&](const V &v) { f.locals[ki.dst] = v; };
    switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: { V av = operand(f, ki, 0), bv = operand(f, ki, 1); Op op = I->getOpcode() == Instruction::Add ? ADD : I->getOpcode() == Instruction::Sub ? SUB : MUL;
      if (av.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < av.agg->size(); i++) r.agg->push_back(V(mk2(op, (*av.agg)[i].e, (*bv.agg)[i].e))); ret(r); return; }
      E a = av.e, b = bv.e; if (cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap() && (f.f->repo || f.f->file.find("/verif") == 0)) { E c = noSOvf(op, a, b); check(s, c, "overflow", "no signed overflow"); } ret(V(mk2(op, a, b))); return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E a = opE(f, ki, 0), b = opE(f, ki, 1);
      if (I->getOpcode() == Instruction::SDiv && a->w == 64 && !isC(a) && isC(b) && b->c > 1 && b->c < (1 << 20)) if (E y = divided(s, a, (int64_t)b->c)) { ret(V(y)); return; } check(s, mkNe(b, mkC(0, b->w)), "division", "divisor is not zero"); unsigned oc = I->getOpcode(); if (oc == Instruction::SDiv || oc == Instruction::SRem) check(s, mkNot(mkAnd(mk2(EQ, b, mkC(maskOf(b->w), b->w)), mk2(EQ, a, mkC((u128)1 << (a->w - 1), a->w)))), "overflow", "division does not overflow");
      ret(V(mk2(oc == Instruction::UDiv ? UDIV : oc == Instruction::SDiv ? SDIV : oc == Instruction::URem ? UREM : SREM, a, b))); 
      if (oc == Instruction::SDiv && isC(b) && b->c && !(b->c & (b->c - 1)) && cast<PossiblyExactOperator>(I)->isExact()) { unsigned k = 0; while (((u128)1 << k) != b->c) k++; ret(V(mk2(ASHR, a, mkC(k, a->w)))); } return; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { E a = opE(f, ki, 0), b = opE(f, ki, 1); if (!isC(b) || b->c >= b->w) check(s, mk2(ULT, b, mkC(b->w, b->w)), "shift", "shift amount below width"); unsigned oc = I->getOpcode(); ret(V(mk2(oc == Instruction::Shl ? SHL : oc == Instruction::LShr ? LSHR : ASHR, a, b))); return; }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: { unsigned oc = I->getOpcode(); Op op = oc == Instruction::And ? AND : oc == Instruction::Or ? OR : XOR; V av = operand(f, ki, 0), bv = operand(f, ki, 1); if (av.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < av.agg->size(); i++) r.agg->push_back(V(mk2(op, (*av.agg)[i].e, (*bv.agg)[i].e))); ret(r); return; } ret(V(mk2(op, av.e, bv.e))); return; }
    case Instruction::ICmp: { V av = operand(f, ki, 0), bv = operand(f, ki, 1); auto p = cast<ICmpInst>(I)->getPredicate(); if (av.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < av.agg->size(); i++) r.agg->push_back(V(icmp(p, (*av.agg)[i].e, (*bv.agg)[i].e))); ret(r); return; } ret(V(icmp(p, av.e, bv.e))); return; }
    case Instruction::FCmp: ret(V(fcmp(cast<FCmpInst>(I)->getPredicate(), opE(f, ki, 0), opE(f, ki, 1)))); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { E a = opE(f, ki, 0), b = opE(f, ki, 1); if (a->w != 32 && a->w != 64) throw EngineError{"fp width"}; unsigned oc = I->getOpcode(); ret(V(mk2(oc == Instruction::FAdd ? FADD : oc == Instruction::FSub ? FSUB : oc == Instruction::FMul ? FMUL : FDIV, a, b))); return; }
    case Instruction::FNeg: { E a = opE(f, ki, 0); ret(V(mk2(XOR, a, mkC((u128)1 << (a->w - 1), a->w)))); return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { E a = opE(f, ki, 0); unsigned w = widthOf(I->getType()); if (w > 64 || a->w > 64) throw EngineError{"long double"}; ret(V(mkF1(I->getOpcode() == Instruction::FPExt ? FEXT : FTRUNC_, a, w))); return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { E a = opE(f, ki, 0); unsigned w = widthOf(I->getType()); bool sg = I->getOpcode() == Instruction::FPToSI; 
      double lo = sg ? -std::ldexp(1.0, w - 1) : 0.0, hi = std::ldexp(1.0, sg ? w - 1 : w); auto cst = [&](double d) { u128 v; if (a->w == 32) { float x = d; uint32_t t; memcpy(&t, &x, 4); v = t; } else { uint64_t t; memcpy(&t, &d, 8); v = t; } return mkC(v, a->w); };
      E ok = mkAnd(mkOr(mk2(FLE, cst(lo), a), sg && w < 53 && a->w == 64 ? mk2(FLT, cst(lo - 1), a) : sg ? mk2(FLE, cst(lo), a) : mk2(FLT, cst(-1.0), a)), mk2(FLT, a, cst(hi))); check(s, ok, "float-conversion", "float to int conversion in range");
      ret(V(mkF1(sg ? FTOSI : FTOUI, a, w))); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: { unsigned w = widthOf(I->getType()); if (w > 64) throw EngineError{"long double"}; ret(V(mkF1(I->getOpcode() == Instruction::SIToFP ? SITOF : UITOF, opE(f, ki, 0), w))); return; }
    case Instruction::ZExt: { unsigned w = widthOf(I->getType()); ret(mapV(operand(f, ki, 0), [&](E e) { return mkZExt(e, w); })); return; }
    case Instruction::SExt: { unsigned w = widthOf(I->getType()); ret(mapV(operand(f, ki, 0), [&](E e) { return mkSExt(e, w); })); return; }
    case Instruction::Trunc: { unsigned w = widthOf(I->getType()); ret(mapV(operand(f, ki, 0), [&](E e) { return mkExtract(e, 0, w); })); return; }
    case Instruction::PtrToInt: { E e = opE(f, ki, 0); unsigned w = widthOf(I->getType()); ret(V(w <= 64 ? mkExtract(e, 0, w) : mkZExt(e, w))); return; }
    case Instruction::IntToPtr: { E e = opE(f, ki, 0); ret(V(e->w < 64 ? mkZExt(e, 64) : mkExtract(e, 0, 64))); return; }
    case Instruction::BitCast: { V v = operand(f, ki, 0); if (v.e && widthOf(I->getType()) == v.e->w) { ret(v); return; } // vector<->scalar
      E e = v.e; if (!e) { for (auto &x : *v.agg) e = e ? mkConcat(x.e, e) : x.e; } if (unsigned w = widthOf(I->getType())) { (void)w; ret(V(e)); return; } auto *vt = cast<FixedVectorType>(I->getType()); unsigned ew = widthOf(vt->getElementType()); V r; r.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(V(mkExtract(e, i * ew, ew))); ret(r); return; }
    case Instruction::Freeze: ret(operand(f, ki, 0)); return;
    case Instruction::Select: { E c = opE(f, ki, 0); if (!c) throw EngineError{"vector select"}; ret(iteV(c, operand(f, ki, 1), operand(f, ki, 2))); return; }
    case Instruction::ExtractValue: { V v = operand(f, ki, 0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { V t = (*v.agg)[i]; v = t; } ret(v); return; }
    case Instruction::InsertValue: { V v = operand(f, ki, 0), x = operand(f, ki, 1); std::function<V(V, ArrayRef<unsigned>)> ins = [&](V b, ArrayRef<unsigned> ix) -> V { if (ix.empty()) return x; V r; r.agg = std::make_shared<std::vector<V>>(*b.agg); (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1)); return r; }; ret(ins(v, cast<InsertValueInst>(I)->getIndices())); return; }
    case Instruction::ExtractElement: { V v = operand(f, ki, 0); E i = opE(f, ki, 1); if (!isC(i)) throw EngineError{"extractelement"}; ret((*v.agg)[(size_t)i->c]); return; }
    case Instruction::InsertElement: { V v = operand(f, ki, 0); V x = operand(f, ki, 1); E i = opE(f, ki, 2); V r; r.agg = std::make_shared<std::vector<V>>(*v.agg); (*r.agg)[(size_t)i->c] = x; ret(r); return; }
    case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); V a = operand(f, ki, 0), b = operand(f, ki, 1); V r; r.agg = std::make_shared<std::vector<V>>(); int n = a.agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? V(mkC(0, (*a.agg)[0].e->w)) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); ret(r); return; }
    case Instruction::Alloca: { auto *al = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(al->getAllocatedType()); E cnt = opE(f, ki, 0); if (!isC(cnt)) throw EngineError{"vla"}; uint64_t p = allocObj(s, STACK, mkC(n * (uint64_t)cnt->c, 64), "local " + al->getName().str()); s.mem[p]->frameId = f.id; f.allocas.push_back(p); ret(V(mkC(p, 64))); return; }
    case Instruction::GetElementPtr: { auto *g = cast<GetElementPtrInst>(I); E p = opE(f, ki, 0); unsigned oi = 1;
      for (gep_type_iterator ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti, ++oi) { if (StructType *st = ti.getStructTypeOrNull()) { unsigned fi = cast<ConstantInt>(ti.getOperand())->getZExtValue(); p = mk2(ADD, p, mkC(DL->getStructLayout(st)->getElementOffset(fi), 64)); } else { E ix = opE(f, ki, oi); ix = ix->w < 64 ? mkSExt(ix, 64) : ix; uint64_t es = DL->getTypeAllocSize(ti.getIndexedType()); p = mk2(ADD, p, mk2(MUL, ix, mkC(es, 64))); } }
      ret(V(p)); return; }
    case Instruction::Load: { E p = opE(f, ki, 0); V v = loadT(s, I->getType(), p, ki.ops[0]); s.stack.back().locals[ki.dst] = v; return; }
    case Instruction::Store: { E p = opE(f, ki, 1); storeT(s, I->getOperand(0)->getType(), operand(f, ki, 0), p, ki.ops[1]); return; }
    case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(I); E p = opE(f, ki, 0); V old = loadT(s, I->getType(), p, -1); E x = opE(f, ki, 1), o = old.e, nv; switch (r->getOperation()) { case AtomicRMWInst::Add: nv = mk2(ADD, o, x); break; case AtomicRMWInst::Sub: nv = mk2(SUB, o, x); break; case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Or: nv = mk2(OR, o, x); break; case AtomicRMWInst::And: nv = mk2(AND, o, x); break; default: throw EngineError{"atomicrmw"}; } storeT(s, I->getType(), V(nv), p, -1); ret(old); return; }
    case Instruction::AtomicCmpXchg: { E p = opE(f, ki, 0), c = opE(f, ki, 1), n = opE(f, ki, 2); Type *t = I->getOperand(1)->getType(); E o = loadT(s, t, p, -1).e; E eq = mk2(EQ, o, c); storeT(s, t, V(mkIte(eq, n, o)), p, -1); V r; r.agg = std::make_shared<std::vector<V>>(); r.agg->push_back(V(o)); r.agg->push_back(V(eq)); ret(r); return; }
    case Instruction::Fence: return;
    case Instruction::PHI: return;
    case Instruction::Br: { auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { transfer(s, b->getSuccessor(0)); return; } E c = opE(f, ki, 0);
      std::shared_ptr<Model> mt, mf; int r = feas(s, c, mt, mf); if (r == 0) throw PathEnd{};
      if (r == 3) { auto n = clone(s); addC(*n, mkNot(c)); n->model = mf; noteFork(*n); noteFork(s); addC(s, c); s.model = mt; 
        // the clone must transfer on its own: do it now, guarded
        State &ns = *n; try { transfer(ns, b->getSuccessor(1)); ctx->work.push_back(std::move(n)); } catch (PathEnd &) { if (!ctx->muted) nPaths++; }
        transfer(s, b->getSuccessor(0)); return; }
      if (r == 1) { if (mt) s.model = mt; transfer(s, b->getSuccessor(0)); } else { if (mf) s.model = mf; transfer(s, b->getSuccessor(1)); } return; }
    case Instruction::Switch: { auto *sw = cast<SwitchInst>(I); E c = opE(f, ki, 0); if (isC(c)) { BasicBlock *d = sw->getDefaultDest(); for (auto &cs : sw->cases()) if ((u128)cs.getCaseValue()->getZExtValue() == c->c) { d = cs.getCaseSuccessor(); break; } transfer(s, d); return; }
      for (auto &cs : sw->cases()) { E eq = mk2(EQ, c, mkC(cs.getCaseValue()->getZExtValue(), c->w)); bool known = false; for (E x : s.pc) if (x == mkNot(eq)) known = true; if (known) continue; if (forkRe(s, eq)) { transfer(s, cs.getCaseSuccessor()); return; } } transfer(s, sw->getDefaultDest()); return; }
    case Instruction::Unreachable: violation(s, "termination", "unreachable code reached", nullptr); throw PathEnd{};
    case Instruction::Resume: { V v = operand(f, ki, 0); uint64_t e = (uint64_t)(*v.agg)[0].e->c; BasicBlock *pad = f.unwindDest; bool inv = f.isInvEval; if (s.stack.size() == 1 || inv) { violation(s, "exceptions", "no exception escapes the contract: " + excName(s.excs[e].ti), nullptr); throw PathEnd{}; } if (ctx->header && s.stack.size() == ctx->frameDepth) throw PathEnd{}; popFrame(s); unwind(s, e, pad); return; }
    case Instruction::Ret: { V v; if (I->getNumOperands()) v = operand(f, ki, 0); int rs = f.retSlot; BasicBlock *nd = f.normalDest; uint64_t fr = f.freeOnReturn; bool inv = f.isInvEval; 
      if (inv) { ctx->results.push_back({std::make_unique<State>(s), v.e}); throw PathEnd{}; }
      if (ctx->header && s.stack.size() == ctx->frameDepth) throw PathEnd{};
      popFrame(s); if (fr) s.mem.erase(fr); if (s.stack.empty()) { if (initPhase) { finalInit = std::make_shared<State>(s); } throw PathEnd{}; } setRet(s, rs, v); if (nd) transfer(s, nd); return; }
    case Instruction::Call: case Instruction::Invoke: { auto *cb = cast<CallBase>(I); Function *F = cb->getCalledFunction(); std::vector<V> args; unsigned na = cb->arg_size();
      if (F && (F->getIntrinsicID() == Intrinsic::dbg_declare || F->getIntrinsicID() == Intrinsic::dbg_value || F->getIntrinsicID() == Intrinsic::dbg_label)) return;
      if (cb->isInlineAsm()) { if (I->getType()->isVoidTy()) return; throw EngineError{"inline asm"}; }
      for (unsigned i = 0; i < na; i++) args.push_back(isa<MetadataAsValue>(cb->getArgOperand(i)) ? V() : operand(f, ki, i));
      if (!F) { E p = opE(f, ki, cb->getNumOperands() - 1); if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) { F = dyn_cast<Function>(ga->getAliaseeObject()); } else { while (p->op == ITE) p = forkRe(s, p->a[0]) ? p->a[1] : p->a[2]; if (!isC(p)) throw EngineError{"symbolic function pointer " + str(p)}; auto it = faddr.find((uint64_t)p->c); if (it == faddr.end()) { violation(s, "memory-safety", p->c ? "call through invalid function pointer" : "call through null function pointer", nullptr); throw PathEnd{}; } F = it->second; } }
      callFunc(s, ki, F, args); return; }
    default: throw EngineError{std::string("instruction ") + I->getOpcodeName()};
    }
  }
  bool initPhase = false; std::shared_ptr<State> finalInit; std::shared_ptr<State> baseState;
  void runInit() {
    auto st = std::make_shared<State>(); st->model = std::make_shared<Model>(); auto *g = M->getNamedGlobal("llvm.global_ctors"); std::vector<std::pair<uint64_t, Function *>> fs;
    if (g && g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    initPhase = true;
    for (auto &p : fs) if (p.second) { finalInit = nullptr; Ctx c; c.muted = true; auto n = std::make_unique<State>(*st); ctx = &c; pushFrame(*n, p.second, {}, -1, nullptr, nullptr); ctx = nullptr; c.work.push_back(std::move(n)); explore(c); if (!finalInit) throw EngineError{"global constructor did not finish: " + p.second->getName().str()}; st = finalInit; }
    initPhase = false; baseState = st;
  }
  void runEntry(Function *F) {
    refine = 0;
    for (int tries = 0; tries < 60; tries++) {
      obs.clear(); viols.clear(); violKeys.clear(); nPaths = 0; reach.clear(); memOk = 0; used.clear(); contracted.clear(); incomplete = false; boundedWhy.clear(); cutsDone = 0; cutLoops.clear(); invsProved = 0;
      bool ac = allowCut; unsigned bu = boundedUnroll;
      try { Ctx c; auto n = std::make_unique<State>(*baseState); ctx = &c; pushFrame(*n, F, {}, -1, nullptr, nullptr); ctx = nullptr; c.work.push_back(std::move(n)); bool stop = false; try { explore(c); } catch (EngineError &x) { if (x.msg != "max-violations") throw; stop = true; ctx = nullptr; ctxStack.clear(); }
        if (stop) throw EngineError{"max-violations"};
        return; }
      catch (Restart &r) { if (getenv("VF_CUTDBG")) fprintf(stderr, "restart: %s\n", r.why.c_str()); ctx = nullptr; ctxStack.clear(); allowCut = ac; boundedUnroll = bu;
        if (r.why == "refine") { refine++; for (auto &p : loopMode) if (p.second == 1 && loopPeel[p.first] < (int)refine) loopPeel[p.first] = refine; } // peel more iterations off the loops cut so far
        continue; }
    }
    throw EngineError{"too many restarts"};
  }
};

int main(int argc, char **argv) {
  std::string file, entry, out; Engine &e = *new Engine(); bool list = false; e.t0 = now();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") e.timeLimit = atof(nx().c_str()); else if (a == "--no-cut") e.allowCut = false; else if (a == "--unroll") e.boundedUnroll = atoi(nx().c_str()); else if (a == "--repo") e.repoPrefix = nx(); else if (a == "--list") list = true; else if (a == "-v") e.verbose = true; else if (a == "--solver-timeout") heavyTimeoutMs = atoi(nx().c_str()); else if (a == "--max-viol") e.maxViol = atoi(nx().c_str()); else file = a; }
  e.load(file);
  if (list) { for (Function &F : *e.M) if (!F.isDeclaration() && F.getName().starts_with("vf_entry_")) printf("%s\n", F.getName().str().c_str()); return 0; }
  std::string error; 
  try { e.runInit(); Function *F = e.M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; } e.runEntry(F); }
  catch (EngineError &x) { error = x.msg; } catch (Restart &r) { error = "restart " + r.why; }
  if (error == "max-violations") error = "";
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  uint64_t nob = 0, ndis = 0, nfail = 0, nunk = 0, triv = 0, solved = 0; for (auto &p : e.obs) { nob++; if (p.second.failed) nfail++; else if (p.second.unknown) nunk++; else { ndis++; } if (!p.second.failed && !p.second.unknown) { if (p.second.solved) solved++; else triv++; } }
  fprintf(o, "{\"entry\":%s,\"error\":%s,\"incomplete\":%s,\"why\":%s,", jstr(entry).c_str(), jstr(error).c_str(), e.incomplete ? "true" : "false", jstr(e.incompleteWhy).c_str());
  fprintf(o, "\"paths\":%llu,\"steps\":%llu,\"forks\":%llu,\"wall\":%.2f,\"mem_checks\":%llu,", (unsigned long long)e.nPaths, (unsigned long long)e.nSteps, (unsigned long long)e.nForks, now() - e.t0, (unsigned long long)e.memOk);
  fprintf(o, "\"obligations\":%llu,\"discharged\":%llu,\"by_simplifier\":%llu,\"by_solver\":%llu,\"failed\":%llu,\"unknown\":%llu,", (unsigned long long)nob, (unsigned long long)ndis, (unsigned long long)triv, (unsigned long long)solved, (unsigned long long)nfail, (unsigned long long)nunk);
  fprintf(o, "\"solver\":{\"version\":%s,\"queries\":%llu,\"cached\":%llu,\"time\":%.3f,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"abstraction_proved\":%llu,\"cvc5_proved\":%llu},", jstr(solverVersion()).c_str(), (unsigned long long)sstats.queries, (unsigned long long)sstats.cacheHits, sstats.time, (unsigned long long)sstats.unsat, (unsigned long long)sstats.sat, (unsigned long long)sstats.unknown, (unsigned long long)sstats.absProved, (unsigned long long)sstats.cvc5Proved);
  auto arr = [&](const char *k, const std::set<std::string> &s) { fprintf(o, "\"%s\":[", k); bool f = true; for (auto &x : s) { fprintf(o, "%s%s", f ? "" : ",", jstr(x).c_str()); f = false; } fprintf(o, "],"); };
  arr("reach", e.reach); arr("bounded", e.boundedWhy); arr("cut_loops", e.cutLoops); fprintf(o, "\"inferred_invariants\":%llu,", (unsigned long long)e.invsProved); arr("contracts_used", e.contracted);
  std::set<std::string> fns; for (auto *k : e.used) if (k->repo) fns.insert(k->dem.substr(0, 300)); arr("functions", fns);
  fprintf(o, "\"obligation_list\":["); bool fst = true; for (auto &p : e.obs) { auto &b = p.second; fprintf(o, "%s{\"kind\":%s,\"name\":%s,\"loc\":%s,\"checked\":%llu,\"solved\":%llu,\"failed\":%llu,\"unknown\":%llu}", fst ? "" : ",", jstr(b.kind).c_str(), jstr(b.name).c_str(), jstr(b.loc).c_str(), (unsigned long long)b.checked, (unsigned long long)b.solved, (unsigned long long)b.failed, (unsigned long long)b.unknown); fst = false; }
  fprintf(o, "],\"violations\":["); fst = true;
  for (auto &v : e.viols) { fprintf(o, "%s{\"kind\":%s,\"name\":%s,\"loc\":%s,\"abstract\":%s,\"detail\":%s,\"trace\":%s,\"nondet\":{", fst ? "" : ",", jstr(v.kind).c_str(), jstr(v.name).c_str(), jstr(v.loc).c_str(), v.abstract ? "true" : "false", jstr(v.detail).c_str(), jstr(v.trace).c_str()); fst = false; bool f2 = true;
    if (v.model) for (auto &p : v.model->sym) { const std::string &n = symName(p.first); if (n.compare(0, 2, "n:")) continue; fprintf(o, "%s%s:\"%s\"", f2 ? "" : ",", jstr(n.substr(2)).c_str(), ustr(p.second).c_str()); f2 = false; }
    fprintf(o, "},\"uf\":["); f2 = true; if (v.model) for (auto &p : v.model->uf) { const std::string &n = fnName(p.first.first); if (n.compare(0, 2, "u:")) continue; fprintf(o, "%s[%s,[", f2 ? "" : ",", jstr(n.substr(2)).c_str()); for (size_t i = 0; i < p.first.second.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", ustr(p.first.second[i]).c_str()); fprintf(o, "],\"%s\"]", ustr(p.second).c_str()); f2 = false; }
    fprintf(o, "]}"); }
  fprintf(o, "]}\n"); if (!out.empty()) fclose(o);
  return error.empty() ? (e.viols.empty() ? 0 : 1) : 3;
}
