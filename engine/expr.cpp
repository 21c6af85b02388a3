#include <limits>
#include <cmath>
#include <algorithm>
#include "expr.h"
#include <cassert>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <unordered_set>

const char *opNames[] = {"const","sym","uf","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","flt","fle","feq","funo","fext","ftrunc","ftosi","ftoui","sitof","uitof","frtz"};

namespace {
struct Key { Op op; uint16_t w; uint32_t aux; u128 c; const E *a; uint32_t n; };
inline size_t hashKey(Op op, uint16_t w, uint32_t aux, u128 c, const E *a, uint32_t n) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0x100000001B3ull + aux * 0xC2B2AE3D27D4EB4Full;
  h ^= (uint64_t)c * 0xff51afd7ed558ccdull + (uint64_t)(c >> 64) * 31;
  for (uint32_t i = 0; i < n; i++) { h ^= a[i]->id + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0x100000001B3ull; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}
struct Table {
  std::vector<Expr *> slots; size_t cnt = 0;
  Table() : slots(1 << 16, nullptr) {}
  void grow() {
    std::vector<Expr *> o; o.swap(slots); slots.assign(o.size() * 2, nullptr);
    for (auto e : o) if (e) { size_t i = hashKey(e->op, e->w, e->aux, e->c, e->a, e->n) & (slots.size() - 1); while (slots[i]) i = (i + 1) & (slots.size() - 1); slots[i] = e; }
  }
};
Table &T() { static Table t; return t; }
char *arena = nullptr; size_t arenaLeft = 0;
void *alloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (arenaLeft < n) { arenaLeft = std::max<size_t>(n, 1 << 22); arena = (char *)aligned_alloc(16, arenaLeft); }
  void *p = arena; arena += n; arenaLeft -= n; return p;
}
E intern(Op op, unsigned w, uint32_t aux, u128 c, const E *a, uint32_t n) {
  Table &t = T();
  size_t m = t.slots.size() - 1, i = hashKey(op, w, aux, c, a, n) & m;
  while (Expr *e = t.slots[i]) {
    if (e->op == op && e->w == w && e->aux == aux && e->c == c && e->n == n) {
      bool same = true; for (uint32_t k = 0; k < n; k++) if (e->a[k] != a[k]) { same = false; break; }
      if (same) return e;
    }
    i = (i + 1) & m;
  }
  Expr *e = new (alloc(sizeof(Expr))) Expr();
  e->op = op; e->w = w; e->aux = aux; e->c = c; e->n = n; e->id = (uint32_t)++t.cnt;
  e->a = n ? (E *)alloc(n * sizeof(E)) : nullptr;
  for (uint32_t k = 0; k < n; k++) { e->a[k] = a[k]; if (a[k]->depth >= e->depth) e->depth = a[k]->depth < 65000 ? a[k]->depth + 1 : 65000; }
  t.slots[i] = e;
  if (t.cnt * 2 > t.slots.size()) t.grow();
  return e;
}
E mkn(Op op, unsigned w, std::initializer_list<E> a, uint32_t aux = 0) { return intern(op, w, aux, 0, a.begin(), a.size()); }

std::vector<std::pair<std::string, unsigned>> symTab; std::unordered_map<std::string, uint32_t> symIdx;
std::vector<std::string> fnTab; std::unordered_map<std::string, uint32_t> fnIdx;
}
uint64_t exprCount() { return T().cnt; }

E mkC(u128 v, unsigned w) {
  v &= maskOf(w);
  static E small[129][257];
  if (v <= 256 && w <= 128) { E &s = small[w][(int)v]; if (!s) s = intern(CONST, w, 0, v, nullptr, 0); return s; }
  return intern(CONST, w, 0, v, nullptr, 0);
}
E mkSym(const std::string &name, unsigned w) {
  std::string key = name + "#" + std::to_string(w);
  auto it = symIdx.find(key); uint32_t id;
  if (it == symIdx.end()) { id = symTab.size(); symTab.push_back({name, w}); symIdx[key] = id; } else id = it->second;
  return intern(SYM, w, id, 0, nullptr, 0);
}
E mkUF(const std::string &fn, unsigned w, const std::vector<E> &args) {
  std::string key = fn + "/" + std::to_string(args.size()); for (auto a : args) key += "." + std::to_string(a->w); key += ":" + std::to_string(w);
  auto it = fnIdx.find(key); uint32_t id;
  if (it == fnIdx.end()) { id = fnTab.size(); fnTab.push_back(fn); fnIdx[key] = id; } else id = it->second;
  return intern(UF, w, id, 0, args.data(), args.size());
}
const std::string &symName(uint32_t id) { return symTab[id].first; }
unsigned symWidth(uint32_t id) { return symTab[id].second; }
const std::string &fnName(uint32_t id) { return fnTab[id]; }

static double toD(u128 v, unsigned w) {
  if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
  uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d;
}
static u128 fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  uint64_t x; memcpy(&x, &d, 8); return x;
}
static u128 fop(Op op, u128 a, u128 b, unsigned w) {
  if (w == 32) { float x = toD(a, 32), y = toD(b, 32), r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; uint32_t o; memcpy(&o, &r, 4); return o; }
  double x = toD(a, 64), y = toD(b, 64), r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; return fromD(r, 64);
}

// interval of a floating point term that cannot be NaN (structural, outward rounded)
static bool fint(E e, double &lo, double &hi, int d = 0) {
  if (d > 10) return false; const double inf = std::numeric_limits<double>::infinity();
  auto out = [&](double l, double h) { lo = e->w == 32 ? (double)std::nextafterf((float)l, -(float)inf) : std::nextafter(l, -inf); hi = e->w == 32 ? (double)std::nextafterf((float)h, (float)inf) : std::nextafter(h, inf); return true; };
  double a, b, c, g;
  switch (e->op) {
  case CONST: lo = hi = toD(e->c, e->w); return !std::isnan(lo);
  case SITOF: { double m = std::ldexp(1.0, e->a[0]->w - 1); return out(-m, m); }
  case UITOF: return out(0, std::ldexp(1.0, e->a[0]->w));
  case FEXT: return fint(e->a[0], lo, hi, d + 1);
  case FTRUNC_: if (!fint(e->a[0], a, b, d + 1)) return false; return out(a, b);
  case ITE: if (!fint(e->a[1], a, b, d + 1) || !fint(e->a[2], c, g, d + 1)) return false; lo = std::min(a, c); hi = std::max(b, g); return true;
  case FADD: case FSUB: if (!fint(e->a[0], a, b, d + 1) || !fint(e->a[1], c, g, d + 1) || std::isinf(a) || std::isinf(b) || std::isinf(c) || std::isinf(g)) return false; return e->op == FADD ? out(a + c, b + g) : out(a - g, b - c);
  case FMUL: { if (!fint(e->a[0], a, b, d + 1) || !fint(e->a[1], c, g, d + 1) || std::isinf(a) || std::isinf(b) || std::isinf(c) || std::isinf(g)) return false; double p[4] = {a * c, a * g, b * c, b * g}; return out(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
  case FDIV: { if (!fint(e->a[0], a, b, d + 1) || !fint(e->a[1], c, g, d + 1) || std::isinf(a) || std::isinf(b) || std::isinf(c) || std::isinf(g) || (c <= 0 && g >= 0)) return false; double p[4] = {a / c, a / g, b / c, b / g}; return out(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
  default: return false;
  }
}

u128 foldOp(Op op, unsigned w, const u128 *v, const unsigned *ws, unsigned n, uint32_t aux, bool &ok) {
  ok = true; u128 M = maskOf(w);
  unsigned w0 = n ? ws[0] : w;
  switch (op) {
  case ADD: return (v[0] + v[1]) & M;
  case SUB: return (v[0] - v[1]) & M;
  case MUL: return (v[0] * v[1]) & M;
  case UDIV: return v[1] ? v[0] / v[1] : M;
  case UREM: return v[1] ? v[0] % v[1] : v[0];
  case SDIV: { i128 a = sval(v[0], w), b = sval(v[1], w); if (b == 0) return a < 0 ? 1 : M; if (b == -1) return (u128)(-(u128)a) & M; return (u128)(a / b) & M; }
  case SREM: { i128 a = sval(v[0], w), b = sval(v[1], w); if (b == 0) return v[0]; if (b == -1) return 0; return (u128)(a % b) & M; }
  case AND: return v[0] & v[1]; case OR: return v[0] | v[1]; case XOR: return v[0] ^ v[1];
  case SHL: return v[1] >= w ? 0 : (v[0] << (unsigned)v[1]) & M;
  case LSHR: return v[1] >= w ? 0 : v[0] >> (unsigned)v[1];
  case ASHR: { i128 a = sval(v[0], w); unsigned s = v[1] >= w ? w - 1 : (unsigned)v[1]; return (u128)(a >> s) & M; }
  case EQ: return v[0] == v[1];
  case ULT: return v[0] < v[1]; case ULE: return v[0] <= v[1];
  case SLT: return sval(v[0], w0) < sval(v[1], w0); case SLE: return sval(v[0], w0) <= sval(v[1], w0);
  case ITE: return v[0] ? v[1] : v[2];
  case CONCAT: return (v[0] << ws[1]) | v[1];
  case EXTRACT: return (v[0] >> aux) & M;
  case ZEXT: return v[0];
  case SEXT: return (u128)sval(v[0], w0) & M;
  case FADD: case FSUB: case FMUL: case FDIV: return fop(op, v[0], v[1], w);
  case FLT: return toD(v[0], w0) < toD(v[1], w0);
  case FLE: return toD(v[0], w0) <= toD(v[1], w0);
  case FEQ: return toD(v[0], w0) == toD(v[1], w0);
  case FUNO: return std::isnan(toD(v[0], w0)) || std::isnan(toD(v[1], w0));
  case FEXT: case FTRUNC_: return fromD(toD(v[0], w0), w);
  case FTOSI: { double d = std::trunc(toD(v[0], w0)); if (!(d >= -9.3e18 && d <= 9.2e18)) { return 0; } return (u128)(i128)(long long)d & M; }
  case FTOUI: { double d = std::trunc(toD(v[0], w0)); if (!(d >= 0 && d <= 1.8e19)) { return 0; } return (u128)(unsigned long long)d & M; }
  case SITOF: { i128 s = sval(v[0], w0); if (w == 32) { float f = (float)(long long)s; return fromD(f, 32); } return fromD((double)(long long)s, 64); }
  case UITOF: { if (w == 32) { float f = (float)(unsigned long long)v[0]; return fromD(f, 32); } return fromD((double)(unsigned long long)v[0], 64); }
  case FRTZ: return fromD(std::trunc(toD(v[0], w0)), w);
  default: ok = false; return 0;
  }
}

static E foldAll(Op op, unsigned w, std::initializer_list<E> a, uint32_t aux = 0) {
  u128 v[3]; unsigned ws[3]; unsigned n = 0;
  for (E e : a) { if (!isC(e)) return nullptr; v[n] = e->c; ws[n] = e->w; n++; }
  bool ok; u128 r = foldOp(op, w, v, ws, n, aux, ok); return ok ? mkC(r, w) : nullptr;
}
static inline bool isPow2(u128 v) { return v && !(v & (v - 1)); }
static inline unsigned lg2(u128 v) { unsigned r = 0; while (v > 1) { v >>= 1; r++; } return r; }

E mkNot(E a) { return mk2(XOR, a, mkC(1, 1)); }

// number of known leading zero bits (cheap)
static unsigned lz(E e, int d = 4) {
  if (isC(e)) { unsigned k = 0; for (int i = e->w - 1; i >= 0 && !((e->c >> i) & 1); i--) k++; return k; }
  if (d == 0) return 0;
  switch (e->op) {
  case ZEXT: return e->w - e->a[0]->w + lz(e->a[0], d - 1);
  case AND: return std::max(lz(e->a[0], d - 1), lz(e->a[1], d - 1));
  case OR: case XOR: return std::min(lz(e->a[0], d - 1), lz(e->a[1], d - 1));
  case LSHR: if (isC(e->a[1]) && e->a[1]->c < e->w) return std::min<unsigned>(e->w, lz(e->a[0], d - 1) + (unsigned)e->a[1]->c); return lz(e->a[0], d - 1);
  case UREM: if (isC(e->a[1]) && e->a[1]->c) return lz(e->a[1], 1); return std::max(0u, lz(e->a[0], d - 1));
  case UDIV: return lz(e->a[0], d - 1);
  case ITE: return std::min(lz(e->a[1], d - 1), lz(e->a[2], d - 1));
  case ADD: { unsigned m = std::min(lz(e->a[0], d - 1), lz(e->a[1], d - 1)); return m ? m - 1 : 0; }
  case CONCAT: { unsigned h = lz(e->a[0], d - 1); return h == e->a[0]->w ? h + lz(e->a[1], d - 1) : h; }
  default: return 0;
  }
}

// distribute a binary op with a constant over an ITE with constant leaves (bounded)
static bool iteConstLeaves(E e, int d = 8) {
  if (isC(e)) return true;
  if (e->op != ITE || d == 0) return false;
  return iteConstLeaves(e->a[1], d - 1) && iteConstLeaves(e->a[2], d - 1);
}
static E mapIte(E e, const std::function<E(E)> &f) {
  if (e->op == ITE) return mkIte(e->a[0], mapIte(e->a[1], f), mapIte(e->a[2], f));
  return f(e);
}

// sums and xors are kept as left-leaning chains sorted by id (constant last)
static const size_t kChain = 160;
static bool chainTerms(Op op, E e, std::vector<E> &out) { while (e->op == op) { if (e->a[1]->op == op) return false; out.push_back(e->a[1]); e = e->a[0]; if (out.size() > kChain) return false; } out.push_back(e); return true; }
static E chainOf(Op op, std::vector<E> &t, unsigned w) { if (t.empty()) return mkC(0, w); std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; }); E r = t[0]; for (size_t i = 1; i < t.size(); i++) { E as[2] = {r, t[i]}; r = intern(op, w, 0, 0, as, 2); } return r; }
static bool chainCancel(Op op, E a, E b, E &ra, E &rb) { std::vector<E> ta, tb; if (!chainTerms(op, a, ta) || !chainTerms(op, b, tb) || (ta.size() < 2 && tb.size() < 2)) return false; bool any = false; for (size_t i = 0; i < ta.size();) { auto j = std::find(tb.begin(), tb.end(), ta[i]); if (j != tb.end()) { tb.erase(j); ta.erase(ta.begin() + i); any = true; } else i++; } if (!any) return false;
  auto build = [&](std::vector<E> &t) { E c = nullptr; for (size_t i = 0; i < t.size(); i++) if (isC(t[i])) { c = t[i]; t.erase(t.begin() + i); break; } E r = chainOf(op, t, a->w); return c ? mk2(op, r, c) : r; }; ra = build(ta); rb = build(tb); return true; }

E mk2(Op op, E a, E b) {
  unsigned w = a->w;
  assert(a->w == b->w);
  bool cmp = op >= EQ && op <= SLE || op == FLT || op == FLE || op == FEQ || op == FUNO;
  if (op == FLT || op == FLE || op == FUNO) { double l1, h1, l2, h2; if (fint(a, l1, h1) && fint(b, l2, h2)) { if (op == FUNO) return mkBool(false); if (op == FLT) { if (h1 < l2) return mkBool(true); if (l1 >= h2) return mkBool(false); } else { if (h1 <= l2) return mkBool(true); if (l1 > h2) return mkBool(false); } } }
  unsigned rw = cmp ? 1 : w;
  if (E f = foldAll(op, rw, {a, b})) return f;
  // commutative: constant to the right; otherwise order by id
  if (op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FADD || op == FMUL || op == FEQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  u128 M = maskOf(w);
  switch (op) {
  case ADD:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == ADD && isC(a->a[1])) return mk2(ADD, a->a[0], mkC(a->a[1]->c + b->c, w));
      if (a->op == ITE && iteConstLeaves(a)) return mapIte(a, [&](E x) { return mk2(ADD, x, b); });
    } else {
      // pull constants outwards
      if (a->op == ADD && isC(a->a[1])) return mk2(ADD, mk2(ADD, a->a[0], b), a->a[1]);
      if (b->op == ADD && isC(b->a[1])) return mk2(ADD, mk2(ADD, a, b->a[0]), b->a[1]);
      // (x - y) + y  = x
      if (a->op == SUB && a->a[1] == b) return a->a[0];
      if (b->op == SUB && b->a[1] == a) return b->a[0];
      // x + (-1*x)
      if (a->op == MUL && isC(a->a[1], M) && a->a[0] == b) return mkC(0, w);
      if (b->op == MUL && isC(b->a[1], M) && b->a[0] == a) return mkC(0, w);
      if (a->op == ADD || b->op == ADD) { std::vector<E> t, u; if (chainTerms(ADD, a, t) && chainTerms(ADD, b, u) && t.size() + u.size() <= kChain) { t.insert(t.end(), u.begin(), u.end()); return chainOf(ADD, t, w); } }
    }
    break;
  case SUB:
    if (a == b) return mkC(0, w);
    if (isC(b)) return mk2(ADD, a, mkC((u128)0 - b->c, w));
    if (a->op == ADD && isC(a->a[1])) return mk2(ADD, mk2(SUB, a->a[0], b), a->a[1]);
    if (b->op == ADD && isC(b->a[1])) return mk2(ADD, mk2(SUB, a, b->a[0]), mkC((u128)0 - b->a[1]->c, w));
    { E ra, rb; if ((a->op == ADD || b->op == ADD) && chainCancel(ADD, a, b, ra, rb)) return mk2(SUB, ra, rb); }
    if (a->op == ADD) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; 
      if (b->op == ADD) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a->a[i] == b->a[j]) return mk2(SUB, a->a[1 - i], b->a[1 - j]); } }
    if (b->op == ADD) { if (b->a[0] == a) return mk2(SUB, mkC(0, w), b->a[1]); if (b->a[1] == a) return mk2(SUB, mkC(0, w), b->a[0]); }
    if (a->op == SUB && a->a[0] == b) return mk2(SUB, mkC(0, w), a->a[1]);
    if (b->op == SUB && b->a[0] == a) return b->a[1];
    if (isC(a, 0) && b->op == SUB) return mk2(SUB, b->a[1], b->a[0]);
    break;
  case MUL:
    if (isC(b)) {
      if (b->c == 0) return b; if (b->c == 1) return a;
      if (isPow2(b->c)) return mk2(SHL, a, mkC(lg2(b->c), w));
      if (a->op == MUL && isC(a->a[1])) return mk2(MUL, a->a[0], mkC(a->a[1]->c * b->c, w));
      if (a->op == ADD && isC(a->a[1])) return mk2(ADD, mk2(MUL, a->a[0], b), mkC(a->a[1]->c * b->c, w));
      if (a->op == ITE && iteConstLeaves(a)) return mapIte(a, [&](E x) { return mk2(MUL, x, b); });
    }
    break;
  case UDIV:
    if (isC(b)) { if (b->c == 1) return a; if (isPow2(b->c)) return mk2(LSHR, a, mkC(lg2(b->c), w)); 
      unsigned z = lz(a); if (z >= w - lg2(b->c) && b->c != 0 && z > 0 && (((u128)1 << (w - z)) - 1) < b->c) return mkC(0, w);
      if (a->op == ZEXT && b->c && lg2(b->c) < a->a[0]->w) return mkZExt(mk2(UDIV, a->a[0], mkC(b->c, a->a[0]->w)), w); }
    break;
  case UREM:
    if (isC(b)) { if (b->c == 1) return mkC(0, w); if (isPow2(b->c)) return mk2(AND, a, mkC(b->c - 1, w));
      unsigned z = lz(a); if (b->c && z > 0 && (((u128)1 << (w - z)) - 1) < b->c) return a;
      if (a->op == ZEXT && b->c && lg2(b->c) < a->a[0]->w) return mkZExt(mk2(UREM, a->a[0], mkC(b->c, a->a[0]->w)), w); }
    break;
  case SDIV: if (isC(b, 1)) return a; break;
  case AND:
    if (w > 1 && a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mkZExt(mk2(AND, a->a[0], b->a[0]), w);
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b; if (b->c == M) return a;
      if (a->op == AND && isC(a->a[1])) return mk2(AND, a->a[0], mkC(a->a[1]->c & b->c, w));
      // low mask -> zext(extract)
      if (isPow2(b->c + 1)) { unsigned k = lg2(b->c + 1); return mkZExt(mkExtract(a, 0, k), w); }
      if (isPow2(b->c) && w > 1) { unsigned k = lg2(b->c); E bit = mkExtract(a, k, 1); E r = mkZExt(bit, w - k); return k ? mkConcat(r, mkC(0, k)) : r; }
      if (a->op == ZEXT) { unsigned k = a->a[0]->w; return mkZExt(mk2(AND, a->a[0], mkC(b->c, k)), w); }
      if (a->op == ITE && iteConstLeaves(a)) return mapIte(a, [&](E x) { return mk2(AND, x, b); });
    }
    if (w == 1) { if (a->op == XOR && isC(a->a[1], 1) && a->a[0] == b) return mkC(0, 1); if (b->op == XOR && isC(b->a[1], 1) && b->a[0] == a) return mkC(0, 1); 
      if (a->op == AND && (a->a[0] == b || a->a[1] == b)) return a; if (b->op == AND && (b->a[0] == a || b->a[1] == a)) return b; }
    break;
  case OR:
    if (w > 1 && a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mkZExt(mk2(OR, a->a[0], b->a[0]), w);
    if (w > 1 && a->op == ZEXT && isC(b) && b->c <= maskOf(a->a[0]->w)) return mkZExt(mk2(OR, a->a[0], mkC(b->c, a->a[0]->w)), w);
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == M) return b; if (a->op == OR && isC(a->a[1])) return mk2(OR, a->a[0], mkC(a->a[1]->c | b->c, w)); }
    if (w == 1) { if (a->op == XOR && isC(a->a[1], 1) && a->a[0] == b) return mkC(1, 1); if (b->op == XOR && isC(b->a[1], 1) && b->a[0] == a) return mkC(1, 1); }
    else {
      // disjoint or: concat(x,0) | zext(y)
      for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
        if (x->op == CONCAT && isC(x->a[1], 0)) { unsigned k = x->a[1]->w; if (lz(y) >= w - k) return mkConcat(x->a[0], mkExtract(y, 0, k)); } }
    }
    break;
  case XOR:
    if (a == b) return mkC(0, w);
    if (isC(b)) { if (b->c == 0) return a; if (a->op == XOR && isC(a->a[1])) return mk2(XOR, a->a[0], mkC(a->a[1]->c ^ b->c, w));
      if (w == 1) { // not
        if (a->op == ULT) return mk2(ULE, a->a[1], a->a[0]); if (a->op == ULE) return mk2(ULT, a->a[1], a->a[0]);
        if (a->op == SLT) return mk2(SLE, a->a[1], a->a[0]); if (a->op == SLE) return mk2(SLT, a->a[1], a->a[0]);
        if (a->op == ITE) return mkIte(a->a[0], mkNot(a->a[1]), mkNot(a->a[2]));
      } }
    if (!isC(b) && w > 1) {
      if (a->op == XOR && isC(a->a[1])) return mk2(XOR, mk2(XOR, a->a[0], b), a->a[1]); if (b->op == XOR && isC(b->a[1])) return mk2(XOR, mk2(XOR, a, b->a[0]), b->a[1]);
      if (a->op == XOR || b->op == XOR) { std::vector<E> t, u; if (chainTerms(XOR, a, t) && chainTerms(XOR, b, u) && t.size() + u.size() <= kChain) { for (E x : u) { auto k = std::find(t.begin(), t.end(), x); if (k != t.end()) t.erase(k); else t.push_back(x); } return chainOf(XOR, t, w); } } }
    break;
  case SHL:
    if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkC(0, w); unsigned k = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - k), mkC(0, k)); }
    if (isC(a, 0)) return a;
    break;
  case LSHR:
    if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkC(0, w); unsigned k = (unsigned)b->c; return mkZExt(mkExtract(a, k, w - k), w); }
    if (isC(a, 0)) return a;
    break;
  case ASHR:
    if (isC(b)) { if (b->c == 0) return a; unsigned k = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, k, w - k), w); }
    if (isC(a, 0)) return a;
    break;
  case EQ:
    if (a == b) return mkC(1, 1);
    if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
    if (isC(b)) {
      if (a->op == ADD && isC(a->a[1])) return mk2(EQ, a->a[0], mkC(b->c - a->a[1]->c, w));
      if (a->op == XOR && isC(a->a[1])) return mk2(EQ, a->a[0], mkC(b->c ^ a->a[1]->c, w));
      if (a->op == ZEXT) { unsigned k = a->a[0]->w; if (b->c >> k) return mkC(0, 1); return mk2(EQ, a->a[0], mkC(b->c, k)); }
      if (a->op == SEXT) { unsigned k = a->a[0]->w; u128 t = b->c & maskOf(k); if (((u128)sval(t, k) & M) != b->c) return mkC(0, 1); return mk2(EQ, a->a[0], mkC(t, k)); }
      if (a->op == CONCAT) { unsigned k = a->a[1]->w; return mkAnd(mk2(EQ, a->a[0], mkC(b->c >> k, w - k)), mk2(EQ, a->a[1], mkC(b->c, k))); }
      if (a->op == ITE) {
        E t = a->a[1], f = a->a[2];
        if (isC(t) || isC(f)) return mkIte(a->a[0], mk2(EQ, t, b), mk2(EQ, f, b));
      }
      if (a->op == SUB && b->c == 0) return mk2(EQ, a->a[0], a->a[1]);
      if (a->op == MUL && isC(a->a[1]) && (a->a[1]->c & 1)) { u128 inv = 1; for (int i = 0; i < 8; i++) inv *= 2 - a->a[1]->c * inv; return mk2(EQ, a->a[0], mkC(inv * b->c, w)); }
    } else {
      if (a->op == ADD && isC(a->a[1]) && b->op == ADD && isC(b->a[1])) return mk2(EQ, mk2(ADD, a->a[0], mkC(a->a[1]->c - b->a[1]->c, w)), b->a[0]);
      { E ra, rb; if ((a->op == ADD || b->op == ADD) && chainCancel(ADD, a, b, ra, rb)) return mk2(EQ, ra, rb); }
      if (a->op == ADD) { if (a->a[0] == b) return mk2(EQ, a->a[1], mkC(0, w)); if (a->a[1] == b) return mk2(EQ, a->a[0], mkC(0, w)); }
      if (b->op == ADD) { if (b->a[0] == a) return mk2(EQ, b->a[1], mkC(0, w)); if (b->a[1] == a) return mk2(EQ, b->a[0], mkC(0, w)); }
      if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mk2(EQ, a->a[0], b->a[0]);
      if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return mk2(EQ, a->a[0], b->a[0]);
      if (a->op == CONCAT && b->op == CONCAT && a->a[1]->w == b->a[1]->w) return mkAnd(mk2(EQ, a->a[0], b->a[0]), mk2(EQ, a->a[1], b->a[1]));
    }
    break;
  case ULT:
    if (a == b) return mkC(0, 1);
    if (isC(b, 0)) return mkC(0, 1);
    if (isC(a) && a->c == M) return mkC(0, 1);
    if (isC(b, 1)) return mk2(EQ, a, mkC(0, w));
    if (isC(a, 0)) return mkNe(b, mkC(0, w));
    if (isC(b)) { unsigned z = lz(a); if (z > 0 && (((u128)1 << (w - z)) - 1) < b->c) return mkC(1, 1); }
    if (isC(a)) { unsigned z = lz(b); if (z > 0 && (((u128)1 << (w - z)) - 1) <= a->c) return mkC(0, 1); }
    goto zcmp;
  case ULE:
    if (a == b) return mkC(1, 1);
    if (isC(a, 0)) return mkC(1, 1);
    if (isC(b) && b->c == M) return mkC(1, 1);
    if (isC(b, 0)) return mk2(EQ, a, b);
    if (isC(b)) { unsigned z = lz(a); if (z > 0 && (((u128)1 << (w - z)) - 1) <= b->c) return mkC(1, 1); }
    if (isC(a)) { unsigned z = lz(b); if (z > 0 && (((u128)1 << (w - z)) - 1) < a->c) return mkC(0, 1); }
    goto zcmp;
  case SLT: case SLE:
    if (a == b) return mkC(op == SLE, 1);
    // both known non-negative -> unsigned
    if (w > 1 && lz(a) > 0 && lz(b) > 0) return mk2(op == SLT ? ULT : ULE, a, b);
    if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return mk2(op, a->a[0], b->a[0]);
    if (a->op == SEXT && isC(b)) { unsigned k = a->a[0]->w; i128 v = sval(b->c, w); if (v == sval((u128)v & maskOf(k), k)) return mk2(op, a->a[0], mkC((u128)v, k)); return mkC(v > 0, 1); }
    if (b->op == SEXT && isC(a)) { unsigned k = b->a[0]->w; i128 v = sval(a->c, w); if (v == sval((u128)v & maskOf(k), k)) return mk2(op, mkC((u128)v, k), b->a[0]); return mkC(v < 0, 1); }
    if (isC(b)) { // x <s min / x <=s max
      if (op == SLT && b->c == ((u128)1 << (w - 1))) return mkC(0, 1);
      if (op == SLE && b->c == (M >> 1)) return mkC(1, 1); }
    if (isC(a)) { if (op == SLT && a->c == (M >> 1)) return mkC(0, 1); if (op == SLE && a->c == ((u128)1 << (w - 1))) return mkC(1, 1); }
    if (a->op == ITE && isC(b) && iteConstLeaves(a)) return mapIte(a, [&](E x) { return mk2(op, x, b); });
    break;
  zcmp:
    if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mk2(op, a->a[0], b->a[0]);
    if (a->op == ZEXT && isC(b)) { unsigned k = a->a[0]->w; if (b->c >> k) return mkC(1, 1); return mk2(op, a->a[0], mkC(b->c, k)); }
    if (b->op == ZEXT && isC(a)) { unsigned k = b->a[0]->w; if (a->c >> k) return mkC(0, 1); return mk2(op, mkC(a->c, k), b->a[0]); }
    if (a->op == ITE && isC(b) && iteConstLeaves(a)) return mapIte(a, [&](E x) { return mk2(op, x, b); });
    if (b->op == ITE && isC(a) && iteConstLeaves(b)) return mapIte(b, [&](E x) { return mk2(op, a, x); });
    break;
  default: break;
  }
  return mkn(op, rw, {a, b});
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->a[1], 1)) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (a->op == ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
  if (b->op == ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
  if (b->op == ITE && b->a[1] == a) return mkIte(mkOr(c, b->a[0]), a, b->a[2]);
  return mkn(ITE, a->w, {c, a, b});
}
// extraction that keeps the operand intact (bytes of a stored value), so that reassembling the bytes gives the value back
E mkExtractR(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
  case EXTRACT: return mkExtractR(a->a[0], a->aux + lo, w);
  case CONST: case CONCAT: case ZEXT: case SEXT: return mkExtract(a, lo, w);
  case ITE: if (isC(a->a[1]) || isC(a->a[2])) return mkExtract(a, lo, w); break;
  default: break;
  }
  return mkn(EXTRACT, w, {a}, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (E f = foldAll(CONCAT, w, {hi, lo})) return f;
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w) return mkExtractR(hi->a[0], lo->aux, w);
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a[0]->op == EXTRACT && hi->a[0] == lo->a[0]->a[0] && hi->aux == lo->a[0]->aux + lo->a[0]->w)
    return mkConcat(mkExtractR(hi->a[0], lo->a[0]->aux, hi->w + lo->a[0]->w), lo->a[1]);
  if (hi->op == CONCAT && lo->op == EXTRACT && hi->a[1]->op == EXTRACT && hi->a[1]->a[0] == lo->a[0] && hi->a[1]->aux == lo->aux + lo->w)
    return mkConcat(hi->a[0], mkExtractR(lo->a[0], lo->aux, lo->w + hi->a[1]->w));
  if (hi->op == EXTRACT && hi->aux == lo->w && mkExtract(hi->a[0], 0, lo->w) == lo) return mkExtract(hi->a[0], 0, w);
  if (hi->op == EXTRACT && hi->aux > 0 && lo->op == CONCAT && hi->aux == lo->w && mkExtract(hi->a[0], 0, lo->w) == lo) return mkExtract(hi->a[0], 0, w);
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->a[0], lo), w);
  // extract(x) of the top part of e where e was zext/sext'ed: concat(extract(zext..)) handled in mkExtract
  if (hi->op == CONCAT && isC(hi->a[1]) && isC(lo)) return mkConcat(hi->a[0], mkC((hi->a[1]->c << lo->w) | lo->c, hi->a[1]->w + lo->w));
  // right-assoc normal form
  if (hi->op == CONCAT) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
  if (hi->op == ITE && lo->op == ITE && hi->a[0] == lo->a[0]) return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
  if (isC(hi) && lo->op == ITE && iteConstLeaves(lo)) return mapIte(lo, [&](E x) { return mkConcat(hi, x); });
  return mkn(CONCAT, w, {hi, lo});
}
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w);
  if (lo == 0 && w == a->w) return a;
  if (E f = foldAll(EXTRACT, w, {a}, lo)) return f;
  const bool shallow = a->depth <= 24; // distributing over deep shared terms explodes
  switch (a->op) {
  case EXTRACT: return mkExtract(a->a[0], a->aux + lo, w);
  case CONCAT: { unsigned k = a->a[1]->w; if (lo >= k) return mkExtract(a->a[0], lo - k, w); if (lo + w <= k) return mkExtract(a->a[1], lo, w);
    return mkConcat(mkExtract(a->a[0], 0, lo + w - k), mkExtract(a->a[1], lo, k - lo)); }
  case ZEXT: { unsigned k = a->a[0]->w; if (lo >= k) return mkC(0, w); if (lo + w <= k) return mkExtract(a->a[0], lo, w); return mkZExt(mkExtract(a->a[0], lo, k - lo), w); }
  case SEXT: { unsigned k = a->a[0]->w; if (lo + w <= k) return mkExtract(a->a[0], lo, w); if (lo < k) return mkSExt(mkExtract(a->a[0], lo, k - lo), w); if (lo >= k - 1 || true) { E s = mkExtract(a->a[0], k - 1, 1); return mkSExt(s, w); } break; }
  case AND: case OR: case XOR: if (!shallow) break; return mk2(a->op, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case ADD: case SUB: case MUL: if (!shallow) break; if (lo == 0) return mk2(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  case ITE: return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  default: break;
  }
  return mkn(EXTRACT, w, {a}, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC(a->c, w);
  if (a->op == ZEXT) return mkZExt(a->a[0], w);
  if (a->op == ITE && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  return mkn(ZEXT, w, {a});
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC((u128)sval(a->c, a->w), w);
  if (a->op == SEXT) return mkSExt(a->a[0], w);
  if (a->op == ZEXT) return mkZExt(a->a[0], w);
  if (lz(a) > 0) return mkZExt(a, w);
  if (a->op == ITE && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return mkn(SEXT, w, {a});
}
E mkF1(Op op, E a, unsigned w) {
  if (E f = foldAll(op, w, {a})) return f;
  return mkn(op, w, {a});
}

static std::map<std::vector<uint32_t>, std::unique_ptr<std::vector<uint32_t>>> symSets;
static const std::vector<uint32_t> *internSet(std::vector<uint32_t> &&v) {
  auto it = symSets.find(v); if (it != symSets.end()) return it->second.get();
  auto p = std::make_unique<std::vector<uint32_t>>(v); auto r = p.get(); symSets.emplace(std::move(v), std::move(p)); return r;
}
const std::vector<uint32_t> &symsOf(E e) {
  if (e->syms) return *e->syms;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); if (x->syms) { st.pop_back(); continue; }
    bool ready = true; for (uint32_t i = 0; i < x->n; i++) if (!x->a[i]->syms) { st.push_back(x->a[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    std::vector<uint32_t> r; if (x->op == SYM) r.push_back(x->aux); if (x->op == UF) r.push_back(x->aux | 0x80000000u);
    for (uint32_t i = 0; i < x->n; i++) { std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), x->a[i]->syms->begin(), x->a[i]->syms->end(), std::back_inserter(t)); r.swap(t); }
    x->syms = internSet(std::move(r));
  }
  return *e->syms;
}
bool hasHard(E e) {
  if (e->hard >= 0) return e->hard;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); if (x->hard >= 0) { st.pop_back(); continue; }
    bool ready = true; for (uint32_t i = 0; i < x->n; i++) if (x->a[i]->hard < 0) { st.push_back(x->a[i]); ready = false; }
    if (!ready) continue; st.pop_back();
    bool h = false; for (uint32_t i = 0; i < x->n; i++) h |= x->a[i]->hard == 1;
    if (x->w >= 16) { if (x->op == MUL && !isC(x->a[1])) h = true; if (x->op == UDIV || x->op == UREM || x->op == SDIV || x->op == SREM) h = true; }
    x->hard = h;
  }
  return e->hard;
}
std::string str(E e, int d) {
  if (isC(e)) { if (e->c >> 64) { char b[64]; snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(e->c >> 64), (unsigned long long)e->c); return b; } 
    if (e->w > 1 && e->w <= 64 && sval(e->c, e->w) < 0 && sval(e->c, e->w) > -4096) return std::to_string((long long)sval(e->c, e->w)); return std::to_string((unsigned long long)e->c); }
  if (e->op == SYM) return symName(e->aux);
  if (d == 0) return "..";
  std::string s = "("; s += e->op == UF ? fnName(e->aux) : opNames[e->op];
  if (e->op == EXTRACT) s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
  if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
  for (uint32_t i = 0; i < e->n; i++) s += " " + str(e->a[i], d - 1);
  return s + ")";
}
static E rebuild(E x, const E *a) {
  switch (x->op) {
  case UF: { std::vector<E> v(a, a + x->n); Expr t = *x; (void)t; E r = intern(UF, x->w, x->aux, 0, v.data(), v.size()); return r; }
  case ITE: return mkIte(a[0], a[1], a[2]);
  case CONCAT: return mkConcat(a[0], a[1]);
  case EXTRACT: return mkExtract(a[0], x->aux, x->w);
  case ZEXT: return mkZExt(a[0], x->w);
  case SEXT: return mkSExt(a[0], x->w);
  case FEXT: case FTRUNC_: case FTOSI: case FTOUI: case SITOF: case UITOF: case FRTZ: return mkF1(x->op, a[0], x->w);
  default: return mk2(x->op, a[0], a[1]);
  }
}
E substitute(E e, std::unordered_map<E, E> &memo) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); if (memo.count(x)) { st.pop_back(); continue; }
    if (x->n == 0) { memo[x] = x; st.pop_back(); continue; }
    bool ready = true; for (uint32_t i = 0; i < x->n; i++) if (!memo.count(x->a[i])) { st.push_back(x->a[i]); ready = false; }
    if (!ready) continue; st.pop_back();
    std::vector<E> a(x->n); bool ch = false; for (uint32_t i = 0; i < x->n; i++) { a[i] = memo[x->a[i]]; ch |= a[i] != x->a[i]; }
    memo[x] = ch ? rebuild(x, a.data()) : x;
  }
  return memo[e];
}

static uint64_t gStamp = 0;
Model::Model() : stamp(++gStamp) {}
void Model::touch() { stamp = ++gStamp; }
u128 Model::eval(E e) const {
  if (e->op == CONST) return e->c;
  if (e->evStamp == stamp) return e->ev;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->op == CONST || x->evStamp == stamp) { st.pop_back(); continue; }
    if (x->op == SYM) { auto it = sym.find(x->aux); x->ev = it == sym.end() ? 0 : it->second; x->evStamp = stamp; st.pop_back(); continue; }
    bool ready = true; for (uint32_t i = 0; i < x->n; i++) if (x->a[i]->op != CONST && x->a[i]->evStamp != stamp) { st.push_back(x->a[i]); ready = false; }
    if (!ready) continue; st.pop_back();
    auto val = [&](uint32_t i) { return x->a[i]->op == CONST ? x->a[i]->c : x->a[i]->ev; };
    if (x->op == UF) { std::pair<uint32_t, std::vector<u128>> k; k.first = x->aux; for (uint32_t i = 0; i < x->n; i++) k.second.push_back(val(i)); auto it = uf.find(k); x->ev = it == uf.end() ? 0 : it->second & maskOf(x->w); }
    else { u128 v[3]; unsigned ws[3]; for (uint32_t i = 0; i < x->n; i++) { v[i] = val(i); ws[i] = x->a[i]->w; } bool ok; x->ev = foldOp(x->op, x->w, v, ws, x->n, x->aux, ok); assert(ok); }
    x->evStamp = stamp;
  }
  return e->ev;
}
