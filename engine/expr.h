// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  CONST, SYM, UF,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FLT, FLE, FEQ, FUNO, FEXT, FTRUNC_, FTOSI, FTOUI, SITOF, UITOF, FRTZ
};

struct Expr;
typedef const Expr *E;

struct Expr {
  Op op;
  uint16_t w;
  uint16_t depth = 0; // saturating
  uint32_t id;
  uint32_t aux;   // SYM: symbol id; UF: function id; EXTRACT: low bit
  uint32_t n;     // number of args
  E *a;           // args
  u128 c;         // CONST value (masked)
  // caches
  mutable void *z = nullptr;      // exact z3 term
  mutable void *zabs = nullptr;   // abstracted z3 term
  mutable uint64_t evStamp = 0;
  mutable u128 ev = 0;
  mutable const std::vector<uint32_t> *syms = nullptr; // sorted symbol set
  mutable signed char hard = -1;
};

extern const char *opNames[];

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline bool isC(E e) { return e->op == CONST; }
inline bool isC(E e, u128 v) { return e->op == CONST && e->c == v; }
inline i128 sval(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)((v ^ s)) - (i128)s;
}
inline bool isTrue(E e) { return e->op == CONST && e->c == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->c == 0; }

E mkC(u128 v, unsigned w);
E mkSym(const std::string &name, unsigned w);
E mkUF(const std::string &fn, unsigned w, const std::vector<E> &args);
E mk2(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtractR(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkF1(Op op, E a, unsigned w); // FEXT FTRUNC_ FTOSI FTOUI SITOF UITOF FRTZ
inline E mkBool(bool b) { return mkC(b, 1); }
inline E mkAnd(E a, E b) { return mk2(AND, a, b); }
inline E mkOr(E a, E b) { return mk2(OR, a, b); }
inline E mkNe(E a, E b) { return mkNot(mk2(EQ, a, b)); }
inline E mkImplies(E a, E b) { return mkOr(mkNot(a), b); }

const std::string &symName(uint32_t id);
unsigned symWidth(uint32_t id);
const std::string &fnName(uint32_t id);
// symbols and UF ids (offset by 1<<31) occurring in e
const std::vector<uint32_t> &symsOf(E e);
std::string str(E e, int depth = 6);
E substitute(E e, std::unordered_map<E, E> &memo); // memo pre-filled with replacements
uint64_t exprCount();
bool hasHard(E e);

struct Model {
  std::unordered_map<uint32_t, u128> sym;                        // symbol id -> value
  std::map<std::pair<uint32_t, std::vector<u128>>, u128> uf;     // (fn,args) -> value
  uint64_t stamp;
  Model();
  u128 eval(E e) const;
  void touch();
};
u128 foldOp(Op op, unsigned w, const u128 *v, const unsigned *ws, unsigned n, uint32_t aux, bool &ok);
