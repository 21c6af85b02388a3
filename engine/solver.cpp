#include <ctime>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <unordered_set>
#include <deque>
#include <memory>
#include <set>
#include <map>

SolverStats sstats; int heavyTimeoutMs = 60000;
static Z3_context C; static std::string ver;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context(cfg); Z3_set_error_handler(C, errh);
  unsigned a, b, c, d; Z3_get_version(&a, &b, &c, &d); ver = std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
}
const char *solverVersion() { init(); return ver.c_str(); }
static Z3_ast num(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, s);
  char buf[64]; char *p = buf + 63; *p = 0; u128 x = v; if (!x) *--p = '0'; while (x) { *--p = '0' + (int)(x % 10); x /= 10; }
  return Z3_mk_numeral(C, p, s);
}
static Z3_ast asBV(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static Z3_ast asBool(Z3_ast bv) { return Z3_mk_eq(C, bv, num(1, 1)); }
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast toFP(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(C, bv, fpSort(w)); }

// lower one node given lowered args (w==1 args are Bool)
static Z3_ast lowerNode(E e, Z3_ast *a) {
  unsigned w = e->w; 
  auto BV = [&](int i) { return e->a[i]->w == 1 ? asBV(a[i]) : a[i]; };
  Z3_ast r = nullptr;
  switch (e->op) {
  case CONST: return w == 1 ? (e->c ? Z3_mk_true(C) : Z3_mk_false(C)) : num(e->c, w);
  case SYM: { std::string n = symName(e->aux) + "!" + std::to_string(e->aux); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), w == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, w)); }
  case UF: { // Ackermannised: one constant per application, congruence axioms are added per query
    std::string n = fnName(e->aux) + "!u" + std::to_string(e->id);
    return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), w == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, w)); }
  case ITE: return Z3_mk_ite(C, a[0], a[1], a[2]);
  case EQ: return Z3_mk_eq(C, a[0], a[1]);
  case AND: if (w == 1) { Z3_ast v[2] = {a[0], a[1]}; return Z3_mk_and(C, 2, v); } return Z3_mk_bvand(C, a[0], a[1]);
  case OR: if (w == 1) { Z3_ast v[2] = {a[0], a[1]}; return Z3_mk_or(C, 2, v); } return Z3_mk_bvor(C, a[0], a[1]);
  case XOR: if (w == 1) { if (isTrue(e->a[1])) return Z3_mk_not(C, a[0]); return Z3_mk_xor(C, a[0], a[1]); } return Z3_mk_bvxor(C, a[0], a[1]);
  case ULT: return Z3_mk_bvult(C, BV(0), BV(1)); case ULE: return Z3_mk_bvule(C, BV(0), BV(1));
  case SLT: return Z3_mk_bvslt(C, BV(0), BV(1)); case SLE: return Z3_mk_bvsle(C, BV(0), BV(1));
  case ADD: r = Z3_mk_bvadd(C, BV(0), BV(1)); break; case SUB: r = Z3_mk_bvsub(C, BV(0), BV(1)); break; case MUL: r = Z3_mk_bvmul(C, BV(0), BV(1)); break;
  case UDIV: r = Z3_mk_bvudiv(C, BV(0), BV(1)); break; case SDIV: r = Z3_mk_bvsdiv(C, BV(0), BV(1)); break;
  case UREM: r = Z3_mk_bvurem(C, BV(0), BV(1)); break; case SREM: r = Z3_mk_bvsrem(C, BV(0), BV(1)); break;
  case SHL: r = Z3_mk_bvshl(C, BV(0), BV(1)); break; case LSHR: r = Z3_mk_bvlshr(C, BV(0), BV(1)); break; case ASHR: r = Z3_mk_bvashr(C, BV(0), BV(1)); break;
  case CONCAT: return Z3_mk_concat(C, BV(0), BV(1));
  case EXTRACT: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, BV(0)); break;
  case ZEXT: return Z3_mk_zero_ext(C, w - e->a[0]->w, BV(0)); case SEXT: return Z3_mk_sign_ext(C, w - e->a[0]->w, BV(0));
  default: {
    Z3_ast rne = Z3_mk_fpa_round_nearest_ties_to_even(C), rtz = Z3_mk_fpa_round_toward_zero(C); unsigned w0 = e->a[0]->w;
    switch (e->op) {
    case FADD: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rne, toFP(a[0], w), toFP(a[1], w)));
    case FSUB: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rne, toFP(a[0], w), toFP(a[1], w)));
    case FMUL: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rne, toFP(a[0], w), toFP(a[1], w)));
    case FDIV: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rne, toFP(a[0], w), toFP(a[1], w)));
    case FLT: return Z3_mk_fpa_lt(C, toFP(a[0], w0), toFP(a[1], w0)); case FLE: return Z3_mk_fpa_leq(C, toFP(a[0], w0), toFP(a[1], w0));
    case FEQ: return Z3_mk_fpa_eq(C, toFP(a[0], w0), toFP(a[1], w0));
    case FUNO: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(C, toFP(a[0], w0)), Z3_mk_fpa_is_nan(C, toFP(a[1], w0))}; return Z3_mk_or(C, 2, v); }
    case FEXT: case FTRUNC_: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rne, toFP(a[0], w0), fpSort(w)));
    case FTOSI: return Z3_mk_fpa_to_sbv(C, rtz, toFP(a[0], w0), w); case FTOUI: return Z3_mk_fpa_to_ubv(C, rtz, toFP(a[0], w0), w);
    case SITOF: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rne, BV(0), fpSort(w)));
    case UITOF: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rne, BV(0), fpSort(w)));
    case FRTZ: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, rtz, toFP(a[0], w)));
    default: fprintf(stderr, "lower: op %d\n", e->op); abort();
    } } }
  return w == 1 ? asBool(r) : r;
}
static bool isHardNode(E x) { return x->w >= 16 && ((x->op == MUL && !isC(x->a[1])) || x->op == UDIV || x->op == UREM || x->op == SDIV || x->op == SREM); }
static std::unordered_map<E, std::vector<Z3_ast>> axioms;
static bool constDiv(E x) { return (x->op == UDIV || x->op == UREM) && isC(x->a[1]) && x->a[1]->c > 1; }
static Z3_ast lower(E e, bool abs);
// inputs on which the abstraction of a hard node is exact
static Z3_ast exactCase(E x) {
  Z3_ast A = lower(x->a[0], true), B = lower(x->a[1], true), c[4]; 
  if (x->op == MUL) { c[0] = Z3_mk_bvule(C, A, num(1, x->w)); c[1] = Z3_mk_bvule(C, B, num(1, x->w)); return Z3_mk_or(C, 2, c); }
  if (x->op == SDIV || x->op == SREM) { c[0] = Z3_mk_bvsge(C, A, num(0, x->w)); c[1] = Z3_mk_bvslt(C, A, B); return Z3_mk_and(C, 2, c); }
  c[0] = Z3_mk_bvult(C, A, B); c[1] = Z3_mk_eq(C, B, num(0, x->w)); return Z3_mk_or(C, 2, c);
}
static Z3_ast lower(E e, bool abs) {
  auto slot = [&](E x) -> void *& { return (abs && hasHard(x)) ? x->zabs : x->z; };
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); if (slot(x)) { st.pop_back(); continue; }
    bool ready = true; for (uint32_t i = 0; i < x->n; i++) if (!slot(x->a[i])) { st.push_back(x->a[i]); ready = false; }
    if (!ready) continue; st.pop_back();
    Z3_ast a[16]; std::vector<Z3_ast> big; Z3_ast *pa = a; if (x->n > 16) { big.resize(x->n); pa = big.data(); }
    for (uint32_t i = 0; i < x->n; i++) pa[i] = (Z3_ast)slot(x->a[i]);
    if (abs && isHardNode(x)) {
      Z3_sort s = Z3_mk_bv_sort(C, x->w); auto mk = [&](const char *p) { return Z3_mk_const(C, Z3_mk_string_symbol(C, (std::string(p) + std::to_string(x->a[0]->id) + "_" + std::to_string(x->a[1]->id)).c_str()), s); };
      Z3_ast A = pa[0], B = pa[1], zero = num(0, x->w), one = num(1, x->w); auto &ax = axioms[x];
      auto imp = [&](Z3_ast p, Z3_ast q) { ax.push_back(Z3_mk_implies(C, p, q)); };
      Z3_ast r;
      if (x->op == MUL) { r = mk("mul"); imp(Z3_mk_eq(C, A, zero), Z3_mk_eq(C, r, zero)); imp(Z3_mk_eq(C, B, zero), Z3_mk_eq(C, r, zero)); imp(Z3_mk_eq(C, A, one), Z3_mk_eq(C, r, B)); imp(Z3_mk_eq(C, B, one), Z3_mk_eq(C, r, A));
        static const unsigned bits[] = {31, 32, 63}; auto below = [&](Z3_ast t, unsigned k) { return Z3_mk_bvult(C, t, num((u128)1 << k, x->w)); };
        for (unsigned i : bits) for (unsigned j : bits) if (i + j < x->w) { Z3_ast c[2] = {below(A, i), below(B, j)}; imp(Z3_mk_and(C, 2, c), below(r, i + j)); } }
      else if (x->op == SDIV || x->op == SREM) { // of a non-negative by a positive number
        r = mk(x->op == SDIV ? "sdiv" : "srem"); Z3_ast g[2] = {Z3_mk_bvsge(C, A, zero), Z3_mk_bvsgt(C, B, zero)}; Z3_ast ok = Z3_mk_and(C, 2, g), lt = Z3_mk_bvult(C, A, B);
        auto gimp = [&](Z3_ast p, Z3_ast q) { Z3_ast c[2] = {ok, p}; imp(Z3_mk_and(C, 2, c), q); };
        imp(ok, Z3_mk_bvule(C, r, A)); if (x->op == SDIV) { gimp(lt, Z3_mk_eq(C, r, zero)); gimp(Z3_mk_eq(C, B, one), Z3_mk_eq(C, r, A)); } else { gimp(lt, Z3_mk_eq(C, r, A)); imp(ok, Z3_mk_bvult(C, r, B)); } }
      else if (isC(x->a[1]) && x->a[1]->c > 1) { // exact: A = q*c + rem
        Z3_ast q = mk("quot"), qc = Z3_mk_bvmul(C, q, B), rem = Z3_mk_bvsub(C, A, qc);
        ax.push_back(Z3_mk_bvule(C, q, num(maskOf(x->w) / x->a[1]->c, x->w))); ax.push_back(Z3_mk_bvule(C, qc, A)); ax.push_back(Z3_mk_bvult(C, rem, B)); r = x->op == UDIV ? q : rem; }
      else { r = mk(x->op == UDIV ? "udiv" : "urem"); Z3_ast nz = Z3_mk_not(C, Z3_mk_eq(C, B, zero)); Z3_ast lt = Z3_mk_bvult(C, A, B);
        if (x->op == UDIV) { imp(nz, Z3_mk_bvule(C, r, A)); imp(lt, Z3_mk_eq(C, r, zero)); imp(Z3_mk_eq(C, B, one), Z3_mk_eq(C, r, A)); imp(Z3_mk_not(C, nz), Z3_mk_eq(C, r, num(maskOf(x->w), x->w))); }
        else { imp(nz, Z3_mk_bvult(C, r, B)); ax.push_back(Z3_mk_bvule(C, r, A)); imp(lt, Z3_mk_eq(C, r, A)); imp(Z3_mk_not(C, nz), Z3_mk_eq(C, r, A)); } }
      x->zabs = r; continue;
    }
    slot(x) = lowerNode(x, pa);
  }
  return (Z3_ast)slot(e);
}
// facts on a product x = P*Q of factors that cannot overflow, and another
// product P2*Q, or a division of A by Q
static void products(E x, E y, Z3_solver used) {
  if (x == y || x->op != MUL) return;
  if (y->op == MUL && x->w == 2 * y->w) { // the same product in twice the width
    for (int j = 0; j < 2; j++) { unsigned n = y->w; Z3_ast g[4]; for (int i = 0; i < 2; i++) { Z3_ast X = lower(x->a[i], true), Y = lower(y->a[i ^ j], true); g[i] = Z3_mk_eq(C, X, Z3_mk_zero_ext(C, n, Y)); g[2 + i] = Z3_mk_bvult(C, Y, num((u128)1 << (n / 2), n)); }
      Z3_solver_assert(C, used, Z3_mk_implies(C, Z3_mk_and(C, 4, g), Z3_mk_eq(C, lower(x, true), Z3_mk_zero_ext(C, n, lower(y, true))))); }
    return; }
  if (x->w != y->w) return;
  auto L = [&](E e) { return lower(e, true); }; unsigned w = x->w; u128 lim = (u128)1 << (w / 2);
  auto small = [&](E e) { return Z3_mk_bvult(C, L(e), num(lim, w)); }; auto le = [&](Z3_ast a, Z3_ast b) { return Z3_mk_bvule(C, a, b); }; auto lt = [&](Z3_ast a, Z3_ast b) { return Z3_mk_bvult(C, a, b); };
  Z3_ast m = L(x);
  for (int i = 0; i < 2; i++) {
    E P = x->a[i], Q = x->a[1 - i]; if (i && P == Q) break;
    if (y->op == MUL) { for (int j = 0; j < 2; j++) { if (y->a[1 - j] != Q) continue; E P2 = y->a[j]; if (P2 == P) continue; Z3_ast m2 = L(y);
        Z3_ast g[3] = {small(P), small(P2), small(Q)}; Z3_ast q[2] = {Z3_mk_implies(C, le(L(P), L(P2)), le(m, m2)), Z3_mk_implies(C, lt(L(P), L(P2)), le(Z3_mk_bvadd(C, m, L(Q)), m2))};
        Z3_solver_assert(C, used, Z3_mk_implies(C, Z3_mk_and(C, 3, g), Z3_mk_and(C, 2, q))); } }
    else { if (y->a[1] != Q) continue; Z3_ast A = L(y->a[0]), B = L(Q), r = L(y); std::vector<Z3_ast> g{small(P), small(Q)}; bool sg = y->op == SDIV || y->op == SREM; g.push_back(Z3_mk_not(C, Z3_mk_eq(C, B, num(0, w)))); if (sg) { g.push_back(Z3_mk_bvsge(C, A, num(0, w))); }
      Z3_ast mB = Z3_mk_bvadd(C, m, B); Z3_ast q;
      if (y->op == UDIV || y->op == SDIV) { Z3_ast c[2] = {Z3_mk_iff(C, le(m, A), le(L(P), r)), Z3_mk_iff(C, le(mB, A), lt(L(P), r))}; q = Z3_mk_and(C, 2, c); }
      else { Z3_ast c[2] = {le(m, A), lt(A, mB)}; q = Z3_mk_implies(C, Z3_mk_and(C, 2, c), Z3_mk_eq(C, r, Z3_mk_bvsub(C, A, m))); }
      Z3_solver_assert(C, used, Z3_mk_implies(C, Z3_mk_and(C, g.size(), g.data()), q)); }
  }
}
static void collect(const std::vector<E> &cs, std::vector<E> &leaves, std::vector<E> *hard, bool &uf, bool &fp) {
  std::unordered_set<E> seen; std::vector<E> st(cs.begin(), cs.end()); uf = fp = false;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->op == SYM) leaves.push_back(x); if (x->op == UF) { leaves.push_back(x); uf = true; } if (x->op >= FADD) fp = true; if (hard && isHardNode(x)) hard->push_back(x);
    for (uint32_t i = 0; i < x->n; i++) st.push_back(x->a[i]); }
}
std::vector<E> slice(const std::vector<E> &cs, const std::vector<E> &conds) {
  std::unordered_set<uint32_t> syms; for (E c : conds) for (auto s : symsOf(c)) syms.insert(s);
  std::vector<E> out; std::vector<char> used(cs.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < cs.size(); i++) if (!used[i]) { bool hit = false; for (auto s : symsOf(cs[i])) if (syms.count(s)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; for (auto s : symsOf(cs[i])) syms.insert(s); } } }
  for (size_t i = 0; i < cs.size(); i++) if (used[i]) out.push_back(cs[i]);
  return out;
}
// time limits are meant as processor time: on a loaded machine the wall-clock limits given to the back ends are stretched
static double cpuNow() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double wallNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double loadRatio = 1;
static void setTimeout(Z3_solver s, int ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }

#include "lia.inc"
static u128 getVal(Z3_model m, Z3_ast t, unsigned w) {
  Z3_ast r; if (w == 1 && Z3_get_sort_kind(C, Z3_get_sort(C, t)) == Z3_BOOL_SORT) { Z3_model_eval(C, m, t, true, &r); return Z3_get_bool_value(C, r) == Z3_L_TRUE; }
  Z3_model_eval(C, m, t, true, &r); if (Z3_get_ast_kind(C, r) != Z3_NUMERAL_AST) return 0;
  const char *s = Z3_get_numeral_string(C, r); u128 v = 0; for (; *s; s++) v = v * 10 + (*s - '0'); return v;
}
struct CEnt { Res r; std::vector<std::pair<E, u128>> vals; };
static std::unordered_map<std::string, CEnt> cache;

std::string toSmt2(const std::vector<E> &cs) {
  init(); Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); for (E c : cs) Z3_solver_assert(C, s, lower(c, false)); std::string r = Z3_solver_to_string(C, s); Z3_solver_dec_ref(C, s); return r + "(check-sat)\n";
}
static Res cvc5Try(std::vector<E> cs, const std::vector<E> &ack, int ms, const char *opt) { cs.insert(cs.end(), ack.begin(), ack.end());
  char fn[] = "/tmp/vfqXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return Res::UNKNOWN; FILE *f = fdopen(fd, "w"); fputs("(set-logic ALL)\n", f); fputs(toSmt2(cs).c_str(), f); fclose(f);
  std::string cmd = std::string("cvc5 --tlimit=") + std::to_string((int)(ms * loadRatio)) + " " + opt + " --lang=smt2 " + fn + " 2>/dev/null"; FILE *p = popen(cmd.c_str(), "r"); char buf[256]; Res r = Res::UNKNOWN;
  while (p && fgets(buf, 256, p)) { if (!strncmp(buf, "unsat", 5)) r = Res::UNSAT; else if (!strncmp(buf, "sat", 3)) r = Res::SAT; } if (p) pclose(p); remove(fn); return r;
}

// f(a) and f(b) agree whenever a and b do
static void congruence(const std::vector<E> &leaves, std::vector<E> &out) {
  std::unordered_map<uint32_t, std::vector<E>> by; for (E l : leaves) if (l->op == UF) by[l->aux].push_back(l);
  for (auto &p : by) { auto &v = p.second; for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
    if (v[i]->n != v[j]->n || v[i]->w != v[j]->w) continue; E c = mkBool(true); for (uint32_t k = 0; k < v[i]->n && !isFalse(c); k++) c = v[i]->a[k]->w == v[j]->a[k]->w ? mkAnd(c, mk2(EQ, v[i]->a[k], v[j]->a[k])) : mkBool(false);
    if (isFalse(c)) continue; E ax = mkImplies(c, mk2(EQ, v[i], v[j])); if (!isTrue(ax)) out.push_back(ax); } }
}
static std::deque<std::shared_ptr<Model>> pool;
Res solve(const std::vector<E> &cs0, Model *m, bool heavy) {
  init();
  std::vector<E> cs; for (E c : cs0) { if (isFalse(c)) return Res::UNSAT; if (!isTrue(c)) cs.push_back(c); }
  // leaves that are equal to a constant are replaced by it in hard constraints
  for (size_t i = 0; i < cs.size(); i++) while (cs[i]->op == AND && cs[i]->w == 1) { E x = cs[i]; cs[i] = x->a[0]; cs.push_back(x->a[1]); }
  bool anyHard = false; for (E c : cs) if (hasHard(c)) { anyHard = true; break; }
  if (anyHard) for (int round = 0; round < 3; round++) {
    std::unordered_map<E, E> memo; std::unordered_set<E> defs;
    for (E c : cs) if (c->op == EQ) for (int i = 0; i < 2; i++) if (isC(c->a[1 - i]) && (c->a[i]->op == SYM || c->a[i]->op == UF) && !memo.count(c->a[i])) { memo[c->a[i]] = c->a[1 - i]; defs.insert(c); break; }
    if (memo.empty()) break;
    bool ch = false; std::vector<E> out; for (E c : cs) { if (defs.count(c) || !hasHard(c)) { out.push_back(c); continue; } E y = substitute(c, memo); if (y != c) ch = true; if (isFalse(y)) return Res::UNSAT; if (!isTrue(y)) out.push_back(y); }
    cs = out; if (!ch) break;
  }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (cs.empty()) return Res::SAT;
  std::string key((const char *)cs.data(), cs.size() * sizeof(E));
  std::vector<std::pair<E, u128>> vals; Res res;
  auto it = cache.find(key);
  auto t0 = std::chrono::steady_clock::now();
  if (it != cache.end() && !(it->second.r == Res::UNKNOWN)) { sstats.cacheHits++; res = it->second.r; vals = it->second.vals; }
  else {
    sstats.queries++;
    std::vector<E> leaves, hard; bool uf, fp; collect(cs, leaves, &hard, uf, fp);
    Z3_lbool r = Z3_L_UNDEF; Z3_model zm = nullptr; Z3_solver used = nullptr;
    // a recent model may already satisfy the query
    for (auto &pm : pool) { bool ok = true; for (E c : cs) if (pm->eval(c) != 1) { ok = false; break; } if (ok) { sstats.poolHits++; if (m) { std::unordered_set<uint32_t> fns; for (E l : leaves) { if (l->op == SYM) { auto si = pm->sym.find(l->aux); m->sym[l->aux] = si == pm->sym.end() ? 0 : si->second; } else fns.insert(l->aux); }
        if (!fns.empty()) { for (auto i = m->uf.begin(); i != m->uf.end();) if (fns.count(i->first.first)) i = m->uf.erase(i); else ++i; for (auto &q : pm->uf) if (fns.count(q.first.first)) m->uf.insert(q); } m->touch(); } sstats.sat++; return Res::SAT; } }
    std::vector<E> ack; congruence(leaves, ack);
    bool restricted = false;
    auto run = [&](int ms, bool abs, const char *kind) {
      if (used) { Z3_solver_dec_ref(C, used); used = nullptr; }
      if (!strcmp(kind, "fp")) { Z3_tactic t = Z3_mk_tactic(C, "qffp"); Z3_tactic_inc_ref(C, t); used = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, used); Z3_tactic_dec_ref(C, t); }
      else { used = !strcmp(kind, "smt") ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, used); }
      setTimeout(used, ms);
      for (E c : cs) Z3_solver_assert(C, used, lower(c, abs)); for (E c : ack) Z3_solver_assert(C, used, lower(c, abs));
      if (abs) for (E h : hard) { auto ai = axioms.find(h); if (ai != axioms.end()) for (auto x : ai->second) Z3_solver_assert(C, used, x); if (restricted && !constDiv(h)) Z3_solver_assert(C, used, exactCase(h)); }
      // equal operands give equal results
      if (abs && hard.size() <= 12) for (size_t i = 0; i < hard.size(); i++) for (size_t j = i + 1; j < hard.size(); j++) { E x = hard[i], y = hard[j]; if (x->op != y->op || x->w != y->w || (isC(x->a[1]) && isC(y->a[1]) && x->a[1] != y->a[1])) continue;
        Z3_ast v[2] = {Z3_mk_eq(C, lower(x->a[0], true), lower(y->a[0], true)), Z3_mk_eq(C, lower(x->a[1], true), lower(y->a[1], true))}; Z3_solver_assert(C, used, Z3_mk_implies(C, Z3_mk_and(C, 2, v), Z3_mk_eq(C, lower(x, true), lower(y, true)))); }
      if (abs && hard.size() <= 14) for (E x : hard) for (E y : hard) products(x, y, used);
      double w0 = wallNow(), c0 = cpuNow(); Z3_lbool rr = Z3_solver_check(C, used);
      if (rr == Z3_L_UNDEF) { double w = wallNow() - w0, c = cpuNow() - c0; loadRatio = std::min(4.0, std::max(1.0, w / std::max(c, 0.001))); if (w * 1000 > ms * 0.9 && c * 1000 < ms * 0.8) { setTimeout(used, (int)(ms * loadRatio * 1.2)); rr = Z3_solver_check(C, used); } }
      return rr; };
    bool allConst = !hard.empty(), absOk = !hard.empty(); for (E h : hard) if (!constDiv(h)) allConst = false;
    bool absModel = false, liaModel = false;
    if (allConst && !fp) { int lr = liaTry(cs, ack, leaves, heavy ? 10000 : 3000, vals); if (lr < 0) { r = Z3_L_FALSE; sstats.liaProved++; } else if (lr > 0) { r = Z3_L_TRUE; liaModel = true; } }
    if (r != Z3_L_UNDEF) {} else
    if (absOk && !fp) {
      r = run(allConst ? 1000 : heavy ? 3000 : 2000, true, "bv");
      if (r == Z3_L_FALSE) sstats.absProved++;
      else if (r == Z3_L_TRUE && allConst) absModel = true;
      else if (r == Z3_L_TRUE) { restricted = true; r = run(1000, true, "bv"); restricted = false; if (r == Z3_L_TRUE) absModel = true; else r = Z3_L_UNDEF; }
      else r = Z3_L_UNDEF;
    } else if (!hard.empty()) { r = run(2000, true, "bv"); if (r == Z3_L_FALSE) sstats.absProved++; else r = Z3_L_UNDEF; }
    if (r == Z3_L_UNDEF && !fp && !hard.empty() && heavy) { Res cr = cvc5Try(cs, ack, heavy ? 8000 : 4000, "--solve-bv-as-int=bv --use-soi"); if (cr == Res::UNSAT) { r = Z3_L_FALSE; sstats.cvc5Proved++; } }
    if (r == Z3_L_UNDEF && !fp) r = run(heavy && hard.empty() ? 4000 : hard.empty() ? 1500 : 400, false, "bv");
    if (r == Z3_L_UNDEF && fp && !heavy) r = run(1500, false, "fp");
    if (r == Z3_L_UNDEF && heavy) {
      if (getenv("VF_DUMP")) { FILE *f = fopen(getenv("VF_DUMP"), "w"); fputs(toSmt2(cs).c_str(), f); fclose(f); }
      sstats.heavy++; r = run(heavyTimeoutMs, false, fp ? "fp" : "bv");
      if (r == Z3_L_UNDEF) { Res cr = cvc5Try(cs, ack, heavyTimeoutMs, ""); if (cr == Res::UNSAT) { r = Z3_L_FALSE; sstats.cvc5Proved++; } }
    }
    res = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
    if (res == Res::SAT && !liaModel) { vals.clear(); zm = Z3_solver_get_model(C, used); Z3_model_inc_ref(C, zm); for (E l : leaves) { if (l->op == SYM) vals.push_back({l, getVal(zm, lower(l, absModel), l->w)}); } 
      // UF apps: evaluate
      for (E l : leaves) if (l->op == UF) vals.push_back({l, getVal(zm, lower(l, absModel), l->w)});
      Z3_model_dec_ref(C, zm); }
    if (used) Z3_solver_dec_ref(C, used);
    cache[key] = {res, vals};
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); sstats.time += dt;
    if (getenv("VF_SLOW") && dt > atof(getenv("VF_SLOW"))) { fprintf(stderr, "slow query %.2fs res=%d hard=%zu uf=%d fp=%d n=%zu\n", dt, (int)res, hard.size(), uf, fp, cs.size()); if (getenv("VF_DUMP")) { FILE *f = fopen(getenv("VF_DUMP"), "w"); fputs(toSmt2(cs).c_str(), f); fclose(f); } }
  }
  if (res == Res::SAT) sstats.sat++; else if (res == Res::UNSAT) sstats.unsat++; else sstats.unknown++;
  if (res == Res::SAT && m) {
    // drop stale UF entries of functions that occur
    std::unordered_set<uint32_t> fns; for (auto &p : vals) if (p.first->op == UF) fns.insert(p.first->aux);
    if (!fns.empty()) for (auto i = m->uf.begin(); i != m->uf.end();) if (fns.count(i->first.first)) i = m->uf.erase(i); else ++i;
    for (auto &p : vals) if (p.first->op == SYM) m->sym[p.first->aux] = p.second;
    m->touch();
    // UF apps in dependency order: args may contain UF apps themselves; iterate by expr id (children have smaller ids)
    std::vector<std::pair<E, u128>> ufs; for (auto &p : vals) if (p.first->op == UF) ufs.push_back(p);
    std::sort(ufs.begin(), ufs.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
    for (auto &p : ufs) { std::pair<uint32_t, std::vector<u128>> k; k.first = p.first->aux; for (uint32_t i = 0; i < p.first->n; i++) k.second.push_back(m->eval(p.first->a[i])); m->uf[k] = p.second; m->touch(); }
    for (E c : cs) if (m->eval(c) != 1) { fprintf(stderr, "MODEL-MISMATCH %s\n", str(c, 8).c_str()); return Res::UNKNOWN; }
    pool.push_front(std::make_shared<Model>(*m)); pool.front()->touch(); if (pool.size() > 12) pool.pop_back();
  }
  return res;
}
