// Integer translation of bit-vector constraints without non-linear terms: each
// bit-vector is a linear form over bounded integer atoms; wrap-around introduces
// a quotient atom, extraction splits a value at the cut points that occur.
struct LiaBail {};
struct Lia {
  struct Atom { Z3_ast z; i128 lo, hi; };
  struct Lin { std::vector<std::pair<int, i128>> t; i128 c = 0; };
  std::vector<Atom> atoms; std::vector<Z3_ast> cons; std::unordered_map<E, Lin> vals; std::unordered_map<E, Z3_ast> bools; std::unordered_map<E, std::set<unsigned>> cuts; std::unordered_map<E, std::map<unsigned, Lin>> parts; std::map<std::pair<E, u128>, std::pair<Lin, Lin>> divs;
  Z3_sort IS = Z3_mk_int_sort(C); int ctr = 0;
  static i128 mul(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r) || r > ((i128)1 << 120) || r < -((i128)1 << 120)) throw LiaBail{}; return r; }
  static i128 add(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r) || r > ((i128)1 << 120) || r < -((i128)1 << 120)) throw LiaBail{}; return r; }
  Z3_ast numI(i128 v) { bool n = v < 0; u128 x = n ? (u128)-v : (u128)v; char buf[64]; char *p = buf + 63; *p = 0; if (!x) *--p = '0'; while (x) { *--p = '0' + (int)(x % 10); x /= 10; } if (n) *--p = '-'; return Z3_mk_numeral(C, p, IS); }
  int atom(i128 lo, i128 hi, const char *nm) { int i = atoms.size(); if (i > 4000) throw LiaBail{}; Z3_ast z = Z3_mk_const(C, Z3_mk_string_symbol(C, (std::string(nm) + "." + std::to_string(i)).c_str()), IS); atoms.push_back({z, lo, hi}); cons.push_back(Z3_mk_le(C, numI(lo), z)); cons.push_back(Z3_mk_le(C, z, numI(hi))); return i; }
  static Lin of(int a) { Lin l; l.t.push_back({a, 1}); return l; }
  static Lin cst(i128 c) { Lin l; l.c = c; return l; }
  static Lin lin(const Lin &a, i128 ka, const Lin &b, i128 kb) { Lin r; r.c = add(mul(a.c, ka), mul(b.c, kb)); size_t i = 0, j = 0; while (i < a.t.size() || j < b.t.size()) { if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { r.t.push_back({a.t[i].first, mul(a.t[i].second, ka)}); i++; } else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, mul(b.t[j].second, kb)}); j++; } else { i128 k = add(mul(a.t[i].second, ka), mul(b.t[j].second, kb)); if (k) r.t.push_back({a.t[i].first, k}); i++; j++; } }
    std::vector<std::pair<int, i128>> nz; for (auto &p : r.t) if (p.second) nz.push_back(p); r.t = nz; return r; }
  void range(const Lin &l, i128 &lo, i128 &hi) { lo = hi = l.c; for (auto &p : l.t) { Atom &a = atoms[p.first]; i128 x = mul(a.lo, p.second), y = mul(a.hi, p.second); lo = add(lo, std::min(x, y)); hi = add(hi, std::max(x, y)); } }
  Z3_ast term(const Lin &l) { std::vector<Z3_ast> v; for (auto &p : l.t) { if (p.second == 1) v.push_back(atoms[p.first].z); else { Z3_ast m[2] = {numI(p.second), atoms[p.first].z}; v.push_back(Z3_mk_mul(C, 2, m)); } } if (l.c || v.empty()) v.push_back(numI(l.c)); return v.size() == 1 ? v[0] : Z3_mk_add(C, v.size(), v.data()); }
  Z3_ast cmp(const Lin &a, const Lin &b, char op) { Lin d = lin(a, 1, b, -1); i128 lo, hi; range(d, lo, hi); // d op 0
    if (op == '=') { if (lo == 0 && hi == 0) return Z3_mk_true(C); if (lo > 0 || hi < 0) return Z3_mk_false(C); return Z3_mk_eq(C, term(d), numI(0)); }
    if (op == '<') { if (hi < 0) return Z3_mk_true(C); if (lo >= 0) return Z3_mk_false(C); return Z3_mk_lt(C, term(d), numI(0)); }
    if (hi <= 0) return Z3_mk_true(C); if (lo > 0) return Z3_mk_false(C); return Z3_mk_le(C, term(d), numI(0)); }
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b < 0) q--; return q; }
  Lin norm(const Lin &l, unsigned w) { if (w > 110) { i128 lo, hi; range(l, lo, hi); if (lo >= 0 && (w >= 120 || hi < ((i128)1 << w))) return l; throw LiaBail{}; } i128 M = (i128)1 << w, lo, hi; range(l, lo, hi); i128 ql = fdiv(lo, M), qh = fdiv(hi, M); if (ql == qh) return ql ? lin(l, 1, cst(1), -mul(ql, M)) : l;
    int k = atom(ql, qh, "k"); Lin r = lin(l, 1, of(k), -M); Z3_ast t = term(r); cons.push_back(Z3_mk_le(C, numI(0), t)); cons.push_back(Z3_mk_lt(C, t, numI(M)));
    int v = atom(0, M - 1, "v"); cons.push_back(Z3_mk_eq(C, atoms[v].z, t)); return of(v); }
  static u128 ones(E e, int d = 0) { u128 m = maskOf(e->w); if (d > 12) return m; switch (e->op) { case CONST: return e->c; case ZEXT: return ones(e->a[0], d + 1); case CONCAT: return (e->w > 127 ? m : ((ones(e->a[0], d + 1) << e->a[1]->w) | ones(e->a[1], d + 1))); case EXTRACT: return (ones(e->a[0], d + 1) >> e->aux) & m; case AND: return ones(e->a[0], d + 1) & ones(e->a[1], d + 1); case OR: case XOR: return (ones(e->a[0], d + 1) | ones(e->a[1], d + 1)) & m; case ITE: return ones(e->a[1], d + 1) | ones(e->a[2], d + 1);
    case SHL: if (isC(e->a[1]) && e->a[1]->c < e->w) return (ones(e->a[0], d + 1) << (unsigned)e->a[1]->c) & m; return m; case LSHR: if (isC(e->a[1]) && e->a[1]->c < e->w) return ones(e->a[0], d + 1) >> (unsigned)e->a[1]->c; return m;
    case UREM: if (isC(e->a[1]) && e->a[1]->c) { u128 x = e->a[1]->c - 1; u128 r = 0; while (x) { r = (r << 1) | 1; x >>= 1; } return r; } return m; default: return m; } }
  u128 onesR(E e) { i128 lo, hi; range(val(e), lo, hi); u128 m = 0; while (hi > 0) { m = (m << 1) | 1; hi >>= 1; } return ones(e) & m; }
  void need(E e, unsigned c) { if (c && c < e->w) cuts[e].insert(c); }
  void prepass(const std::vector<E> &cs) { std::unordered_set<E> seen; std::vector<E> st(cs.begin(), cs.end()); while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue;
      switch (e->op) { case EXTRACT: need(e->a[0], e->aux); need(e->a[0], e->aux + e->w); break; case SEXT: case SLT: case SLE: need(e->a[0], e->a[0]->w - 1); if (e->op != SEXT) need(e->a[1], e->a[1]->w - 1); break;
      case SHL: if (isC(e->a[1]) && e->a[1]->c < e->w) need(e->a[0], e->w - (unsigned)e->a[1]->c); break; case LSHR: if (isC(e->a[1]) && e->a[1]->c < e->w) need(e->a[0], (unsigned)e->a[1]->c); break;
      case AND: if (e->w > 1) for (int i = 0; i < 2; i++) if (isC(e->a[i])) for (unsigned b = 1; b < e->w; b++) if (((e->a[i]->c >> b) & 1) != ((e->a[i]->c >> (b - 1)) & 1)) need(e->a[1 - i], b); break; default: break; }
      for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]); } }
  std::map<unsigned, Lin> &split(E e) { // chunk start -> value
    auto it = parts.find(e); if (it != parts.end()) return it->second; std::map<unsigned, Lin> r; std::vector<unsigned> b{0}; for (unsigned c : cuts[e]) b.push_back(c); b.push_back(e->w);
    if (isC(e)) { for (size_t i = 0; i + 1 < b.size(); i++) r[b[i]] = cst((i128)((e->c >> b[i]) & maskOf(b[i + 1] - b[i]))); }
    else { bool leaf = e->op == SYM || e->op == UF; Lin v; i128 lo = 0, hi = 0; if (!leaf) { v = val(e); range(v, lo, hi); } else hi = e->w > 110 ? throw LiaBail{} : ((i128)1 << e->w) - 1;
      Lin sum; for (size_t i = 0; i + 1 < b.size(); i++) { i128 mx = std::min<i128>((i128)maskOf(b[i + 1] - b[i]), hi >> b[i]); Lin c = mx ? of(atom(0, mx, "p")) : cst(0); r[b[i]] = c; sum = lin(sum, 1, c, (i128)1 << b[i]); }
      if (leaf) vals[e] = sum; else cons.push_back(cmp(v, sum, '=')); }
    return parts[e] = r; }
  Lin slice(E e, unsigned lo, unsigned w) { if (lo == 0 && w >= e->w) return val(e); auto &p = split(e); Lin r; for (auto &c : p) if (c.first >= lo && c.first < lo + w) r = lin(r, 1, c.second, (i128)1 << (c.first - lo)); return r; }
  Lin sv(E e) { Lin v = val(e); i128 lo, hi; range(v, lo, hi); i128 H = (i128)1 << (e->w - 1); if (hi < H) return v; if (lo >= H) return lin(v, 1, cst(1), -2 * H); return lin(v, 1, slice(e, e->w - 1, 1), -2 * H); }
  std::pair<Lin, Lin> divmod(E a, u128 c) { auto it = divs.find({a, c}); if (it != divs.end()) return it->second; Lin v = val(a); i128 lo, hi; range(v, lo, hi); i128 k = (i128)c; if (lo / k == hi / k) { auto p = std::make_pair(cst(lo / k), lin(v, 1, cst(1), -mul(lo / k, k))); return divs[{a, c}] = p; } int q = atom(lo / k, hi / k, "q"), r = atom(0, k - 1, "r"); cons.push_back(cmp(v, lin(of(q), k, of(r), 1), '=')); return divs[{a, c}] = std::make_pair(of(q), of(r)); }
  Lin b2i(E e) { Z3_ast b = boolean(e); int t = atom(0, 1, "b"); cons.push_back(Z3_mk_eq(C, b, Z3_mk_eq(C, atoms[t].z, numI(1)))); return of(t); }
  Lin val(E e) { auto it = vals.find(e); if (it != vals.end()) return it->second; Lin r = val0(e); return vals[e] = r; }
  Lin val0(E e) {
    unsigned w = e->w; if (isC(e)) { if (e->c >> 119) throw LiaBail{}; return cst((i128)e->c); }
    if (w == 1 && e->op != EXTRACT && e->op != SYM && e->op != UF) return b2i(e);
    switch (e->op) {
    case SYM: case UF: if (w > 110) throw LiaBail{}; if (cuts.count(e)) { split(e); return vals[e]; } return of(atom(0, ((i128)1 << w) - 1, "x"));
    case ADD: return norm(lin(val(e->a[0]), 1, val(e->a[1]), 1), w); case SUB: return norm(lin(val(e->a[0]), 1, val(e->a[1]), -1), w);
    case MUL: { Lin a = val(e->a[0]), b = val(e->a[1]); if (b.t.empty()) { i128 k = b.c; if (w <= 110 && k > ((i128)1 << (w - 1))) k -= (i128)1 << w; return norm(lin(a, k, cst(0), 0), w); } if (a.t.empty()) return norm(lin(b, a.c, cst(0), 0), w); throw LiaBail{}; }
    case UDIV: case UREM: { Lin b = val(e->a[1]); if (!b.t.empty() || b.c <= 0) throw LiaBail{}; auto p = divmod(e->a[0], (u128)b.c); return e->op == UDIV ? p.first : p.second; }
    case SDIV: case SREM: { Lin b = val(e->a[1]); i128 lo, hi; range(val(e->a[0]), lo, hi); if (!b.t.empty() || b.c <= 0 || b.c >= ((i128)1 << (w - 1)) || hi >= ((i128)1 << (w - 1))) throw LiaBail{}; auto p = divmod(e->a[0], (u128)b.c); return e->op == SDIV ? p.first : p.second; }
    case CONCAT: { unsigned lw = e->a[1]->w; if (lw > 110) throw LiaBail{}; return lin(val(e->a[0]), (i128)1 << lw, val(e->a[1]), 1); }
    case ZEXT: return val(e->a[0]);
    case SEXT: { if (w > 110) throw LiaBail{}; Lin s = sv(e->a[0]); i128 lo, hi; range(s, lo, hi); if (lo >= 0) return s; return lin(val(e->a[0]), 1, slice(e->a[0], e->a[0]->w - 1, 1), ((i128)1 << w) - ((i128)1 << e->a[0]->w)); }
    case EXTRACT: return slice(e->a[0], e->aux, w);
    case SHL: if (!isC(e->a[1])) throw LiaBail{}; if (e->a[1]->c >= w) return cst(0); if (!e->a[1]->c) return val(e->a[0]); return lin(slice(e->a[0], 0, w - (unsigned)e->a[1]->c), (i128)1 << (unsigned)e->a[1]->c, cst(0), 0);
    case LSHR: if (!isC(e->a[1])) throw LiaBail{}; if (e->a[1]->c >= w) return cst(0); return slice(e->a[0], (unsigned)e->a[1]->c, w - (unsigned)e->a[1]->c);
    case AND: case OR: {
      if (!((ones(e->a[0]) | ones(e->a[1])) >> 1)) { Z3_ast v[2] = {cmp(val(e->a[0]), cst(1), '='), cmp(val(e->a[1]), cst(1), '=')}; int t = atom(0, 1, "b"); cons.push_back(Z3_mk_eq(C, e->op == AND ? Z3_mk_and(C, 2, v) : Z3_mk_or(C, 2, v), Z3_mk_eq(C, atoms[t].z, numI(1)))); return of(t); }
      if (e->op == OR) { if (ones(e->a[0]) & ones(e->a[1]) && onesR(e->a[0]) & onesR(e->a[1])) throw LiaBail{}; return lin(val(e->a[0]), 1, val(e->a[1]), 1); }
      if (!(ones(e->a[0]) & ones(e->a[1]))) return cst(0);
      int ci = isC(e->a[1]) ? 1 : isC(e->a[0]) ? 0 : -1; if (ci < 0) throw LiaBail{}; u128 m = e->a[ci]->c; E x = e->a[1 - ci]; if ((ones(x) & ~m) == 0) return val(x); auto &p = split(x); Lin r; for (auto &c : p) if ((m >> c.first) & 1) r = lin(r, 1, c.second, (i128)1 << c.first); return r; }
    case XOR: { if (isC(e->a[1]) && e->a[1]->c == maskOf(w) && w < 110) return lin(cst((i128)maskOf(w)), 1, val(e->a[0]), -1); if (!(ones(e->a[0]) & ones(e->a[1]))) return lin(val(e->a[0]), 1, val(e->a[1]), 1); throw LiaBail{}; }
    case ITE: { Z3_ast c = boolean(e->a[0]); Lin a = val(e->a[1]), b = val(e->a[2]); i128 l1, h1, l2, h2; range(a, l1, h1); range(b, l2, h2); int t = atom(std::min(l1, l2), std::max(h1, h2), "t"); cons.push_back(Z3_mk_ite(C, c, cmp(of(t), a, '='), cmp(of(t), b, '='))); return of(t); }
    default: throw LiaBail{}; } }
  Z3_ast boolean(E e) { auto it = bools.find(e); if (it != bools.end()) return it->second; Z3_ast r = bool0(e); return bools[e] = r; }
  Z3_ast bool0(E e) {
    switch (e->op) { case CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
    case EQ: if (e->a[0]->w == 1) return Z3_mk_eq(C, boolean(e->a[0]), boolean(e->a[1])); return cmp(val(e->a[0]), val(e->a[1]), '=');
    case ULT: return cmp(val(e->a[0]), val(e->a[1]), '<'); case ULE: return cmp(val(e->a[0]), val(e->a[1]), 'l'); case SLT: return cmp(sv(e->a[0]), sv(e->a[1]), '<'); case SLE: return cmp(sv(e->a[0]), sv(e->a[1]), 'l');
    case AND: { Z3_ast v[2] = {boolean(e->a[0]), boolean(e->a[1])}; return Z3_mk_and(C, 2, v); } case OR: { Z3_ast v[2] = {boolean(e->a[0]), boolean(e->a[1])}; return Z3_mk_or(C, 2, v); }
    case XOR: if (isTrue(e->a[1])) return Z3_mk_not(C, boolean(e->a[0])); return Z3_mk_xor(C, boolean(e->a[0]), boolean(e->a[1]));
    case ITE: return Z3_mk_ite(C, boolean(e->a[0]), boolean(e->a[1]), boolean(e->a[2]));
    case SYM: case UF: case EXTRACT: return cmp(val(e), cst(1), '=');
    default: throw LiaBail{}; } }
};
// 1 sat (vals filled), -1 unsat, 0 unknown
static int liaTry(const std::vector<E> &cs, const std::vector<E> &ack, const std::vector<E> &leaves, int ms, std::vector<std::pair<E, u128>> &vals) {
  try {
    Lia L; std::vector<E> all(cs); all.insert(all.end(), ack.begin(), ack.end()); L.prepass(all); std::vector<Z3_ast> as; for (E c : all) as.push_back(L.boolean(c));
    for (E l : leaves) L.val(l);
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LIA")); Z3_solver_inc_ref(C, s); setTimeout(s, ms); for (auto x : L.cons) Z3_solver_assert(C, s, x); for (auto x : as) Z3_solver_assert(C, s, x);
    Z3_lbool r = Z3_solver_check(C, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? -1 : 0;
    if (r == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m); vals.clear(); for (E l : leaves) { Z3_ast o; Z3_model_eval(C, m, L.term(L.val(l)), true, &o); u128 v = 0; const char *str = Z3_get_numeral_string(C, o); for (; *str; str++) v = v * 10 + (*str - '0'); vals.push_back({l, v & maskOf(l->w)}); } Z3_model_dec_ref(C, m); }
    Z3_solver_dec_ref(C, s); return res;
  } catch (LiaBail &) { return 0; }
}
