// C13 selection generators
#include "vf_gen.h"
//@ sources: src/detail/FrequencyMap.cpp src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
//@ replace: src/gen/detail/ScaleInteger.cpp absscale.cpp
//@ assume: gen::detail::scaleInteger by contract (proved in C01); std::upper_bound on a table of unbounded length by contract, real code on tables of up to 4 weights
using namespace rc;
// a collection of any length whose elements are an uninterpreted function of the index
static uint64_t gLast; // the index last looked up
static uint64_t itemId(uint64_t i) { return vf_uf("item", 64, 1, i); }
struct Items {
  typedef Val value_type;
  struct It {
    const Items *c;
    uint64_t i;
    Val operator*() const { return c->get(i); }
    It operator+(std::ptrdiff_t d) const { return It{c, i + static_cast<uint64_t>(d)}; }
    std::ptrdiff_t operator-(const It &o) const { return static_cast<std::ptrdiff_t>(i - o.i); }
    It &operator++() { i++; return *this; }
    Val operator[](std::ptrdiff_t d) const { return c->get(i + static_cast<uint64_t>(d)); }
    bool operator!=(const It &o) const { return i != o.i; }
    bool operator==(const It &o) const { return i == o.i; }
  };
  uint64_t n;
  Val get(uint64_t i) const {
    vf_check(i < n, "no element outside the collection is used");
    gLast = i;
    return Val(itemId(i));
  }
  uint64_t size() const { return n; }
  bool empty() const { return n == 0; }
  Val operator[](uint64_t i) const { return get(i); }
  It begin() const { return It{this, 0}; }
  It end() const { return It{this, n}; }
};
static Items::It begin(const Items &c) { return c.begin(); }
static Items::It end(const Items &c) { return c.end(); }
namespace rc {
namespace gen {
namespace detail {
template <>
struct ToIndexable<Items> {
  typedef Items Output;
  template <typename Arg>
  static Arg &&convert(Arg &&c) { return std::forward<Arg>(c); }
};
}
}
}
namespace std { // for generic code that takes the iterators' traits
template <> struct iterator_traits<Items::It> {
  typedef std::random_access_iterator_tag iterator_category;
  typedef Val value_type;
  typedef std::ptrdiff_t difference_type;
  typedef Val *pointer;
  typedef Val reference;
};
}
static Items anyItems() {
  Items c{vf_u64("n")};
  vf_assume(c.n < (uint64_t(1) << 62));
  return c;
}
template <typename T>
static bool failed(const Shrinkable<T> &s) {
  bool f = false;
  try { s.value(); } catch (const GenerationFailure &) { f = true; }
  return f;
}
VF_ENTRY(elementOf) {
  const Items c = anyItems();
  const Random r = vr_any("engine");
  const Shr s = generate(gen::elementOf(c), r, vf_int("size"));
  if (c.n == 0) {
    vf_check(failed(s), "an empty collection yields a generation failure");
    vf_reach("empty");
    return;
  }
  vf_check(s.value().get() == itemId(numberOf(vr_id(r)) % c.n), "every element is picked for its residue of the random number");
  vf_check(!s.shrinks().next(), "picked elements have no shrinks");
  vf_reach("picked");
}
template <typename C>
static void elementOfConcrete(C &&c, const uint64_t *v, uint64_t n) {
  const Random r = vr_any("engine");
  const auto s = generate(gen::elementOf(std::forward<C>(c)), r, vf_int("size"));
  if (n == 0) {
    vf_check(failed(s), "an empty collection yields a generation failure");
    return;
  }
  const uint64_t x = s.value();
  const uint64_t i = vf_concretize(numberOf(vr_id(r)) % n);
  vf_check(x == v[i], "every element is picked for its residue of the random number");
}
VF_ENTRY(elementOf_vector) {
  vf_bounded("vectors of 0..3 elements (any length by elementOf)");
  const uint64_t v[3] = {vf_u64("v0"), vf_u64("v1"), vf_u64("v2")};
  const uint64_t n = vf_pick("n", 0, 3);
  elementOfConcrete(std::vector<uint64_t>(v, v + n), v, n);
}
VF_ENTRY(elementOf_array) {
  const std::array<uint64_t, 3> v = {{vf_u64("v0"), vf_u64("v1"), vf_u64("v2")}};
  elementOfConcrete(v, v.data(), 3);
}
VF_ENTRY(elementOf_set) {
  const uint64_t v[3] = {vf_u64("v0"), vf_u64("v1"), vf_u64("v2")};
  vf_assume(vand(v[0] < v[1], v[1] < v[2]));
  elementOfConcrete(std::set<uint64_t>(v, v + 3), v, 3);
}
VF_ENTRY(element) {
  const uint64_t v[3] = {vf_u64("v0"), vf_u64("v1"), vf_u64("v2")};
  const Random r = vr_any("engine");
  const uint64_t i = vf_concretize(numberOf(vr_id(r)) % 3);
  vf_check(generate(gen::element(Val(v[0]), Val(v[1]), Val(v[2])), r, vf_int("size")).value().get() == v[i], "every alternative is picked for its residue of the random number");
}
VF_ENTRY(element_single) {
  const uint64_t v = vf_u64("v");
  const Random r = vr_any("engine");
  vf_check(generate(gen::element(Val(v)), r, vf_int("size")).value().get() == v, "a single alternative is always picked");
}
// ---- sized ----
static void sizedShrinks(const Shr &s, uint64_t at, bool order = true) { // s is the element at `at`
  Seq<Shr> c = s.shrinks();
  struct G { bool any; uint64_t last, at; } g{false, 0, at};
  vf_invariant("shrinks so far", [](void *p) { G &g = *static_cast<G *>(p); return g.last <= g.at; }, &g);
  while (vf_bool("more")) {
    const Maybe<Shr> x = c.next();
    if (!x) {
      vf_check(g.any == (at != 0), "every element but the first has shrinks");
      vf_reach("after the last shrink");
      break;
    }
    gLast = ~uint64_t(0);
    const uint64_t v = x->value().get();
    const uint64_t i = gLast;
    vf_check(i < at && v == itemId(i), "shrinks are elements before the picked one");
    if (!g.any) vf_check(i == 0, "the first element is the first shrink");
    else if (order) vf_check(i > g.last, "shrinks come closer to the picked one");
    g.any = true;
    g.last = i;
  }
}
VF_ENTRY(sizedElementOf) {
  const Items c = anyItems();
  const Random r = vr_any("engine");
  const int size = vf_range("size", 0, 0x7fffffff);
  const Shr s = generate(gen::sizedElementOf(c), r, size);
  if (c.n == 0) {
    vf_check(failed(s), "an empty collection yields a generation failure");
    vf_reach("empty");
    return;
  }
  const uint64_t v = s.value().get();
  const uint64_t at = gLast;
  vf_check(at < c.n && v == itemId(at), "an element of the collection is picked");
  if (size == 0) vf_check(at == 0, "at size 0 the first element is picked");
  if (size == 100) vf_check(at == numberOf(vr_id(r)) % c.n, "at the full size every element is picked for its residue");
  sizedShrinks(s, at);
}
VF_ENTRY(sizedElementOf_deeper) { // the shrinks of a shrink shrink likewise
  const Items c = anyItems();
  const Random r = vr_any("engine");
  const Shr s = gen::sizedElementOf(c)(r, vf_range("size", 0, 0x7fffffff));
  if (c.n == 0) return;
  const uint64_t v = s.value().get();
  const uint64_t at = gLast;
  Seq<Shr> k = s.shrinks();
  const bool second = vf_bool("second");
  if (second) k.next();
  const Maybe<Shr> x = k.next();
  if (!x) return;
  x->value();
  sizedShrinks(*x, gLast, false);
}
VF_ENTRY(sizedElement) {
  const uint64_t v[3] = {vf_u64("v0"), vf_u64("v1"), vf_u64("v2")};
  const Random r = vr_any("engine");
  const int size = vf_range("size", 0, 0x7fffffff);
  const uint64_t x = generate(gen::sizedElement(Val(v[0]), Val(v[1]), Val(v[2])), r, size).value().get();
  const uint64_t i = vf_concretize(numberOf(vr_id(r)) % 3);
  vf_check(vor(vor(x == v[0], x == v[1]), x == v[2]), "an alternative is picked");
  if (size == 0) vf_check(x == v[0], "at size 0 the first alternative is picked");
  if (size == 100) vf_check(x == v[i], "at the full size every alternative is picked for its residue");
}
// ---- weighted ----
// the table of sums: stub of std::upper_bound for tables of any length
typedef std::vector<size_t>::const_iterator TabIt;
static uint64_t gBound, gBoundCalls;
static TabIt upperBoundStub(TabIt b, TabIt e, const size_t &x) {
  gBoundCalls++;
  const uint64_t n = static_cast<uint64_t>(e - b);
  uint64_t i = vf_u64("upper bound");
  vf_assume(i <= n);
  if (i > 0) vf_assume(*(b + (i - 1)) <= x);
  if (i < n) vf_assume(*(b + i) > x);
  gBound = i;
  return b + i;
}
VF_ENTRY(frequencies_lookup) {
  if (!vf_symbolic()) return;
  const uint64_t n = vf_u64("n"), x = vf_u64("x");
  vf_assume(vand(n > 0, n < (uint64_t(1) << 40)));
  alignas(detail::FrequencyMap) char storage[sizeof(detail::FrequencyMap)]; // never destroyed
  detail::FrequencyMap &m = *new (storage) detail::FrequencyMap(std::vector<size_t>());
  uint64_t *table = static_cast<uint64_t *>(vf_bytes("table", n * 8));
  m.m_table._M_impl._M_start = table;
  m.m_table._M_impl._M_finish = table + n;
  m.m_table._M_impl._M_end_of_storage = table + n;
  m.m_sum = table[n - 1];
  vf_assume(x < m.sum()); // precondition
  vf_contract("__gnu_cxx::__normal_iterator<unsigned long const*, std::vector<unsigned long, std::allocator<unsigned long>>> std::upper_bound<__gnu_cxx::__normal_iterator<unsigned long const*, std::vector<unsigned long, std::allocator<unsigned long>>>, unsigned long>(", reinterpret_cast<void *>(&upperBoundStub), 0);
  const uint64_t i = m.lookup(x);
  if (gBoundCalls == 0) return; // then decided up to 4 weights only
  vf_check(i < n, "an alternative is found");
  vf_check(x < table[i] && (i == 0 || table[i - 1] <= x), "the alternative whose interval of residues contains the number is found");
  vf_reach("found");
}
static bool sumsInv(void *p);
struct SumsG {
  const uint64_t *w;
  uint64_t n, pushed, sum;
};
static SumsG *gSums;
static void pushStub(std::vector<size_t> *, const size_t &x) {
  SumsG &g = *gSums;
  vf_check(g.pushed < g.n, "no more sums than weights");
  g.sum += g.w[g.pushed];
  g.pushed++;
  vf_check(x == g.sum, "the i-th entry is the sum of the first i weights");
}
static void reserveStub(std::vector<size_t> *, size_t) {}
static bool sumsInv(void *p) { SumsG &g = *static_cast<SumsG *>(p); return g.pushed <= g.n; }
VF_ENTRY(frequencies_table) { // any number of weights
  if (!vf_symbolic()) return;
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 40));
  uint64_t *w = static_cast<uint64_t *>(vf_bytes("weights", n * 8));
  alignas(std::vector<size_t>) char storage[sizeof(std::vector<size_t>)]; // never destroyed
  std::vector<size_t> &v = *new (storage) std::vector<size_t>();
  v._M_impl._M_start = w;
  v._M_impl._M_finish = w + n;
  v._M_impl._M_end_of_storage = w + n;
  SumsG g{w, n, 0, 0};
  gSums = &g;
  vf_contract("std::vector<unsigned long, std::allocator<unsigned long>>::push_back(unsigned long const&)", reinterpret_cast<void *>(&pushStub), 0);
  vf_contract("std::vector<unsigned long, std::allocator<unsigned long>>::reserve(unsigned long)", reinterpret_cast<void *>(&reserveStub), 0);
  vf_invariant("sums so far", &sumsInv, &g);
  const detail::FrequencyMap m(v);
  vf_check(g.pushed == n, "there is one sum per weight");
  vf_check(m.sum() == g.sum, "sum is the sum of all weights");
  vf_reach("built");
}
static uint64_t weight(const char *name) {
  const uint64_t w = vf_u64(name);
  vf_assume(w < (uint64_t(1) << 59));
  return w;
}
VF_ENTRY(frequencies_real) {
  vf_bounded("1..4 weights");
  vf_nocut();
  const int n = vf_pick("n", 1, 4);
  std::vector<size_t> w;
  uint64_t sum = 0;
  for (int i = 0; i < n; i++) {
    w.push_back(weight("weight"));
    sum += w.back();
  }
  const detail::FrequencyMap m(w);
  vf_check(m.sum() == sum, "sum is the sum of all weights");
  const uint64_t x = vf_u64("x");
  vf_assume(x < sum);
  const uint64_t i = vf_concretize(m.lookup(x));
  vf_check(i < static_cast<uint64_t>(n), "an alternative is found");
  uint64_t before = 0;
  for (uint64_t k = 0; k < i; k++) before += w[k];
  vf_check(vand(before <= x, x < before + w[i]), "exactly w of the sum's residues pick an alternative of weight w");
}
VF_ENTRY(weightedElement) {
  const uint64_t v[3] = {vf_u64("v0"), vf_u64("v1"), vf_u64("v2")};
  const uint64_t w[3] = {weight("w0"), weight("w1"), weight("w2")};
  const Random r = vr_any("engine");
  const Shr s = generate(gen::weightedElement<Val>({{w[0], Val(v[0])}, {w[1], Val(v[1])}, {w[2], Val(v[2])}}), r, vf_int("size"));
  const uint64_t sum = w[0] + w[1] + w[2];
  if (sum == 0) {
    vf_check(failed(s), "a total weight of zero yields a generation failure");
    vf_reach("none");
    return;
  }
  const uint64_t x = numberOf(vr_id(r)) % sum;
  const uint64_t got = s.value().get();
  if (x < w[0]) vf_check(got == v[0], "exactly w of the sum's residues pick an alternative of weight w");
  else if (x < w[0] + w[1]) vf_check(got == v[1], "exactly w of the sum's residues pick an alternative of weight w");
  else vf_check(got == v[2], "exactly w of the sum's residues pick an alternative of weight w");
  vf_reach("picked");
}
VF_ENTRY(weightedElement_none) {
  const Shr s = gen::weightedElement<Val>(std::initializer_list<std::pair<std::size_t, Val>>())(vr_any("engine"), vf_int("size"));
  vf_check(failed(s), "no alternatives yield a generation failure");
}
// ---- generators ----
VF_ENTRY(oneOf) {
  const Random r = vr_any("engine");
  const int size = vf_int("size");
  const Shr s = generate(gen::oneOf(absGen(0), absGen(1), absGen(2)), r, size);
  const uint64_t i = vf_concretize(numberOf(rightOf(vr_id(r))) % 3);
  vf_check(gInvoked[i] == 1 && gInvoked[0] + gInvoked[1] + gInvoked[2] == 1, "only the picked alternative is invoked, once");
  const uint64_t t = treeOf(i, leftOf(vr_id(r)), size);
  isNode(s, t);
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(t), [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(t, k)); });
}
VF_ENTRY(oneOf_single) {
  const Random r = vr_any("engine");
  const int size = vf_int("size");
  isNode(generate(gen::oneOf(absGen(0)), r, size), treeOf(0, leftOf(vr_id(r)), size));
}
VF_ENTRY(weightedOneOf) {
  const uint64_t w[3] = {weight("w0"), weight("w1"), weight("w2")};
  const Random r = vr_any("engine");
  const int size = vf_int("size");
  const Shr s = generate(gen::weightedOneOf<Val>({{w[0], absGen(0)}, {w[1], absGen(1)}, {w[2], absGen(2)}}), r, size);
  const uint64_t sum = w[0] + w[1] + w[2];
  if (sum == 0) {
    vf_check(failed(s), "a total weight of zero yields a generation failure");
    return;
  }
  const uint64_t x = numberOf(leftOf(vr_id(r))) % sum;
  const uint64_t inner = rightOf(vr_id(r));
  uint64_t i = 2;
  if (x < w[0]) i = 0;
  else if (x < w[0] + w[1]) i = 1;
  const uint64_t t = treeOf(i, inner, size);
  isNode(s, t);
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(t), [&](const Shr &y, uint64_t k) { isNode(y, nodeChild(t, k)); });
}
VF_ENTRY(sizedOneOf) {
  const Random r = vr_any("engine");
  const int size = vf_range("size", 0, 0x7fffffff);
  const Shr s = generate(gen::sizedOneOf(absGen(0), absGen(1), absGen(2)), r, size);
  const uint64_t inner = rightOf(vr_id(r));
  const uint64_t v = s.value().get();
  const uint64_t t[3] = {treeOf(0, inner, size), treeOf(1, inner, size), treeOf(2, inner, size)};
  if (size == 0) vf_check(v == nodeValue(t[0]), "at size 0 the first alternative is picked");
  vf_check(vor(vor(v == nodeValue(t[0]), v == nodeValue(t[1])), v == nodeValue(t[2])), "an alternative is picked");
}
VF_ENTRY(sizedOneOf_shrinks) {
  const Random r = vr_any("engine");
  const uint64_t number = vf_pick("number", 0, 5); // every residue at every size
  vf_assume(numberOf(leftOf(vr_id(r))) == number);
  const Shr s = gen::sizedOneOf(absGen(0), absGen(1), absGen(2))(r, 100);
  const uint64_t inner = rightOf(vr_id(r));
  const uint64_t t[3] = {treeOf(0, inner, 100), treeOf(1, inner, 100), treeOf(2, inner, 100)};
  const uint64_t i = number % 3;
  isNode(s, t[i]);
  Seq<Shr> c = s.shrinks();
  if (i > 0) isNode(*c.next(), t[0]);
  if (i > 1) isNode(*c.next(), t[1]);
  eachOfRest(c, nodeCount(t[i]), [&](const Shr &y, uint64_t k) { isNode(y, nodeChild(t[i], k)); });
}
