// C14 container generators
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "vf_gen.h"
#include "rapidcheck/gen/Container.h"
//@ sources: src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
using rc::gen::detail::Shrinkables;

// ---- any number of elements: generateShrinkables ----
// a generator that checks how it is called, and a predicate that accepts or
// rejects arbitrarily
struct GenG {
  uint64_t rnd; // the engine the next split is taken from
  int64_t size;
  uint64_t count, accepted, tries; // consecutive rejections
  uint64_t given, tested, pushed; // roots generated, tested, kept
  uint64_t root;
  bool ok;
};
static GenG *gGen;
struct Source {
  Shr operator()(const Random &r, int size) const {
    GenG &g = *gGen;
    vf_check(vand(vr_id(r) == rightOf(g.rnd), vr_drawn(r) == 0), "each candidate is generated with a random split of its own");
    vf_check(size == g.size, "the size grows by one only on a rejected candidate");
    vf_check(vand(g.accepted < g.count, g.tries < 100), "no more candidates than needed are generated");
    vf_check(vand(g.given == g.tested, g.pushed == g.accepted), "an accepted candidate is kept, a rejected one is not");
    g.rnd = leftOf(g.rnd);
    g.given++;
    g.root = treeOf(0, vr_id(r), size);
    return node(g.root);
  }
};
struct Accepts {
  bool operator()(const Shr &s) const {
    GenG &g = *gGen;
    vf_check(s.value().get() == nodeValue(g.root), "the candidate is what is accepted or rejected");
    vf_check(g.given == g.tested + 1, "each candidate is tested once");
    g.tested++;
    g.ok = vf_bool("accepted");
    if (g.ok) {
      g.accepted++;
      g.tries = 0;
    } else {
      g.tries++;
      g.size++;
      vf_assume(g.size < 2000000000);
    }
    return g.ok;
  }
};
static Shrinkables<Val> *gVec; // the elements kept
static void pushStub(Shrinkables<Val> *v, Shr &&s) {
  GenG &g = *gGen;
  vf_check(vand(g.ok, g.pushed + 1 == g.accepted), "exactly the accepted candidates are kept, once each");
  vf_check(s.value().get() == nodeValue(g.root), "the candidate that was accepted is kept");
  g.pushed++;
  gVec = v;
  v->_M_impl._M_finish++;
}
static void reserveStub(Shrinkables<Val> *v, size_t) { gVec = v; }
static void destroyStub(Shrinkables<Val> *) {}
static bool genInv(void *p) {
  GenG &g = *static_cast<GenG *>(p);
  if (gVec != nullptr && gVec->size() != g.pushed) return false;
  return vand(vand(g.given == g.tested, g.pushed == g.accepted), vand(g.tries < 100, g.accepted <= g.count));
}
//@ assume: C14 generate: vector::reserve, push_back and the destructor have their library meaning there; the other contracts run the real ones
VF_ENTRY(generate) {
  if (!vf_symbolic()) return;
  const Random r = vr_any("engine");
  const Random r0 = r;
  GenG g{vr_id(r), vf_int("size"), vf_u64("count"), 0, 0, 0, 0, 0, 0, false};
  vf_assume(vand(g.size >= 0, g.size < 1000000));
  vf_assume(g.count < 20000000);
  const uint64_t count = g.count;
  const int size = static_cast<int>(g.size);
  gGen = &g;
  gVec = nullptr;
#define VEC "std::vector<rc::Shrinkable<Val>, std::allocator<rc::Shrinkable<Val>>>::"
  vf_contract(VEC "push_back(rc::Shrinkable<Val>&&)", reinterpret_cast<void *>(&pushStub), 0);
  vf_contract(VEC "reserve(", reinterpret_cast<void *>(&reserveStub), 0);
  vf_contract(VEC "~vector()", reinterpret_cast<void *>(&destroyStub), 0);
  vf_invariant("generated so far", &genInv, &g);
  const Gen<Val> gen{Source()};
  bool failed = false;
  uint64_t got = 0;
  try {
    const Shrinkables<Val> s = gen::detail::generateShrinkables(r, size, static_cast<size_t>(count), gen, Accepts());
    got = s.size();
  } catch (const GenerationFailure &) {
    failed = true;
  }
  vf_invariants_clear();
  vf_contracts_clear();
  vf_check(r == r0, "the caller's engine is untouched");
  if (failed) {
    vf_check(g.tries == 100, "generation fails only after 100 consecutive rejections");
    vf_reach("failed");
  } else {
    vf_check(vand(got == count, g.pushed == count), "exactly the prescribed number of elements is generated");
    vf_reach("generated");
  }
}

// ---- the number of elements, for any size ----
// generateShrinkables by what was just proved: exactly the prescribed number
struct CallG {
  int calls;
  uint64_t rnd;
  int size;
  uint64_t count;
};
static CallG gCall;
static Shrinkables<Val> generateStub(const Random &r, int size, size_t count, const Gen<Val> &, const void *) {
  gCall = CallG{gCall.calls + 1, vr_id(r), size, count};
  return Shrinkables<Val>();
}
static Shrinkables<uint64_t> generateKeysStub(const Random &r, int size, size_t count, const Gen<uint64_t> &, const void *) {
  gCall = CallG{gCall.calls + 1, vr_id(r), size, count};
  return Shrinkables<uint64_t>();
}
static Shrinkables<uint32_t> generateUniqueStub(const Random &r, int size, size_t count, const Gen<uint32_t> &, const void *) {
  gCall = CallG{gCall.calls + 1, vr_id(r), size, count};
  return Shrinkables<uint32_t>();
}
#define GENERATE(T) "std::vector<rc::Shrinkable<" T ">, std::allocator<rc::Shrinkable<" T ">>> rc::gen::detail::generateShrinkables<" T ", "
template <typename C, typename T>
static void number(const Gen<C> &g, bool fixed, uint64_t count) {
  const Random r = vr_any("engine");
  const Random r0 = r;
  const int size = vf_int("size");
  vf_assume(vand(size >= 0, size < 2147483647));
  gCall = CallG{0, 0, 0, 0};
  const Shrinkable<C> s = g(r, size);
  vf_contracts_clear();
  vf_check(r == r0, "the caller's engine is untouched");
  vf_check(gCall.calls == 1, "the elements are generated once");
  vf_check(gCall.size == size, "elements are generated at the given size");
  if (fixed) {
    vf_check(gCall.count == count, "with a count exactly that many elements are generated");
    vf_check(gCall.rnd == vr_id(r), "the elements are generated from the given engine");
  } else {
    vf_check(gCall.count <= static_cast<uint64_t>(size), "without a count at most size elements are generated");
    vf_check(gCall.rnd == leftOf(vr_id(r)), "the elements are not generated from the random numbers that their number is taken from");
    vf_check(gCall.count == numberOf(rightOf(vr_id(r))) % (static_cast<uint64_t>(size) + 1), "every number of elements is possible");
  }
}
static void stubs() {
  vf_contract(GENERATE("Val"), reinterpret_cast<void *>(&generateStub), 0);
  vf_contract(GENERATE("unsigned long"), reinterpret_cast<void *>(&generateKeysStub), 0);
  vf_contract(GENERATE("unsigned int"), reinterpret_cast<void *>(&generateUniqueStub), 0);
  // (as the demangler prints it for a function of a lambda in gen::unique)
#define SHRS(T) "std::vector<rc::Shrinkable<" T ">, std::allocator<rc::Shrinkable<" T ">>>"
  vf_contract(SHRS("std::vector<unsigned int, std::allocator<unsigned int>>") " rc::gen::detail::generateShrinkables<unsigned int, ", reinterpret_cast<void *>(&generateUniqueStub), 0);
}
static const uint32_t &self(const uint32_t &x) { return x; }
VF_ENTRY(number) {
  if (!vf_symbolic()) return;
  stubs();
  const uint64_t count = vf_u64("count");
  const bool fixed = vf_pick("fixed", 0, 1) != 0;
  const Gen<Val> v = absGen(0);
  const Gen<uint64_t> k = absGenOf<uint64_t>(0);
  typedef std::vector<Val> V;
  typedef std::set<uint64_t> S;
  typedef std::vector<uint32_t> U;
  const Gen<uint32_t> u = absGenOf<uint32_t>(0);
  switch (vf_pick("kind", 0, 3)) {
  case 0: number<V, Val>(fixed ? gen::container<V>(count, v) : gen::container<V>(v), fixed, count); break;
  case 1: number<S, uint64_t>(fixed ? gen::container<S>(count, k) : gen::container<S>(k), fixed, count); break;
  case 2: number<U, uint32_t>(fixed ? gen::unique<U>(count, u) : gen::unique<U>(u), fixed, count); break;
  case 3: number<U, uint32_t>(fixed ? gen::uniqueBy<U>(count, u, &self) : gen::uniqueBy<U>(u, &self), fixed, count); break;
  }
}

// ---- few elements with few shrinks each, the real containers ----
enum Kind { Plain, Set, Unique, Map };
static uint64_t kidCount(uint64_t id) { return vf_uf("kids", 1, 1, id) + 0; }
template <typename T>
struct Small { // a tree with few shrinks per node
  uint64_t id;
  struct Kids {
    typedef Shrinkable<T> ValueType;
    uint64_t id, i;
    Maybe<Shrinkable<T>> operator()() {
      if (i >= kidCount(id)) return Nothing;
      const uint64_t at = i;
      i++;
      return makeShrinkable<Small>(Small{nodeChild(id, at)});
    }
  };
  T value() const { return valueAs<T>(nodeValue(id)); }
  Seq<Shrinkable<T>> shrinks() const { return makeSeq<Kids>(Kids{id, 0}); }
};
static int gCalls[2], gMost;
template <typename T>
struct SmallGen {
  uint64_t id;
  Shrinkable<T> operator()(const Random &r, int size) const {
    vf_check(vr_drawn(r) == 0, "no generator is given an engine that numbers were drawn from");
    gCalls[id]++;
    vf_assume(gCalls[id] <= gMost); // few rejections
    return makeShrinkable<Small<T>>(Small<T>{treeOf(id, vr_id(r), size)});
  }
};
struct Model {
  Kind kind;
  bool fixed; // an explicit count
  int n;
  uint64_t key[3], mapped[3]; // nodes
  uint64_t keyOf(uint64_t id) const; // what has to be distinct
};
static uint64_t classOf(const uint64_t &x) { return vf_uf("class", 64, 1, x); }
static bool gByClass; // unique by class, or by value
uint64_t Model::keyOf(uint64_t id) const {
  const uint64_t v = nodeValue(id);
  return kind == Unique && gByClass ? classOf(v) : v;
}
static bool contains(const Model &m, uint64_t key, int n) {
  bool c = false;
  for (int i = 0; i < n; i++) c = vor(c, m.keyOf(m.key[i]) == key);
  return c;
}
// what is to be generated
static Model modelOf(Kind kind, bool fixed, uint64_t rnd, int size, int count) {
  Model m{kind, fixed, 0, {0, 0, 0}, {0, 0, 0}};
  uint64_t cur = rnd;
  if (!fixed) {
    count = static_cast<int>(vf_concretize(numberOf(rightOf(cur)) % (static_cast<uint64_t>(size) + 1)));
    cur = leftOf(cur);
  }
  uint64_t keys = kind == Map ? rightOf(cur) : cur, values = leftOf(cur);
  int at = size;
  while (m.n < count) {
    const uint64_t id = treeOf(0, rightOf(keys), at);
    keys = leftOf(keys);
    if (kind != Plain && contains(m, m.keyOf(id), m.n)) {
      at++;
      continue;
    }
    m.key[m.n] = id;
    m.mapped[m.n] = treeOf(1, rightOf(values), size);
    values = leftOf(values);
    m.n++;
  }
  return m;
}
inline uint64_t idOf(const Val &v) { return v.get(); }
inline uint64_t idOf(uint64_t v) { return v; }
template <typename C>
static void isContainer(const C &c, const Model &m) { // a sequence container
  int i = 0;
  for (const auto &x : c) {
    vf_check(i < m.n, "there are no other elements");
    vf_check(idOf(x) == nodeValue(m.key[i]), "the elements are those generated, in order");
    i++;
  }
  vf_check(i == m.n, "no element is lost");
}
template <typename C>
static void isSet(const C &c, const Model &m) {
  vf_check(c.size() == static_cast<size_t>(m.n), "no element is lost to duplicates");
  for (int i = 0; i < m.n; i++) vf_check(c.count(nodeValue(m.key[i])) >= 1, "the elements are those generated");
}
static void isContainer(const std::set<uint64_t> &c, const Model &m) { isSet(c, m); }
static void isContainer(const std::multiset<uint64_t> &c, const Model &m) { isSet(c, m); }
static void isContainer(const std::unordered_set<uint64_t> &c, const Model &m) { isSet(c, m); }
template <typename C>
static void isMap(const C &c, const Model &m) {
  vf_check(c.size() == static_cast<size_t>(m.n), "no element is lost to duplicates");
  for (int i = 0; i < m.n; i++) {
    bool found = false;
    const auto range = c.equal_range(nodeValue(m.key[i]));
    for (auto it = range.first; it != range.second; ++it) found = vor(found, idOf(it->second) == nodeValue(m.mapped[i]));
    vf_check(found, "the keys and values are those generated");
  }
}
static void isContainer(const std::map<uint64_t, Val> &c, const Model &m) { isMap(c, m); }
static void isContainer(const std::multimap<uint64_t, Val> &c, const Model &m) { isMap(c, m); }
template <typename C>
static void tree(Maybe<Shrinkable<C>> s, const Model &m, int depth);
struct Done {};
template <typename C>
static void shrunk(Seq<Shrinkable<C>> &kids, const Model &m, int depth) {
  Maybe<Shrinkable<C>> k = kids.next();
  vf_check(!!k, "there are exactly the prescribed shrinks");
  if (m.kind != Plain)
    for (int i = 0; i < m.n; i++) vf_check(!contains(m, m.keyOf(m.key[i]), i), "keys are distinct in every shrink");
  if (depth > 0 && vf_bool("this one's shrinks")) {
    tree<C>(std::move(k), m, depth - 1);
    throw Done();
  }
  isContainer(k->value(), m);
}
template <typename C>
static void tree(Maybe<Shrinkable<C>> s, const Model &m, int depth) {
  isContainer(s->value(), m);
  Seq<Shrinkable<C>> kids = s->shrinks();
  s.reset(); // the shrinks do not need what they were taken from
  if (!m.fixed)
    for (int chunk = m.n; chunk > 0; chunk--)
      for (int at = 0; at + chunk <= m.n; at++) {
        Model x = m;
        x.n = 0;
        for (int i = 0; i < m.n; i++)
          if (i < at || i >= at + chunk) {
            x.key[x.n] = m.key[i];
            x.mapped[x.n] = m.mapped[i];
            x.n++;
          }
        shrunk<C>(kids, x, depth);
      }
  for (int i = 0; i < m.n; i++) {
    for (uint64_t j = 0; j < kidCount(m.key[i]); j++) {
      Model x = m;
      x.key[i] = nodeChild(m.key[i], j);
      const uint64_t k = m.keyOf(x.key[i]);
      if (m.kind == Set || m.kind == Unique || m.kind == Map)
        if (contains(m, k, m.n) && (m.kind == Set || k != m.keyOf(m.key[i]))) continue;
      shrunk<C>(kids, x, depth);
    }
    if (m.kind == Map)
      for (uint64_t j = 0; j < kidCount(m.mapped[i]); j++) {
        Model x = m;
        x.mapped[i] = nodeChild(m.mapped[i], j);
        shrunk<C>(kids, x, depth);
      }
  }
  vf_check(!kids.next(), "there are exactly the prescribed shrinks");
}
static bool gFixed;
static int gSize, gCount;
static void pick(int most) {
  vf_bounded("up to 2 elements with up to 1 shrink per node, 1 rejection, 2 levels of shrinks");
  vf_nocut();
  vf_unroll(40);
  gFixed = vf_pick("fixed", 0, 1) != 0;
  gSize = gFixed ? vf_range("size", 0, 1000000) : vf_pick("size", 0, most);
  gCount = gFixed ? vf_pick("count", 0, most) : 0;
  gCalls[0] = gCalls[1] = 0;
  gMost = most + 1;
}
template <typename C>
static void built(const Gen<C> &g, Kind kind, int depth = 1) {
  const Random r = vr_any("engine");
  Shrinkable<C> s = g(r, gSize);
  const Model m = modelOf(kind, gFixed, vr_id(r), gSize, gCount);
  try {
    tree<C>(std::move(s), m, depth);
  } catch (const Done &) {
  }
}
template <typename C, typename T>
static void plain(Kind kind = Plain) {
  pick(2);
  const Gen<T> g = SmallGen<T>{0};
  built<C>(gFixed ? gen::container<C>(static_cast<size_t>(gCount), g) : gen::container<C>(g), kind);
}
VF_ENTRY(vector) { plain<std::vector<Val>, Val>(); }
VF_ENTRY(list) { plain<std::list<Val>, Val>(); }
VF_ENTRY(deque) { plain<std::deque<Val>, Val>(); }
VF_ENTRY(multiset) { plain<std::multiset<uint64_t>, uint64_t>(); }
VF_ENTRY(set) { plain<std::set<uint64_t>, uint64_t>(Set); }
VF_ENTRY(unique) {
  typedef std::vector<uint64_t> C;
  pick(2);
  gByClass = false;
  const Gen<uint64_t> g = SmallGen<uint64_t>{0};
  built<C>(gFixed ? gen::unique<C>(static_cast<size_t>(gCount), g) : gen::unique<C>(g), Unique);
}
VF_ENTRY(unique_by) {
  typedef std::vector<uint64_t> C;
  pick(2);
  gByClass = true;
  const Gen<uint64_t> g = SmallGen<uint64_t>{0};
  built<C>(gFixed ? gen::uniqueBy<C>(static_cast<size_t>(gCount), g, &classOf) : gen::uniqueBy<C>(g, &classOf), Unique);
}
// maps
template <typename C>
static void map(Kind kind) {
  pick(2);
  const Gen<uint64_t> k = SmallGen<uint64_t>{0};
  const Gen<Val> v = SmallGen<Val>{1};
  built<C>(gFixed ? gen::container<C>(static_cast<size_t>(gCount), k, v) : gen::container<C>(k, v), kind, 0);
}
VF_ENTRY(map) { map<std::map<uint64_t, Val>>(Map); }
// arrays: exactly their length
template <size_t N>
static void array() {
  typedef std::array<Val, N> C;
  pick(2);
  const Gen<Val> g = SmallGen<Val>{0};
  if (gFixed && gCount != N) {
    const Shrinkable<C> s = gen::container<C>(static_cast<size_t>(gCount), g)(vr_any("engine"), gSize);
    bool failed = false;
    try {
      s.value();
    } catch (const GenerationFailure &) {
      failed = true;
    }
    vf_check(failed, "an array of another length cannot be generated");
    return;
  }
  const Gen<C> a = gFixed ? gen::container<C>(static_cast<size_t>(gCount), g) : gen::container<C>(g);
  gFixed = true;
  gCount = N;
  built<C>(a, Plain);
}
VF_ENTRY(array_2) { array<2>(); }
VF_ENTRY(array_1) { array<1>(); }
// exhausted: the same value over and over
struct Same {
  uint64_t v;
  Shrinkable<uint64_t> operator()(const Random &, int) const {
    gCalls[0]++;
    return shrinkable::just(v);
  }
};
VF_ENTRY(exhausted) {
  vf_nocut();
  vf_unroll(130);
  typedef std::set<uint64_t> S;
  typedef std::vector<uint64_t> U;
  gCalls[0] = 0;
  gByClass = true;
  const uint64_t v = vf_u64("value");
  const Gen<uint64_t> g = Same{v};
  const Random r = vr_any("engine");
  const int size = vf_range("size", 0, 1000000), count = vf_pick("count", 1, 2), kind = vf_pick("kind", 0, 2);
  const size_t c = static_cast<size_t>(count);
  bool failed = false;
  size_t n = 0;
  try {
    if (kind == 0) n = gen::container<S>(c, g)(r, size).value().size();
    else if (kind == 1) n = gen::unique<U>(c, g)(r, size).value().size();
    else n = gen::uniqueBy<U>(c, g, &classOf)(r, size).value().size();
  } catch (const GenerationFailure &) {
    failed = true;
  }
  vf_check(failed == (count > 1), "generation fails when distinct elements cannot be found");
  if (!failed) vf_check(n == 1, "the container has the prescribed number of elements");
  vf_check(gCalls[0] == (failed ? 101 : 1), "generation fails after 100 consecutive attempts");
}
