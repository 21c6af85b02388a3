// C12 filtering generators
#include "vf_gen.h"
//@ sources: src/gen/Numeric.cpp src/GenerationFailure.cpp src/gen/detail/ScaleInteger.cpp
//@ replace: src/Random.cpp absrandom.cpp
//@ assume: std::current_exception/rethrow_exception hand on the exception (engine model)
using namespace rc;
static bool pred(uint64_t v) { return vf_uf("predicate", 1, 1, v) != 0; }
struct Pred { bool operator()(const Val &v) const { return pred(v.get()); } };
// Ghost of the search: the candidates tried so far.
struct SearchG {
  uint64_t rnd; // what is left of the engine
  int size; // of the next candidate
  uint64_t tries;
  uint64_t root; // of the last candidate
  bool found;
};
static SearchG *gSearch;
struct KeepG { // children of `id` are given one after the other; one that satisfies the predicate must be offered
  uint64_t id, given;
  bool pending; // the last one given satisfies the predicate and was not offered yet
  uint64_t pendingValue;
};
static KeepG gKeep;
struct Candidate {
  uint64_t id;
  Val value() const { return Val(nodeValue(id)); }
  Seq<Shr> shrinks() const;
};
struct CandidateKids {
  typedef Shr ValueType;
  uint64_t i;
  Maybe<Shr> operator()() {
    KeepG &g = gKeep;
    vf_check(!g.pending, "no shrink that satisfies the predicate is left out");
    if (i >= nodeCount(g.id)) return Nothing;
    const uint64_t c = nodeChild(g.id, i);
    i++;
    g.given = i;
    g.pending = pred(nodeValue(c));
    g.pendingValue = nodeValue(c);
    return makeShrinkable<Candidate>(Candidate{c});
  }
};
Seq<Shr> Candidate::shrinks() const {
  gKeep.id = id;
  gKeep.given = 0;
  gKeep.pending = false;
  return makeSeq<CandidateKids>(CandidateKids{0});
}
struct Source {
  Shr operator()(const Random &r, int size) const {
    SearchG &g = *gSearch;
    vf_check(!g.found, "no candidate is generated after one that satisfies the predicate");
    vf_check(g.tries < 100, "at most 100 candidates are tried");
    vf_check(vr_id(r) == rightOf(g.rnd) && vr_drawn(r) == 0, "each candidate gets its own random split");
    vf_check(size == g.size, "the size grows by one with each candidate");
    const uint64_t root = treeOf(0, rightOf(g.rnd), size);
    g.rnd = leftOf(g.rnd);
    g.tries++;
    g.size++;
    g.root = root;
    g.found = pred(nodeValue(root));
    return makeShrinkable<Candidate>(Candidate{root});
  }
};
static bool searchInv(void *p) { SearchG &g = *static_cast<SearchG *>(p); return vand(g.tries <= 100, !g.found); }
static bool keepInv(void *p) { KeepG &g = *static_cast<KeepG *>(p); return vand(!g.pending, g.given <= nodeCount(g.id)); }
static Shr search(SearchG &g) {
  gSearch = &g;
  vf_invariant("the search so far", &searchInv, &g);
  const Random r = vr_any("engine");
  g = SearchG{vr_id(r), vf_int("size"), 0, 0, false};
  vf_assume(g.size <= 0x7fffffff - 100);
  const Gen<Val> gen = gen::suchThat(Gen<Val>(Source()), Pred());
  Shr s = gen(r, g.size);
  vf_invariants_clear();
  return s;
}
static void result(const Shr &s, SearchG &g) {
  bool failed = false;
  try {
    const uint64_t v = s.value().get();
    vf_check(g.found && v == nodeValue(g.root), "the first candidate that satisfies the predicate is given");
    vf_check(pred(v), "the value satisfies the predicate");
  } catch (const GenerationFailure &) {
    failed = true;
  }
  if (failed) vf_check(!g.found && g.tries == 100, "generation fails only after 100 rejected candidates");
  vf_reach(failed ? "failed" : "found");
}
VF_ENTRY(search) {
  SearchG g;
  const Shr s = search(g);
  result(s, g);
}
static void filtered(Seq<Shr> s) {
  KeepG &g = gKeep;
  vf_invariant("offered so far", &keepInv, &g);
  while (vf_bool("more")) {
    const Maybe<Shr> v = s.next();
    if (!v) {
      vf_check(!g.pending && g.given == nodeCount(g.id), "the shrinks end only after the last one");
      vf_reach("after the last shrink");
      break;
    }
    const uint64_t x = v->value().get();
    vf_check(pred(x), "every shrink satisfies the predicate");
    vf_check(g.pending && x == g.pendingValue, "the shrinks are those of the candidate that satisfy the predicate, in order");
    g.pending = false;
  }
}
VF_ENTRY(shrinks) {
  SearchG g;
  const Shr s = search(g);
  if (!g.found) return;
  filtered(s.shrinks());
}
// any shrink reached, at any depth: a shrink of a filtered tree is again the filtered tree of the shrink
VF_ENTRY(shrinks_of_shrinks) {
  SearchG g;
  const Shr s = search(g);
  if (!g.found) return;
  Seq<Shr> c = s.shrinks();
  vf_invariant("offered so far", &keepInv, &gKeep);
  gKeep.pending = false;
  while (true) {
    Maybe<Shr> x = c.next();
    if (!x) return;
    gKeep.pending = false;
    if (vf_bool("this one")) {
      vf_invariants_clear();
      filtered(x->shrinks());
      return;
    }
  }
}
// ---- the derived generators, over any generator of their type ----
// numbers with an abstract generator of their own
template <typename T>
struct Num {
  T v;
  Num(T x) : v(x) {}
  friend bool operator<(const Num &a, const Num &b) { return a.v < b.v; }
  friend bool operator>(const Num &a, const Num &b) { return a.v > b.v; }
  friend bool operator<=(const Num &a, const Num &b) { return a.v <= b.v; }
  friend bool operator>=(const Num &a, const Num &b) { return a.v >= b.v; }
  friend bool operator==(const Num &a, const Num &b) { return a.v == b.v; }
  friend bool operator!=(const Num &a, const Num &b) { return a.v != b.v; }
};
template <typename T>
std::ostream &operator<<(std::ostream &os, const Num<T> &) { return os; }
template <typename T>
struct NumConv {
  static Num<T> of(uint64_t v) { return Num<T>(valueAs<T>(v)); }
};
template <> inline Num<int> valueAs<Num<int>>(uint64_t v) { return NumConv<int>::of(v); }
template <> inline Num<int64_t> valueAs<Num<int64_t>>(uint64_t v) { return NumConv<int64_t>::of(v); }
template <> inline Num<signed char> valueAs<Num<signed char>>(uint64_t v) { return NumConv<signed char>::of(v); }
template <> inline Num<uint32_t> valueAs<Num<uint32_t>>(uint64_t v) { return NumConv<uint32_t>::of(v); }
template <> inline Num<double> valueAs<Num<double>>(uint64_t v) { return NumConv<double>::of(v); }
namespace rc {
template <typename T>
struct Arbitrary<Num<T>> {
  static Gen<Num<T>> arbitrary() { return absGenOf<Num<T>>(0); }
};
}
template <typename T, typename P>
static void derived(Gen<T> gen, const P &p) {
  const Random r = vr_any("engine");
  const int size = vf_range("size", 0, 1000000);
  const Shrinkable<T> s = gen(r, size);
  vf_invariants_clear();
  const T first = valueAs<T>(nodeValue(treeOf(0, rightOf(vr_id(r)), size)));
  const bool usable = p(first);
  if (usable) vf_check(s.value() == first || !(first == first), "a first candidate that is as the generator's name says is given");
  else vf_check(gInvoked[0] > 1, "a first candidate that is not as the generator's name says is passed over");
  try {
    vf_check(p(s.value()), "the value is as the generator's name says");
    vf_reach("value");
  } catch (const GenerationFailure &) {
    return;
  }
  Seq<Shrinkable<T>> c = s.shrinks();
  while (vf_bool("more")) {
    const Maybe<Shrinkable<T>> x = c.next();
    if (!x) return;
    vf_check(p(x->value()), "every shrink is as the generator's name says");
  }
}
#define NUM(T)                                                                                                       \
  VF_ENTRY(nonZero_##T) { derived(gen::nonZero<Num<T>>(), [](const Num<T> &x) { return x.v != 0; }); }               \
  VF_ENTRY(positive_##T) { derived(gen::positive<Num<T>>(), [](const Num<T> &x) { return x.v > 0; }); }              \
  VF_ENTRY(nonNegative_##T) { derived(gen::nonNegative<Num<T>>(), [](const Num<T> &x) { return x.v >= 0; }); }
#define NEG(T) VF_ENTRY(negative_##T) { derived(gen::negative<Num<T>>(), [](const Num<T> &x) { return x.v < 0; }); }
typedef signed char schar;
NUM(int)
NEG(int)
NUM(int64_t)
NEG(int64_t)
NUM(schar)
NEG(schar)
NUM(uint32_t)
NUM(double)
NEG(double)
struct Box {
  uint64_t v;
  bool empty() const { return vf_uf("empty", 1, 1, v) != 0; }
  friend bool operator==(const Box &a, const Box &b) { return a.v == b.v; }
};
inline std::ostream &operator<<(std::ostream &os, const Box &) { return os; }
template <>
inline Box valueAs<Box>(uint64_t v) { return Box{v}; }
namespace rc {
template <>
struct Arbitrary<Box> {
  static Gen<Box> arbitrary() { return absGenOf<Box>(0); }
};
}
VF_ENTRY(nonEmpty) { derived(gen::nonEmpty(absGenOf<Box>(0)), [](const Box &b) { return !b.empty(); }); }
VF_ENTRY(nonEmpty_arbitrary) { derived(gen::nonEmpty<Box>(), [](const Box &b) { return !b.empty(); }); }
VF_ENTRY(distinctFrom) {
  const Box other{vf_u64("other")};
  derived(gen::distinctFrom(absGenOf<Box>(0), other), [=](const Box &b) { return !(b == other); });
}
VF_ENTRY(distinctFrom_arbitrary) {
  const Box other{vf_u64("other")};
  derived(gen::distinctFrom(Box(other)), [=](const Box &b) { return !(b == other); });
}
VF_ENTRY(suchThat_arbitrary) { derived(gen::suchThat<Box>([](const Box &b) { return b.empty(); }), [](const Box &b) { return b.empty(); }); }
