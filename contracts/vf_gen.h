// Abstract generators: the tree a generator gives is an uninterpreted function
// of the generator, the random engine and the size. Links absrandom.cpp.
#pragma once
#include "vf_random.h"
#include "vf_tree.h"
inline uint64_t treeOf(uint64_t gen, uint64_t rnd, int size) { return vf_uf("tree", 64, 3, gen, rnd, static_cast<uint64_t>(static_cast<int64_t>(size))); }
inline uint64_t leftOf(uint64_t rnd) { return vf_uf("random_left", 64, 1, rnd); }
inline uint64_t rightOf(uint64_t rnd) { return vf_uf("random_right", 64, 1, rnd); }
inline uint64_t numberOf(uint64_t rnd) { return vf_uf("random_next", 64, 2, rnd, uint64_t(0)); } // the first number drawn
static uint64_t gInvoked[8];
inline void invoked(uint64_t gen, const rc::Random &r) {
  vf_check(vr_drawn(r) == 0, "no generator is given an engine that numbers were drawn from");
  gInvoked[gen]++;
}
// trees of type T, valued by a conversion of the node's value
template <typename T>
inline T valueAs(uint64_t v) { return static_cast<T>(v); }
template <>
inline bool valueAs<bool>(uint64_t v) { return v & 1; }
template <>
inline double valueAs<double>(uint64_t v) { double d; static_assert(sizeof d == sizeof v, ""); __builtin_memcpy(&d, &v, 8); return d; }
template <typename T>
struct KidsOf;
template <typename T>
struct NodeOf {
  uint64_t id;
  T value() const { return valueAs<T>(nodeValue(id)); }
  rc::Seq<rc::Shrinkable<T>> shrinks() const { return rc::makeSeq<KidsOf<T>>(KidsOf<T>{id, 0}); }
};
template <typename T>
struct KidsOf {
  typedef rc::Shrinkable<T> ValueType;
  uint64_t id, i;
  rc::Maybe<rc::Shrinkable<T>> operator()() {
    if (i >= nodeCount(id)) return rc::Nothing;
    const uint64_t at = i;
    i++;
    return rc::makeShrinkable<NodeOf<T>>(NodeOf<T>{nodeChild(id, at)});
  }
};
struct AbsGen { // of Val
  uint64_t id;
  Shr operator()(const rc::Random &r, int size) const {
    invoked(id, r);
    return node(treeOf(id, vr_id(r), size));
  }
};
inline rc::Gen<Val> absGen(uint64_t id) { return AbsGen{id}; }
template <typename T>
struct AbsGenOf {
  uint64_t id;
  rc::Shrinkable<T> operator()(const rc::Random &r, int size) const {
    invoked(id, r);
    return rc::makeShrinkable<NodeOf<T>>(NodeOf<T>{treeOf(id, vr_id(r), size)});
  }
};
template <typename T>
inline rc::Gen<T> absGenOf(uint64_t id) { return AbsGenOf<T>{id}; }
// an arbitrary call of a generator: the engine is not changed, and neither an
// earlier call nor a name changes the result
template <typename T>
rc::Shrinkable<T> generate(rc::Gen<T> g, const rc::Random &r, int size, uint64_t gens = 0) {
  const rc::Random before(r);
  const int how = vf_pick("how", 0, 2);
  if (how == 1) {
    const rc::Shrinkable<T> other = g(rc::Random(vf_u64("other engine")), size);
  } else if (how == 2) {
    g = g.as("name");
    vf_check(g.name() == "name", "a generator has the name it was given");
  }
  for (int i = 0; i < 8; i++) gInvoked[i] = 0;
  rc::Shrinkable<T> s = g(r, size);
  vf_check(vr_id(before) == vr_id(r) && vr_drawn(r) == 0, "the caller's engine is untouched");
  for (uint64_t i = 0; i < gens; i++) vf_check(gInvoked[i] == 1, "every component is invoked exactly once");
  return s;
}
