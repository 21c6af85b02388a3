// Abstract shrink trees: the value, the number and the identity of the children
// of a node are uninterpreted functions of the node.
#pragma once
#include "vf_seq.h"
inline uint64_t nodeValue(uint64_t id) { return vf_uf("value", 64, 1, id); }
inline uint64_t nodeCount(uint64_t id) { return vf_uf("shrinks", 40, 1, id); }
inline uint64_t nodeChild(uint64_t id, uint64_t i) { return vf_uf("child", 64, 2, id, i); }
typedef rc::Shrinkable<Val> Shr;
struct Kids {
  typedef Shr ValueType;
  uint64_t id, n, i;
  rc::Maybe<Shr> operator()();
};
struct Node {
  uint64_t id;
  Val value() const { return Val(nodeValue(id)); }
  rc::Seq<Shr> shrinks() const { return rc::makeSeq<Kids>(Kids{id, nodeCount(id), 0}); }
};
inline Shr node(uint64_t id) { return rc::makeShrinkable<Node>(Node{id}); }
// where the children of a node of interest are being given
struct TrackG {
  uint64_t id;
  Kids *at;
  uint64_t k;
  bool on;
  static bool inv(void *p) { TrackG &g = *static_cast<TrackG *>(p); return g.at == nullptr || g.at->i == g.k; }
};
static TrackG gTrack;
inline rc::Maybe<Shr> Kids::operator()() {
  if (gTrack.on && gTrack.id == id) gTrack.at = this;
  if (i >= n) return rc::Nothing;
  const uint64_t at = i;
  i++;
  return node(nodeChild(id, at));
}
struct Index {
  uint64_t k, n;
  static bool inv(void *p) { Index &g = *static_cast<Index *>(p); return g.k <= g.n; }
};
// s has exactly n elements and the k-th is as `is` says
template <typename T, typename F>
void eachOf(rc::Seq<T> &s, uint64_t n, const F &is) {
  Index x{0, n};
  vf_invariant("index", &Index::inv, &x);
  while (vf_bool("more")) {
    rc::Maybe<T> v = s.next();
    vf_check(!!v == (x.k < n), "there are exactly the prescribed shrinks");
    if (!v) {
      vf_check(!s.next(), "an ended sequence stays ended");
      vf_reach("after the last shrink");
      break;
    }
    is(*v, x.k);
    x.k++;
  }
}
// the same, with the first element taken before the loop
template <typename T, typename F>
void eachOfRest(rc::Seq<T> &s, uint64_t n, const F &is) {
  rc::Maybe<T> first = s.next();
  vf_check(!!first == (n > 0), "there are exactly the prescribed shrinks");
  if (!first) {
    vf_check(!s.next(), "an ended sequence stays ended");
    return;
  }
  is(*first, uint64_t(0));
  Index x{1, n};
  vf_invariant("index", &Index::inv, &x);
  while (vf_bool("more")) {
    rc::Maybe<T> v = s.next();
    vf_check(!!v == (x.k < n), "there are exactly the prescribed shrinks");
    if (!v) {
      vf_check(!s.next(), "an ended sequence stays ended");
      vf_reach("after the last shrink");
      break;
    }
    is(*v, x.k);
    x.k++;
  }
}
// the children of a node, then m others
template <typename T, typename F, typename H>
void eachOf2(rc::Seq<T> &s, uint64_t id, const F &is, uint64_t m, const H &is2) {
  const uint64_t n = nodeCount(id);
  gTrack = TrackG{id, nullptr, 0, true};
  vf_invariant("position in the first sequence", &TrackG::inv, &gTrack);
  vf_cut_after(1);
  while (gTrack.k < n) {
    if (!vf_bool("more")) return;
    rc::Maybe<T> v = s.next();
    vf_check(!!v, "there are exactly the prescribed shrinks");
    is(*v, gTrack.k);
    gTrack.k++;
  }
  gTrack.on = false;
  vf_invariants_clear();
  eachOf(s, m, is2);
}
inline void valueIs(const Shr &s, uint64_t v, const char *what) { vf_check(s.value().get() == v, what); }
inline void isNode(const Shr &s, uint64_t id) { valueIs(s, nodeValue(id), "the value is the node's"); }
