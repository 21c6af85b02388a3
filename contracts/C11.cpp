// C11 shrinkable combinators preserve the shrink tree's structure
#include "vf_tree.h"
//@ sources: src/Random.cpp src/GenerationFailure.cpp
using namespace rc;
static uint64_t f(uint64_t x) { return vf_uf("f", 64, 1, x); }
struct Fn { Val operator()(Val &&v) const { return Val(f(v.get())); } };
// ---- map ----
VF_ENTRY(map) {
  const uint64_t root = vf_u64("root");
  Shr s = shrinkable::map(node(root), Fn());
  valueIs(s, f(nodeValue(root)), "map maps the value");
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(root), [&](const Shr &x, uint64_t k) { valueIs(x, f(nodeValue(nodeChild(root, k))), "map maps every shrink, in order"); });
}
VF_ENTRY(map_deeper) { // any shrink of any shrink
  const uint64_t root = vf_u64("root"), i = vf_u64("i");
  Shr s = shrinkable::map(node(root), Fn());
  Seq<Shr> c = s.shrinks();
  Index x{0, nodeCount(root)};
  vf_invariant("index", &Index::inv, &x);
  while (x.k < i) {
    if (!c.next()) return;
    x.k++;
  }
  const Maybe<Shr> m = c.next();
  if (!m) return;
  const uint64_t child = nodeChild(root, x.k);
  Seq<Shr> cc = m->shrinks();
  vf_invariants_clear();
  eachOf(cc, nodeCount(child), [&](const Shr &y, uint64_t k) { valueIs(y, f(nodeValue(nodeChild(child, k))), "map maps every shrink of every shrink"); });
}
// the shrinks are again the map of the children (so at any depth): the
// recursive call by contract, where there is one
static uint64_t gCalls;
static uint64_t idOf(const Shr &s) { return static_cast<Shr::ShrinkableImpl<Node> *>(s.m_impl)->m_impl.id; }
static Shr mapStub(Shr s, const Fn &) {
  gCalls++;
  return node(vf_uf("mapped", 64, 1, idOf(s)));
}
VF_ENTRY(map_recursive) {
  if (!vf_symbolic()) return;
  const uint64_t root = vf_u64("root");
  Shr s = shrinkable::map(node(root), Fn());
  vf_contract("rc::Shrinkable<std::decay<std::result_of<Fn const& (Val)>::type>::type> rc::shrinkable::map<Val, Fn const&>(", reinterpret_cast<void *>(&mapStub), 0);
  vf_contract("rc::Shrinkable<std::decay<std::result_of<Fn (Val)>::type>::type> rc::shrinkable::map<Val, Fn>(", reinterpret_cast<void *>(&mapStub), 0);
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(root), [&](const Shr &x, uint64_t k) {
    if (gCalls) isNode(x, vf_uf("mapped", 64, 1, nodeChild(root, k)));
    else valueIs(x, f(nodeValue(nodeChild(root, k))), "map maps every shrink, in order");
    gCalls = 0;
  });
}
// ---- mapShrinks ----
VF_ENTRY(mapShrinks) {
  const uint64_t root = vf_u64("root");
  uint64_t applied = 0;
  Shr s = shrinkable::mapShrinks(node(root), [&applied](Seq<Shr> &&c) {
    applied++;
    Index x{0, 1};
    const Maybe<Shr> first = c.next();
    return makeSeq<Kids>(Kids{vf_uf("replaced", 64, 1, first ? first->value().get() : 0), 7, 0});
  });
  valueIs(s, nodeValue(root), "mapShrinks keeps the value");
  vf_check(applied == 0, "the function is not applied before the shrinks are asked for");
  Seq<Shr> c = s.shrinks();
  const uint64_t by = vf_uf("replaced", 64, 1, nodeCount(root) ? nodeValue(nodeChild(root, 0)) : 0);
  eachOf(c, 7, [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(by, k)); });
}
// ---- filter ----
static bool pred(uint64_t v) { return vf_uf("predicate", 1, 1, v) != 0; }
struct KeepG { // children of `id` are given one after the other; one that satisfies the predicate must be offered
  uint64_t id, given;
  bool pending; // the last one given satisfies the predicate and was not offered yet
  uint64_t pendingValue;
};
static KeepG *gKeep;
struct WatchedKids {
  typedef Shr ValueType;
  uint64_t i;
  Maybe<Shr> operator()() {
    KeepG &g = *gKeep;
    vf_check(!g.pending, "no shrink that satisfies the predicate is left out");
    if (i >= nodeCount(g.id)) return Nothing;
    const uint64_t c = nodeChild(g.id, i);
    i++;
    g.given = i;
    g.pending = pred(nodeValue(c));
    g.pendingValue = nodeValue(c);
    return node(c);
  }
};
struct Watched {
  uint64_t id;
  Val value() const { return Val(nodeValue(id)); }
  Seq<Shr> shrinks() const { return makeSeq<WatchedKids>(WatchedKids{0}); }
};
static bool keepInv(void *p) { KeepG &g = *static_cast<KeepG *>(p); return vand(!g.pending, g.given <= nodeCount(g.id)); }
struct Pred { bool operator()(const Val &v) const { return pred(v.get()); } };
static void filtered(Seq<Shr> s, KeepG &g) {
  vf_invariant("offered so far", &keepInv, &g);
  while (vf_bool("more")) {
    const Maybe<Shr> v = s.next();
    if (!v) {
      vf_check(!g.pending && g.given == nodeCount(g.id), "the shrinks end only after the last one");
      vf_check(!s.next(), "an ended sequence stays ended");
      vf_reach("after the last shrink");
      break;
    }
    vf_check(g.pending, "only shrinks that satisfy the predicate are offered, each once");
    valueIs(*v, g.pendingValue, "the shrinks that satisfy the predicate are offered in order");
    g.pending = false;
  }
}
VF_ENTRY(filter) {
  const uint64_t root = vf_u64("root");
  KeepG g{root, 0, false, 0};
  gKeep = &g;
  const Maybe<Shr> s = shrinkable::filter(makeShrinkable<Watched>(Watched{root}), Pred());
  vf_check(!!s == pred(nodeValue(root)), "filter is nothing exactly if the root does not satisfy the predicate");
  if (!s) return;
  valueIs(*s, nodeValue(root), "filter keeps the value");
  filtered(s->shrinks(), g);
}
struct WatchedParentKids { // one child, the watched node
  typedef Shr ValueType;
  bool done;
  Maybe<Shr> operator()() {
    if (done) return Nothing;
    done = true;
    return makeShrinkable<Watched>(Watched{gKeep->id});
  }
};
VF_ENTRY(filter_deeper) { // the shrinks of an offered shrink are filtered too
  const uint64_t id = vf_u64("shrink");
  KeepG g{id, 0, false, 0};
  gKeep = &g;
  struct Parent {
    Val value() const { return Val(vf_uf("parent", 64, 0)); }
    Seq<Shr> shrinks() const { return makeSeq<WatchedParentKids>(WatchedParentKids{false}); }
  };
  const Maybe<Shr> s = shrinkable::filter(makeShrinkable<Parent>(), Pred());
  vf_check(!!s == pred(vf_uf("parent", 64, 0)), "filter is nothing exactly if the root does not satisfy the predicate");
  if (!s) return;
  Seq<Shr> c = s->shrinks();
  const Maybe<Shr> x = c.next();
  vf_check(!!x == pred(nodeValue(id)), "a shrink is offered exactly if it satisfies the predicate");
  if (!x) return;
  valueIs(*x, nodeValue(id), "the shrink is offered");
  filtered(x->shrinks(), g);
}
// ---- mapcat: inner trees are nodes whose identity depends on the outer value ----
static uint64_t innerNode(uint64_t v) { return vf_uf("inner tree", 64, 1, v); }
struct ToInner { Shr operator()(Val &&v) const { return node(innerNode(v.get())); } };
static void mapcatShrinks(const Shr &s, uint64_t root) {
  const uint64_t inner = innerNode(nodeValue(root));
  valueIs(s, nodeValue(inner), "mapcat has the value of the inner tree");
  Seq<Shr> c = s.shrinks();
  eachOf2(c, root, [&](const Shr &x, uint64_t k) { isNode(x, innerNode(nodeValue(nodeChild(root, k)))); },
          nodeCount(inner), [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(inner, k)); });
}
VF_ENTRY(mapcat) {
  const uint64_t root = vf_u64("root");
  mapcatShrinks(shrinkable::mapcat(node(root), ToInner()), root);
}
VF_ENTRY(mapcat_deeper) { // an outer shrink is again the mapcat of the child
  const uint64_t root = vf_u64("root");
  const Shr s = shrinkable::mapcat(node(root), ToInner());
  if (nodeCount(root) == 0) return;
  Seq<Shr> c = s.shrinks();
  if (vf_bool("second")) {
    if (nodeCount(root) < 2) return;
    c.next();
    mapcatShrinks(*c.next(), nodeChild(root, 1));
  } else {
    mapcatShrinks(*c.next(), nodeChild(root, 0));
  }
}
// ---- pair ----
typedef Shrinkable<std::pair<Val, Val>> PairShr;
static void pairIs(const PairShr &p, uint64_t a, uint64_t b) {
  const auto v = p.value();
  vf_check(v.first.get() == nodeValue(a) && v.second.get() == nodeValue(b), "a pair has the values of its components, one component shrunk at a time");
}
static void pairShrinks(const PairShr &p, uint64_t a, uint64_t b) {
  pairIs(p, a, b);
  Seq<PairShr> c = p.shrinks();
  eachOf2(c, a, [&](const PairShr &x, uint64_t k) { pairIs(x, nodeChild(a, k), b); },
          nodeCount(b), [&](const PairShr &x, uint64_t k) { pairIs(x, a, nodeChild(b, k)); });
}
VF_ENTRY(pair) {
  const uint64_t a = vf_u64("first"), b = vf_u64("second");
  pairShrinks(shrinkable::pair(node(a), node(b)), a, b);
}
VF_ENTRY(pair_deeper) {
  const uint64_t a = vf_u64("first"), b = vf_u64("second");
  const PairShr p = shrinkable::pair(node(a), node(b));
  Seq<PairShr> c = p.shrinks();
  if (nodeCount(a) == 1) {
    pairShrinks(*c.next(), nodeChild(a, 0), b);
  } else if (nodeCount(a) == 0 && nodeCount(b) != 0) {
    pairShrinks(*c.next(), a, nodeChild(b, 0));
  }
}
// ---- creation ----
VF_ENTRY(just) {
  const uint64_t x = vf_u64("x");
  const Shr s = shrinkable::just(Val(x));
  valueIs(s, x, "just has the given value");
  valueIs(s, x, "just has the given value every time");
  vf_check(!s.shrinks().next(), "just has no shrinks");
  const uint64_t root = vf_u64("root");
  const Shr t = shrinkable::just(Val(x), node(root).shrinks());
  valueIs(t, x, "just has the given value");
  if (vf_bool("again")) t.shrinks().next();
  Seq<Shr> c = t.shrinks();
  eachOf(c, nodeCount(root), [&](const Shr &y, uint64_t k) { isNode(y, nodeChild(root, k)); });
}
VF_ENTRY(lambda) {
  const uint64_t x = vf_u64("x"), root = vf_u64("root");
  const Shr s = shrinkable::lambda([=] { return Val(x); });
  valueIs(s, x, "lambda has the value of the function");
  vf_check(!s.shrinks().next(), "lambda has no shrinks unless given");
  const Shr t = shrinkable::lambda([=] { return Val(x); }, [=] { return node(root).shrinks(); });
  valueIs(t, x, "lambda has the value of the function");
  Seq<Shr> c = t.shrinks();
  eachOf(c, nodeCount(root), [&](const Shr &y, uint64_t k) { isNode(y, nodeChild(root, k)); });
}
VF_ENTRY(shrink) {
  const uint64_t x = vf_u64("x");
  const Shr s = shrinkable::shrink([=] { return Val(x); }, [=](Val &&v) { return node(v.get()).shrinks(); });
  valueIs(s, x, "shrink has the value of the function");
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(x), [&](const Shr &y, uint64_t k) { isNode(y, nodeChild(x, k)); });
}
// values whose shrinks are an uninterpreted function of them
struct ValKids {
  typedef Val ValueType;
  uint64_t v, i;
  Maybe<Val> operator()() {
    if (i >= nodeCount(v)) return Nothing;
    const uint64_t at = i;
    i++;
    return Val(nodeChild(v, at));
  }
};
struct ShrinkVal { Seq<Val> operator()(Val &&v) const { return makeSeq<ValKids>(ValKids{v.get(), 0}); } };
static void recurShrinks(const Shr &s, uint64_t x) {
  valueIs(s, x, "shrinkRecur has the given value");
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(x), [&](const Shr &y, uint64_t k) { valueIs(y, nodeChild(x, k), "the shrinks are the shrink function's outputs, in order"); });
}
VF_ENTRY(shrinkRecur) {
  const uint64_t x = vf_u64("x");
  recurShrinks(shrinkable::shrinkRecur(Val(x), ShrinkVal()), x);
}
VF_ENTRY(shrinkRecur_deeper) {
  const uint64_t x = vf_u64("x");
  if (nodeCount(x) < 2) return;
  Seq<Shr> c = shrinkable::shrinkRecur(Val(x), ShrinkVal()).shrinks();
  const bool second = vf_bool("second");
  if (second) c.next();
  recurShrinks(*c.next(), nodeChild(x, second ? 1 : 0));
}
VF_ENTRY(postShrink) {
  const uint64_t root = vf_u64("root");
  const Shr s = shrinkable::postShrink(node(root), ShrinkVal());
  valueIs(s, nodeValue(root), "postShrink keeps the value");
  Seq<Shr> c = s.shrinks();
  eachOf2(c, root, [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(root, k)); },
          nodeCount(nodeValue(root)), [&](const Shr &x, uint64_t k) { valueIs(x, nodeChild(nodeValue(root), k), "the shrink function's outputs follow the tree's own shrinks"); });
}
// ---- operations ----
VF_ENTRY(immediateShrinks) {
  const uint64_t root = vf_u64("root");
  Seq<Val> c = shrinkable::immediateShrinks(node(root));
  eachOf(c, nodeCount(root), [&](const Val &x, uint64_t k) { vf_check(x.get() == nodeValue(nodeChild(root, k)), "the values of the shrinks in order"); });
}
// the state of a walk down the tree
struct WalkG {
  uint64_t cur, k, accepted; // the node, its children tried, the steps made
  uint64_t curValue;
  bool last;
  const uint64_t *path;
  uint64_t len, j;
  bool missing;
};
static WalkG *gWalk;
struct WalkKids {
  typedef Shr ValueType;
  uint64_t id, i;
  Maybe<Shr> operator()();
};
struct WalkNode {
  uint64_t id;
  Val value() const { return Val(nodeValue(id)); }
  Seq<Shr> shrinks() const {
    vf_check(id == gWalk->cur, "only the current node's shrinks are asked for");
    return makeSeq<WalkKids>(WalkKids{id, 0});
  }
};
Maybe<Shr> WalkKids::operator()() {
  WalkG &g = *gWalk;
  vf_check(id == g.cur && i == g.k, "the shrinks of the current node are tried in order");
  if (i >= nodeCount(id)) {
    g.missing = true;
    return Nothing;
  }
  const uint64_t c = nodeChild(id, i);
  i++;
  g.k++;
  if (g.path && g.j < g.len && g.k - 1 == g.path[g.j]) {
    g.cur = c;
    g.j++;
    g.k = 0;
  }
  return makeShrinkable<WalkNode>(WalkNode{c});
}
struct MinPred {
  bool operator()(const Val &v) const {
    WalkG &g = *gWalk;
    vf_check(g.k > 0, "the predicate is applied to shrinks");
    const uint64_t c = nodeChild(g.cur, g.k - 1);
    vf_check(v.get() == nodeValue(c), "the predicate is applied to each shrink's value");
    if (!pred(v.get())) return false;
    g.cur = c;
    g.curValue = nodeValue(c);
    g.k = 0;
    g.accepted++;
    return true;
  }
};
static bool walkInv(void *p) { WalkG &g = *static_cast<WalkG *>(p); return vand(g.k <= nodeCount(g.cur), g.curValue == nodeValue(g.cur)); }
VF_ENTRY(findLocalMin) {
  const uint64_t root = vf_u64("root");
  WalkG g{root, 0, 0, nodeValue(root), false, nullptr, 0, 0, false};
  gWalk = &g;
  vf_invariant("walk", &walkInv, &g);
  const std::pair<Val, size_t> r = shrinkable::findLocalMin(Shr(makeShrinkable<WalkNode>(WalkNode{root})), MinPred());
  vf_check(g.k == nodeCount(g.cur), "the search ends only after all shrinks of the current node were tried");
  vf_check(r.first.get() == g.curValue && g.curValue == nodeValue(g.cur), "the result is the last value accepted");
  vf_check(r.second == g.accepted, "the number of steps");
  vf_reach("found");
}
static bool pathInv(void *p) { WalkG &g = *static_cast<WalkG *>(p); return vand(vand(g.k <= nodeCount(g.cur), g.j <= g.len), vor(g.j >= g.len, g.k <= g.path[g.j < g.len ? g.j : 0])); }
VF_ENTRY(walkPath) {
  const uint64_t root = vf_u64("root"), n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 40 : 10)));
  uint64_t *path = static_cast<uint64_t *>(vf_bytes("path", n * 8));
  alignas(std::vector<size_t>) char storage[sizeof(std::vector<size_t>)];
  std::vector<size_t> &v = *new (storage) std::vector<size_t>(); // never destroyed
  v._M_impl._M_start = path;
  v._M_impl._M_finish = path + n;
  v._M_impl._M_end_of_storage = path + n;
  WalkG g{root, 0, 0, 0, false, path, n, 0, false};
  gWalk = &g;
  vf_invariant("walk", &pathInv, &g);
  const Maybe<Shr> r = shrinkable::walkPath(Shr(makeShrinkable<WalkNode>(WalkNode{root})), v);
  if (r) {
    vf_check(g.j == n && !g.missing, "a node is found only if every step of the path exists");
    vf_check(static_cast<Shr::ShrinkableImpl<WalkNode> *>(r->m_impl)->m_impl.id == g.cur, "the node found is the one the path leads to");
    vf_reach("found");
  } else {
    vf_check(g.j < n && g.missing && g.path[g.j] >= nodeCount(g.cur), "nothing is found only if a step does not exist");
    vf_reach("missing");
  }
}
// all: the recursive calls by contract
struct AllG {
  uint64_t id, i;
  bool stopped;
  uint64_t at; // an arbitrary child
};
static AllG *gAll;
static bool whole(uint64_t id) { return vf_uf("whole subtree", 1, 1, id) != 0; }
struct AllPred {
  bool operator()(const Shr &s) const { return pred(s.value().get()); }
};
static bool allStub(const Shr &s, AllPred) {
  AllG &g = *gAll;
  vf_check(!g.stopped, "nothing is checked after a failure");
  vf_check(g.i < nodeCount(g.id) && s.value().get() == nodeValue(nodeChild(g.id, g.i)), "every shrink is checked, in order");
  const bool r = whole(nodeChild(g.id, g.i));
  g.i++;
  if (!r) g.stopped = true;
  return r;
}
static bool allInv(void *p) { AllG &g = *static_cast<AllG *>(p); return vand(vand(g.i <= nodeCount(g.id), !g.stopped), vor(g.at >= g.i, whole(nodeChild(g.id, g.at)))); }
VF_ENTRY(all) {
  if (!vf_symbolic()) return;
  AllG g{vf_u64("root"), 0, false, vf_u64("at")};
  gAll = &g;
  vf_contract("bool rc::shrinkable::all<Val, AllPred>(", reinterpret_cast<void *>(&allStub), 1);
  vf_invariant("checked so far", &allInv, &g);
  const bool r = shrinkable::all(node(g.id), AllPred());
  if (r) vf_check(pred(nodeValue(g.id)) && g.i == nodeCount(g.id) && (g.at >= g.i || whole(nodeChild(g.id, g.at))), "all is true only if the root and every shrink's subtree satisfy the predicate");
  else vf_check(!pred(nodeValue(g.id)) || g.stopped, "all is false only if something does not");
}
VF_ENTRY(all_small) {
  vf_bounded("trees of depth two with 0..2 shrinks each");
  vf_nocut();
  struct Bin {
    static Shr make(uint64_t id, int depth) {
      return shrinkable::lambda([=] { return Val(nodeValue(id)); }, [=] {
        std::vector<Shr> kids;
        if (depth > 0)
          for (uint64_t i = 0; i < vf_concretize(vf_uf("few", 2, 1, id)) % 3; i++) kids.push_back(make(nodeChild(id, i), depth - 1));
        return seq::fromContainer(kids);
      });
    }
    static bool truth(uint64_t id, int depth) {
      bool r = pred(nodeValue(id));
      if (depth > 0)
        for (uint64_t i = 0; i < vf_concretize(vf_uf("few", 2, 1, id)) % 3; i++) r = vand(r, truth(nodeChild(id, i), depth - 1));
      return r;
    }
  };
  const uint64_t root = 1;
  vf_check(shrinkable::all(Bin::make(root, 2), AllPred()) == Bin::truth(root, 2), "all is true exactly if every node satisfies the predicate");
}
