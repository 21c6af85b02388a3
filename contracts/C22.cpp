// C22 composite generators
#include "vf_gen.h"
//@ sources: src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
static uint64_t f(uint64_t x) { return vf_uf("f", 64, 1, x); }
struct Fn { Val operator()(Val &&v) const { return Val(f(v.get())); } };
namespace rc {
template <>
struct Arbitrary<Val> {
  static Gen<Val> arbitrary() { return absGen(7); }
};
}
static int anySize() { return vf_int("size"); }
// ---- tuple, pair ----
typedef std::tuple<Val, Val, Val> T3;
static void t3Is(const Shrinkable<T3> &s, uint64_t a, uint64_t b, uint64_t c) {
  const T3 t = s.value();
  vf_check(std::get<0>(t).get() == nodeValue(a) && std::get<1>(t).get() == nodeValue(b) && std::get<2>(t).get() == nodeValue(c), "the tuple of the components' values, one component shrunk at a time");
}
static void t3Shrinks(const Shrinkable<T3> &s, const uint64_t *n, int part) {
  t3Is(s, n[0], n[1], n[2]);
  Seq<Shrinkable<T3>> c = s.shrinks();
  // the components before the part of interest have no shrinks or one
  for (int i = 0; i < part; i++) {
    if (nodeCount(n[i]) == 0) continue;
    if (nodeCount(n[i]) != 1) return;
    uint64_t m[3] = {n[0], n[1], n[2]};
    m[i] = nodeChild(n[i], 0);
    t3Is(*c.next(), m[0], m[1], m[2]);
  }
  const auto is = [&](const Shrinkable<T3> &x, uint64_t k) {
    uint64_t m[3] = {n[0], n[1], n[2]};
    m[part] = nodeChild(n[part], k);
    t3Is(x, m[0], m[1], m[2]);
  };
  if (part == 2) eachOfRest(c, nodeCount(n[2]), is);
  else {
    const auto is2 = [&](const Shrinkable<T3> &x, uint64_t k) {
      uint64_t m[3] = {n[0], n[1], n[2]};
      m[part + 1] = nodeChild(n[part + 1], k);
      t3Is(x, m[0], m[1], m[2]);
    };
    gTrack = TrackG{n[part], nullptr, 0, true};
    if (part == 0) vf_assume(nodeCount(n[2]) == 0);
    eachOf2(c, n[part], is, nodeCount(n[part + 1]), is2);
  }
}
static Shrinkable<T3> tuple3(uint64_t *n) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const Shrinkable<T3> s = generate(gen::tuple(absGen(0), absGen(1), absGen(2)), r, size, 3);
  const uint64_t id = vr_id(r);
  n[0] = treeOf(0, rightOf(id), size);
  n[1] = treeOf(1, rightOf(leftOf(id)), size);
  n[2] = treeOf(2, rightOf(leftOf(leftOf(id))), size);
  return s;
}
VF_ENTRY(tuple_first_second) {
  uint64_t n[3];
  const auto s = tuple3(n);
  t3Shrinks(s, n, 0);
}
VF_ENTRY(tuple_second_third) {
  uint64_t n[3];
  const auto s = tuple3(n);
  t3Shrinks(s, n, 1);
}
VF_ENTRY(tuple_third) {
  uint64_t n[3];
  const auto s = tuple3(n);
  t3Shrinks(s, n, 2);
}
VF_ENTRY(tuple_deeper) { // a shrink of a tuple is the tuple of the shrunk components
  uint64_t n[3];
  const auto s = tuple3(n);
  const int which = vf_pick("which", 0, 2);
  Seq<Shrinkable<T3>> c = s.shrinks();
  for (int i = 0; i < which; i++) vf_assume(nodeCount(n[i]) == 0);
  if (nodeCount(n[which]) == 0) return;
  n[which] = nodeChild(n[which], 0);
  const auto x = c.next();
  t3Shrinks(*x, n, 1);
}
VF_ENTRY(tuple_empty) {
  const auto s = generate(gen::tuple<>(), vr_any("engine"), anySize());
  s.value();
  vf_check(!s.shrinks().next(), "the empty tuple has no shrinks");
}
VF_ENTRY(tuple_single) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::tuple(absGen(0)), r, size, 1);
  const uint64_t n = treeOf(0, rightOf(vr_id(r)), size);
  vf_check(std::get<0>(s.value()).get() == nodeValue(n), "the value of the component");
  Seq<Shrinkable<std::tuple<Val>>> c = s.shrinks();
  eachOf(c, nodeCount(n), [&](const Shrinkable<std::tuple<Val>> &x, uint64_t k) { vf_check(std::get<0>(x.value()).get() == nodeValue(nodeChild(n, k)), "the shrinks of the component"); });
}
typedef std::pair<Val, Val> P2;
static void p2Is(const Shrinkable<P2> &s, uint64_t a, uint64_t b) {
  const P2 t = s.value();
  vf_check(t.first.get() == nodeValue(a) && t.second.get() == nodeValue(b), "the pair of the components' values, one component shrunk at a time");
}
VF_ENTRY(pair) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::pair(absGen(0), absGen(1)), r, size, 2);
  const uint64_t a = treeOf(0, rightOf(vr_id(r)), size), b = treeOf(1, rightOf(leftOf(vr_id(r))), size);
  p2Is(s, a, b);
  Seq<Shrinkable<P2>> c = s.shrinks();
  eachOf2(c, a, [&](const Shrinkable<P2> &x, uint64_t k) { p2Is(x, nodeChild(a, k), b); },
          nodeCount(b), [&](const Shrinkable<P2> &x, uint64_t k) { p2Is(x, a, nodeChild(b, k)); });
}
// ---- transformations ----
static void allMapped(const Shr &s, uint64_t t) {
  valueIs(s, f(nodeValue(t)), "the function of the component's value");
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(t), [&](const Shr &x, uint64_t k) { valueIs(x, f(nodeValue(nodeChild(t, k))), "the function of the component's shrinks"); });
}
static void isTree(const Shr &s, uint64_t t) {
  isNode(s, t);
  Seq<Shr> c = s.shrinks();
  eachOf(c, nodeCount(t), [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(t, k)); });
}
VF_ENTRY(map) {
  const Random r = vr_any("engine");
  const int size = anySize();
  allMapped(generate(gen::map(absGen(0), Fn()), r, size, 1), treeOf(0, vr_id(r), size));
}
VF_ENTRY(map_arbitrary) {
  const Random r = vr_any("engine");
  const int size = anySize();
  allMapped(generate(gen::map<Val>(Fn()), r, size), treeOf(7, vr_id(r), size));
}
// the generator a value stands for: number 1 with a tree that depends on the value
struct InnerGen {
  uint64_t v;
  Shr operator()(const Random &r, int size) const {
    invoked(1, r);
    return node(vf_uf("inner tree", 64, 3, v, vr_id(r), static_cast<uint64_t>(static_cast<int64_t>(size))));
  }
};
struct ToInner { Gen<Val> operator()(Val &&v) const { return InnerGen{v.get()}; } };
static void mapcatIs(const Shr &s, uint64_t outer, uint64_t innerRandom, int size) {
  const uint64_t sz = static_cast<uint64_t>(static_cast<int64_t>(size));
  const uint64_t inner = vf_uf("inner tree", 64, 3, nodeValue(outer), innerRandom, sz);
  isNode(s, inner);
  Seq<Shr> c = s.shrinks();
  eachOf2(c, outer, [&](const Shr &x, uint64_t k) { isNode(x, vf_uf("inner tree", 64, 3, nodeValue(nodeChild(outer, k)), innerRandom, sz)); },
          nodeCount(inner), [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(inner, k)); });
}
VF_ENTRY(mapcat) {
  const Random r = vr_any("engine");
  const int size = anySize();
  mapcatIs(generate(gen::mapcat(absGen(0), ToInner()), r, size, 1), treeOf(0, leftOf(vr_id(r)), size), rightOf(vr_id(r)), size);
}
VF_ENTRY(join) {
  const Random r = vr_any("engine");
  const int size = anySize();
  mapcatIs(generate(gen::join(gen::map(absGen(0), ToInner())), r, size, 1), treeOf(0, leftOf(vr_id(r)), size), rightOf(vr_id(r)), size);
}
VF_ENTRY(apply) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::apply([](Val a, Val b) { return Val(vf_uf("g", 64, 2, a.get(), b.get())); }, absGen(0), absGen(1)), r, size, 2);
  const uint64_t a = treeOf(0, rightOf(vr_id(r)), size), b = treeOf(1, rightOf(leftOf(vr_id(r))), size);
  valueIs(s, vf_uf("g", 64, 2, nodeValue(a), nodeValue(b)), "the function of the components' values");
  Seq<Shr> c = s.shrinks();
  eachOf2(c, a, [&](const Shr &x, uint64_t k) { valueIs(x, vf_uf("g", 64, 2, nodeValue(nodeChild(a, k)), nodeValue(b)), "the function of the values with one shrunk"); },
          nodeCount(b), [&](const Shr &x, uint64_t k) { valueIs(x, vf_uf("g", 64, 2, nodeValue(a), nodeValue(nodeChild(b, k))), "the function of the values with one shrunk"); });
}
VF_ENTRY(cast) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::cast<int16_t>(absGenOf<int64_t>(0)), r, size, 1);
  const uint64_t t = treeOf(0, vr_id(r), size);
  vf_check(s.value() == static_cast<int16_t>(nodeValue(t)), "the value is the component's, converted");
  Seq<Shrinkable<int16_t>> c = s.shrinks();
  eachOf(c, nodeCount(t), [&](const Shrinkable<int16_t> &x, uint64_t k) { vf_check(x.value() == static_cast<int16_t>(nodeValue(nodeChild(t, k))), "the shrinks are the component's, converted"); });
}
VF_ENTRY(resize) {
  const Random r = vr_any("engine");
  const int size = anySize(), other = vf_int("other size");
  isTree(generate(gen::resize(other, absGen(0)), r, size, 1), treeOf(0, vr_id(r), other));
}
VF_ENTRY(scale) {
  const Random r = vr_any("engine");
  const int size = vf_int("size");
  const double k = valueAs<double>(vf_u64("scale"));
  const double scaled = size * k;
  if (!(scaled > -2147483648.0 && scaled < 2147483648.0)) return; // precondition: an int
  isTree(generate(gen::scale(k, absGen(0)), r, size, 1), treeOf(0, vr_id(r), static_cast<int>(scaled)));
}
VF_ENTRY(withSize) {
  const Random r = vr_any("engine");
  const int size = anySize();
  uint64_t calls = 0;
  int given = 0;
  const auto s = generate(gen::withSize([&](int n) {
                            calls++;
                            given = n;
                            return Gen<Val>(InnerGen{static_cast<uint64_t>(static_cast<int64_t>(n))});
                          }), r, size);
  vf_check(gInvoked[1] == 1 && given == size, "the generator for the current size is invoked once");
  const uint64_t sz = static_cast<uint64_t>(static_cast<int64_t>(size));
  isTree(s, vf_uf("inner tree", 64, 3, sz, vr_id(r), sz));
}
VF_ENTRY(noShrink) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::noShrink(absGen(0)), r, size, 1);
  isNode(s, treeOf(0, vr_id(r), size));
  vf_check(!s.shrinks().next(), "noShrink has no shrinks");
}
struct ValKids { // the shrinks of a value
  typedef Val ValueType;
  uint64_t v, i;
  Maybe<Val> operator()() {
    if (i >= nodeCount(v)) return Nothing;
    const uint64_t at = i;
    i++;
    return Val(nodeChild(v, at));
  }
};
VF_ENTRY(shrink) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::shrink(absGen(0), [](Val &&v) { return makeSeq<ValKids>(ValKids{v.get(), 0}); }), r, size, 1);
  const uint64_t t = treeOf(0, vr_id(r), size);
  isNode(s, t);
  Seq<Shr> c = s.shrinks();
  eachOf2(c, t, [&](const Shr &x, uint64_t k) { isNode(x, nodeChild(t, k)); },
          nodeCount(nodeValue(t)), [&](const Shr &x, uint64_t k) { valueIs(x, nodeChild(nodeValue(t), k), "the shrink function's outputs follow"); });
}
// ---- creation ----
VF_ENTRY(just) {
  const uint64_t v = vf_u64("v");
  const auto s = generate(gen::just(Val(v)), vr_any("engine"), anySize());
  valueIs(s, v, "just gives the value");
  vf_check(!s.shrinks().next(), "just has no shrinks");
}
VF_ENTRY(lazy) {
  const Random r = vr_any("engine");
  const int size = anySize();
  uint64_t calls = 0;
  const Gen<Val> g = gen::lazy([&] {
    calls++;
    return absGen(0);
  });
  vf_check(calls == 0, "the function is not called before a value is asked for");
  isTree(generate(g, r, size, 1), treeOf(0, vr_id(r), size));
}
// ---- maybe ----
static void maybeIs(const Shrinkable<Maybe<Val>> &s, uint64_t v) {
  const Maybe<Val> m = s.value();
  vf_check(!!m && m->get() == v, "the component's value");
}
static void maybeShrinks(const Shrinkable<Maybe<Val>> &s, uint64_t t) {
  maybeIs(s, nodeValue(t));
  Seq<Shrinkable<Maybe<Val>>> c = s.shrinks();
  const auto first = c.next();
  vf_check(!!first && !first->value() && !first->shrinks().next(), "the first shrink is nothing");
  eachOfRest(c, nodeCount(t), [&](const Shrinkable<Maybe<Val>> &x, uint64_t k) { maybeIs(x, nodeValue(nodeChild(t, k))); });
}
VF_ENTRY(maybe) {
  const Random r = vr_any("engine");
  const int size = vf_range("size", 0, 0x7ffffffe);
  const auto s = generate(gen::maybe(absGen(0)), r, size);
  const uint64_t number = numberOf(rightOf(vr_id(r)));
  if (number % (static_cast<uint64_t>(size) + 1) == 0) {
    vf_check(!s.value() && !s.shrinks().next() && gInvoked[0] == 0, "nothing, which has no shrinks");
    vf_reach("nothing");
  } else {
    vf_check(size > 0 && gInvoked[0] == 1, "the component is invoked once");
    maybeShrinks(s, treeOf(0, leftOf(vr_id(r)), size));
    vf_reach("something");
  }
}
VF_ENTRY(maybe_deeper) {
  const Random r = vr_any("engine");
  const int size = vf_range("size", 1, 100);
  const auto s = gen::maybe(absGen(0))(r, size);
  if (!s.value()) return;
  const uint64_t t = treeOf(0, leftOf(vr_id(r)), size);
  if (nodeCount(t) == 0) return;
  auto c = s.shrinks();
  c.next();
  maybeShrinks(*c.next(), nodeChild(t, 0));
}
// ---- construct, build ----
struct Built {
  Val a, b;
  uint64_t set1, set2;
  Built() : a(1), b(2), set1(3), set2(4) {}
  Built(Val x, Val y) : a(x), b(y), set1(0), set2(0) {}
  void setOne(const Val &x) { set1 = x.get(); }
  void setTwo(Val x, const Val &y) { set2 = vf_uf("g", 64, 2, x.get(), y.get()); }
};
inline std::ostream &operator<<(std::ostream &os, const Built &) { return os; }
static void builtIs(const Built &x, uint64_t a, uint64_t b, uint64_t s1, uint64_t s2) { vf_check(x.a.get() == a && x.b.get() == b && x.set1 == s1 && x.set2 == s2, "the object is built from the components' values"); }
VF_ENTRY(construct) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::construct<Built>(absGen(0), absGen(1)), r, size, 2);
  const uint64_t a = treeOf(0, rightOf(vr_id(r)), size), b = treeOf(1, rightOf(leftOf(vr_id(r))), size);
  builtIs(s.value(), nodeValue(a), nodeValue(b), 0, 0);
  auto c = s.shrinks();
  eachOf2(c, a, [&](const Shrinkable<Built> &x, uint64_t k) { builtIs(x.value(), nodeValue(nodeChild(a, k)), nodeValue(b), 0, 0); },
          nodeCount(b), [&](const Shrinkable<Built> &x, uint64_t k) { builtIs(x.value(), nodeValue(a), nodeValue(nodeChild(b, k)), 0, 0); });
}
VF_ENTRY(makeUnique) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::makeUnique<Built>(absGen(0), absGen(1)), r, size, 2);
  const uint64_t a = treeOf(0, rightOf(vr_id(r)), size), b = treeOf(1, rightOf(leftOf(vr_id(r))), size);
  const auto p = s.value();
  vf_check(!!p, "an object is made");
  builtIs(*p, nodeValue(a), nodeValue(b), 0, 0);
}
VF_ENTRY(makeShared) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::makeShared<Built>(absGen(0), absGen(1)), r, size, 2);
  const uint64_t a = treeOf(0, rightOf(vr_id(r)), size), b = treeOf(1, rightOf(leftOf(vr_id(r))), size);
  const auto p = s.value(), q = s.value();
  vf_check(!!p && p.get() != q.get(), "every value is an object of its own");
  builtIs(*p, nodeValue(a), nodeValue(b), 0, 0);
}
VF_ENTRY(build) {
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::build<Built>(gen::set(&Built::a, absGen(0)), gen::set(&Built::setOne, absGen(1)),
                                            gen::set(&Built::setTwo, gen::tuple(absGen(2), absGen(3)))), r, size, 4);
  uint64_t id = leftOf(vr_id(r)); // the first split is the object's
  const uint64_t a = treeOf(0, rightOf(id), size), b = treeOf(1, rightOf(leftOf(id)), size);
  const uint64_t inner = rightOf(leftOf(leftOf(id)));
  const uint64_t c = treeOf(2, rightOf(inner), size), d = treeOf(3, rightOf(leftOf(inner)), size);
  const auto cd = [](uint64_t x, uint64_t y) { return vf_uf("g", 64, 2, nodeValue(x), nodeValue(y)); };
  builtIs(s.value(), nodeValue(a), 2, nodeValue(b), cd(c, d));
  auto sh = s.shrinks();
  const int part = vf_pick("part", 0, 3);
  if (part > 0) vf_assume(nodeCount(a) == 0);
  if (part > 1) vf_assume(nodeCount(b) == 0);
  if (part > 2) vf_assume(nodeCount(c) == 0);
  const uint64_t n[4] = {a, b, c, d};
  if (nodeCount(n[part]) == 0) return;
  uint64_t m[4] = {a, b, c, d};
  m[part] = nodeChild(n[part], 0);
  builtIs(sh.next()->value(), nodeValue(m[0]), 2, nodeValue(m[1]), cd(m[2], m[3]));
}
VF_ENTRY(build_from) { // the object itself generated, held by a pointer
  const Random r = vr_any("engine");
  const int size = anySize();
  const auto s = generate(gen::build<std::unique_ptr<Built>>(gen::makeUnique<Built>(absGen(0), absGen(1)), gen::set(&Built::b, absGen(2))), r, size, 3);
  const uint64_t obj = rightOf(vr_id(r));
  builtIs(*s.value(), nodeValue(treeOf(0, rightOf(obj), size)), nodeValue(treeOf(2, rightOf(leftOf(vr_id(r))), size)), 0, 0);
}
