// C09 sequence combinators compute the mathematical sequence, lazily
#include "vf_seq.h"
#include <deque>
#include <list>
//@ sources:
using namespace rc;
static bool lastInv(void *p) { SrcG &g = *static_cast<SrcG *>(p); return vor(g.pulls == 0, g.lastId == elemId(g.k, g.pulls - 1)); }
static bool srcInv(void *p) { SrcG &g = *static_cast<SrcG *>(p); return g.pulls <= g.len; }
#define ENDED(s, g)                                                            \
  do {                                                                         \
    vf_check(!(s).next(), "an ended sequence stays ended");                    \
    vf_check(!(s).next(), "an ended sequence stays ended");                    \
  } while (0)
static uint64_t count(const char *name) {
  const uint64_t n = vf_u64(name);
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 62 : 10)));
  return n;
}
VF_ENTRY(drop) {
  SrcG g = anySrc(0);
  const uint64_t n = count("n");
  vf_invariant("source", &srcInv, &g);
  Seq<Val> s = seq::drop(n, srcSeq(g));
  vf_check(g.calls == 0, "nothing is pulled before an element is asked for");
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    const bool some = n + k < g.len;
    vf_check(!!v == some, "drop has the elements from the n-th on");
    if (!some) {
      vf_check(g.pulls == g.len, "everything was dropped");
      ENDED(s, g);
      vf_reach("ended");
      break;
    }
    vf_check(v->get() == elemId(0, n + k), "drop yields the elements after the first n, in order");
    vf_check(g.pulls == n + k + 1 && g.calls == g.pulls, "only what is needed is pulled");
    k++;
  }
}
VF_ENTRY(take) {
  SrcG g = anySrc(0);
  const uint64_t n = count("n");
  vf_invariant("source", &srcInv, &g);
  Seq<Val> s = seq::take(n, srcSeq(g));
  vf_check(g.calls == 0, "nothing is pulled before an element is asked for");
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    const bool some = vand(k < n, k < g.len);
    vf_check(!!v == some, "take has the first n elements");
    vf_check(g.pulls == k + (some ? 1 : 0) && (k < n || g.calls == n), "only what is needed is pulled");
    if (!some) {
      ENDED(s, g);
      vf_reach("ended");
      break;
    }
    vf_check(v->get() == elemId(0, k), "take yields the first n elements in order");
    k++;
  }
}
// A predicate: an uninterpreted function of the value. It must be applied to
// the elements of its source one after the other, each once.
struct PredG {
  uint64_t k, applied;
  bool last;
};
struct Pred {
  PredG *g;
  bool operator()(const Val &v) const {
    vf_check(v.get() == elemId(g->k, g->applied), "the function is applied to every element once, in order");
    g->applied++;
    g->last = vf_uf("predicate", 1, 1, v.get()) != 0;
    return g->last;
  }
};
struct SP {
  SrcG s;
  PredG p;
};
static bool spInv(void *p) { SP &g = *static_cast<SP *>(p); return vand(g.s.pulls <= g.s.len, g.p.applied == g.s.pulls); }
VF_ENTRY(dropWhile) {
  SP g{anySrc(0), {0, 0, true}};
  vf_invariant("source", &spInv, &g);
  struct WhileInv { static bool still(void *p) { return static_cast<SP *>(p)->p.last; } };
  vf_invariant("dropping while the predicate holds", &WhileInv::still, &g);
  Seq<Val> s = seq::dropWhile(srcSeq(g.s), Pred{&g.p});
  vf_check(g.s.calls == 0, "nothing is pulled before an element is asked for");
  const Maybe<Val> first = s.next();
  vf_check(g.s.pulls == g.p.applied, "only what is needed is pulled");
  if (!first) {
    vf_check(g.p.last && g.s.pulls == g.s.len, "empty only if all elements satisfy the predicate");
    ENDED(s, g.s);
    vf_reach("all dropped");
    return;
  }
  vf_check(!g.p.last && first->get() == elemId(0, g.s.pulls - 1), "the first element is the first that does not satisfy the predicate");
  vf_invariants_clear();
  vf_invariant("source", &srcInv, &g.s);
  const uint64_t d = g.s.pulls, applied = g.p.applied;
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    const bool some = d + k < g.s.len;
    vf_check(!!v == some, "all elements after the first are kept");
    if (!some) {
      ENDED(s, g.s);
      vf_reach("ended");
      break;
    }
    vf_check(v->get() == elemId(0, d + k) && g.s.pulls == d + k + 1, "all elements after the first are kept, in order");
    vf_check(g.p.applied == applied, "the predicate is not applied after it failed");
    k++;
  }
}
VF_ENTRY(takeWhile) {
  SP g{anySrc(0), {0, 0, true}};
  vf_invariant("source", &spInv, &g);
  Seq<Val> s = seq::takeWhile(srcSeq(g.s), Pred{&g.p});
  vf_check(g.s.calls == 0, "nothing is pulled before an element is asked for");
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    vf_check(g.s.pulls == g.p.applied, "only what is needed is pulled");
    if (!v) {
      vf_check(k == g.s.len || (!g.p.last && g.p.applied == k + 1), "ends only at the first element that does not satisfy the predicate or at the end");
      ENDED(s, g.s);
      vf_check(g.s.pulls == g.p.applied && g.s.pulls <= k + 1, "nothing is pulled after the end");
      vf_reach("ended");
      break;
    }
    vf_check(g.p.last && v->get() == elemId(0, k), "takeWhile yields the elements that satisfy the predicate, in order");
    vf_check(g.s.pulls == k + 1, "only what is needed is pulled");
    k++;
  }
}
VF_ENTRY(filter) {
  SP g{anySrc(0), {0, 0, false}};
  vf_invariant("source", &spInv, &g);
  struct FilterInv { static bool none(void *p) { return !static_cast<SP *>(p)->p.last; } };
  Seq<Val> s = seq::filter(srcSeq(g.s), Pred{&g.p});
  vf_invariant("no element is skipped that satisfies the predicate", &FilterInv::none, &g);
  vf_check(g.s.calls == 0, "nothing is pulled before an element is asked for");
  while (vf_bool("more")) {
    g.p.last = false;
    const Maybe<Val> v = s.next();
    vf_check(g.s.pulls == g.p.applied, "only what is needed is pulled");
    if (!v) {
      vf_check(!g.p.last && g.s.pulls == g.s.len, "ends only at the end of the source");
      ENDED(s, g.s);
      vf_reach("ended");
      break;
    }
    vf_check(g.p.last && v->get() == elemId(0, g.s.pulls - 1), "filter yields the next element that satisfies the predicate");
    g.p.last = false;
  }
}
struct MapG { uint64_t k, applied; };
struct Fn {
  MapG *g;
  Val operator()(Val &&v) const {
    vf_check(v.get() == elemId(g->k, g->applied), "the function is applied to every element once, in order");
    g->applied++;
    return Val(vf_uf("f", 64, 1, v.get()));
  }
};
static uint64_t f(uint64_t x) { return vf_uf("f", 64, 1, x); }
VF_ENTRY(map) {
  SrcG g = anySrc(0);
  MapG m{0, 0};
  vf_invariant("source", &srcInv, &g);
  Seq<Val> s = seq::map(srcSeq(g), Fn{&m});
  vf_check(g.calls == 0, "nothing is pulled before an element is asked for");
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    const bool some = k < g.len;
    vf_check(!!v == some, "map has as many elements as its source");
    if (!some) {
      ENDED(s, g);
      vf_check(m.applied == k, "the function is applied once per element");
      vf_reach("ended");
      break;
    }
    vf_check(v->get() == f(elemId(0, k)), "map yields the function of every element, in order");
    k++;
    vf_check(m.applied == k && g.calls == k, "the function is applied once per element; only what is needed is pulled");
  }
}
static bool lenInv(void *p) { SrcG *g = static_cast<SrcG *>(p); return vand(g[0].pulls <= g[0].len, g[1].pulls <= g[1].len); }
VF_ENTRY(zipWith2) {
  SrcG g[2] = {anySrc(0), anySrc(1)};
  vf_invariant("sources", &lenInv, &g);
  uint64_t applied = 0;
  Seq<Val> s = seq::zipWith([&applied](Val a, Val b) {
    applied++;
    return Val(vf_uf("f2", 64, 2, a.get(), b.get()));
  }, srcSeq(g[0]), srcSeq(g[1]));
  vf_check(g[0].calls == 0 && g[1].calls == 0, "nothing is pulled before an element is asked for");
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    const bool some = vand(k < g[0].len, k < g[1].len);
    vf_check(!!v == some, "zipWith is as long as the shortest of its sources");
    if (!some) {
      ENDED(s, g);
      vf_check(applied == k, "the function is applied once per element");
      vf_reach("ended");
      break;
    }
    vf_check(v->get() == vf_uf("f2", 64, 2, elemId(0, k), elemId(1, k)), "zipWith yields the function of the k-th elements");
    k++;
    vf_check(applied == k && g[0].calls == k && g[1].calls == k, "the function is applied once per element; only what is needed is pulled");
  }
}
VF_ENTRY(zipWith3) {
  SrcG g[3] = {anySrc(0), anySrc(1), anySrc(2)};
  vf_invariant("sources", &lenInv, &g[0]);
  vf_invariant("sources", &lenInv, &g[1]);
  uint64_t applied = 0;
  Seq<Val> s = seq::zipWith([&applied](Val a, Val b, Val c) {
    applied++;
    return Val(vf_uf("f3", 64, 3, a.get(), b.get(), c.get()));
  }, srcSeq(g[0]), srcSeq(g[1]), srcSeq(g[2]));
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    const bool some = vand(vand(k < g[0].len, k < g[1].len), k < g[2].len);
    vf_check(!!v == some, "zipWith is as long as the shortest of its sources");
    if (!some) {
      ENDED(s, g);
      vf_reach("ended");
      break;
    }
    vf_check(v->get() == vf_uf("f3", 64, 3, elemId(0, k), elemId(1, k), elemId(2, k)), "zipWith yields the function of the k-th elements");
    k++;
    vf_check(applied == k && g[0].calls == k && g[1].calls == k && g[2].calls == k, "the function is applied once per element; only what is needed is pulled");
  }
}
VF_ENTRY(concat3) {
  SrcG g[3] = {anySrc(0), anySrc(1), anySrc(2)};
  vf_invariant("sources", &lenInv, &g[0]);
  vf_invariant("sources", &lenInv, &g[1]);
  Seq<Val> s = seq::concat(srcSeq(g[0]), srcSeq(g[1]), srcSeq(g[2]));
  vf_check(g[0].calls == 0, "nothing is pulled before an element is asked for");
  int at = 0;
  uint64_t k = 0;
  for (; at < 3; at++, k = 0) {
    while (vf_bool("more") && k < g[at].len) {
      const Maybe<Val> v = s.next();
      vf_check(!!v && v->get() == elemId(at, k), "concat yields the elements of each sequence, one after the other");
      k++;
      vf_check(g[at].pulls == k && (at == 2 || g[at == 2 ? 2 : at + 1].calls == 0), "a sequence is touched only when the previous one has ended");
    }
    if (k < g[at].len) return;
  }
  vf_check(!s.next(), "concat ends after the last sequence");
  ENDED(s, g);
  vf_reach("ended");
}
VF_ENTRY(cast) {
  SrcG g = anySrc(0);
  vf_invariant("source", &srcInv, &g);
  struct To {
    uint64_t id;
    explicit To(Val &&v) : id(v.get() + 1) {}
  };
  Seq<To> s = seq::cast<To>(srcSeq(g));
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<To> v = s.next();
    const bool some = k < g.len;
    vf_check(!!v == some, "cast has as many elements as its source");
    if (!some) {
      ENDED(s, g);
      vf_reach("ended");
      break;
    }
    vf_check(v->id == elemId(0, k) + 1, "cast converts every element, in order");
    k++;
    vf_check(g.calls == k, "only what is needed is pulled");
  }
}
VF_ENTRY(mapMaybe) {
  SP g{anySrc(0), {0, 0, false}};
  vf_invariant("source", &spInv, &g);
  struct FilterInv { static bool none(void *p) { return !static_cast<SP *>(p)->p.last; } };
  vf_invariant("no result is skipped", &FilterInv::none, &g);
  Seq<Val> s = seq::mapMaybe(srcSeq(g.s), [&g](Val &&v) -> Maybe<Val> {
    if (Pred{&g.p}(v)) return Val(f(v.get()));
    return Nothing;
  });
  vf_check(g.s.calls == 0, "nothing is pulled before an element is asked for");
  while (vf_bool("more")) {
    g.p.last = false;
    const Maybe<Val> v = s.next();
    vf_check(g.s.pulls == g.p.applied, "only what is needed is pulled");
    if (!v) {
      vf_check(!g.p.last && g.s.pulls == g.s.len, "ends only at the end of the source");
      ENDED(s, g.s);
      vf_reach("ended");
      break;
    }
    vf_check(g.p.last && v->get() == f(elemId(0, g.s.pulls - 1)), "mapMaybe yields the next result that is not nothing");
    g.p.last = false;
  }
}
// ---- sequences of sequences: inner sequence j has len(j) elements ----
struct OuterG {
  uint64_t n, calls, given; // inner sequences: number, asked for, given
  uint64_t pulls;           // elements taken from inner sequence given - 1
};
static uint64_t innerLen(uint64_t j) { return vf_uf("length", 40, 1, j); }
struct Inner {
  typedef Val ValueType;
  OuterG *g;
  uint64_t j, i;
  Maybe<Val> operator()() {
    vf_check(j + 1 == g->given, "an inner sequence is only used until the next one is taken");
    if (i >= innerLen(j)) return Nothing;
    const uint64_t at = i;
    i++;
    g->pulls = i;
    return Val(elemId(j, at));
  }
};
struct Outer {
  OuterG *g;
  Maybe<Seq<Val>> operator()() {
    g->calls++;
    if (g->given >= g->n) return Nothing;
    vf_check(g->given == 0 || g->pulls == innerLen(g->given - 1), "the next sequence is taken only when the previous one has ended");
    const uint64_t j = g->given;
    g->given++;
    g->pulls = 0;
    return makeSeq<Inner>(Inner{g, j, 0});
  }
};
static bool outerInv(void *p) { OuterG &g = *static_cast<OuterG *>(p); return vand(g.given <= g.n, g.pulls <= vf_ite(g.given == 0, 0, innerLen(g.given - 1))); }
static void joinLoop(Seq<Val> &s, OuterG &g) {
  while (vf_bool("more")) {
    const uint64_t given = g.given, pulls = g.pulls;
    const Maybe<Val> v = s.next();
    if (!v) {
      vf_check(g.given == g.n && (g.n == 0 || g.pulls == innerLen(g.n - 1)), "ends only after the last element of the last sequence");
      ENDED(s, g);
      vf_reach("ended");
      break;
    }
    vf_check(g.pulls > 0 && v->get() == elemId(g.given - 1, g.pulls - 1), "the next element of the current sequence is yielded");
    vf_check(g.given == given ? g.pulls == pulls + 1 : g.pulls == 1, "exactly one element is pulled");
  }
}
VF_ENTRY(join) {
  OuterG g{count("n"), 0, 0, 0};
  vf_invariant("sources", &outerInv, &g);
  Seq<Val> s = seq::join(makeSeq<Outer>(Outer{&g}));
  vf_check(g.calls == 0, "nothing is pulled before an element is asked for");
  joinLoop(s, g);
}
VF_ENTRY(mapcat) {
  OuterG g{count("n"), 0, 0, 0};
  vf_invariant("sources", &outerInv, &g);
  struct Num { // elements 0, 1, 2...
    OuterG *g;
    Maybe<Val> operator()() {
      g->calls++;
      if (g->given >= g->n) return Nothing;
      return Val(g->given);
    }
  };
  Seq<Val> s = seq::mapcat(makeSeq<Num>(Num{&g}), [&g](Val &&v) {
    vf_check(v.get() == g.given, "the function is applied to every element once, in order");
    vf_check(g.given == 0 || g.pulls == innerLen(g.given - 1), "the next sequence is taken only when the previous one has ended");
    g.given++;
    g.pulls = 0;
    return makeSeq<Inner>(Inner{&g, v.get(), 0});
  });
  vf_check(g.calls == 0, "nothing is pulled before an element is asked for");
  joinLoop(s, g);
}
// A source that keeps its own position, so that copies are independent.
struct Own {
  typedef Val ValueType;
  uint64_t k, len, i;
  Maybe<Val> operator()() {
    if (i >= len) return Nothing;
    const uint64_t at = i;
    i++;
    return Val(elemId(k, at));
  }
};
static Seq<Val> own(uint64_t k, uint64_t len) { return makeSeq<Own>(Own{k, len, 0}); }
struct Pos { uint64_t i, n; };
static bool posInv(void *p) { Pos &g = *static_cast<Pos *>(p); return vor(g.i < g.n, vand(g.i == g.n, g.n != 0)); }
VF_ENTRY(cycle) {
  const uint64_t n = count("n");
  vf_assume(n != 0);
  Pos p{0, n};
  vf_invariant("position", &posInv, &p);
  Seq<Val> s = seq::cycle(own(0, n));
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    if (p.i == n) p.i = 0;
    vf_check(!!v && v->get() == elemId(0, p.i), "cycle yields the elements over and over");
    p.i++;
  }
}
VF_ENTRY(repeat) {
  const uint64_t x = vf_u64("x");
  Seq<Val> s = seq::repeat(Val(x));
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    vf_check(!!v && v->get() == x, "repeat yields the value forever");
  }
}
VF_ENTRY(just) {
  const uint64_t x = vf_u64("x"), y = vf_u64("y"), z = vf_u64("z");
  const Val third(z);
  Seq<Val> s = seq::just(Val(x), Val(y), third);
  Seq<Val> t;
  const int upto = vf_pick("copied after", 0, 3);
  const uint64_t want[3] = {x, y, z};
  for (int i = 0; i < 3; i++) {
    if (i == upto) t = Seq<Val>(Own{0, 0, 0});
    const Maybe<Val> v = s.next();
    vf_check(!!v && v->get() == want[i], "just yields the given values in order");
  }
  ENDED(s, 0);
  vf_check(third.get() == z, "arguments given as lvalues are not touched");
  Seq<Val> one = seq::just(Val(y));
  const Maybe<Val> v = one.next();
  vf_check(!!v && v->get() == y, "just yields the given value");
  ENDED(one, 0);
}
VF_ENTRY(iterate) {
  struct It { uint64_t x; uint64_t applied; } g{vf_u64("x"), 0};
  Seq<Val> s = seq::iterate(Val(g.x), [&g](Val &&v) {
    g.applied++;
    return Val(f(v.get()));
  });
  vf_check(g.applied == 0, "nothing is computed before an element is asked for");
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<Val> v = s.next();
    vf_check(!!v && v->get() == g.x, "iterate yields x, f(x), f(f(x))...");
    k++;
    g.x = f(g.x);
    vf_check(g.applied <= k, "the function is applied at most once per element");
  }
}
template <typename T>
static void rangeOf() {
  const T a = vf_any<T>("start"), b = vf_any<T>("end");
  Seq<T> s = seq::range(a, b);
  T k = a;
  while (vf_bool("more")) {
    const Maybe<T> v = s.next();
    vf_check(!!v == (k != b), "range ends before its end");
    if (!v) {
      ENDED(s, 0);
      vf_reach("ended");
      break;
    }
    vf_check(*v == k, "range yields start, and then the next value towards the end");
    k = static_cast<T>(a < b ? k + 1 : k - 1);
  }
}
VF_ENTRY(range_char) { rangeOf<char>(); }
VF_ENTRY(range_u8) { rangeOf<uint8_t>(); }
VF_ENTRY(range_i16) { rangeOf<int16_t>(); }
VF_ENTRY(range_int) { rangeOf<int>(); }
VF_ENTRY(range_unsigned) { rangeOf<unsigned>(); }
VF_ENTRY(range_long) { rangeOf<long>(); }
VF_ENTRY(range_ulong) { rangeOf<unsigned long>(); }
VF_ENTRY(index) {
  Seq<size_t> s = seq::index();
  size_t k = 0;
  while (vf_bool("more") && k < (size_t(1) << 62)) {
    const Maybe<size_t> v = s.next();
    vf_check(!!v && *v == k, "index yields 0, 1, 2...");
    k++;
  }
}
// all (a, b) with start <= a < b <= end, the longest first, then from the left
struct SubG { uint64_t start, end, size, at; };
static bool subInv(void *p) {
  SubG &g = *static_cast<SubG *>(p);
  return vand(vand(g.size >= 1, g.size <= g.end - g.start), vand(g.at >= g.start, g.at <= g.end - g.size + 1));
}
VF_ENTRY(subranges) {
  SubG g{vf_u64("start"), vf_u64("end"), 0, 0};
  vf_assume(vand(g.start <= g.end, g.end < (uint64_t(1) << (vf_symbolic() ? 62 : 8))));
  g.size = g.end - g.start;
  g.at = g.start;
  Seq<std::pair<size_t, size_t>> s = seq::subranges(g.start, g.end);
  if (g.start == g.end) {
    ENDED(s, 0);
    return;
  }
  vf_invariant("position", &subInv, &g);
  while (vf_bool("more")) {
    const auto v = s.next();
    if (g.at + g.size > g.end) { // the next size
      g.size--;
      g.at = g.start;
    }
    vf_check(!!v == (g.size != 0), "subranges ends after the last range of length one");
    if (!v) {
      ENDED(s, 0);
      vf_reach("ended");
      break;
    }
    vf_check(v->first == g.at && v->second == g.at + g.size, "subranges yields every range, the longest first, from the left");
    g.at++;
  }
}
// ---- containers ----
VF_ENTRY(fromContainer_any) {
  const uint64_t n = count("n") & 0xffffffff;
  typedef std::vector<uint64_t> Vec;
  alignas(Vec) char storage[sizeof(Vec)];
  Vec &v = *new (storage) Vec(); // its elements are arbitrary; never destroyed
  uint64_t *p = static_cast<uint64_t *>(vf_bytes("elements", n * 8));
  v._M_impl._M_start = p;
  v._M_impl._M_finish = p + n;
  v._M_impl._M_end_of_storage = p + n;
  alignas(Seq<uint64_t>) char sstorage[sizeof(Seq<uint64_t>)];
  Seq<uint64_t> &s = *new (sstorage) Seq<uint64_t>(seq::fromContainer(std::move(v)));
  uint64_t k = 0;
  while (vf_bool("more")) {
    const Maybe<uint64_t> x = s.next();
    vf_check(!!x == (k < n), "fromContainer has as many elements as the container");
    if (!x) {
      ENDED(s, 0);
      vf_reach("ended");
      break;
    }
    vf_check(*x == p[k], "fromContainer yields the elements in order");
    k++;
  }
}
template <typename C>
static void containerSmall(C c) {
  int n = vf_pick("n", 0, 4);
  std::vector<uint64_t> want;
  for (int i = 0; i < n; i++) {
    const uint64_t x = vf_u64("x");
    want.push_back(x);
    c.insert(c.end(), Val(x));
  }
  const bool lvalue = vf_bool("lvalue");
  Seq<Val> s = lvalue ? seq::fromContainer(c) : seq::fromContainer(std::move(c));
  Seq<Val> other;
  const int copied = vf_pick("copied after", 0, n);
  for (int i = 0; i < n; i++) {
    if (i == copied) other = Seq<Val>(s);
    const Maybe<Val> v = s.next();
    vf_check(!!v && v->get() == want[i], "fromContainer yields the elements in order");
  }
  ENDED(s, 0);
  if (copied < n)
    for (int i = copied; i < n; i++) {
      const Maybe<Val> v = other.next();
      vf_check(!!v && v->get() == want[i], "a copy yields the rest of the elements in order");
    }
  ENDED(other, 0);
  if (lvalue) {
    int i = 0;
    for (const Val &v : c) vf_check(v.get() == want[i++], "a container given as an lvalue is not touched");
  }
}
//@ assume: C09 the copy constructor of Val stands for any element copy; see C10 for copies of every sequence
#define SMALL vf_bounded("containers of 0..4 elements"); vf_nocut()
struct LooseVal : Val {};
VF_ENTRY(iteratorRange_small) {
  SMALL;
  const int n = vf_pick("n", 0, 4);
  uint64_t a[4];
  for (int i = 0; i < n; i++) a[i] = vf_u64("x");
  Seq<uint64_t> s = seq::fromIteratorRange(a, a + n);
  for (int i = 0; i < n; i++) {
    const Maybe<uint64_t> v = s.next();
    vf_check(!!v && *v == a[i], "fromIteratorRange yields the elements in order");
  }
  ENDED(s, 0);
}
// ---- operations ----
VF_ENTRY(length) {
  SrcG g = anySrc(0);
  vf_invariant("source", &srcInv, &g);
  vf_check(seq::length(srcSeq(g)) == g.len, "length counts the elements");
}
VF_ENTRY(forEach) {
  SrcG g = anySrc(0);
  MapG m{0, 0};
  vf_invariant("source", &srcInv, &g);
  seq::forEach(srcSeq(g), [&m](Val v) { Fn{&m}(std::move(v)); });
  vf_check(m.applied == g.len, "forEach applies the function to every element once");
}
VF_ENTRY(last) {
  SrcG g = anySrc(0);
  vf_invariant("source", &srcInv, &g);
  vf_invariant("last element", &lastInv, &g);
  const Maybe<Val> v = seq::last(srcSeq(g));
  vf_check(!!v == (g.len != 0), "last is nothing only for an empty sequence");
  if (v) vf_check(v->get() == g.lastId && g.pulls == g.len && g.lastId == elemId(0, g.len - 1), "last is the last element");
}
// an arbitrary element, to state that no element (or some element) has a property
struct AnyElem {
  SrcG s;
  PredG p;
  uint64_t at, x;
};
static bool noneEqual(void *p) { AnyElem &g = *static_cast<AnyElem *>(p); return vor(g.at >= g.s.pulls, elemId(0, g.at) != g.x); }
static bool elemSrcInv(void *p) { return srcInv(&static_cast<AnyElem *>(p)->s); }
VF_ENTRY(contains) {
  AnyElem g{anySrc(0), {0, 0, false}, vf_u64("at"), vf_u64("x")};
  vf_assume(vor(g.at < g.s.len, g.s.len == 0));
  vf_invariant("source", &elemSrcInv, &g);
  vf_invariant("not found so far", &noneEqual, &g);
  const bool r = seq::contains(srcSeq(g.s), Val(g.x));
  if (r) vf_check(g.s.pulls > 0 && elemId(0, g.s.pulls - 1) == g.x, "contains is true only if an element is equal");
  else vf_check(g.s.len == 0 || elemId(0, g.at) != g.x, "contains is false only if no element is equal");
}
static bool appliedInv(void *p) { AnyElem &g = *static_cast<AnyElem *>(p); return vand(vand(g.s.pulls <= g.s.len, g.p.applied == g.s.pulls), vor(g.p.last == (g.x != 0), g.p.applied == 0)); }
static bool elemHolds(void *p) { AnyElem &g = *static_cast<AnyElem *>(p); return vor(g.at >= g.p.applied, (vf_uf("predicate", 1, 1, elemId(0, g.at)) != 0) == (g.x != 0)); }
VF_ENTRY(all) {
  AnyElem g{anySrc(0), {0, 0, true}, vf_u64("at"), 1};
  vf_assume(vor(g.at < g.s.len, g.s.len == 0));
  vf_invariant("source", &appliedInv, &g);
  vf_invariant("all so far", &elemHolds, &g);
  const bool r = seq::all(srcSeq(g.s), Pred{&g.p});
  if (r) vf_check(g.s.len == 0 || vf_uf("predicate", 1, 1, elemId(0, g.at)) != 0, "all is true only if every element satisfies the predicate");
  else vf_check(g.p.applied > 0 && !g.p.last, "all is false only if an element does not");
  vf_check(g.s.pulls == g.p.applied, "only what is needed is pulled");
}
VF_ENTRY(any) {
  AnyElem g{anySrc(0), {0, 0, false}, vf_u64("at"), 0};
  vf_assume(vor(g.at < g.s.len, g.s.len == 0));
  vf_invariant("source", &appliedInv, &g);
  vf_invariant("none so far", &elemHolds, &g);
  const bool r = seq::any(srcSeq(g.s), Pred{&g.p});
  if (!r) vf_check(g.s.len == 0 || vf_uf("predicate", 1, 1, elemId(0, g.at)) == 0, "any is false only if no element satisfies the predicate");
  else vf_check(g.p.applied > 0 && g.p.last, "any is true only if an element does");
  vf_check(g.s.pulls == g.p.applied, "only what is needed is pulled");
}
VF_ENTRY(at) {
  SrcG g = anySrc(0);
  vf_invariant("source", &srcInv, &g);
  const uint64_t i = vf_u64("i");
  if (!vf_symbolic()) vf_assume(i < (1 << 20));
  const Maybe<Val> v = seq::at(srcSeq(g), i);
  vf_check(!!v == (i < g.len), "at is nothing only beyond the end");
  if (v) vf_check(v->get() == elemId(0, i) && g.pulls == i + 1, "at is the i-th element and pulls no more");
}
struct EqG {
  SrcG s[2];
  uint64_t at;
};
static bool eqInv(void *p) { EqG &g = *static_cast<EqG *>(p); return vand(vand(g.s[0].pulls <= g.s[0].len, g.s[1].pulls <= g.s[1].len), g.s[0].pulls == g.s[1].pulls); }
static bool eqSoFar(void *p) { EqG &g = *static_cast<EqG *>(p); return vor(g.at >= g.s[0].pulls, elemId(0, g.at) == elemId(1, g.at)); }
VF_ENTRY(equality) {
  EqG g{{anySrc(0), anySrc(1)}, vf_u64("at")};
  vf_invariant("sources", &eqInv, &g);
  vf_invariant("equal so far", &eqSoFar, &g);
  const bool r = srcSeq(g.s[0]) == srcSeq(g.s[1]);
  if (r) vf_check(g.s[0].len == g.s[1].len && (g.at >= g.s[0].len || elemId(0, g.at) == elemId(1, g.at)), "equal sequences have the same elements");
  else {
    const uint64_t a = g.s[0].pulls, b = g.s[1].pulls;
    vf_check(a != b || (a > 0 && elemId(0, a - 1) != elemId(1, a - 1)), "unequal sequences differ in an element or in length");
  }
}
VF_ENTRY(iterators) {
  SrcG g = anySrc(0);
  vf_invariant("source", &srcInv, &g);
  uint64_t k = 0;
  Seq<Val> s = srcSeq(g);
  auto i = rc::begin(std::move(s));
  const auto e = rc::end(s);
  struct ItG {
    SrcG *g;
    seq::SeqIterator<Val> *i;
    uint64_t *k;
    static bool inv(void *p) {
      ItG &t = *static_cast<ItG *>(p);
      return vand(vand(t.i->m_current.m_initialized == (*t.k < t.g->len), *t.k <= t.g->len), vand(t.g->pulls == vf_ite(*t.k < t.g->len, *t.k + 1, *t.k), srcInv(t.g)));
    }
    static bool cur(void *p) {
      ItG &t = *static_cast<ItG *>(p);
      const Val &v = *reinterpret_cast<const Val *>(&t.i->m_current.m_storage);
      return vor(*t.k >= t.g->len, vand(v.id == elemId(0, *t.k), v.state == 1));
    }
  } it{&g, &i, &k};
  vf_invariant("the current element is there unless the end is reached", &ItG::inv, &it);
  vf_invariant("the current element is the k-th", &ItG::cur, &it);
  while (vf_bool("more")) {
    vf_check((i != e) == (k < g.len), "iteration ends after the last element");
    if (i == e) {
      vf_reach("ended");
      break;
    }
    vf_check((*i).get() == elemId(0, k), "iteration visits the elements in order");
    ++i;
    k++;
  }
}
VF_ENTRY(vector_small) { SMALL; containerSmall(std::vector<Val>()); }
VF_ENTRY(list_small) { SMALL; containerSmall(std::list<Val>()); }
VF_ENTRY(deque_small) { SMALL; containerSmall(std::deque<Val>()); }
