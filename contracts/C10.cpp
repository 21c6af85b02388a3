// C10 Seq, Shrinkable and Gen are independent, exception-safe values
#include "vf_seq.h"
#include <deque>
//@ sources: src/Random.cpp src/GenerationFailure.cpp
using namespace rc;
// An implementation object whose copies and destructions are counted.
struct TG {
  uint64_t alive, made;
  uint64_t throwsAt; // the position at which it throws
};
struct Tracked {
  typedef Val ValueType;
  TG *g;
  uint64_t k, i, state;
  Tracked(TG *g, uint64_t k, uint64_t i) : g(g), k(k), i(i), state(1) { g->alive++; }
  Tracked(const Tracked &o) : g(o.g), k(o.k), i(o.i), state(1) {
    vf_check(o.state == 1, "no implementation object is used after its destruction");
    g->alive++;
  }
  ~Tracked() {
    vf_check(state == 1, "an implementation object is destroyed once");
    state = 3;
    g->alive--;
  }
  Maybe<Val> operator()() {
    vf_check(state == 1, "no implementation object is used after its destruction");
    if (i == g->throwsAt) {
      if (vf_bool("which exception")) throw 17;
      throw std::runtime_error("x");
    }
    const uint64_t at = i;
    i++;
    if (vf_uf("ends", 1, 2, k, at)) return Nothing;
    return Val(elemId(k, at));
  }
};
struct SeqState { // what a Seq is expected to be
  bool empty;
  uint64_t k, i;
};
static Seq<Val> anySeq(TG &g, SeqState &e, uint64_t k) {
  e = SeqState{vf_bool("empty"), k, vf_u64("i")};
  if (e.empty) return vf_bool("moved from or default") ? Seq<Val>() : Seq<Val>(Nothing);
  return makeSeq<Tracked>(&g, k, e.i);
}
// one element; the expectation moves on
static void step(Seq<Val> &s, SeqState &e, TG &g) {
  const Maybe<Val> v = s.next();
  if (e.empty) {
    vf_check(!v, "an empty sequence has no elements");
    return;
  }
  if (e.i == g.throwsAt) {
    vf_check(!v, "a sequence whose implementation throws ends");
    e.empty = true;
    return;
  }
  vf_check(!!v == !vf_uf("ends", 1, 2, e.k, e.i), "the sequence goes on where it was");
  if (v) vf_check(v->get() == elemId(e.k, e.i), "the sequence goes on where it was");
  e.i++;
}
static TG anyTG() { return TG{0, 0, vf_u64("throws at")}; }
static uint64_t owners(const SeqState &a, const SeqState &b) { return (a.empty ? 0 : 1) + (b.empty ? 0 : 1); }
#define SEQ2                                                                   \
  TG g = anyTG();                                                              \
  {                                                                            \
    SeqState ea, eb;                                                           \
    Seq<Val> a = anySeq(g, ea, 1), b = anySeq(g, eb, 2);
#define SEQ2END                                                                \
    for (int i = 0; i < 2; i++) {                                              \
      step(a, ea, g);                                                          \
      step(b, eb, g);                                                          \
    }                                                                          \
    vf_check(g.alive == owners(ea, eb), "every implementation object has one owner"); \
  }                                                                            \
  vf_check(g.alive == 0, "every implementation object is destroyed");          \
  vf_leak_check("no memory is leaked");
VF_ENTRY(seq_copy_construct) {
  vf_heap_mark();
  SEQ2
  b = Seq<Val>(a);
  eb = ea;
  SEQ2END
}
VF_ENTRY(seq_copy_assign) {
  vf_heap_mark();
  SEQ2
  b = a;
  eb = ea;
  SEQ2END
}
VF_ENTRY(seq_self_assign) {
  vf_heap_mark();
  SEQ2
  Seq<Val> &r = a;
  a = r;
  SEQ2END
}
VF_ENTRY(seq_move_construct) {
  vf_heap_mark();
  SEQ2
  Seq<Val> c(std::move(a));
  a = Seq<Val>(b);
  b = std::move(c);
  std::swap(ea, eb);
  SEQ2END
}
VF_ENTRY(seq_move_assign) {
  vf_heap_mark();
  SEQ2
  b = std::move(a);
  eb = ea;
  a = Seq<Val>();
  ea.empty = true;
  SEQ2END
}
VF_ENTRY(seq_assign_from_moved) {
  vf_heap_mark();
  SEQ2
  {
    Seq<Val> c(std::move(a));
    b = a;
    eb.empty = true;
    a = c;
  }
  SEQ2END
}
VF_ENTRY(seq_self_move) {
  vf_heap_mark();
  SEQ2
  Seq<Val> &r = a;
  a = std::move(r);
  a = b; // whatever it was left as, it can be assigned to
  ea = eb;
  SEQ2END
}
VF_ENTRY(seq_swap) {
  vf_heap_mark();
  SEQ2
  std::swap(a, b);
  std::swap(ea, eb);
  SEQ2END
}
VF_ENTRY(seq_next) {
  vf_heap_mark();
  SEQ2
  step(a, ea, g);
  SEQ2END
}
VF_ENTRY(seq_throws_midway) { // after any number of elements
  TG g = anyTG();
  {
    SeqState e{false, 1, 0};
    Seq<Val> s = makeSeq<Tracked>(&g, 1, 0);
    struct At {
      Seq<Val> *s;
      SeqState *e;
      static bool inv(void *p) {
        At &a = *static_cast<At *>(p);
        return static_cast<Seq<Val>::SeqImpl<Tracked> *>(a.s->m_impl.get())->m_impl.i == a.e->i;
      }
    } at{&s, &e};
    vf_invariant("position", &At::inv, &at);
    while (vf_bool("more") && e.i != g.throwsAt) step(s, e, g);
    Seq<Val> copy(s);
    vf_check(g.alive == 2, "a copy has its own implementation object");
    if (e.i != g.throwsAt) return;
    vf_check(!s.next(), "a sequence that throws ends");
    vf_check(g.alive == 1, "its implementation object is destroyed, the copy's is not");
    vf_check(!s.next() && !s.next(), "a sequence that threw stays ended");
    vf_check(!copy.next() && !copy.next(), "so does its copy");
    vf_check(g.alive == 0, "every implementation object is destroyed");
    Seq<Val> after(s);
    vf_check(!after.next(), "a copy of an ended sequence has ended");
    vf_reach("threw");
  }
  vf_check(g.alive == 0, "every implementation object is destroyed");
}
// ---- copies of every combinator in every reachable state ----
struct Own {
  typedef Val ValueType;
  uint64_t k, len, i;
  Maybe<Val> operator()() {
    if (i >= len) return Nothing;
    const uint64_t at = i;
    i++;
    return Val(elemId(k, at));
  }
};
static Seq<Val> own(uint64_t k) {
  const uint64_t len = vf_u64("len");
  vf_assume(len < (uint64_t(1) << (vf_symbolic() ? 62 : 8)));
  return makeSeq<Own>(Own{k, len, 0});
}
template <typename T>
static void same(const Maybe<T> &a, const Maybe<T> &b) {
  vf_check(!!a == !!b, "a copy goes on like the original");
  if (a && b) vf_check(*a == *b, "a copy goes on like the original");
}
template <typename T>
static void copies(Seq<T> s, int upto = 0) {
  if (upto) { // a bounded number of elements drawn before
    for (int i = vf_pick("drawn", 0, upto); i > 0; i--) s.next();
  } else {
    while (vf_bool("more"))
      if (!s.next()) break;
  }
  Seq<T> t(s);
  const Maybe<T> a1 = s.next(), a2 = s.next();
  const Maybe<T> b1 = t.next(), b2 = t.next();
  same(a1, b1);
  same(a2, b2);
}
static bool pred(const Val &v) { return vf_uf("predicate", 1, 1, v.get()) != 0; }
static Val func(Val v) { return Val(vf_uf("f", 64, 1, v.get())); }
#define PRED [](const Val &v) { return pred(v); }
VF_ENTRY(copy_drop) { copies(seq::drop(vf_u64("n") & 0xffffff, own(0))); }
VF_ENTRY(copy_take) { copies(seq::take(vf_u64("n"), own(0))); }
VF_ENTRY(copy_map) { copies(seq::map(own(0), [](Val v) { return func(v); })); }
VF_ENTRY(copy_takeWhile) { copies(seq::takeWhile(own(0), PRED)); }
VF_ENTRY(copy_zipWith) { copies(seq::zipWith([](Val a, Val b) { return Val(vf_uf("f2", 64, 2, a.get(), b.get())); }, own(0), own(1))); }
VF_ENTRY(copy_concat) { copies(seq::concat(own(0), own(1))); }
VF_ENTRY(copy_iterate) { copies(seq::iterate(Val(vf_u64("x")), [](Val v) { return func(v); })); }
VF_ENTRY(copy_repeat) { copies(seq::repeat(Val(vf_u64("x")))); }
VF_ENTRY(copy_range) { copies(seq::range(vf_int("a"), vf_int("b"))); }
VF_ENTRY(copy_just) { copies(seq::just(Val(vf_u64("x")), Val(vf_u64("y"))), 3); }
static Seq<Val> small(uint64_t k) {
  return makeSeq<Own>(Own{k, static_cast<uint64_t>(vf_pick("len", 0, 3)), 0});
}
#define SMALL vf_bounded("sources of 0..3 elements, 0..4 drawn before the copy"); vf_nocut()
VF_ENTRY(copy_dropWhile) { SMALL; copies(seq::dropWhile(small(0), PRED), 4); }
VF_ENTRY(copy_filter) { SMALL; copies(seq::filter(small(0), PRED), 4); }
VF_ENTRY(copy_join) { SMALL; copies(seq::join(seq::map(seq::range(0, vf_pick("seqs", 0, 2)), [](int i) { return makeSeq<Own>(Own{static_cast<uint64_t>(i), vf_uf("len", 1, 1, uint64_t(i)), 0}); })), 4); }
VF_ENTRY(copy_mapcat) { SMALL; copies(seq::mapcat(seq::range(0, vf_pick("seqs", 0, 2)), [](int i) { return makeSeq<Own>(Own{static_cast<uint64_t>(i), vf_uf("len", 1, 1, uint64_t(i)), 0}); }), 4); }
VF_ENTRY(copy_subranges) { SMALL; copies(seq::subranges(0, vf_pick("n", 0, 3)), 4); }
template <typename C>
static void copyContainer() {
  C c;
  for (int i = vf_pick("n", 0, 3); i > 0; i--) c.insert(c.end(), Val(vf_u64("x")));
  copies(seq::fromContainer(c), 4);
}
VF_ENTRY(copy_vector) { SMALL; copyContainer<std::vector<Val>>(); }
VF_ENTRY(copy_deque) { SMALL; copyContainer<std::deque<Val>>(); }

// ---- Shrinkable and Gen: reference counted ----
struct ImpG {
  uint64_t alive;
  bool valueThrows, shrinksThrow;
};
struct ShrImp {
  ImpG *g;
  uint64_t k, state;
  ShrImp(ImpG *g, uint64_t k) : g(g), k(k), state(1) { g->alive++; }
  ShrImp(const ShrImp &o) : g(o.g), k(o.k), state(1) { g->alive++; }
  ~ShrImp() {
    vf_check(state == 1, "an implementation object is destroyed once");
    state = 3;
    g->alive--;
  }
  uint64_t value() const {
    vf_check(state == 1, "no implementation object is used after its destruction");
    if (g->valueThrows) throw static_cast<int>(k);
    return vf_uf("value", 64, 1, k);
  }
  Seq<Shrinkable<uint64_t>> shrinks() const {
    vf_check(state == 1, "no implementation object is used after its destruction");
    if (g->shrinksThrow) throw static_cast<int>(k);
    return seq::just(makeShrinkable<ShrImp>(g, k + 10));
  }
};
typedef Shrinkable<uint64_t> Shr;
typedef Shr::ShrinkableImpl<ShrImp> ShrBox;
static void isShr(const Shr &s, uint64_t k) {
  vf_check(!!s.m_impl, "a value that was assigned to is not empty");
  vf_check(static_cast<ShrBox *>(s.m_impl)->m_impl.k == k, "the value is the one assigned");
  vf_check(s.value() == vf_uf("value", 64, 1, k), "the value is the one assigned");
}
// Two values a (object 1) and b (object 2, or the same object, or moved from);
// each object has any number of further owners, so that one operation covers
// every history.
struct Box {
  uint64_t others[3];
  Shr::IShrinkableImpl *box[3];
};
struct Count { uint64_t n; };
static void countIs(Shr::IShrinkableImpl *p, uint64_t n) { vf_check(static_cast<ShrBox *>(p)->m_count.load() == static_cast<long>(n), "the count is the number of owners"); }
template <typename Op>
static void shrOp(bool selfOnly, Op op) {
  vf_heap_mark();
  ImpG g{0, false, false};
  {
    Shr a = makeShrinkable<ShrImp>(&g, 1);
    const bool shared = !selfOnly && vf_bool("shared");
    Shr b = shared ? a : makeShrinkable<ShrImp>(&g, 2);
    uint64_t n1 = vf_u64("other owners") & 0xffff, n2 = vf_u64("other owners") & 0xffff; // of object 1, object 2
    if (!vf_symbolic()) n1 = n2 = 0;
    Shr::IShrinkableImpl *p1 = a.m_impl, *p2 = b.m_impl;
    static_cast<ShrBox *>(p1)->m_count = static_cast<long>(n1 + (shared ? 2 : 1));
    if (!shared) static_cast<ShrBox *>(p2)->m_count = static_cast<long>(n2 + 1);
    op(a, b, shared ? 1 : 2);
    // the owners now
    const uint64_t o1 = n1 + (a.m_impl == p1) + (b.m_impl == p1), o2 = n2 + (a.m_impl == p2) + (b.m_impl == p2);
    if (shared) {
      vf_check(g.alive == (o1 ? 1 : 0), "an object lives exactly as long as it has an owner");
      if (o1) countIs(p1, o1);
    } else {
      vf_check(g.alive == (o1 ? 1u : 0u) + (o2 ? 1u : 0u), "an object lives exactly as long as it has an owner");
      if (o1) countIs(p1, o1);
      if (o2) countIs(p2, o2);
    }
    // let the other owners go
    if (o1) static_cast<ShrBox *>(p1)->m_count = static_cast<long>((a.m_impl == p1) + (b.m_impl == p1));
    if (!shared && o2) static_cast<ShrBox *>(p2)->m_count = static_cast<long>((a.m_impl == p2) + (b.m_impl == p2));
    if (o1 && a.m_impl != p1 && b.m_impl != p1) delete static_cast<ShrBox *>(p1);
    if (!shared && o2 && a.m_impl != p2 && b.m_impl != p2) delete static_cast<ShrBox *>(p2);
  }
  vf_check(g.alive == 0, "every object is destroyed when its last owner goes");
  vf_leak_check("no memory is leaked");
}
VF_ENTRY(shrinkable_copy) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { { Shr c(a); isShr(c, 1); } isShr(a, 1); isShr(b, kb); }); }
VF_ENTRY(shrinkable_move) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { { Shr c(std::move(a)); isShr(c, 1); } isShr(b, kb); }); }
VF_ENTRY(shrinkable_copy_assign) { shrOp(false, [](Shr &a, Shr &b, uint64_t) { b = a; isShr(a, 1); isShr(b, 1); }); }
VF_ENTRY(shrinkable_self_assign) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { Shr &r = a; a = r; isShr(a, 1); isShr(b, kb); }); }
VF_ENTRY(shrinkable_move_assign) { shrOp(false, [](Shr &a, Shr &b, uint64_t) { b = std::move(a); isShr(b, 1); }); }
VF_ENTRY(shrinkable_assign_to_moved) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { { Shr c(std::move(a)); } a = b; isShr(a, kb); isShr(b, kb); }); }
VF_ENTRY(shrinkable_move_to_moved) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { { Shr c(std::move(a)); } a = std::move(b); isShr(a, kb); }); }
VF_ENTRY(shrinkable_self_move) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { Shr &r = a; a = std::move(r); isShr(b, kb); a = b; isShr(a, kb); }); }
VF_ENTRY(shrinkable_swap) { shrOp(false, [](Shr &a, Shr &b, uint64_t kb) { std::swap(a, b); isShr(b, 1); isShr(a, kb); }); }
VF_ENTRY(shrinkable_throws) {
  vf_heap_mark();
  ImpG g{0, vf_bool("value throws"), vf_bool("shrinks throw")};
  {
    const Shr a = makeShrinkable<ShrImp>(&g, 1);
    {
      Seq<Shr> s = a.shrinks();
      const Maybe<Shr> c = s.next();
      vf_check(!!c == !g.shrinksThrow, "a shrinkable whose shrinks throw has no shrinks");
      if (c) vf_check(static_cast<ShrBox *>(c->m_impl)->m_impl.k == 11, "otherwise it has its shrinks");
      vf_check(!s.next(), "no further shrinks");
    }
    try {
      const uint64_t v = a.value();
      vf_check(!g.valueThrows && v == vf_uf("value", 64, 1, uint64_t(1)), "value() is the value");
    } catch (int e) {
      vf_check(g.valueThrows && e == 1, "value() throws what the implementation throws");
    }
  }
  vf_check(g.alive == 0, "every object is destroyed");
  vf_leak_check("no memory is leaked");
}
// ---- Gen ----
struct GenImp : ShrImp {
  GenImp(ImpG *g, uint64_t k) : ShrImp(g, k) {}
  Shr operator()(const Random &r, int size) const {
    vf_check(state == 1, "no implementation object is used after its destruction");
    if (g->valueThrows) throw static_cast<int>(k);
    return shrinkable::just(vf_uf("generated", 64, 3, k, r.m_key[0], uint64_t(size)));
  }
};
typedef Gen<uint64_t> G;
typedef G::GenImpl<GenImp> GenBox;
static void isGen(const G &s, uint64_t k, char name) {
  vf_check(!!s.m_impl, "a value that was assigned to is not empty");
  vf_check(static_cast<GenBox *>(s.m_impl)->m_impl.k == k, "the value is the one assigned");
  vf_check(s.m_name.size() == 1 && s.m_name[0] == name && s.name() == s.m_name, "the name is the one assigned");
  Random r;
  r.m_key[0] = vf_u64("random");
  const int size = vf_int("size");
  vf_check(s(r, size).value() == vf_uf("generated", 64, 3, k, r.m_key[0], uint64_t(size)), "the generator is the one assigned");
}
static void gcountIs(G::IGenImpl *p, uint64_t n) { vf_check(static_cast<GenBox *>(p)->m_count.load() == static_cast<long>(n), "the count is the number of owners"); }
template <typename Op>
static void genOp(Op op) {
  vf_heap_mark();
  ImpG g{0, false, false};
  {
    G a = G(GenImp(&g, 1)).as("a");
    const bool shared = vf_bool("shared");
    G b = (shared ? a : G(GenImp(&g, 2))).as("b");
    uint64_t n1 = vf_u64("other owners") & 0xffff, n2 = vf_u64("other owners") & 0xffff;
    if (!vf_symbolic()) n1 = n2 = 0;
    G::IGenImpl *p1 = a.m_impl, *p2 = b.m_impl;
    gcountIs(p1, shared ? 2 : 1);
    vf_check(g.alive == (shared ? 1u : 2u), "temporaries are destroyed");
    static_cast<GenBox *>(p1)->m_count = static_cast<long>(n1 + (shared ? 2 : 1));
    if (!shared) static_cast<GenBox *>(p2)->m_count = static_cast<long>(n2 + 1);
    op(a, b, shared ? 1 : 2);
    const uint64_t o1 = n1 + (a.m_impl == p1) + (b.m_impl == p1), o2 = n2 + (a.m_impl == p2) + (b.m_impl == p2);
    vf_check(g.alive == (o1 ? 1u : 0u) + (!shared && o2 ? 1u : 0u), "an object lives exactly as long as it has an owner");
    if (o1) gcountIs(p1, o1);
    if (!shared && o2) gcountIs(p2, o2);
    if (o1) static_cast<GenBox *>(p1)->m_count = static_cast<long>((a.m_impl == p1) + (b.m_impl == p1));
    if (!shared && o2) static_cast<GenBox *>(p2)->m_count = static_cast<long>((a.m_impl == p2) + (b.m_impl == p2));
    if (o1 && a.m_impl != p1 && b.m_impl != p1) delete static_cast<GenBox *>(p1);
    if (!shared && o2 && a.m_impl != p2 && b.m_impl != p2) delete static_cast<GenBox *>(p2);
  }
  vf_check(g.alive == 0, "every object is destroyed when its last owner goes");
  vf_leak_check("no memory is leaked");
}
VF_ENTRY(gen_copy) { genOp([](G &a, G &b, uint64_t kb) { { G c(a); isGen(c, 1, 'a'); } isGen(a, 1, 'a'); isGen(b, kb, 'b'); }); }
VF_ENTRY(gen_move) { genOp([](G &a, G &b, uint64_t kb) { { G c(std::move(a)); isGen(c, 1, 'a'); } isGen(b, kb, 'b'); }); }
VF_ENTRY(gen_copy_assign) { genOp([](G &a, G &b, uint64_t) { b = a; isGen(a, 1, 'a'); isGen(b, 1, 'a'); }); }
VF_ENTRY(gen_self_assign) { genOp([](G &a, G &b, uint64_t kb) { G &r = a; a = r; isGen(a, 1, 'a'); isGen(b, kb, 'b'); }); }
VF_ENTRY(gen_move_assign) { genOp([](G &a, G &b, uint64_t) { b = std::move(a); isGen(b, 1, 'a'); }); }
VF_ENTRY(gen_assign_to_moved) { genOp([](G &a, G &b, uint64_t kb) { { G c(std::move(a)); } a = b; isGen(a, kb, 'b'); isGen(b, kb, 'b'); }); }
VF_ENTRY(gen_self_move) { genOp([](G &a, G &b, uint64_t kb) { G &r = a; a = std::move(r); isGen(b, kb, 'b'); a = b; isGen(a, kb, 'b'); }); }
VF_ENTRY(gen_as) { genOp([](G &a, G &b, uint64_t kb) { { G c = a.as("c"); isGen(c, 1, 'c'); } isGen(a, 1, 'a'); isGen(b, kb, 'b'); }); }
struct Custom { uint64_t x; };
VF_ENTRY(gen_throws) {
  vf_heap_mark();
  {
    const uint64_t x = vf_u64("x");
    const int which = vf_pick("which", 0, 2);
    const G gen([=](const Random &, int) -> Shr {
      if (which == 0) throw Custom{x};
      if (which == 1) throw GenerationFailure("f");
      throw static_cast<long>(x);
    });
    const Shr s = gen(Random(), vf_int("size")); // does not throw
    vf_check(!s.shrinks().next(), "a failed generation has no shrinks");
    const Shr copy(s);
    for (int i = 0; i < 2; i++) {
      try {
        copy.value();
        vf_check(false, "value() rethrows");
      } catch (const Custom &c) {
        vf_check(which == 0 && c.x == x, "value() rethrows the same exception");
      } catch (const GenerationFailure &) {
        vf_check(which == 1, "value() rethrows the same exception");
      } catch (long c) {
        vf_check(which == 2 && c == static_cast<long>(x), "value() rethrows the same exception");
      }
    }
  }
  vf_leak_check("no memory is leaked");
}
