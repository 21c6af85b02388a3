// C15 Maybe, Variant and Any manage their contents exactly
//
// One operation from every state that its operands can be in (holding nothing
// or any value of any alternative); the operands are afterwards again in such a
// state, so the claim carries over to every history. Held objects own a heap
// cell: an object that is destroyed twice, used after its destruction or never
// destroyed is a double free, an access to freed memory or a leak.
#include "rapidcheck.h"
#include "rapidcheck/Maybe.h"
#include "rapidcheck/detail/Variant.h"
#include "rapidcheck/detail/Any.h"
#include "vf.h"
//@ sources: src/detail/Any.cpp
using namespace rc;
using namespace rc::detail;
struct Boom {};
static bool gMayThrow; // whether the operations of held objects throw (arbitrarily)
static bool gThrew;
static void mayThrow() {
  if (!gMayThrow) return;
  if (vf_bool("throws")) {
    gThrew = true;
    throw Boom();
  }
}
static int64_t gAlive;
template <int Tag, bool NothrowMove>
struct Obj {
  uint64_t *cell; // cell[0]: the value
  explicit Obj(uint64_t v) : cell(new uint64_t(v)) { gAlive++; }
  Obj(const Obj &o) {
    o.check();
    mayThrow();
    cell = new uint64_t(*o.cell);
    gAlive++;
  }
  Obj(Obj &&o) noexcept(NothrowMove) {
    o.check();
    if (!NothrowMove) mayThrow();
    cell = new uint64_t(*o.cell);
    gAlive++;
    *o.cell = kMoved;
  }
  Obj &operator=(const Obj &o) {
    check();
    o.check();
    mayThrow();
    *cell = *o.cell;
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept(NothrowMove) {
    check();
    o.check();
    if (!NothrowMove) mayThrow();
    if (this == &o) return *this;
    *cell = *o.cell;
    *o.cell = kMoved;
    return *this;
  }
  ~Obj() {
    check();
    delete cell;
    cell = nullptr;
    gAlive--;
  }
  static const uint64_t kMoved = 0xDEAD0000DEAD0000;
  void check() const { vf_check(vf_alive(cell), "no held object is used before its construction or after its destruction"); }
  bool operator==(const Obj &o) const {
    check();
    o.check();
    return *cell == *o.cell;
  }
};
template <int Tag, bool N>
std::ostream &operator<<(std::ostream &os, const Obj<Tag, N> &) { return os; }
static void begin_() {
  gMayThrow = false;
  gThrew = false;
  gAlive = 0;
  vf_heap_mark();
}
static void end_() {
  vf_check(gAlive == 0, "every held object is destroyed exactly once");
  vf_leak_check("no held object is leaked");
}

// ---- Maybe ----
typedef Obj<0, false> O;
struct MState {
  bool has;
  uint64_t v;
};
static MState anyMaybe() { return MState{vf_pick("holds a value", 0, 1) != 0, vf_u64("value")}; }
static Maybe<O> make(const MState &s) { // (emptied after having held a value, or never)
  if (s.has) return Maybe<O>(O(s.v));
  if (vf_pick("how empty", 0, 1) == 0) return Maybe<O>();
  Maybe<O> m(O(1));
  m.reset();
  vf_check(!m, "a reset Maybe holds nothing");
  return Maybe<O>(Nothing);
}
static void isM(const Maybe<O> &m, const MState &s, const char *what = "a Maybe holds exactly what was put into it") {
  vf_check(static_cast<bool>(m) == s.has, what);
  if (!m) return;
  m->check();
  vf_check(*m->cell == s.v, what);
  vf_check(&*m == m.operator->(), "both ways of access give the held object");
}
// what a throwing operation leaves behind: still nothing or one whole object
static void wholeM(const Maybe<O> &m) {
  if (m) m->check();
}
VF_ENTRY(maybe_construct) {
  begin_();
  {
    const uint64_t v = vf_u64("value");
    const int how = vf_pick("how", 0, 4);
    const MState s = {how >= 2, v};
    O o(v);
    gMayThrow = true;
    try {
      if (how == 0) { Maybe<O> m; gMayThrow = false; isM(m, s); }
      if (how == 1) { Maybe<O> m(Nothing); gMayThrow = false; isM(m, s); }
      if (how == 2) { Maybe<O> m(static_cast<const O &>(o)); gMayThrow = false; isM(m, s); vf_check(*o.cell == v, "copying leaves the original"); }
      if (how == 3) { Maybe<O> m(std::move(o)); gMayThrow = false; isM(m, s); vf_check(*o.cell == O::kMoved, "the value is moved"); }
      if (how == 4) {
        Maybe<O> m(make(anyMaybe()));
        m.init(v);
        gMayThrow = false;
        isM(m, s);
      }
    } catch (const Boom &) {
    }
    vf_check(gAlive == 1, "nothing is left of what was built");
  }
  end_();
}
VF_ENTRY(maybe_copy_move) {
  begin_();
  {
    const MState s = anyMaybe();
    Maybe<O> a(make(s));
    const bool moves = vf_pick("moves", 0, 1) != 0;
    gMayThrow = true;
    try {
      if (moves) {
        Maybe<O> b(std::move(a));
        gMayThrow = false;
        isM(b, s);
        isM(a, MState{s.has, O::kMoved}, "a moved-from Maybe holds the moved-from value");
      } else {
        Maybe<O> b(static_cast<const Maybe<O> &>(a));
        gMayThrow = false;
        isM(b, s);
        isM(a, s, "copying leaves the original");
        if (s.has) {
          vf_check(b->cell != a->cell, "a copy has an object of its own");
          *b->cell = 7;
          isM(a, s, "a copy is independent");
        }
      }
    } catch (const Boom &) {
      isM(a, s, "an exception leaves the original");
    }
    gMayThrow = false;
    wholeM(a);
  }
  end_();
}
VF_ENTRY(maybe_assign) {
  begin_();
  {
    const MState s = anyMaybe(), t = anyMaybe();
    Maybe<O> a(make(s)), b(make(t));
    const int how = vf_pick("how", 0, 3); // from: another, by copy or move; itself, by copy or move
    bool threw = false;
    gMayThrow = true;
    try {
      if (how == 0) a = static_cast<const Maybe<O> &>(b);
      if (how == 1) a = std::move(b);
      Maybe<O> &self = a;
      if (how == 2) a = static_cast<const Maybe<O> &>(self);
      if (how == 3) a = std::move(self);
    } catch (const Boom &) {
      threw = true;
    }
    gMayThrow = false;
    if (threw) {
      isM(a, s, "an operation that throws leaves the value");
      if (how < 2) isM(b, t, "an operation that throws leaves the original");
    } else {
      isM(a, how < 2 ? t : s, "assignment gives the assigned contents");
      isM(b, MState{t.has, how == 1 ? uint64_t(O::kMoved) : t.v}, "only a move changes the original");
      if (how == 0 && t.has) vf_check(a->cell != b->cell, "a copy has an object of its own");
    }
  }
  end_();
}
VF_ENTRY(maybe_assign_value) {
  begin_();
  {
    const MState s = anyMaybe();
    const uint64_t v = vf_u64("new value");
    Maybe<O> a(make(s));
    O o(v);
    const int how = vf_pick("how", 0, 5);
    bool threw = false;
    gMayThrow = true;
    try {
      if (how == 0) a = static_cast<const O &>(o);
      if (how == 1) a = std::move(o);
      if (how == 2) a = Nothing;
      if (how == 3) a.reset();
      if (how == 4) a.init(static_cast<const O &>(o));
      if (how == 5) {
        if (!s.has) gMayThrow = false;
        else a = static_cast<const O &>(*a);
      }
    } catch (const Boom &) {
      threw = true;
    }
    gMayThrow = false;
    wholeM(a);
    if (threw) {
      if (how == 4) isM(a, MState{false, 0}, "an init that throws leaves nothing");
      else isM(a, s, "an operation that throws leaves the value");
      vf_check(*o.cell == v, "an operation that throws leaves the original");
    } else {
      isM(a, how == 5 ? s : how == 2 || how == 3 ? MState{false, 0} : MState{true, v}, "a Maybe holds exactly what was put into it");
      vf_check(*o.cell == (how == 1 ? uint64_t(O::kMoved) : v), "only a move changes the original");
    }
  }
  end_();
}
VF_ENTRY(maybe_access) {
  begin_();
  {
    const MState s = anyMaybe(), t = anyMaybe();
    Maybe<O> a(make(s)), b(make(t));
    const bool eq = a == b, ne = a != b;
    vf_check(eq == vand(s.has == t.has, vor(!s.has, s.v == t.v)), "two Maybes are equal exactly when they hold equal values or both nothing");
    vf_check(ne == !eq, "inequality is the negation of equality");
    isM(a, s);
    isM(b, t);
    if (s.has) {
      O &r = *a;
      *r.cell = 5;
      isM(a, MState{true, 5}, "access hands out the held object");
      O taken(*std::move(a));
      vf_check(*taken.cell == 5, "the held object can be moved out");
      isM(a, MState{true, O::kMoved}, "a moved-from Maybe holds the moved-from value");
    }
  }
  end_();
}

// ---- Variant ----
typedef Obj<1, true> A;
struct alignas(16) B : Obj<2, true> {
  uint64_t twice; // always the complement of the value
  explicit B(uint64_t v) : Obj<2, true>(v), twice(~v) {}
  B(const B &) = default;
  B(B &&o) noexcept : Obj<2, true>(std::move(o)), twice(o.twice) {}
  B &operator=(const B &) = default;
  B &operator=(B &&o) noexcept {
    Obj<2, true>::operator=(std::move(o));
    twice = o.twice;
    return *this;
  }
};
typedef uint64_t I;
typedef Variant<A, B, I> V;
struct VState {
  int alt;
  uint64_t v;
};
static VState anyVariant(const char *n) { return VState{vf_pick(n, 0, 2), vf_u64("value")}; }
static V makeV(const VState &s) {
  if (s.alt == 0) return V(A(s.v));
  if (s.alt == 1) return V(B(s.v));
  return V(I(s.v));
}
static void isV(V &x, const VState &s, const char *what) {
  vf_check(vand(x.is<A>() == (s.alt == 0), x.is<B>() == (s.alt == 1)), "a Variant reports exactly the alternative it holds");
  vf_check(x.is<I>() == (s.alt == 2), "a Variant reports exactly the alternative it holds");
  const V &c = x;
  if (s.alt == 0) {
    c.get<A>().check();
    vf_check(*x.get<A>().cell == s.v, what);
    vf_check(&c.get<A>() == &x.get<A>(), "both ways of access give the held object");
  } else if (s.alt == 1) {
    c.get<B>().check();
    vf_check(*x.get<B>().cell == s.v, what);
    if (s.v != A::kMoved) vf_check(c.get<B>().twice == ~s.v, what);
    vf_check(reinterpret_cast<uintptr_t>(&x.get<B>()) % alignof(B) == 0, "the held object is aligned");
  } else vf_check(vand(c.get<I>() == s.v, x.get<I>() == s.v), what);
}
static VState moved(const VState &s) { return s.alt == 2 ? s : VState{s.alt, A::kMoved}; }
static const char *const kHolds = "a Variant holds exactly what was put into it";
VF_ENTRY(variant_construct) {
  begin_();
  {
    const VState s = anyVariant("alternative");
    A a(s.v);
    B b(s.v);
    I i = s.v;
    const bool copies = vf_pick("copies", 0, 1) != 0;
    gMayThrow = true;
    try {
      if (s.alt == 0) {
        V x(copies ? V(static_cast<const A &>(a)) : V(std::move(a)));
        gMayThrow = false;
        isV(x, s, kHolds);
        A taken(std::move(x).get<A>());
        vf_check(*taken.cell == s.v, "the held object can be moved out");
        isV(x, moved(s), "a moved-from value is what is left");
      } else if (s.alt == 1) {
        V x(copies ? V(static_cast<const B &>(b)) : V(std::move(b)));
        gMayThrow = false;
        isV(x, s, kHolds);
      } else {
        V x(i);
        isV(x, s, kHolds);
      }
    } catch (const Boom &) {
    }
    gMayThrow = false;
    vf_check(gAlive == 2, "nothing is left of what was built");
  }
  end_();
}
VF_ENTRY(variant_copy_move) {
  begin_();
  {
    const VState s = anyVariant("alternative");
    V a(makeV(s));
    const bool moves = vf_pick("moves", 0, 1) != 0;
    gMayThrow = true;
    try {
      V b(moves ? V(std::move(a)) : V(static_cast<const V &>(a)));
      gMayThrow = false;
      isV(b, s, "a copy holds an equal value");
      isV(a, moves ? moved(s) : s, "only a move changes the original");
      if (s.alt == 0) {
        *b.get<A>().cell = 9;
        isV(a, moves ? moved(s) : s, "a copy is independent");
      }
    } catch (const Boom &) {
      isV(a, s, "an exception leaves the original");
    }
    gMayThrow = false;
  }
  end_();
}
VF_ENTRY(variant_assign) {
  begin_();
  {
    const VState s = anyVariant("alternative"), t = anyVariant("other alternative");
    V a(makeV(s)), b(makeV(t));
    const int how = vf_pick("how", 0, 3);
    bool threw = false;
    gMayThrow = true;
    V &self = a;
    try {
      if (how == 0) a = static_cast<const V &>(b);
      if (how == 1) a = std::move(b);
      if (how == 2) a = static_cast<const V &>(self);
      if (how == 3) a = std::move(self);
    } catch (const Boom &) {
      threw = true;
    }
    gMayThrow = false;
    if (threw) {
      isV(a, s, "an operation that throws leaves the value");
      isV(b, t, "an operation that throws leaves the original");
    } else {
      isV(a, how < 2 ? t : s, "assignment gives the assigned contents");
      isV(b, how == 1 ? moved(t) : t, "only a move changes the original");
    }
  }
  end_();
}
VF_ENTRY(variant_assign_value) {
  begin_();
  {
    const VState s = anyVariant("alternative"), t = anyVariant("other alternative");
    V x(makeV(s));
    A a(t.v);
    B b(t.v);
    I i = t.v;
    const bool copies = vf_pick("copies", 0, 1) != 0;
    bool threw = false;
    gMayThrow = true;
    try {
      if (t.alt == 0) { if (copies) x = static_cast<const A &>(a); else x = std::move(a); }
      if (t.alt == 1) { if (copies) x = static_cast<const B &>(b); else x = std::move(b); }
      if (t.alt == 2) { if (copies) x = static_cast<const I &>(i); else x = std::move(i); }
    } catch (const Boom &) {
      threw = true;
    }
    gMayThrow = false;
    if (threw) isV(x, s, "an operation that throws leaves the value");
    else isV(x, t, "assignment gives the assigned contents");
    const bool gone = !copies && !threw;
    vf_check(*a.cell == (gone && t.alt == 0 ? uint64_t(A::kMoved) : t.v), "only a move changes the original");
    vf_check(*b.cell == (gone && t.alt == 1 ? uint64_t(A::kMoved) : t.v), "only a move changes the original");
  }
  end_();
}
VF_ENTRY(variant_access) {
  begin_();
  {
    const VState s = anyVariant("alternative"), t = anyVariant("other alternative");
    V a(makeV(s)), b(makeV(t));
    const bool eq = a == b, ne = a != b;
    vf_check(eq == vand(s.alt == t.alt, s.v == t.v), "two Variants are equal exactly when they hold equal values of the same alternative");
    vf_check(ne == !eq, "inequality is the negation of equality");
    A oa(1);
    B ob(1);
    I oi = 1;
    const bool ma = a.match(oa), mb = a.match(ob), mi = a.match(oi);
    vf_check(vand(vand(ma == (s.alt == 0), mb == (s.alt == 1)), mi == (s.alt == 2)), "match succeeds exactly for the held alternative");
    vf_check(*oa.cell == (ma ? s.v : 1), "match gives the held value, and else changes nothing");
    vf_check(*ob.cell == (mb ? s.v : 1), "match gives the held value, and else changes nothing");
    vf_check(oi == (mi ? s.v : 1), "match gives the held value, and else changes nothing");
    isV(a, s, kHolds);
    isV(b, t, kHolds);
  }
  end_();
}

// ---- Any ----
static Any makeAny(const VState &s) { // alt 2: null
  if (s.alt == 0) return Any::of(A(s.v));
  if (s.alt == 1) return Any::of(B(s.v));
  return Any();
}
static void isAny(Any &x, const VState &s, const char *what) {
  vf_check(static_cast<bool>(x) == (s.alt != 2), "an Any reports whether it holds something");
  const Any &c = x;
  if (s.alt == 0) {
    c.get<A>().check();
    vf_check(*x.get<A>().cell == s.v, what);
    vf_check(&x.get<A>() == &c.get<A>(), "both ways of access give the held object");
  } else if (s.alt == 1) {
    c.get<B>().check();
    vf_check(*x.get<B>().cell == s.v, what);
  }
}
VF_ENTRY(any) {
  begin_();
  {
    const VState s = anyVariant("holds"), t = anyVariant("other holds"), none = {2, 0};
    Any a(makeAny(s)), b(makeAny(t));
    isAny(a, s, "an Any holds exactly what was put into it");
    const int how = vf_pick("how", 0, 3);
    if (how == 0) {
      a.reset();
      isAny(a, none, "a reset Any holds nothing");
      isAny(b, t, "other objects are not changed");
    } else if (how == 1) {
      Any c(std::move(a));
      isAny(c, s, "moving moves the held object");
      isAny(a, none, "a moved-from Any holds nothing");
    } else if (how == 2) {
      a = std::move(b);
      isAny(a, t, "moving moves the held object");
      isAny(b, none, "a moved-from Any holds nothing");
    } else {
      Any &self = a;
      a = std::move(self);
      isAny(a, s, "self-assignment keeps the held object");
      isAny(b, t, "other objects are not changed");
    }
  }
  end_();
}
VF_ENTRY(any_throws) {
  begin_();
  {
    const uint64_t v = vf_u64("value");
    A a(v);
    gMayThrow = true;
    bool threw = false;
    try {
      Any x = Any::of(static_cast<const A &>(a));
      gMayThrow = false;
      isAny(x, VState{0, v}, "an Any holds exactly what was put into it");
    } catch (const Boom &) {
      threw = true;
    }
    gMayThrow = false;
    vf_check(threw == gThrew, "an exception of the held type goes to the caller");
    vf_check(gAlive == 1, "nothing is left of what was built");
  }
  end_();
}
