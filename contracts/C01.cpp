// C01 gen::inRange
#include "vf_random.h"
#include "rapidcheck.h"
//@ sources: src/gen/Numeric.cpp src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
//@ replace: src/gen/detail/ScaleInteger.cpp absscale.cpp
//@ assume: std::to_string returns some string (only used in the message of a generation failure)
using namespace rc;
static std::string toStringStub(uint64_t) { return std::string("n"); }
#define NO_TO_STRING() vf_contract("std::__cxx11::to_string(", reinterpret_cast<void *>(&toStringStub), 0)

// every shrink of a value x drawn from [min, max) lies in [min, x), first one is min
template <typename T>
static void checkShrinks(Seq<Shrinkable<T>> &s, T min, T x, bool deeper) {
  bool first = true;
  while (true) {
    auto n = s.next();
    if (!n) break;
    const T e = n->value();
    vf_check(vand(min <= e, e < x), "every shrink lies in [min, value)");
    vf_check(vimp(first, e == min), "the first shrink is min");
    vf_check(vor(x != min, false), "min itself has no shrinks");
    if (deeper && vf_bool("descend")) { // an arbitrary shrink's own shrinks
      auto s2 = n->shrinks();
      checkShrinks<T>(s2, min, e, false);
      return;
    }
    first = false;
    vf_reach("shrink");
  }
  vf_check(vimp(first, x == min), "a value above min has a shrink");
}
template <typename T>
static void inRange() {
  NO_TO_STRING();
  const T min = vf_any<T>("min"), max = vf_any<T>("max");
  const int size = vf_int("size");
  vf_assume(size >= 0);
  const Random r = vr_any("random");
  const Random r0 = r;
  Gen<T> g = gen::inRange<T>(min, max);
  Shrinkable<T> s = g(r, size);
  vf_check(r == r0, "the caller's engine is untouched");
  if (max <= min) {
    bool failed = false;
    try { s.value(); } catch (const GenerationFailure &) { failed = true; }
    vf_check(failed, "an empty range is a generation failure");
    vf_check(!s.shrinks().next(), "a failed generation has no shrinks");
    return;
  }
  const T v = s.value();
  vf_check(vand(min <= v, v < max), "value lies in [min, max)");
  vf_check(vimp(size == 0, v == min), "size 0 gives min");
  auto seq = s.shrinks();
  checkShrinks<T>(seq, min, v, true);
}
// every value of the range is possible at the nominal size
template <typename T>
static void reachable() {
  NO_TO_STRING();
  const T min = vf_any<T>("min"), max = vf_any<T>("max"), want = vf_any<T>("want");
  vf_assume(vand(min <= want, want < max));
  const int size = vf_int("size");
  vf_assume(size >= 100);
  const Random r = vr_any("random");
  vf_assume(Random(r).next() == static_cast<uint64_t>(want) - static_cast<uint64_t>(min));
  vf_check(gen::inRange<T>(min, max)(r, size).value() == want, "every value of the range has a random number that gives it at the nominal size");
}
#define BOTH(n, T) VF_ENTRY(inrange_##n) { inRange<T>(); } VF_ENTRY(reachable_##n) { reachable<T>(); }
BOTH(char, char)
BOTH(schar, signed char)
BOTH(uchar, unsigned char)
BOTH(short, short)
BOTH(ushort, unsigned short)
BOTH(int, int)
BOTH(uint, unsigned)
BOTH(long, long)
BOTH(ulong, unsigned long)
BOTH(longlong, long long)
BOTH(ulonglong, unsigned long long)
