// C01 scaleInteger: the real function against the contract its callers use
#include "vf.h"
#include "rapidcheck/gen/detail/ScaleInteger.h"
//@ sources: src/gen/detail/ScaleInteger.cpp
using rc::gen::detail::scaleInteger;
// exactly x*size/100 rounded to nearest, for every x, size by size; what the
// callers' contract (absscale.cpp) states follows from it and is asserted too
static void scaleExact(int lo, int hi) {
  const uint64_t x = vf_u64("x");
  const int size = vf_pick("size", lo, hi);
  const uint64_t r = scaleInteger(x, size);
  typedef unsigned __int128 W;
  const W exact = static_cast<W>(x) * static_cast<unsigned>(size);
  const W got = static_cast<W>(r) * 100;
  vf_check(vand(got + 50 >= exact, got <= exact + 50), "result is x*size/100 rounded to nearest");
  vf_check(r <= x, "result does not exceed x");
  vf_check(vimp(size == 0, r == 0), "size 0 gives 0");
  vf_check(vimp(size == 100, r == x), "nominal size gives x");
}
#define SCALE(lo, hi) VF_ENTRY(scale_exact_##lo) { scaleExact(lo, hi); }
SCALE(0, 12)
SCALE(13, 25)
SCALE(26, 38)
SCALE(39, 51)
SCALE(52, 64)
SCALE(65, 77)
SCALE(78, 90)
SCALE(91, 100)
VF_ENTRY(scale_above) {
  const uint64_t x = vf_u64("x");
  const int size = vf_int("size");
  vf_assume(size >= 100);
  vf_check(scaleInteger(x, size) == x, "sizes above the nominal size do not scale");
}
