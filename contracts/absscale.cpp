// Contract of scaleInteger used by its callers; the real function is verified
// against it in C01_scale.cpp.
#include "vf.h"
#include "rapidcheck/gen/detail/ScaleInteger.h"
namespace rc { namespace gen { namespace detail {
uint64_t scaleInteger(uint64_t x, int size) {
  vf_check(size >= 0, "scaleInteger is called with a size that is not negative");
  const uint64_t r = vf_uf("scale", 64, 2, x, static_cast<uint64_t>(static_cast<int64_t>(size)));
  vf_assume(vand(r <= x, vand(vimp(size <= 0, r == 0), vimp(size >= 100, r == x))));
  return r;
}
} } }
