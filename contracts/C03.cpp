// C03 bit streams and arbitrary integers
#include "vf_random.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/BitStream.h"
//@ sources: src/gen/Numeric.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
using rc::detail::BitStream;
// an arbitrary source of 64-bit words
struct Words {
  uint64_t id, pos;
  uint64_t next() { return vf_uf("word", 64, 2, id, pos++); }
};
static uint64_t word(uint64_t id, uint64_t i) { return vf_uf("word", 64, 2, id, i); }
static uint64_t low(uint64_t x, int n) { return n >= 64 ? x : (x & ((uint64_t(1) << n) - 1)); }
// n <= 64 bits of the concatenated words from bit position 64 * w + o
static uint64_t window(uint64_t id, uint64_t w, int o, int n) {
  const uint64_t a = word(id, w) >> o;
  if (o + n <= 64) return low(a, n);
  return low(a | (word(id, w + 1) << (64 - o)), n);
}
// an arbitrary stream state: `left` bits of the last word not delivered yet
template <typename S>
static bool holdsRest(const S &s, uint64_t last, int left) {
  return vand(s.m_numBits == left, vor(left == 0, low(s.m_bits, left) == (left == 0 ? 0 : last >> ((64 - left) & 63))));
}
template <typename T>
static T spec(uint64_t bits, int n) {
  if (std::is_signed<T>::value && n > 0 && ((bits >> (n - 1)) & 1)) bits |= n >= 64 ? 0 : ~uint64_t(0) << n;
  return static_cast<T>(bits);
}
template <typename T>
static void deliver(bool whole) {
  const int width = static_cast<int>(sizeof(T) * 8);
  Words src{vf_u64("id"), vf_u64("pos")};
  vf_assume(vand(src.pos > 0, src.pos < (uint64_t(1) << 60)));
  const uint64_t id = src.id, pos = src.pos;
  const int left = vf_range("left", 0, 64);
  BitStream<Words> s(src);
  s.m_numBits = left;
  s.m_bits = vf_u64("bits");
  vf_assume(holdsRest(s, word(id, pos - 1), left));
  const int ask = whole ? width : vf_int("nbits");
  vf_assume(ask >= 0);
  const int n = ask < width ? ask : width;
  const T v = whole ? s.template next<T>() : s.template next<T>(ask);
  const int o = 64 - left; // bit position of the stream: 64 * (pos - 1) + o
  vf_check(v == spec<T>(window(id, o == 64 ? pos : pos - 1, o == 64 ? 0 : o, n), n), "delivers exactly the next bits, in order, sign extended");
  const int newLeft = (left - n) & 63, total = left - n;
  const uint64_t words = total < 0 ? 1 : 0;
  vf_check(s.m_source.pos == pos + words, "takes a new source word exactly when the bits ran out");
  vf_check(holdsRest(s, word(id, pos + words - 1), total < 0 ? total + 64 : total), "the bits not delivered are kept, the others are gone");
  (void)newLeft;
}
template <>
void deliver<bool>(bool whole) {
  Words src{vf_u64("id"), vf_u64("pos")};
  vf_assume(vand(src.pos > 0, src.pos < (uint64_t(1) << 60)));
  const uint64_t id = src.id, pos = src.pos;
  const int left = vf_range("left", 0, 64);
  BitStream<Words> s(src);
  s.m_numBits = left;
  s.m_bits = vf_u64("bits");
  vf_assume(holdsRest(s, word(id, pos - 1), left));
  const bool v = whole ? s.next<bool>() : s.next<bool>(vf_int("nbits"));
  vf_check(v == (window(id, left ? pos - 1 : pos, left ? 64 - left : 0, 1) != 0), "a boolean is the next bit");
  vf_check(s.m_source.pos == pos + (left ? 0 : 1), "takes a new source word exactly when the bits ran out");
  vf_check(holdsRest(s, word(id, left ? pos - 1 : pos), left ? left - 1 : 63), "a boolean consumes one bit");
}
template <typename T>
static void integral() {
  const int width = static_cast<int>(sizeof(T) * 8);
  const Random r = vr_any("random");
  const Random r0 = r;
  const int size = vf_int("size");
  vf_assume(vand(size >= 0, size <= 1000000));
  const Gen<T> g = gen::arbitrary<T>();
  const Shrinkable<T> s = g(r, size);
  vf_check(r == r0, "the caller's engine is untouched");
  const int n0 = static_cast<int>((static_cast<int64_t>(size) * width + 50) / 100);
  const int n = n0 < width ? n0 : width;
  const T v = s.value();
  vf_check(v == spec<T>(low(Random(r).next(), n), n), "the value is the first round(size*bits/100) bits of the engine's first number");
  if (n < width) {
    const bool neg = v < 0;
    const uint64_t mag = static_cast<uint64_t>(static_cast<int64_t>(neg ? ~v : v));
    vf_check(vimp(n == 0, v == 0), "size 0 gives 0");
    vf_check((std::is_signed<T>::value ? (n == 0 ? mag : (mag >> (n - 1))) : (mag >> n)) == 0, "the value fits in round(size*bits/100) bits");
  }
}
#define INT(n, T) VF_ENTRY(next_##n) { deliver<T>(false); } VF_ENTRY(next_all_##n) { deliver<T>(true); } VF_ENTRY(arbitrary_##n) { integral<T>(); }
INT(char, char)
INT(schar, signed char)
INT(uchar, unsigned char)
INT(short, short)
INT(ushort, unsigned short)
INT(int, int)
INT(uint, unsigned)
INT(long, long)
INT(ulong, unsigned long)
INT(longlong, long long)
INT(ulonglong, unsigned long long)
VF_ENTRY(next_bool) { deliver<bool>(vf_bool("whole")); }
VF_ENTRY(fresh_stream) {
  Words src{vf_u64("id"), vf_u64("pos")};
  auto a = rc::detail::bitStreamOf(static_cast<const Words &>(src));
  vf_check(holdsRest(a, 0, 0), "a new stream holds no bits");
  vf_check(a.m_source.pos == src.pos, "a new stream has read no word");
  const uint64_t p = src.pos;
  a.next<int>();
  vf_check(src.pos == p, "a stream of a constant source works on a copy");
  auto b = rc::detail::bitStreamOf(src);
  b.next<int>();
  vf_check(src.pos == p + 1, "a stream of a mutable source advances it");
}
VF_ENTRY(arbitrary_bool) {
  const Random r = vr_any("random");
  const int size = vf_int("size");
  auto s = gen::arbitrary<bool>()(r, size);
  vf_check(s.value() == ((Random(r).next() & 1) != 0), "a boolean is the first bit of the engine's first number");
}
template <typename T>
static void real() {
  const Random r = vr_any("random");
  const int size = vf_int("size");
  vf_assume(vand(size >= 0, size <= 1000000));
  auto s = gen::arbitrary<T>()(r, size);
  const T v = s.value();
  vf_check(vand(v >= -std::numeric_limits<T>::max(), v <= std::numeric_limits<T>::max()), "an arbitrary floating point value is finite");
}
VF_ENTRY(arbitrary_float) { real<float>(); }
VF_ENTRY(arbitrary_double) { real<double>(); }
