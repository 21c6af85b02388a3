// C02 primitive shrinkers
#include "vf.h"
#include "rapidcheck.h"
//@ sources: src/gen/Numeric.cpp
using namespace rc;

// shrink::towards against its specification, element by element: the i-th
// element is value -/+ (|value-target| >> i), until that distance is zero.
template <typename T>
struct TwGhost {
  typedef typename std::make_unsigned<T>::type U;
  T v, t;
  U full, d, dp; // distance still to offer, distance of the previous element
  bool first;
};
template <typename T>
static bool twInv(void *p) {
  TwGhost<T> &g = *static_cast<TwGhost<T> *>(p);
  return vand(vimp(g.first, g.d == g.full), vimp(!g.first, vand(vand(g.dp != 0, g.dp <= g.full), g.d == static_cast<typename TwGhost<T>::U>(g.dp >> 1))));
}
template <typename T>
static void towards() {
  typedef typename std::make_unsigned<T>::type U;
  TwGhost<T> g;
  g.v = vf_any<T>("v");
  g.t = vf_any<T>("t");
  const T v = g.v, t = g.t;
  const bool down = t < v;
  g.full = down ? static_cast<U>(static_cast<U>(v) - static_cast<U>(t)) : static_cast<U>(static_cast<U>(t) - static_cast<U>(v));
  g.d = g.full;
  g.dp = 0;
  g.first = true;
  Seq<T> s = shrink::towards<T>(v, t);
  vf_invariant("ghost distances", &twInv<T>, &g);
  while (true) {
    Maybe<T> x = s.next();
    vf_check(static_cast<bool>(x) == (g.d != 0), "sequence ends exactly when the distance is used up (empty iff value == target)");
    if (!x) break;
    T e = *x;
    vf_check(e == static_cast<T>(down ? static_cast<U>(v) - g.d : static_cast<U>(v) + g.d), "element is the value moved by the halved distance");
    vf_check(vimp(g.first, e == t), "first element is the target");
    vf_check(e != v, "value itself never offered");
    vf_check(down ? vand(t <= e, e < v) : vand(e <= t, v < e), "element lies between target and value");
    T prev = static_cast<T>(down ? static_cast<U>(v) - g.dp : static_cast<U>(v) + g.dp);
    vf_check(vimp(!g.first, down ? prev < e : e < prev), "elements strictly approach the value");
    vf_check(vimp(!g.first, g.d < g.dp), "distance strictly decreases (termination)");
    g.dp = g.d;
    g.first = false;
    g.d = static_cast<U>(g.d >> 1);
    vf_reach("element");
  }
  vf_check(!s.next(), "exhausted sequence stays exhausted");
}
VF_ENTRY(towards_char) { towards<char>(); }
VF_ENTRY(towards_schar) { towards<signed char>(); }
VF_ENTRY(towards_uchar) { towards<unsigned char>(); }
VF_ENTRY(towards_short) { towards<short>(); }
VF_ENTRY(towards_ushort) { towards<unsigned short>(); }
VF_ENTRY(towards_int) { towards<int>(); }
VF_ENTRY(towards_uint) { towards<unsigned>(); }
VF_ENTRY(towards_long) { towards<long>(); }
VF_ENTRY(towards_ulong) { towards<unsigned long>(); }
VF_ENTRY(towards_longlong) { towards<long long>(); }
VF_ENTRY(towards_ulonglong) { towards<unsigned long long>(); }

// shrink::integral: 0 first, then (negative, representable) the negation, then
// the remaining elements of towards(value, 0).
template <typename T>
static void integral() {
  typedef typename std::make_unsigned<T>::type U;
  TwGhost<T> g;
  g.v = vf_any<T>("v");
  g.t = 0;
  const T v = g.v;
  const bool down = 0 < v;
  const bool neg = std::is_signed<T>::value & (v < 0) & (v != std::numeric_limits<T>::min());
  g.full = down ? static_cast<U>(v) : static_cast<U>(0 - static_cast<U>(v));
  g.d = g.full;
  g.dp = 0;
  g.first = true;
  Seq<T> s = shrink::integral<T>(v);
  Maybe<T> x0 = s.next();
  vf_check(static_cast<bool>(x0) == (v != 0), "offers nothing exactly for zero");
  if (!x0) {
    vf_check(!s.next(), "exhausted sequence stays exhausted");
    return;
  }
  vf_check(*x0 == 0, "offers zero first");
  if (neg) {
    Maybe<T> x1 = s.next();
    vf_check(static_cast<bool>(x1), "offers the negation of a negative value");
    if (!x1) return;
    vf_check(*x1 == static_cast<T>(0 - static_cast<U>(v)), "second element of a negative value is its negation");
    vf_check(*x1 > 0, "negation is positive");
  }
  g.dp = g.d;
  g.d = static_cast<U>(g.d >> 1);
  g.first = false;
  vf_invariant("ghost distances", &twInv<T>, &g);
  while (true) {
    Maybe<T> x = s.next();
    vf_check(static_cast<bool>(x) == (g.d != 0), "sequence ends exactly when the distance is used up");
    if (!x) break;
    T e = *x;
    vf_check(e == static_cast<T>(down ? static_cast<U>(v) - g.d : static_cast<U>(v) + g.d), "element is the value moved towards zero by the halved distance");
    vf_check(e != v, "value itself never offered");
    vf_check(down ? vand(0 < e, e < v) : vand(e < 0, v < e), "element has the sign of the value and smaller magnitude");
    g.dp = g.d;
    g.d = static_cast<U>(g.d >> 1);
    vf_reach("element");
  }
  vf_check(!s.next(), "exhausted sequence stays exhausted");
}
VF_ENTRY(integral_char) { integral<char>(); }
VF_ENTRY(integral_schar) { integral<signed char>(); }
VF_ENTRY(integral_uchar) { integral<unsigned char>(); }
VF_ENTRY(integral_short) { integral<short>(); }
VF_ENTRY(integral_ushort) { integral<unsigned short>(); }
VF_ENTRY(integral_int) { integral<int>(); }
VF_ENTRY(integral_uint) { integral<unsigned>(); }
VF_ENTRY(integral_long) { integral<long>(); }
VF_ENTRY(integral_ulong) { integral<unsigned long>(); }
VF_ENTRY(integral_longlong) { integral<long long>(); }
VF_ENTRY(integral_ulonglong) { integral<unsigned long long>(); }

VF_ENTRY(boolean) {
  bool v = vf_bool("v");
  Seq<bool> s = shrink::boolean(v);
  Maybe<bool> x = s.next();
  vf_check(static_cast<bool>(x) == v, "true offers one shrink, false none");
  if (x) {
    vf_check(!*x, "true shrinks to false");
    vf_check(!s.next(), "nothing else");
  }
}

// shrink::real
template <typename T>
static void real() {
  T v;
  if (sizeof(T) == 4) { uint32_t b = vf_any<uint32_t>("bits"); __builtin_memcpy(&v, &b, 4); }
  else { uint64_t b = vf_any<uint64_t>("bits"); __builtin_memcpy(&v, &b, 8); }
  vf_nocut();
  vf_unroll(8);
  Seq<T> s = shrink::real<T>(v);
  int n = 0;
  const T mag = v < 0 ? -v : v;
  while (true) {
    Maybe<T> x = s.next();
    if (!x) break;
    T e = *x;
    vf_check(!(e == v), "value itself never offered");
    vf_check(vor(v != v, (e < 0 ? -e : e) <= mag), "never a larger magnitude");
    vf_check(e == e, "never NaN");
    vf_check(vimp(n == 0, e == 0), "zero first");
    vf_check(vimp(vand(n == 1, v < 0), e == -v), "then the negation of a negative value");
    n++;
  }
  vf_check((n == 0) == !(v > 0 || v < 0), "offers nothing exactly for zero (and NaN)");
  vf_check(n <= 3, "at most three candidates");
}
VF_ENTRY(real_float) { real<float>(); }
VF_ENTRY(real_double) { real<double>(); }

// shrink::character
//@ assume: std::islower/std::tolower in the classic locale classify ASCII letters only
template <typename T> static bool islowerStub(T c, const std::locale &) { return vand(c >= 'a', c <= 'z'); }
template <typename T> static T tolowerStub(T c, const std::locale &) { return vand(c >= 'A', c <= 'Z') ? static_cast<T>(c + 32) : c; }
template <typename T>
static void character() {
  vf_contract("bool std::islower<char>(", reinterpret_cast<void *>(&islowerStub<char>), 0);
  vf_contract("bool std::islower<wchar_t>(", reinterpret_cast<void *>(&islowerStub<wchar_t>), 0);
  vf_contract("char std::tolower<char>(", reinterpret_cast<void *>(&tolowerStub<char>), 0);
  vf_contract("wchar_t std::tolower<wchar_t>(", reinterpret_cast<void *>(&tolowerStub<wchar_t>), 0);
  vf_nocut();
  vf_unroll(20);
  T v = vf_any<T>("v");
  vf_assume(v != 0);
  const bool upper = vand(v >= 'A', v <= 'Z'), lower = vand(v >= 'a', v <= 'z');
  static const char ladder[] = "abc?ABC123 \n";
  Seq<T> s = shrink::character<T>(v);
  int pos = 0;
  bool expectEnd = false;
  while (true) {
    Maybe<T> x = s.next();
    if (pos == 3 && lower) pos++; // no lower-case form to offer
    T want = 0;
    if (pos < 12) want = pos == 3 ? (upper ? static_cast<T>(v + 32) : v) : static_cast<T>(ladder[pos]);
    const bool more = pos < 12 && want != v;
    vf_check(static_cast<bool>(x) == more, "ladder abc, lower-case form, ABC123, blank, newline; stops at the value itself");
    if (!x) break;
    vf_check(*x != v, "value itself never offered");
    vf_check(*x != 0, "null character never offered");
    vf_check(*x == want, "element is the next simpler character of the ladder");
    pos++;
  }
}
VF_ENTRY(character_char) { character<char>(); }
VF_ENTRY(character_wchar) { character<wchar_t>(); }
