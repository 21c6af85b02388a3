// C06 decoders are total on arbitrary bytes
#include "vf_stream.h"
#include "rapidcheck.h"
#include "detail/StringSerialization.h"
#include "detail/Base64.h"
#include "detail/ParseException.h"
//@ sources: src/Random.cpp src/detail/Serialization.cpp src/detail/Results.cpp src/detail/StringSerialization.cpp src/detail/Base64.cpp src/detail/ParseException.cpp
//@ assume: C06 string_any, reproduce_any: std::string::push_back and std::vector::push_back append one element (libstdc++); the small contracts run the real ones
//@ assume: C06 random_any: Random::mash by its contract (four words, a function of the engine's state; the real code is under contract in C04)
using namespace rc;
using namespace rc::detail;
// An input of any length whose bytes are arbitrary: byte i is an uninterpreted
// function of i.
struct AnyG {
  uint64_t n, far; // far: the furthest position reached
  uint64_t produced; // position at which the last element was produced
};
static uint64_t left(void *p) { AnyG &g = *static_cast<AnyG *>(p); return g.n - g.far; }
static bool inside(void *p) { AnyG &g = *static_cast<AnyG *>(p); return g.far <= g.n; }
struct AnyIn {
  typedef std::forward_iterator_tag iterator_category;
  typedef uint8_t value_type; typedef std::ptrdiff_t difference_type; typedef const uint8_t *pointer; typedef uint8_t reference;
  AnyG *g;
  uint64_t pos;
  uint8_t operator*() const {
    vf_check(pos < g->n, "only bytes inside the input are read");
    return static_cast<uint8_t>(vf_uf("byte", 8, 1, pos));
  }
  AnyIn &operator++() {
    vf_check(pos < g->n, "the position never passes the end of the input");
    pos++;
    g->far = vf_ite(pos > g->far, pos, g->far);
    return *this;
  }
  AnyIn operator++(int) { AnyIn o(*this); ++*this; return o; }
  bool operator==(const AnyIn &o) const { return pos == o.pos; }
  bool operator!=(const AnyIn &o) const { return pos != o.pos; }
};
struct Any0 {
  AnyG g;
  Any0() : g{vf_u64("n"), 0, 0} {
    vf_assume(g.n < (uint64_t(1) << (vf_symbolic() ? 60 : 12)));
    vf_invariant("position", &inside, &g);
    vf_variant("the unread part of the input", &left, &g);
  }
  AnyIn begin() { return AnyIn{&g, 0}; }
  AnyIn end() { return AnyIn{&g, g.n}; }
  void ended(const AnyIn &i) {
    vf_check(vand(i.pos == g.far, i.pos <= g.n), "the returned position is inside the input, after the bytes that were read");
    vf_reach("a value is returned");
  }
};
#define TRY(x) try { x; } catch (const SerializationException &) { vf_reach("a serialization error is reported"); }
template <typename T>
static void fixedAny() {
  Any0 in;
  T out = T(3);
  TRY(in.ended(rc::detail::deserialize(in.begin(), in.end(), out)))
}
template <typename T>
static void compactAny() {
  Any0 in;
  T out = T(3);
  vf_cut_after(20);
  TRY(in.ended(deserializeCompact(in.begin(), in.end(), out)))
}
#define INT(T, N) VF_ENTRY(fixed_##N) { fixedAny<T>(); } VF_ENTRY(compact_##N) { compactAny<T>(); }
INT(char, char)
INT(signed char, schar)
INT(unsigned char, uchar)
INT(short, short)
INT(unsigned short, ushort)
INT(int, int)
INT(unsigned, uint)
INT(long, long)
INT(unsigned long, ulong)
INT(long long, longlong)
INT(unsigned long long, ulonglong)
INT(wchar_t, wchar)
INT(char16_t, char16)
template <typename T>
struct Sink { // every element costs at least one byte of input
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  AnyG *g;
  uint64_t i;
  struct Ref { AnyG *g; void operator=(const T &) const { vf_check(g->far > g->produced, "every element produced consumes input"); g->produced = g->far; } };
  Ref operator*() const { return Ref{g}; }
  Sink &operator++() { i++; return *this; }
  Sink operator++(int) { Sink o(*this); i++; return o; }
};
static bool prodInv(void *p) { AnyG &g = *static_cast<AnyG *>(p); return g.produced <= g.far; }
template <typename T>
static void rangeFixed() {
  Any0 in;
  const uint64_t n = vf_u64("elements");
  vf_invariant("produced", &prodInv, &in.g);
  TRY(in.ended(deserializeN<T>(in.begin(), in.end(), n, Sink<T>{&in.g, 0})))
}
template <typename T>
static AnyIn compactStub(AnyIn b, AnyIn e, T &out) { // contract: compact_*
  const uint64_t used = vf_u64("compact bytes");
  vf_assume(vand(used >= 1, used <= (sizeof(T) * 8 + 6) / 7));
  vf_check(vand(b.pos <= e.pos, e.pos == b.g->n), "an integer is read from the input");
  if (vf_bool("bad integer")) throw SerializationException("compact");
  vf_assume(e.pos - b.pos >= used);
  out = vf_any<T>("compact");
  b.pos += used;
  b.g->far = vf_ite(b.pos > b.g->far, b.pos, b.g->far);
  return b;
}
#define COMPACT(N, T) if (vf_symbolic()) vf_contract("AnyIn rc::detail::deserializeCompact<" N ", AnyIn>(", reinterpret_cast<void *>(&compactStub<T>), 0)
template <typename T>
static void rangeCompact(const char *name) {
  Any0 in;
  COMPACT("unsigned long", unsigned long);
  if (vf_symbolic()) vf_contract(name, reinterpret_cast<void *>(&compactStub<T>), 0);
  vf_invariant("produced", &prodInv, &in.g);
  TRY(auto r = deserializeCompact<T>(in.begin(), in.end(), Sink<T>{&in.g, 0}); in.ended(r.first))
}
VF_ENTRY(n_u8) { rangeFixed<uint8_t>(); }
VF_ENTRY(n_i32) { rangeFixed<int32_t>(); }
VF_ENTRY(n_u64) { rangeFixed<uint64_t>(); }
VF_ENTRY(range_u8) { rangeCompact<uint8_t>("AnyIn rc::detail::deserializeCompact<unsigned char, AnyIn>("); }
VF_ENTRY(range_i32) { rangeCompact<int32_t>("AnyIn rc::detail::deserializeCompact<int, AnyIn>("); }
VF_ENTRY(range_u64) { rangeCompact<uint64_t>("AnyIn rc::detail::deserializeCompact<unsigned long, AnyIn>("); }
// ---- strings ----
static AnyG *gIn;
static uint64_t gLen;
static void strPushStub(std::string *s, char c) {
  vf_check(s->_M_string_length == gLen, "characters are appended one by one");
  vf_check(gIn->far > 0 && static_cast<uint8_t>(c) == static_cast<uint8_t>(vf_uf("byte", 8, 1, vf_ite(gIn->far > gIn->produced, gIn->far - 1, gIn->far))) , "each character is a byte of the input");
  gLen++;
  s->_M_string_length = gLen;
}
static void strReserveStub(std::string *, size_t n) { vf_check(n <= gIn->n, "no more memory is requested than the input can justify"); }
VF_ENTRY(string_any) {
  Any0 in;
  std::string out("stale");
  COMPACT("unsigned long", unsigned long);
  gIn = &in.g;
  gLen = 0;
  in.g.produced = ~uint64_t(0); // the character is read before the position moves
  if (vf_symbolic()) {
    vf_contract("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::push_back(char)", reinterpret_cast<void *>(&strPushStub), 0);
    vf_contract("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::reserve(unsigned long)", reinterpret_cast<void *>(&strReserveStub), 0);
  }
  TRY(in.ended(deserialize(in.begin(), in.end(), out)); vf_check(out.size() < in.g.n, "the string is not longer than the input"))
}
VF_ENTRY(string_small) {
  vf_bounded("inputs of 0..8 bytes");
  vf_nocut();
  const int n = vf_pick("n", 0, 8);
  uint8_t *d = static_cast<uint8_t *>(vf_bytes("data", n));
  std::string out("stale");
  try {
    const uint8_t *e = deserialize(static_cast<const uint8_t *>(d), static_cast<const uint8_t *>(d) + n, out);
    vf_check(e > d && e <= d + n, "the returned position is inside the input");
    vf_check(out.size() <= static_cast<size_t>(n), "the string is part of the input");
    for (size_t i = 0; i < out.size(); i++) vf_check(static_cast<uint8_t>(out[i]) == e[static_cast<ptrdiff_t>(i) - static_cast<ptrdiff_t>(out.size())], "the string is part of the input");
    vf_reach("a value is returned");
  } catch (const SerializationException &) {
    vf_reach("a serialization error is reported");
  }
}
VF_ENTRY(pair_any) {
  Any0 in;
  std::pair<uint16_t, int32_t> out;
  TRY(in.ended(deserialize(in.begin(), in.end(), out)))
}
// ---- maps: keys may repeat, which is why the size of the map cannot bound the loop ----
struct AMap {
  typedef uint16_t key_type;
  typedef uint8_t mapped_type;
  uint64_t n, calls;
  AnyG *g;
  size_t size() const { return n; }
  void clear() { n = 0; }
  template <typename P>
  void insert(P &&p) {
    (void)p;
    vf_check(g->far > g->produced, "every entry consumes input");
    g->produced = g->far;
    n += vf_uf("is a new key", 1, 1, g->far);
  }
  template <typename P>
  void emplace(P &&p) { insert(std::forward<P>(p)); }
  template <typename K, typename V>
  void emplace(K &&k, V &&v) { insert(std::make_pair(k, v)); }
};
VF_ENTRY(map_any) {
  Any0 in;
  COMPACT("unsigned long", unsigned long);
  vf_invariant("produced", &prodInv, &in.g);
  AMap m{7, 0, &in.g};
  TRY(in.ended(deserializeMap(in.begin(), in.end(), m)))
}
// ---- random engines ----
static void mashStub(Random *r, Random::Block *out) {
  const uint64_t a = r->m_key[0], b = r->m_key[1], c = r->m_key[2], d = r->m_key[3];
  for (uint64_t i = 0; i < 4; i++) (*out)[i] = vf_uf("threefish", 64, 7, a, b, c, d, r->m_bits, r->m_counter, i);
}
static void validEngine(Random &r) { // what next() and split() rely on
  vf_check(r.m_bitsi <= 64, "the position in the path is inside the word");
  vf_check(r.m_bitsi == 64 || (r.m_bits >> (r.m_bitsi & 63)) == 0, "no path bits beyond the position");
  Random q(r);
  q.m_counter = (r.m_counter - 1) & ~uint64_t(3);
  Random::Block b;
  q.mash(b);
  for (int i = 0; i < 4; i++) vf_check(r.m_block[i] == static_cast<Random::Number>(vf_ite(r.m_counter == 0, 0, b[i])), "the current block is the block of the last number drawn");
}
VF_ENTRY(random_any) {
  Any0 in;
  vf_cut_after(20);
  if (vf_symbolic()) vf_contract("rc::Random::mash(", reinterpret_cast<void *>(&mashStub), 0);
  Random out(vf_u64("stale"));
  if (vf_bool("used engine")) out.next();
  TRY(in.ended(deserialize(in.begin(), in.end(), out)); validEngine(out))
}
// ---- reproduction records ----
static AnyIn engineStub(AnyIn b, AnyIn e, Random &out) { // contract: random_any
  const uint64_t used = vf_u64("engine bytes");
  vf_assume(vand(used >= 35, used <= 32 + 10 + 10 + 1));
  if (e.pos - b.pos < used || vf_bool("bad engine")) throw SerializationException("engine");
  out = Random(vf_u64("engine"));
  b.pos += used;
  b.g->far = vf_ite(b.pos > b.g->far, b.pos, b.g->far);
  return b;
}
static void pathPushStub(std::vector<size_t> *, const size_t *) {
  vf_check(gIn->far > gIn->produced, "every path element consumes input");
  gIn->produced = gIn->far;
  gLen++;
}
static void pathReserveStub(std::vector<size_t> *, size_t n) { vf_check(n <= gIn->n, "no more memory is requested than the input can justify"); }
VF_ENTRY(reproduce_any) {
  Any0 in;
  COMPACT("unsigned long", unsigned long);
  gIn = &in.g;
  gLen = 0;
  vf_invariant("produced", &prodInv, &in.g);
  if (vf_symbolic()) {
    vf_contract("AnyIn rc::deserialize<AnyIn>(AnyIn, AnyIn, rc::Random&", reinterpret_cast<void *>(&engineStub), 0);
    vf_contract("std::vector<unsigned long, std::allocator<unsigned long>>::push_back(", reinterpret_cast<void *>(&pathPushStub), 0);
    vf_contract("std::vector<unsigned long, std::allocator<unsigned long>>::reserve(", reinterpret_cast<void *>(&pathReserveStub), 0);
  }
  Reproduce out;
  TRY(in.ended(deserialize(in.begin(), in.end(), out)))
}
// ---- the reproduce string: decoding and parsing, the components by contract ----
static std::vector<uint8_t> *gBytes;
static std::vector<uint8_t> decodeStub(const std::string &) {
  if (vf_bool("bad Base64")) throw ParseException(3, "Base64");
  return *gBytes;
}
typedef std::vector<uint8_t>::const_iterator VIt;
static VIt recordStub(VIt b, VIt e, Reproduce &out) {
  const uint64_t used = vf_range("record bytes", 1, 3);
  if (static_cast<uint64_t>(e - b) < used || vf_bool("bad record")) throw SerializationException("record");
  out.size = vf_int("record size");
  return b + static_cast<ptrdiff_t>(used);
}
VF_ENTRY(reproduce_map_small) {
  vf_bounded("decoded data of 0..5 bytes, records of 1..3 bytes");
  vf_nocut();
  if (!vf_symbolic()) return;
  const int n = vf_pick("n", 0, 5);
  std::vector<uint8_t> data;
  for (int i = 0; i < n; i++) data.push_back(vf_any<uint8_t>("data"));
  gBytes = &data;
  vf_contract("rc::detail::base64Decode", reinterpret_cast<void *>(&decodeStub), 0);
  vf_contract("rc::detail::deserialize<__gnu_cxx::__normal_iterator<unsigned char const*, std::vector<unsigned char, std::allocator<unsigned char>>>>(__gnu_cxx::__normal_iterator<unsigned char const*, std::vector<unsigned char, std::allocator<unsigned char>>>, __gnu_cxx::__normal_iterator<unsigned char const*, std::vector<unsigned char, std::allocator<unsigned char>>>, rc::detail::Reproduce&", reinterpret_cast<void *>(&recordStub), 0);
  try {
    const auto m = stringToReproduceMap("text");
    vf_check(m.size() <= data.size(), "no more entries than bytes");
    vf_reach("a map is returned");
  } catch (const ParseException &) {
    vf_reach("a parse error is reported");
  }
}
// ---- Base64 texts of every length ----
static void bytePushStub(std::vector<uint8_t> *, const uint8_t *) { gLen++; }
static void byteReserveStub(std::vector<uint8_t> *, size_t n) { vf_check(n <= gIn->n, "no more memory is requested than the input can justify"); }
static std::string toStringStub(unsigned long) { return std::string(); }
//@ assume: C06 base64_any: the text of a parse error's message (std::to_string of the position) is unconstrained
VF_ENTRY(base64_any) {
  AnyG g{vf_u64("n"), 0, 0};
  vf_assume(g.n < (uint64_t(1) << (vf_symbolic() ? 36 : 16)));
  gIn = &g;
  gLen = 0;
  alignas(std::string) char storage[sizeof(std::string)];
  std::string &s = *new (storage) std::string();
  s._M_dataplus._M_p = static_cast<char *>(vf_bytes("text", g.n));
  s._M_string_length = g.n;
  s._M_allocated_capacity = g.n;
  if (vf_symbolic()) {
    vf_contract("std::vector<unsigned char, std::allocator<unsigned char>>::push_back(", reinterpret_cast<void *>(&bytePushStub), 0);
    vf_contract("std::vector<unsigned char, std::allocator<unsigned char>>::reserve(", reinterpret_cast<void *>(&byteReserveStub), 0);
    vf_contract("std::__cxx11::to_string(unsigned long)", reinterpret_cast<void *>(&toStringStub), 0);
  }
  try {
    base64Decode(s);
    vf_reach("a value is returned");
  } catch (const ParseException &e) {
    vf_check(e.position() <= g.n, "the reported position is inside the text");
    vf_reach("a parse error is reported");
  }
}
// ---- everything real on short texts ----
VF_ENTRY(reproduce_text_small) {
  vf_bounded("texts of 0..3 characters");
  vf_nocut();
  const int n = vf_pick("n", 0, 3);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back(vf_any<char>("c"));
  try {
    const auto m = stringToReproduceMap(s);
    vf_check(m.empty(), "no record fits in so few bytes");
    vf_reach("a map is returned");
  } catch (const ParseException &) {
    vf_reach("a parse error is reported");
  }
}
