// C05 serialization round-trips and consumes exactly what it wrote
#include "vf_stream.h"
#include "rapidcheck.h"
#include "detail/StringSerialization.h"
#include "detail/Base64.h"
//@ sources: src/Random.cpp src/detail/Serialization.cpp src/detail/Results.cpp src/detail/StringSerialization.cpp src/detail/Base64.cpp src/detail/ParseException.cpp
using namespace rc;
using namespace rc::detail;

// ---- one integer ----
template <typename T>
static void fixedInt() {
  typedef typename std::make_unsigned<T>::type U;
  const T v = vf_any<T>("v");
  uint8_t buf[sizeof(T) + 1];
  buf[sizeof(T)] = vf_any<uint8_t>("trailing");
  uint8_t *e = rc::detail::serialize(v, &buf[0]);
  vf_check(e == buf + sizeof(T), "a fixed-width integer occupies exactly its width");
  for (size_t i = 0; i < sizeof(T); i++) vf_check(buf[i] == static_cast<uint8_t>(static_cast<U>(v) >> (8 * i)), "the bytes are the little-endian bytes of the value");
  T out = vf_any<T>("stale");
  const bool more = vf_bool("more");
  uint8_t *r = rc::detail::deserialize(&buf[0], buf + sizeof(T) + (more ? 1 : 0), out);
  vf_check(out == v, "deserializing gives the value back");
  vf_check(r == e, "exactly the written bytes are consumed");
}
template <typename T>
static void compactInt() {
  typedef typename std::make_unsigned<T>::type U;
  const T v = vf_any<T>("v");
  uint8_t buf[12];
  for (auto &b : buf) b = vf_any<uint8_t>("trailing");
  uint8_t *e = serializeCompact(v, &buf[0]);
  const size_t n = e - buf;
  uint64_t rem = static_cast<U>(v);
  size_t i = 0;
  for (bool more = true; more; i++) {
    vf_check(i < n && buf[i] == vs_group(rem), "each byte holds the next seven bits and whether more follow");
    rem >>= 7;
    more = rem != 0;
  }
  vf_check(n == i, "the number of groups is minimal");
  T out = vf_any<T>("stale");
  const bool more = vf_bool("more");
  uint8_t *r = deserializeCompact(&buf[0], more ? buf + 12 : e, out);
  vf_check(out == v, "deserializing gives the value back");
  vf_check(r == e, "exactly the written bytes are consumed");
}
#define INT(T, N) VF_ENTRY(fixed_##N) { fixedInt<T>(); } VF_ENTRY(compact_##N) { compactInt<T>(); }
INT(char, char)
INT(signed char, schar)
INT(unsigned char, uchar)
INT(short, short)
INT(unsigned short, ushort)
INT(int, int)
INT(unsigned, uint)
INT(long, long)
INT(unsigned long, ulong)
INT(long long, longlong)
INT(unsigned long long, ulonglong)
INT(wchar_t, wchar)
INT(char16_t, char16)

// ---- n elements, for every n: the i-th element is an uninterpreted function of i ----
template <typename T>
struct Elem { static T at(uint64_t i) { return static_cast<T>(vf_uf("element", sizeof(T) * 8, 1, i)); } };
struct FixedG { // n fixed-width integers of w bytes
  uint64_t pos, n, i, k, w;
  uint8_t cur() { return static_cast<uint8_t>(vf_uf("element", static_cast<int>(w * 8), 1, i) >> (8 * k)); }
  void step() { k++; if (k == w) { k = 0; i++; } }
  bool done() { return i == n; }
};
static bool fixedInv(void *p) { FixedG &g = *static_cast<FixedG *>(p); return vand(vand(g.i <= g.n, g.k == 0), g.pos == g.i * g.w); }
template <typename T>
struct UfIn {
  typedef std::forward_iterator_tag iterator_category;
  typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T *pointer; typedef T reference;
  uint64_t i;
  T operator*() const { return Elem<T>::at(i); }
  UfIn &operator++() { i++; return *this; }
  UfIn operator++(int) { UfIn o(*this); i++; return o; }
  bool operator==(const UfIn &o) const { return i == o.i; }
  bool operator!=(const UfIn &o) const { return i != o.i; }
  friend std::ptrdiff_t operator-(const UfIn &a, const UfIn &b) { return static_cast<std::ptrdiff_t>(a.i - b.i); }
};
template <typename T>
struct UfRandom : UfIn<T> { // for std::distance
  typedef std::random_access_iterator_tag iterator_category;
  UfRandom &operator++() { this->i++; return *this; }
  UfRandom operator++(int) { UfRandom o(*this); this->i++; return o; }
};
template <typename T>
struct Check { // output iterator of decoded elements
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  uint64_t i;
  struct Ref { uint64_t i; void operator=(const T &v) const { vf_check(v == Elem<T>::at(i), "each decoded element is the element that was written"); } };
  Ref operator*() const { return Ref{i}; }
  Check &operator++() { i++; return *this; }
  Check operator++(int) { Check o(*this); i++; return o; }
};
template <typename T>
static void nFixed(bool write) {
  FixedG g{0, vf_u64("n"), 0, 0, sizeof(T)};
  vf_assume(g.n < (uint64_t(1) << 48));
  vf_invariant("position", &fixedInv, &g);
  if (write) {
    const auto e = serializeN(UfIn<T>{0}, g.n, OutIt<FixedG>{&g, 0});
    vf_check(g.done(), "every element is written");
    vf_check(e.pos == g.pos, "the returned position is after the last byte");
  } else {
    const auto e = deserializeN<T>(InIt<FixedG>{&g, 0, false}, InIt<FixedG>{&g, 0, true}, g.n, Check<T>{0});
    vf_check(g.done(), "every element is read");
    vf_check(e.pos == g.pos, "exactly the written bytes are consumed");
  }
}
VF_ENTRY(serializeN_u8) { nFixed<uint8_t>(true); }
VF_ENTRY(serializeN_u32) { nFixed<uint32_t>(true); }
VF_ENTRY(serializeN_i64) { nFixed<int64_t>(true); }
VF_ENTRY(deserializeN_u8) { nFixed<uint8_t>(false); }
VF_ENTRY(deserializeN_u32) { nFixed<uint32_t>(false); }
VF_ENTRY(deserializeN_i64) { nFixed<int64_t>(false); }

struct CompactG { // the number of elements, then each element, in 7-bit groups
  uint64_t pos, n, i, rem; // i == 0: the length, i == k + 1: element k
  int bits;
  uint8_t cur() { return vs_group(rem); }
  void step() {
    rem >>= 7;
    if (rem == 0) {
      rem = vf_uf("element", bits, 1, i);
      i++;
    }
  }
  bool done() { return i == n + 1; }
};
static bool compactInv(void *p) {
  CompactG &g = *static_cast<CompactG *>(p);
  return vand(vand(g.i >= 1, g.i <= g.n + 1), g.rem == vf_uf("element", g.bits, 1, g.i - 1));
}
template <typename T>
static void rangeCompact(bool write) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 48));
  CompactG g{0, n, 0, n, sizeof(T) * 8};
  vf_cut_after(12); // the groups of one integer are enumerated, the elements are not
  vf_invariant("position", &compactInv, &g);
  if (write) {
    UfRandom<T> b, e;
    b.i = 0;
    e.i = n;
    const auto o = serializeCompact(b, e, OutIt<CompactG>{&g, 0});
    vf_check(g.done(), "every element is written");
    vf_check(o.pos == g.pos, "the returned position is after the last byte");
  } else {
    const auto r = deserializeCompact<T>(InIt<CompactG>{&g, 0, false}, InIt<CompactG>{&g, 0, true}, Check<T>{0});
    vf_check(g.done(), "every element is read");
    vf_check(r.first.pos == g.pos, "exactly the written bytes are consumed");
    vf_check(r.second.i == n, "as many elements are produced as were written");
  }
}
VF_ENTRY(write_range_u8) { rangeCompact<uint8_t>(true); }
VF_ENTRY(write_range_u32) { rangeCompact<uint32_t>(true); }

VF_ENTRY(read_range_u8) { rangeCompact<uint8_t>(false); }
VF_ENTRY(read_range_u32) { rangeCompact<uint32_t>(false); }
// 64-bit elements: the callee, one compact integer, by its contract (proved by
// compact_ulong): it is one item of the stream
struct ItemG {
  uint64_t pos, n, i;
  uint64_t val() { return i == 0 ? n : vf_uf("element", 64, 1, i - 1); }
  uint8_t cur() { return 0; }
  void step() { i++; }
  bool done() { return i == n + 1; }
};
static bool itemInv(void *p) { ItemG &g = *static_cast<ItemG *>(p); return vand(vand(g.i >= 1, g.i <= g.n + 1), g.pos == g.i); }
static OutIt<ItemG> writeItemStub(uint64_t v, OutIt<ItemG> o) {
  vf_check(!o.g->done(), "nothing is written after the last element");
  vf_check(v == o.g->val(), "the length and then each element is written");
  *o = 0;
  ++o;
  return o;
}
static InIt<ItemG> readItemStub(InIt<ItemG> b, InIt<ItemG>, uint64_t &out) {
  vf_check(!b.isEnd && b.pos == b.g->pos && !b.g->done(), "only what was written is read");
  out = b.g->val();
  return ++b;
}
VF_ENTRY(write_range_u64) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 48 : 12)));
  UfRandom<uint64_t> b, e;
  b.i = 0;
  e.i = n;
  if (!vf_symbolic()) {
    std::vector<uint8_t> data;
    serializeCompact(b, e, std::back_inserter(data));
    std::vector<uint64_t> out;
    auto r = deserializeCompact<uint64_t>(data.begin(), data.end(), std::back_inserter(out));
    vf_check(out.size() == n && r.first == data.end(), "a range round-trips");
    for (uint64_t i = 0; i < n; i++) vf_check(out[i] == Elem<uint64_t>::at(i), "a range round-trips");
    return;
  }
  ItemG g{0, n, 0};
  vf_contract("OutIt<ItemG> rc::detail::serializeCompact<unsigned long, OutIt<ItemG>>(", reinterpret_cast<void *>(&writeItemStub), 0);
  vf_invariant("position", &itemInv, &g);
  const auto o = serializeCompact(b, e, OutIt<ItemG>{&g, 0});
  vf_check(g.done(), "every element is written");
  vf_check(o.pos == g.pos, "the returned position is after the last byte");
}
VF_ENTRY(read_range_u64) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 48));
  if (!vf_symbolic()) return;
  ItemG g{0, n, 0};
  vf_contract("InIt<ItemG> rc::detail::deserializeCompact<unsigned long, InIt<ItemG>>(", reinterpret_cast<void *>(&readItemStub), 0);
  vf_invariant("position", &itemInv, &g);
  const auto r = deserializeCompact<uint64_t>(InIt<ItemG>{&g, 0, false}, InIt<ItemG>{&g, 0, true}, Check<uint64_t>{0});
  vf_check(g.done(), "every element is read");
  vf_check(r.first.pos == g.pos, "exactly the written bytes are consumed");
  vf_check(r.second.i == n, "as many elements are produced as were written");
}

// ---- strings of every length ----
struct StringG { // length in 7-bit groups, then the characters
  uint64_t pos, n, i, rem; // i == 0: the length, i == k + 1: character k
  const char *chars;
  uint8_t cur() { return i == 0 ? vs_group(rem) : static_cast<uint8_t>(chars[i - 1]); }
  void step() {
    if (i == 0) {
      rem >>= 7;
      if (rem == 0) i = 1;
    } else {
      i++;
    }
  }
  bool done() { return i == n + 1; }
};
static bool stringInv(void *p) { StringG &g = *static_cast<StringG *>(p); return vand(g.i >= 1, g.i <= g.n + 1); }
struct RawString { // a string whose characters are an arbitrary byte buffer; never destroyed
  alignas(std::string) char storage[sizeof(std::string)];
  std::string &get() { return *reinterpret_cast<std::string *>(storage); }
  const char *init(uint64_t n) {
    char *p = static_cast<char *>(vf_bytes("chars", n + 1));
    new (storage) std::string();
    get()._M_dataplus._M_p = p;
    get()._M_string_length = n;
    get()._M_allocated_capacity = n;
    return p;
  }
};
VF_ENTRY(write_string) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 36));
  RawString s;
  StringG g{0, n, 0, n, nullptr};
  g.chars = s.init(n);
  vf_cut_after(12);
  vf_invariant("position", &stringInv, &g);
  const auto o = serialize(s.get(), OutIt<StringG>{&g, 0});
  vf_check(g.done(), "every character is written");
  vf_check(o.pos == g.pos, "the returned position is after the last byte");
}
// std::string::push_back by its contract: the length grows by one, the
// character added is the next one of the original
static StringG *gString;
static uint64_t gAppended;
static void stringPushStub(std::string *s, char c) {
  vf_check(s->_M_string_length == gAppended && gAppended < gString->n, "no more characters than the length says");
  vf_check(c == gString->chars[gAppended], "each decoded character is the character that was written");
  gAppended++;
  s->_M_string_length = gAppended;
}
static bool readStringInv(void *p) {
  StringG &g = *static_cast<StringG *>(p);
  return vand(vand(g.i >= 1, g.i <= g.n + 1), gAppended == g.i - 1);
}
VF_ENTRY(read_string) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 36));
  StringG g{0, n, 0, n, static_cast<const char *>(vf_bytes("chars", n))};
  std::string out("stale");
  vf_cut_after(12);
  if (vf_symbolic()) vf_contract("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::push_back(char)", reinterpret_cast<void *>(&stringPushStub), 0);
  gString = &g;
  gAppended = 0;
  vf_invariant("position", &readStringInv, &g);
  const auto e = deserialize(InIt<StringG>{&g, 0, false}, InIt<StringG>{&g, 0, true}, out);
  vf_check(g.done(), "every character is read");
  vf_check(e.pos == g.pos, "exactly the written bytes are consumed");
  vf_check(out.size() == n, "the decoded string has the original length");
  if (!vf_symbolic()) vf_check(out == std::string(g.chars, n), "the decoded string is the original");
}
//@ assume: C05 read_string, Reproduce: std::string::push_back and std::vector::push_back append exactly the given element (libstdc++); the small-size contracts run the real ones
// the same with the real string operations, lengths 0 to 20
VF_ENTRY(string_small) {
  vf_bounded("string lengths 0..20");
  const int n = vf_pick("n", 0, 20);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back(vf_any<char>("c"));
  std::vector<uint8_t> data;
  serialize(s, std::back_inserter(data));
  vf_check(data.size() == static_cast<size_t>(n) + 1, "one length byte and the characters");
  data.push_back(vf_any<uint8_t>("trailing"));
  std::string out("stale");
  const auto e = deserialize(data.begin(), data.end(), out);
  vf_check(out == s, "the decoded string is the original");
  vf_check(e + 1 == data.end(), "exactly the written bytes are consumed");
}
VF_ENTRY(pair) {
  const std::pair<uint16_t, int32_t> v(vf_any<uint16_t>("a"), vf_any<int32_t>("b"));
  uint8_t buf[7];
  buf[6] = vf_any<uint8_t>("trailing");
  uint8_t *e = serialize(v, &buf[0]);
  vf_check(e == buf + 6, "a pair is its components in order");
  std::pair<uint16_t, int32_t> out;
  uint8_t *r = deserialize(&buf[0], buf + 7, out);
  vf_check(out == v && r == e, "a pair round-trips");
}

// ---- maps of every size: the i-th entry is an uninterpreted function of i ----
struct AMap {
  typedef uint16_t key_type;
  typedef uint8_t mapped_type;
  typedef std::pair<const uint16_t, uint8_t> value_type;
  uint64_t n;
  static uint16_t key(uint64_t i) { return static_cast<uint16_t>(vf_uf("key", 16, 1, i)); }
  static uint8_t val(uint64_t i) { return static_cast<uint8_t>(vf_uf("mapped", 8, 1, i)); }
  struct It {
    uint64_t i;
    value_type operator*() const { return value_type(key(i), val(i)); }
    It &operator++() { i++; return *this; }
    bool operator!=(const It &o) const { return i != o.i; }
    bool operator==(const It &o) const { return i == o.i; }
  };
  It begin() const { return It{0}; }
  It end() const { return It{n}; }
  size_t size() const { return n; }
  void clear() { n = 0; }
  template <typename P>
  void insert(P &&p) {
    vf_check(p.first == key(n) && p.second == val(n), "each decoded entry is the entry that was written");
    n++;
  }
  template <typename P>
  void emplace(P &&p) { insert(std::forward<P>(p)); }
  template <typename K, typename V>
  void emplace(K &&k, V &&v) { insert(std::make_pair(k, v)); }
};
struct MapG {
  uint64_t pos, n, i, rem, k;
  uint8_t cur() {
    if (i == 0) return vs_group(rem);
    return k == 0 ? static_cast<uint8_t>(AMap::key(i - 1)) : k == 1 ? static_cast<uint8_t>(AMap::key(i - 1) >> 8) : AMap::val(i - 1);
  }
  void step() {
    if (i == 0) {
      rem >>= 7;
      if (rem == 0) i = 1;
    } else if (++k == 3) {
      k = 0;
      i++;
    }
  }
  bool done() { return i == n + 1; }
};
static bool mapInv(void *p) { MapG &g = *static_cast<MapG *>(p); return vand(vand(g.i >= 1, g.i <= g.n + 1), g.k == 0); }
VF_ENTRY(write_map) {
  const AMap m{vf_u64("n")};
  vf_assume(m.n < (uint64_t(1) << 48));
  MapG g{0, m.n, 0, m.n, 0};
  vf_cut_after(12);
  vf_invariant("position", &mapInv, &g);
  const auto o = serializeMap(m, OutIt<MapG>{&g, 0});
  vf_check(g.done(), "every entry is written");
  vf_check(o.pos == g.pos, "the returned position is after the last byte");
}
VF_ENTRY(read_map) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 48));
  MapG g{0, n, 0, n, 0};
  AMap m{7};
  vf_cut_after(12);
  vf_invariant("position", &mapInv, &g);
  const auto e = deserializeMap(InIt<MapG>{&g, 0, false}, InIt<MapG>{&g, 0, true}, m);
  vf_check(g.done(), "every entry is read");
  vf_check(m.n == n, "as many entries are produced as were written");
  vf_check(e.pos == g.pos, "exactly the written bytes are consumed");
}
VF_ENTRY(unordered_map_small) {
  vf_bounded("0..2 entries with keys of 0..2 characters");
  const int n = vf_pick("n", 0, 2);
  std::unordered_map<std::string, uint32_t> m;
  for (int i = 0; i < n; i++) {
    std::string key;
    for (int j = vf_pick("keylen", 0, 2); j > 0; j--) key.push_back(vf_any<char>("c"));
    m[key] = vf_any<uint32_t>("value");
  }
  std::vector<uint8_t> data;
  serialize(m, std::back_inserter(data));
  const size_t used = data.size();
  data.push_back(vf_any<uint8_t>("trailing"));
  std::unordered_map<std::string, uint32_t> out;
  out["stale"] = 1;
  const auto e = deserialize(data.begin(), data.end(), out);
  vf_check(out == m, "the decoded map is the original");
  vf_check(static_cast<size_t>(e - data.begin()) == used, "exactly the written bytes are consumed");
}

// ---- random engines ----
// mash by its contract (proved in C04): four words, a function of key, path and counter
static void mashStub(Random *r, Random::Block *out) {
  const uint64_t a = r->m_key[0], b = r->m_key[1], c = r->m_key[2], d = r->m_key[3];
  for (uint64_t i = 0; i < 4; i++) (*out)[i] = vf_uf("threefish", 64, 7, a, b, c, d, r->m_bits, r->m_counter, i);
}
static Random anyEngine() { // any engine that next() and split() can produce
  Random r(Random::Key{{vf_u64("key"), vf_u64("key"), vf_u64("key"), vf_u64("key")}});
  r.m_bits = vf_u64("bits");
  r.m_counter = vf_u64("counter");
  r.m_bitsi = static_cast<uint8_t>(vf_range("bitsi", 0, 64));
  vf_assume(vor(r.m_bitsi == 64, (r.m_bits >> (r.m_bitsi & 63)) == 0));
  if (r.m_counter != 0) { // the block of the last number drawn
    Random q(r);
    q.m_counter = (r.m_counter - 1) & ~uint64_t(3);
    q.mash(r.m_block);
  }
  return r;
}
VF_ENTRY(random_engine) {
  vf_nocut();
  if (vf_symbolic()) vf_contract("rc::Random::mash(", reinterpret_cast<void *>(&mashStub), 0);
  const Random r = anyEngine();
  uint8_t buf[56];
  for (auto &b : buf) b = 0;
  uint8_t *e = serialize(r, &buf[0]);
  const bool more = vf_bool("more");
  if (more) *e = vf_any<uint8_t>("trailing");
  Random out(vf_u64("stale"));
  uint8_t *p = deserialize(&buf[0], more ? buf + 56 : e, out);
  vf_check(p == e, "exactly the written bytes are consumed");
  vf_check(vand(vand(out.m_bits == r.m_bits, out.m_counter == r.m_counter), out.m_bitsi == r.m_bitsi), "path and counter are restored");
  for (int i = 0; i < 4; i++) vf_check(out.m_key[i] == r.m_key[i], "the key is restored");
  for (int i = 0; i < 4; i++) vf_check(out.m_block[i] == r.m_block[i], "the engine continues in the middle of the same block");
  vf_check(out == r, "the decoded engine equals the original");
}

// ---- reproduction records: the engine is one abstract item of the stream ----
struct ReproG {
  uint64_t pos, n, i, k; // i == 0: engine, 1: size, 2: length, 3 + j: path element j
  uint32_t size;
  uint64_t val() { return i == 2 ? n : elem(i - 3); }
  static const size_t *path; // the elements, or null: uninterpreted
  static uint64_t elem(uint64_t j) { return path ? path[j] : vf_uf("path element", 64, 1, j); }
  uint8_t cur() {
    if (i == 0) return 0xA5;
    if (i == 1) return static_cast<uint8_t>(size >> (8 * k));
    return 0x5A;
  }
  void step() {
    if (i != 1) i++;
    else if (++k == 4) i = 2;
  }
  bool done() { return i == n + 3; }
};
static bool reproInv(void *p) {
  ReproG &g = *static_cast<ReproG *>(p);
  return vand(vand(g.i >= 3, g.i <= g.n + 3), g.pos == g.i + 3);
}
static OutIt<ReproG> writePathStub(uint64_t v, OutIt<ReproG> o) {
  vf_check(o.g->i >= 2 && !o.g->done(), "nothing is written after the last element");
  vf_check(v == o.g->val(), "the path length and then each element is written");
  *o = 0x5A;
  ++o;
  return o;
}
static InIt<ReproG> readPathStub(InIt<ReproG> b, InIt<ReproG>, uint64_t &out) {
  vf_check(b.g->i >= 2 && !b.g->done(), "only what was written is read");
  vf_check(*b == 0x5A, "the path is read");
  out = b.g->val();
  return ++b;
}
const size_t *ReproG::path = nullptr;
static const Random *gEngine;
static uint64_t gPushed;
static OutIt<ReproG> writeEngineStub(const Random &r, OutIt<ReproG> o) {
  vf_check(r == *gEngine, "the record's engine is written");
  *o = 0xA5;
  ++o;
  return o;
}
static InIt<ReproG> readEngineStub(InIt<ReproG> b, InIt<ReproG> e, Random &out) {
  vf_check(*b == 0xA5, "the record's engine is read");
  out = *gEngine;
  return ++b;
}
static void pathPushStub(std::vector<size_t> *, const size_t *x) {
  vf_check(*x == ReproG::elem(gPushed), "each path element is the one that was written");
  gPushed++;
}
static bool reproReadInv(void *p) { return vand(reproInv(p), gPushed == static_cast<ReproG *>(p)->i - 3); }
// natively: the plain round trip
static void reproNative(const Reproduce &v) {
  std::vector<uint8_t> data;
  serialize(v, std::back_inserter(data));
  const size_t used = data.size();
  data.push_back(1);
  Reproduce out;
  out.shrinkPath.push_back(7);
  auto e = deserialize(data.begin(), data.end(), out);
  vf_check(out == v && out.random == v.random && out.size == v.size && out.shrinkPath == v.shrinkPath, "the record round-trips");
  vf_check(static_cast<size_t>(e - data.begin()) == used, "exactly the written bytes are consumed");
}
VF_ENTRY(write_reproduce) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 30 : 16)));
  alignas(Reproduce) char storage[sizeof(Reproduce)];
  Reproduce &v = *new (storage) Reproduce();
  v.random = Random(vf_u64("seed"));
  v.size = vf_int("size");
  if (!vf_symbolic()) {
    for (uint64_t i = 0; i < n; i++) v.shrinkPath.push_back(ReproG::elem(i));
    reproNative(v);
    return;
  }
  gEngine = &v.random;
  ReproG g{0, n, 0, 0, static_cast<uint32_t>(v.size)};
  size_t *p = static_cast<size_t *>(vf_bytes("path", n * 8));
  ReproG::path = p;
  v.shrinkPath._M_impl._M_start = p;
  v.shrinkPath._M_impl._M_finish = p + n;
  v.shrinkPath._M_impl._M_end_of_storage = p + n;
  vf_contract("OutIt<ReproG> rc::detail::serializeCompact<unsigned long, OutIt<ReproG>>(", reinterpret_cast<void *>(&writePathStub), 0);
  vf_contract("OutIt<ReproG> rc::serialize<OutIt<ReproG>>(rc::Random const&", reinterpret_cast<void *>(&writeEngineStub), 0);
  vf_invariant("position", &reproInv, &g);
  const auto o = serialize(v, OutIt<ReproG>{&g, 0});
  vf_check(g.done(), "the whole record is written");
  vf_check(o.pos == g.pos, "the returned position is after the last byte");
}
VF_ENTRY(read_reproduce) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 48 : 16)));
  const Random engine(vf_u64("seed"));
  const int size = vf_int("size");
  Reproduce out;
  if (!vf_symbolic()) {
    out.random = engine;
    out.size = size;
    for (uint64_t i = 0; i < n; i++) out.shrinkPath.push_back(ReproG::elem(i));
    reproNative(out);
    return;
  }
  gEngine = &engine;
  gPushed = 0;
  ReproG g{0, n, 0, 0, static_cast<uint32_t>(size)};
  out.shrinkPath.push_back(7);
  vf_contract("InIt<ReproG> rc::detail::deserializeCompact<unsigned long, InIt<ReproG>>(", reinterpret_cast<void *>(&readPathStub), 0);
  vf_contract("InIt<ReproG> rc::deserialize<InIt<ReproG>>(InIt<ReproG>, InIt<ReproG>, rc::Random&", reinterpret_cast<void *>(&readEngineStub), 0);
  vf_contract("std::vector<unsigned long, std::allocator<unsigned long>>::push_back(", reinterpret_cast<void *>(&pathPushStub), 0);
  vf_invariant("position", &reproReadInv, &g);
  const auto e = deserialize(InIt<ReproG>{&g, 0, false}, InIt<ReproG>{&g, 0, true}, out);
  vf_check(g.done(), "the whole record is read");
  vf_check(e.pos == g.pos, "exactly the written bytes are consumed");
  vf_check(out.random == engine, "the engine is restored");
  vf_check(out.size == size, "the size is restored");
  vf_check(gPushed == n, "the path has its original length");
  vf_check(out.shrinkPath.empty(), "the old path is discarded");
}
static Reproduce smallRecord() {
  Reproduce v;
  v.random = Random(vf_u64("seed"));
  v.random.m_bits = static_cast<uint64_t>(vf_range("bits", 0, 127));
  v.random.m_bitsi = 7;
  v.size = vf_int("size");
  for (int j = vf_pick("pathlen", 0, 2); j > 0; j--) v.shrinkPath.push_back(static_cast<size_t>(vf_range("elem", 0, 200)));
  return v;
}

VF_ENTRY(record_small) {
  vf_bounded("path of 0..2 elements below 201, engine path below 128");
  reproNative(smallRecord());
}
// the reproduce string: Base64 by its contract (C07: decode inverts encode, any bytes)
static std::vector<uint8_t> *gEncoded;
static std::string encodeStub(const std::vector<uint8_t> &d) {
  gEncoded = new std::vector<uint8_t>(d);
  return "encoded";
}
static std::vector<uint8_t> decodeStub(const std::string &s) {
  vf_check(s == "encoded", "the decoder is given the encoded text");
  return *gEncoded;
}
VF_ENTRY(reproduce_string) {
  vf_bounded("maps of 0..2 entries, keys of 0..2 characters, paths of 0..2 elements below 201, engine path below 128");
  if (vf_symbolic()) {
    vf_contract("rc::detail::base64Encode", reinterpret_cast<void *>(&encodeStub), 0);
    vf_contract("rc::detail::base64Decode", reinterpret_cast<void *>(&decodeStub), 0);
  }
  std::unordered_map<std::string, Reproduce> m;
  for (int i = vf_pick("n", 0, 2); i > 0; i--) {
    std::string key;
    for (int j = vf_pick("keylen", 0, 2); j > 0; j--) key.push_back(vf_any<char>("c"));
    m[key] = smallRecord();
  }
  const auto out = stringToReproduceMap(reproduceMapToString(m));
  vf_check(out.size() == m.size(), "the decoded map has the same entries");
  for (const auto &p : m) {
    const auto it = out.find(p.first);
    vf_check(it != out.end(), "every key is restored");
    vf_check(it->second.random == p.second.random && it->second.size == p.second.size && it->second.shrinkPath == p.second.shrinkPath, "every record is restored");
  }
}
