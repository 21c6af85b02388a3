// C07 Base64 is an exact bijection on byte strings
#include "vf.h"
#include "rapidcheck.h"
#include "detail/Base64.h"
#include "detail/ParseException.h"
//@ sources: src/detail/Base64.cpp src/detail/ParseException.cpp
//@ assume: C07 decode: the text of a parse error's message (std::to_string of the position) is unconstrained; the position itself is checked
//@ assume: C07 encode, decode: std::string::append/push_back and std::vector::push_back append exactly the given element (libstdc++); the *_small contracts run the real ones
using namespace rc::detail;
static const char *const kLetters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+_";
// the letter of a 6-bit group, arithmetically
static char letter(uint32_t v) {
  return static_cast<char>(vf_ite(v < 26, 'A' + v, vf_ite(v < 52, 'a' + v - 26, vf_ite(v < 62, '0' + v - 52, vf_ite(v == 62, '+', '_')))));
}
static int value(char c) { // -1: not a letter of the alphabet
  const unsigned char u = static_cast<unsigned char>(c);
  return static_cast<int>(vf_ite(vand(u >= 'A', u <= 'Z'), u - 'A', vf_ite(vand(u >= 'a', u <= 'z'), u - 'a' + 26, vf_ite(vand(u >= '0', u <= '9'), u - '0' + 52, vf_ite(u == '+', 62, vf_ite(u == '_', 63, static_cast<uint64_t>(-1)))))));
}
// ---- encoding of byte strings of every length ----
struct EncG { // the next character is character c of the group that starts at byte i
  uint64_t n, i, c, len;
  const uint8_t *d;
  uint8_t byte(uint64_t k) { return k < n ? d[k] : 0; }
  bool done() { return i >= n; }
  char cur() {
    const uint32_t b = byte(i) | static_cast<uint32_t>(byte(i + 1)) << 8 | static_cast<uint32_t>(byte(i + 2)) << 16;
    return letter((b >> (6 * c)) & 63);
  }
  void step() {
    const uint64_t left = n - i, chars = left >= 3 ? 4 : left == 2 ? 3 : 2;
    len++;
    c++;
    if (c == chars) {
      c = 0;
      i += 3;
    }
  }
};
static EncG *gEnc;
static bool encInv(void *p) {
  EncG &g = *static_cast<EncG *>(p);
  const uint64_t i = g.i;
  return vand(g.c == 0, vor(i < g.n + 3, i == 0));
}
static void encChar(std::string *s, char c) {
  vf_check(!gEnc->done(), "no character beyond the encoding");
  vf_check(c == gEnc->cur(), "each character stands for the next six bits of the input");
  gEnc->step();
  (void)s;
}
static std::string &appendStub(std::string *s, size_t n, char c) {
  for (size_t i = 0; i < n; i++) encChar(s, c);
  return *s;
}
static void pushStub(std::string *s, char c) { encChar(s, c); }
static void reserveStub(std::string *, size_t) {}
VF_ENTRY(encode) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 36 : 16)));
  uint8_t *d = static_cast<uint8_t *>(vf_bytes("data", n));
  alignas(std::vector<uint8_t>) char storage[sizeof(std::vector<uint8_t>)];
  std::vector<uint8_t> &v = *new (storage) std::vector<uint8_t>();
  v._M_impl._M_start = d;
  v._M_impl._M_finish = d + n;
  v._M_impl._M_end_of_storage = d + n;
  EncG g{n, 0, 0, 0, d};
  gEnc = &g;
  if (vf_symbolic()) {
    vf_contract("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::append(unsigned long, char)", reinterpret_cast<void *>(&appendStub), 0);
    vf_contract("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::push_back(char)", reinterpret_cast<void *>(&pushStub), 0);
    vf_contract("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::reserve(unsigned long)", reinterpret_cast<void *>(&reserveStub), 0);
  }
  vf_invariant("position", &encInv, &g);
  const std::string out = base64Encode(v);
  if (vf_symbolic()) {
    vf_check(g.done() && g.c == 0, "the whole input is encoded");
  } else {
    for (char c : out) encChar(nullptr, c);
    vf_check(g.done() && g.c == 0, "the whole input is encoded");
    vf_check(out.size() == (n * 8 + 5) / 6, "ceil(8n/6) characters");
  }
}
// the number of characters of the groups is ceil(8n/6)
VF_ENTRY(encode_length) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << 36));
  const uint64_t full = n / 3, rest = n % 3;
  vf_check(full * 4 + (rest == 0 ? 0 : rest + 1) == (n * 8 + 5) / 6, "the groups have ceil(8n/6) characters");
}
// ---- decoding of strings of every length ----
struct DecG { // the next byte is byte c of the group that starts at character i
  uint64_t n, i, c, len, bad; // bad: an arbitrary position
  const char *s;
  uint32_t val(uint64_t k) { return k < n ? static_cast<uint32_t>(value(s[k])) : 0; }
  bool valid(uint64_t k) { return vor(k >= n, value(s[k]) != -1); }
  uint64_t bytes() { const uint64_t left = n - i; return left >= 4 ? 3 : left == 3 ? 2 : left == 2 ? 1 : 0; }
  bool done() { return i >= n; }
  uint8_t cur() {
    const uint32_t b = val(i) | val(i + 1) << 6 | val(i + 2) << 12 | val(i + 3) << 18;
    return static_cast<uint8_t>(b >> (8 * c));
  }
  void step() {
    c++;
    if (c == bytes()) {
      c = 0;
      i += 4;
    }
  }
};
static DecG *gDec;
static bool decInv(void *p) {
  DecG &g = *static_cast<DecG *>(p);
  return vand(vand(g.c == 0, g.len == g.i), vand(g.i < g.n + 4, (g.i & 3) == 0));
}
static bool decInvBad(void *p) {
  DecG &g = *static_cast<DecG *>(p);
  return vor(g.bad >= g.i, g.valid(g.bad));
}
static void decByte(uint8_t x) {
  DecG &g = *gDec;
  vf_check(!g.done(), "no byte beyond the encoding");
  vf_check(vand(vand(g.valid(g.i), g.valid(g.i + 1)), vand(g.valid(g.i + 2), g.valid(g.i + 3))), "nothing is decoded from a group with a character outside the alphabet");
  vf_check(x == g.cur(), "each byte is the next eight bits the characters stand for");
  g.step();
  g.len = g.i;
}
static void vpushStub(std::vector<uint8_t> *, const uint8_t *x) { decByte(*x); }
static void vreserveStub(std::vector<uint8_t> *, size_t) {}
static std::string toStringStub(unsigned long) { return std::string(); }
VF_ENTRY(decode) {
  const uint64_t n = vf_u64("n");
  vf_assume(n < (uint64_t(1) << (vf_symbolic() ? 36 : 16)));
  char *p = static_cast<char *>(vf_bytes("text", n + 8));
  alignas(std::string) char storage[sizeof(std::string)];
  std::string &s = *new (storage) std::string();
  s._M_dataplus._M_p = p;
  s._M_string_length = n;
  s._M_allocated_capacity = n;
  DecG g{n, 0, 0, 0, vf_u64("bad"), p};
  gDec = &g;
  vf_assume(vor(g.bad < n, vand(n == 0, g.bad == 0)));
  if (vf_symbolic()) {
    vf_contract("std::vector<unsigned char, std::allocator<unsigned char>>::push_back(", reinterpret_cast<void *>(&vpushStub), 0);
    vf_contract("std::vector<unsigned char, std::allocator<unsigned char>>::reserve(", reinterpret_cast<void *>(&vreserveStub), 0);
    vf_contract("std::__cxx11::to_string(unsigned long)", reinterpret_cast<void *>(&toStringStub), 0);
  }
  vf_invariant("position", &decInv, &g);
  vf_invariant("no bad character so far", &decInvBad, &g);
  try {
    const std::vector<uint8_t> out = base64Decode(s);
    vf_check(n % 4 != 1, "an impossible length is always reported");
    vf_check(n == 0 || g.valid(g.bad), "a character outside the alphabet is always reported, wherever it is");
    if (!vf_symbolic()) for (uint8_t x : out) decByte(x);
    vf_check(g.done() && g.c == 0, "the whole text is decoded");
    if (!vf_symbolic()) vf_check(out.size() == n * 6 / 8, "as many bytes as the text stands for");
    vf_reach("decoded");
  } catch (const ParseException &e) {
    const uint64_t at = e.position();
    vf_reach("rejected");
    if (n % 4 == 1) return;
    vf_check(at < n && value(p[at < n ? at : 0]) == -1, "a text of possible length is rejected only at a character outside the alphabet");
  }
}
// decoding inverts encoding, group by group: the letters of a group give its bytes
VF_ENTRY(groups_invert) {
  const uint32_t b = static_cast<uint32_t>(vf_range("bits", 0, (1 << 24) - 1));
  uint32_t r = 0;
  for (int c = 0; c < 4; c++) {
    const char l = letter((b >> (6 * c)) & 63);
    vf_check(l == kLetters[(b >> (6 * c)) & 63], "the alphabet");
    vf_check(value(l) == static_cast<int>((b >> (6 * c)) & 63), "a letter stands for its group only");
    r |= static_cast<uint32_t>(value(l)) << (6 * c);
  }
  vf_check(r == b, "the letters of a group determine it");
  vf_check(vand(vimp(b < 256, (b >> 12) == 0), vimp(b < 65536, (b >> 18) == 0)), "short groups need no further letters");
}
// everything real, small lengths
VF_ENTRY(roundtrip_small) {
  vf_bounded("byte strings of 0..7 bytes");
  vf_nocut();
  const int n = vf_pick("n", 0, 7);
  std::vector<uint8_t> v;
  for (int i = 0; i < n; i++) v.push_back(vf_any<uint8_t>("b"));
  const std::string s = base64Encode(v);
  vf_check(s.size() == static_cast<size_t>(n * 8 + 5) / 6, "ceil(8n/6) characters");
  for (char c : s) vf_check(value(c) != -1, "only letters of the alphabet");
  const std::vector<uint8_t> d = base64Decode(s);
  vf_check(d.size() == v.size(), "decoding the encoding gives the bytes back");
  for (int i = 0; i < n; i++) vf_check(d[i] == v[i], "decoding the encoding gives the bytes back");
}
VF_ENTRY(decode_small) {
  vf_bounded("texts of 0..6 characters");
  vf_nocut();
  const int n = vf_pick("n", 0, 6);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back(vf_any<char>("c"));
  bool bad = n % 4 == 1;
  for (int i = 0; i < n; i++) bad = vor(bad, value(s[i]) == -1);
  try {
    const std::vector<uint8_t> d = base64Decode(s);
    vf_check(!bad, "a malformed text is always reported");
    vf_check(d.size() == static_cast<size_t>(n * 6 / 8), "as many bytes as the text stands for");
  } catch (const ParseException &) {
    vf_check(bad, "a well-formed text is never rejected");
  }
}
