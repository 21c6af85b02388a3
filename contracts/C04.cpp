// C04 the random engine
#include "vf.h"
#include "rapidcheck.h"
//@ sources: src/Random.cpp
using namespace rc;
typedef std::array<uint64_t, 4> Block4;
static uint64_t rotl(uint64_t x, unsigned r) { return (x << r) | (x >> (64 - r)); }
// Threefish-256, written from the Skein 1.3 specification (72 rounds)
static Block4 threefish(const Block4 &key, uint64_t tw0, uint64_t tw1, const Block4 &plain) {
  static const unsigned R[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}};
  uint64_t k[5] = {key[0], key[1], key[2], key[3], key[0] ^ key[1] ^ key[2] ^ key[3] ^ 0x1BD11BDAA9FC1A22ULL};
  uint64_t t[3] = {tw0, tw1, tw0 ^ tw1};
  uint64_t v[4] = {plain[0], plain[1], plain[2], plain[3]};
  for (unsigned d = 0; d <= 72; d++) {
    if (d % 4 == 0) { // subkey injection
      const unsigned s = d / 4;
      v[0] += k[s % 5];
      v[1] += k[(s + 1) % 5] + t[s % 3];
      v[2] += k[(s + 2) % 5] + t[(s + 1) % 3];
      v[3] += k[(s + 3) % 5] + s;
      if (d == 72) break;
    }
    const uint64_t a0 = v[0] + v[1], a1 = rotl(v[1], R[d % 8][0]) ^ a0;
    const uint64_t b0 = v[2] + v[3], b1 = rotl(v[3], R[d % 8][1]) ^ b0;
    v[0] = a0; v[1] = b1; v[2] = b0; v[3] = a1; // permute
  }
  return Block4{{v[0], v[1], v[2], v[3]}};
}
static Block4 words(const Block4 &key, uint64_t bits, uint64_t counter) { return threefish(key, 13, 37, Block4{{bits, counter, 0, 0}}); }
static bool same4(const Block4 &a, const Block4 &b) { return vand(vand(a[0] == b[0], a[1] == b[1]), vand(a[2] == b[2], a[3] == b[3])); }
static Block4 anyBlock(const char *n) { return Block4{{vf_u64(n), vf_u64(n), vf_u64(n), vf_u64(n)}}; }
// an arbitrary engine; valid: the block holds the words of the current counter block
static Random anyState() {
  Random r(anyBlock("key"));
  r.m_bits = vf_u64("bits");
  r.m_counter = vf_u64("counter");
  r.m_bitsi = static_cast<uint8_t>(vf_range("bitsi", 0, 64));
  vf_assume(vor(r.m_bitsi == 64, (r.m_bits >> (r.m_bitsi & 63)) == 0)); // no path bits beyond its length
  r.m_block = anyBlock("block");
  return r;
}
static bool sameState(const Random &a, const Random &b) {
  return vand(vand(same4(a.m_key, b.m_key), same4(a.m_block, b.m_block)), vand(vand(a.m_bits == b.m_bits, a.m_counter == b.m_counter), a.m_bitsi == b.m_bitsi));
}
// the state after appending one bit to the path
static Random appended(Random r, bool x) {
  if (r.m_bitsi == 64) {
    r.m_key = words(r.m_key, r.m_bits, r.m_counter);
    r.m_bits = 0;
    r.m_bitsi = 0;
  }
  if (x) r.m_bits |= uint64_t(1) << r.m_bitsi;
  r.m_bitsi++;
  return r;
}
VF_ENTRY(construct) {
  const uint64_t seed = vf_u64("seed");
  const Block4 key = anyBlock("key");
  const Random a(seed), b(seed), c(Block4{{seed, seed, seed, seed}}), d, e(static_cast<uint64_t>(0)), f(key);
  vf_check(sameState(a, b), "equal seeds give equal engines");
  vf_check(sameState(a, c), "a seed stands for the key that repeats it");
  vf_check(sameState(d, e), "the default engine has the zero key");
  vf_check(vand(same4(f.m_key, key), vand(f.m_bits == 0, vand(f.m_counter == 0, f.m_bitsi == 0))), "a new engine starts at the beginning of the key's stream");
  vf_check(a == b && !(a != b), "engines with equal seeds compare equal");
  const uint64_t other = vf_u64("other");
  vf_check((Random(other) == a) == (other == seed), "engines with different seeds compare different");
}
// one call of next from any state in the middle of a stream; position in the block
static void nextAt(unsigned i) {
  Random r = anyState();
  r.m_counter = (r.m_counter << 2) | i;
  if (i) r.m_block = words(r.m_key, r.m_bits, r.m_counter - i); // invariant
  const Random before = r;
  const uint64_t w = words(r.m_key, r.m_bits, r.m_counter - i)[i];
  const uint64_t x = r.next();
  vf_check(x == w, "the number is the next word of Threefish-256 of the counter under the key");
  if (before.m_counter != ~uint64_t(0)) {
    vf_check(r.m_counter == before.m_counter + 1, "the counter advances once per number");
    vf_check(vand(same4(r.m_key, before.m_key), vand(r.m_bits == before.m_bits, r.m_bitsi == before.m_bitsi)), "key and path are kept");
    vf_check(vor(i == 3, same4(r.m_block, words(before.m_key, before.m_bits, before.m_counter - i))), "the block holds the words of the current counter block");
  } else {
    const Random want = appended(before, true);
    vf_check(vand(r.m_counter == 0, vand(same4(r.m_key, want.m_key), vand(r.m_bits == want.m_bits, r.m_bitsi == want.m_bitsi))), "an exhausted counter starts the stream of the extended path");
  }
}
VF_ENTRY(next_0) { nextAt(0); }
VF_ENTRY(next_1) { nextAt(1); }
VF_ENTRY(next_2) { nextAt(2); }
VF_ENTRY(next_3) { nextAt(3); }
// a fresh engine's first numbers, through the public interface only
VF_ENTRY(first_numbers) {
  const Block4 key = anyBlock("key");
  Random r(key), c(key);
  for (uint64_t i = 0; i < 9; i++) vf_check(r.next() == words(key, 0, i & ~uint64_t(3))[i & 3], "the stream of a new engine is the words of Threefish-256 of 0, 4, 8, ... in order");
  const Random copy = r;
  const uint64_t next = r.next();
  Random copy2 = copy;
  vf_check(copy2.next() == next, "a copy continues the same stream");
  vf_check(copy2 == r, "equal streams from equal states end in equal states");
  vf_check(!(copy == r), "drawing a number changes the engine and not its copy");
  (void)c;
}
VF_ENTRY(split) {
  Random r = anyState();
  vf_assume(r.m_counter == 0); // precondition asserted by split: no number drawn yet
  const Random before = r;
  const Random right = r.split();
  const Random wl = appended(before, false), wr = appended(before, true);
  vf_check(vand(same4(r.m_key, wl.m_key), vand(vand(r.m_bits == wl.m_bits, r.m_counter == 0), r.m_bitsi == wl.m_bitsi)), "the parent continues on the 0 branch of the path");
  vf_check(vand(same4(right.m_key, wr.m_key), vand(vand(right.m_bits == wr.m_bits, right.m_counter == 0), right.m_bitsi == wr.m_bitsi)), "the child is on the 1 branch of the path");
  vf_check(vand(r.m_bitsi <= 64, right.m_bitsi <= 64), "the path length stays valid");
  vf_check(vand(r.m_bitsi >= 64, true) | ((r.m_bits >> (r.m_bitsi & 63)) == 0), "no path bits beyond its length");
  vf_check(!(r == right), "parent and child differ");
  Random r2 = before;
  const Random right2 = r2.split();
  vf_check(vand(sameState(r, r2), sameState(right, right2)), "split is deterministic");
}
// equality is equality of the complete state
VF_ENTRY(equality) {
  const Random a = anyState(), b = anyState();
  const bool eq = a == b;
  vf_check(eq == sameState(a, b), "engines compare equal exactly when their complete states are equal");
  vf_check((a != b) == !eq, "!= is the negation of ==");
  vf_check(a == a, "an engine equals itself");
}
VF_ENTRY(ordering) {
  const Random a = anyState(), b = anyState();
  const bool lt = a < b, gt = b < a;
  vf_check(!(lt && gt), "ordering is asymmetric");
  vf_check((!lt && !gt) == sameState(a, b), "unordered exactly when equal");
}
VF_ENTRY(ordering_transitive) {
  const Random a = anyState(), b = anyState(), c = anyState();
  if (a < b && b < c) vf_check(a < c, "ordering is transitive");
}
VF_ENTRY(copies) {
  Random a = anyState();
  const Random before = a;
  Random b = a;
  vf_check(sameState(a, b), "a copy has the same state");
  b.next();
  vf_check(sameState(a, before), "drawing from a copy leaves the original");
  b = a;
  vf_check(sameState(a, b), "assignment copies the state");
}
VF_ENTRY(hashing) {
  const Random a = anyState();
  const Random b = a;
  vf_check(std::hash<Random>()(a) == std::hash<Random>()(b), "equal engines hash equal");
}
