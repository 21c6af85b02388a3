// Contract of rc::Random used by the contracts of its callers (linked in place
// of src/Random.cpp there). The engine is a value with an identity; split is a
// function of that identity giving the identities of the two halves; next is a
// function of the identity and the number of numbers already drawn. That the
// real engine behaves like this is property C04.
#include "vf.h"
#include <iostream>
#include "rapidcheck/Random.h"
namespace rc {
Random::Random() : Random(static_cast<uint64_t>(0)) {}
Random::Random(const Key &key) : m_key(key), m_block(), m_bits(0), m_counter(0), m_bitsi(0) {}
Random::Random(uint64_t seed) : Random(Key{{seed, 0, 0, 0}}) {}
Random Random::split() {
  vf_check(m_counter == 0, "engine is not split after numbers were drawn from it");
  Random right(*this);
  const uint64_t id = m_key[0];
  m_key[0] = vf_uf("random_left", 64, 1, id);
  right.m_key[0] = vf_uf("random_right", 64, 1, id);
  return right;
}
Random::Number Random::next() {
  const uint64_t r = vf_uf("random_next", 64, 2, static_cast<uint64_t>(m_key[0]), static_cast<uint64_t>(m_counter));
  m_counter++;
  return r;
}
bool operator==(const Random &l, const Random &r) { return vand(l.m_key[0] == r.m_key[0], l.m_counter == r.m_counter); }
bool operator!=(const Random &l, const Random &r) { return !(l == r); }
bool operator<(const Random &l, const Random &r) { return l.m_key[0] < r.m_key[0] || (l.m_key[0] == r.m_key[0] && l.m_counter < r.m_counter); }
std::ostream &operator<<(std::ostream &os, const Random &) { return os; }
} // namespace rc
namespace rc {
// only reached through deserialize
void Random::mash(Block &output) { for (std::size_t i = 0; i < 4; i++) output[i] = vf_uf("random_mash", 64, 3, static_cast<uint64_t>(m_key[0]), static_cast<uint64_t>(m_counter), static_cast<uint64_t>(i)); }
void Random::append(bool) {}
}
