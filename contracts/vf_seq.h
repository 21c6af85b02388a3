// Abstract values and abstract sequences of any length.
#pragma once
#include "vf.h"
#include "rapidcheck.h"
#include <utility>
// A value with an identity; using one that was moved from is an error.
struct Val {
  uint64_t id;
  uint64_t state; // 1: alive, 2: moved from, 3: destroyed
  explicit Val(uint64_t i = 0) : id(i), state(1) {}
  Val(const Val &o) : id(o.id), state(o.state) { vf_check(o.state != 3, "no value is used after its destruction"); }
  Val(Val &&o) : id(o.id), state(o.state) {
    vf_check(o.state != 3, "no value is used after its destruction");
    o.state = 2;
  }
  Val &operator=(const Val &o) {
    vf_check(o.state != 3, "no value is used after its destruction");
    id = o.id;
    state = o.state;
    return *this;
  }
  Val &operator=(Val &&o) {
    vf_check(o.state != 3, "no value is used after its destruction");
    id = o.id;
    const uint64_t st = o.state;
    o.state = 2;
    state = st;
    return *this;
  }
  ~Val() { state = 3; }
  uint64_t get() const {
    vf_check(state == 1, "no value is used after it was moved from or destroyed");
    return id;
  }
  friend bool operator==(const Val &a, const Val &b) { return a.get() == b.get(); }
  friend bool operator!=(const Val &a, const Val &b) { return a.get() != b.get(); }
};
inline std::ostream &operator<<(std::ostream &os, const Val &) { return os; }
// Source k has len elements; element i is an uninterpreted function of (k, i).
inline uint64_t elemId(uint64_t k, uint64_t i) { return vf_uf("element", 64, 2, k, i); }
struct SrcG {
  uint64_t k, len;
  uint64_t calls; // how often it was asked
  uint64_t pulls; // how many elements it has given
  uint64_t lastId; // the last element it gave
};
struct Src {
  typedef Val ValueType;
  SrcG *g;
  rc::Maybe<Val> operator()() {
    g->calls++;
    if (g->pulls >= g->len) return rc::Nothing;
    const uint64_t i = g->pulls;
    g->pulls++;
    g->lastId = elemId(g->k, i);
    return Val(g->lastId);
  }
};
inline SrcG anySrc(uint64_t k) {
  SrcG g{k, vf_u64("len"), 0, 0, 0};
  vf_assume(g.len < (uint64_t(1) << 62));
  return g;
}
inline rc::Seq<Val> srcSeq(SrcG &g) { return rc::makeSeq<Src>(Src{&g}); }
