// Specification language used by the contracts in this directory.
//
// A contract is an ordinary C++ function `vf_entry_<name>` that sets up the
// precondition of a function of /repo with symbolic values, calls the real
// function, and asserts the postcondition. The verification engine executes
// the LLVM bitcode compiled from /repo's current sources symbolically. Natively
// (VF_NATIVE) the same text runs with concrete values to replay a
// counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
uint64_t vf_nondet(const char *name, int bits);
void vf_assume(int c);
void vf_assert(int c, const char *name);
uint64_t vf_uf(const char *fn, int retbits, int nargs, ...);
void vf_reach(const char *name);
int vf_symbolic(void);
void vf_contract(const char *pattern, void *stub, int mode);
void vf_contracts_clear(void);
void vf_invariant(const char *name, bool (*inv)(void *), void *ctx);
void vf_invariants_clear(void);
// every iteration of every loop that is not executed in full decreases the variant
void vf_variant(const char *name, uint64_t (*fn)(void *), void *ctx);
void vf_variant_clear(void);
void vf_heap_mark(void);
void vf_leak_check(const char *name);
uint64_t vf_concretize(uint64_t x);
void *vf_bytes(const char *name, uint64_t size);
void vf_unroll(int n);
void vf_nocut(void);
void *vf_function(const char *pattern); // a function that contracts cannot name, or null
void vf_cut_after(int n); // loops of fewer iterations are executed in full
void vf_bounded(const char *why);
void vf_abstract(void);
void vf_trace(const char *name, uint64_t x);
uint64_t vf_ite(int c, uint64_t a, uint64_t b); // non-forking choice
int vf_alive(const void *p);
}

#ifdef VF_NATIVE
struct VfReg {
  VfReg(const char *name, void (*fn)(void));
};
#define VF_ENTRY(n)                                                            \
  extern "C" void vf_entry_##n(void);                                          \
  static VfReg vf_reg_##n("vf_entry_" #n, &vf_entry_##n);                      \
  extern "C" void vf_entry_##n(void)
#else
#define VF_ENTRY(n) extern "C" void vf_entry_##n(void)
#endif
#define vf_check(c, name) vf_assert((c) ? 1 : 0, name)
// a checked fact, then used
#define vf_lemma(c, name)                                                      \
  do {                                                                         \
    const bool vf_l = (c);                                                     \
    vf_check(vf_l, "lemma: " name);                                            \
    vf_assume(vf_l);                                                           \
  } while (0)
// non-forking logical connectives for specifications
inline bool vand(bool a, bool b) { return a & b; }
inline bool vor(bool a, bool b) { return a | b; }
inline bool vimp(bool a, bool b) { return !a | b; }

template <typename T>
inline T vf_any(const char *name) {
  return static_cast<T>(vf_nondet(name, static_cast<int>(sizeof(T) * 8)));
}
template <>
inline bool vf_any<bool>(const char *name) {
  return vf_nondet(name, 1) != 0;
}
inline int vf_int(const char *name) { return vf_any<int>(name); }
inline uint64_t vf_u64(const char *name) { return vf_any<uint64_t>(name); }
inline bool vf_bool(const char *name) { return vf_any<bool>(name); }
inline int vf_range(const char *name, int lo, int hi) { // inclusive
  int x = vf_any<int>(name);
  vf_assume((x >= lo) & (x <= hi));
  return x;
}
// forks so that the value is a constant on each path
inline int vf_pick(const char *name, int lo, int hi) {
  return static_cast<int>(vf_concretize(static_cast<uint64_t>(vf_range(name, lo, hi))));
}
