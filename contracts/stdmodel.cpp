// Trusted models of the parts of the C++ runtime library that are only
// available as machine code (libstdc++.so / libc). Linked into the bitcode the
// engine verifies; never into native replays.
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <typeinfo>
#include <functional>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>

typedef std::string Str;
extern "C" {
void *_Znwm(std::size_t);
void _ZdlPv(void *);
extern const char _ZTISt13runtime_error[], _ZTISt11logic_error[], _ZTISt12length_error[], _ZTISt12out_of_range[], _ZTISt16invalid_argument[], _ZTISt12domain_error[], _ZTISt11range_error[], _ZTISt14overflow_error[], _ZTISt9exception[], _ZTISt9bad_alloc[], _ZTISt8bad_cast[], _ZTISt17bad_function_call[], _ZTISt20bad_array_new_length[], _ZTISt10bad_typeid[];

static char *dupn(const char *p, std::size_t n) {
  char *r = static_cast<char *>(_Znwm(n + 1));
  __builtin_memcpy(r, p, n);
  r[n] = 0;
  return r;
}
std::size_t strlen(const char *p) { std::size_t n = 0; while (p[n]) n++; return n; }
int memcmp(const void *a, const void *b, std::size_t n) {
  const unsigned char *x = static_cast<const unsigned char *>(a), *y = static_cast<const unsigned char *>(b);
  for (std::size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
void *memchr(const void *a, int c, std::size_t n) {
  const unsigned char *x = static_cast<const unsigned char *>(a);
  for (std::size_t i = 0; i < n; i++) if (x[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(x + i);
  return nullptr;
}
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, std::size_t n) { return static_cast<wchar_t *>(__builtin_memcpy(d, s, n * sizeof(wchar_t))); }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, std::size_t n) { return static_cast<wchar_t *>(__builtin_memmove(d, s, n * sizeof(wchar_t))); }
wchar_t *wmemset(wchar_t *d, wchar_t c, std::size_t n) { for (std::size_t i = 0; i < n; i++) d[i] = c; return d; }
std::size_t wcslen(const wchar_t *p) { std::size_t n = 0; while (p[n]) n++; return n; }
int wmemcmp(const wchar_t *x, const wchar_t *y, std::size_t n) {
  for (std::size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
// "C" locale character classes
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }

struct Err { const void *const *vptr; char *msg; };
struct Exc { const void *const *vptr; };

#define EXC_VTABLE(MANGLED) extern const void *const _ZTV##MANGLED[];
EXC_VTABLE(St13runtime_error) EXC_VTABLE(St11logic_error) EXC_VTABLE(St12length_error) EXC_VTABLE(St12out_of_range) EXC_VTABLE(St16invalid_argument) EXC_VTABLE(St12domain_error) EXC_VTABLE(St11range_error) EXC_VTABLE(St14overflow_error)
EXC_VTABLE(St9exception) EXC_VTABLE(St9bad_alloc) EXC_VTABLE(St8bad_cast) EXC_VTABLE(St17bad_function_call) EXC_VTABLE(St20bad_array_new_length) EXC_VTABLE(St10bad_typeid)

// run-time / logic errors carry a private copy of the message
#define ERR_CLASS(M)                                                           \
  void _ZN##M##D2Ev(Err *e) { _ZdlPv(e->msg); }                                \
  void _ZN##M##D1Ev(Err *e) { _ZdlPv(e->msg); }                                \
  void _ZN##M##D0Ev(Err *e) { _ZdlPv(e->msg); _ZdlPv(e); }                     \
  const char *_ZNK##M##4whatEv(const Err *e) { return e->msg; }                \
  const void *const _ZTV##M[] = {nullptr, _ZTI##M, reinterpret_cast<const void *>(&_ZN##M##D1Ev), reinterpret_cast<const void *>(&_ZN##M##D0Ev), reinterpret_cast<const void *>(&_ZNK##M##4whatEv)}; \
  void _ZN##M##C2EPKc(Err *e, const char *m) { e->vptr = _ZTV##M + 2; e->msg = dupn(m, strlen(m)); } \
  void _ZN##M##C1EPKc(Err *e, const char *m) { e->vptr = _ZTV##M + 2; e->msg = dupn(m, strlen(m)); } \
  void _ZN##M##C2ERKS_(Err *e, const Err *o) { e->vptr = _ZTV##M + 2; e->msg = dupn(o->msg, strlen(o->msg)); } \
  void _ZN##M##C1ERKS_(Err *e, const Err *o) { e->vptr = _ZTV##M + 2; e->msg = dupn(o->msg, strlen(o->msg)); } \
  void _ZN##M##C2EOS_(Err *e, Err *o) { e->vptr = _ZTV##M + 2; e->msg = dupn(o->msg, strlen(o->msg)); } \
  void _ZN##M##C1EOS_(Err *e, Err *o) { e->vptr = _ZTV##M + 2; e->msg = dupn(o->msg, strlen(o->msg)); } \
  void _ZN##M##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(Err *e, const Str &m) { e->vptr = _ZTV##M + 2; e->msg = dupn(m.data(), m.size()); } \
  void _ZN##M##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(Err *e, const Str &m) { e->vptr = _ZTV##M + 2; e->msg = dupn(m.data(), m.size()); }
ERR_CLASS(St13runtime_error) ERR_CLASS(St11logic_error) ERR_CLASS(St12length_error) ERR_CLASS(St12out_of_range) ERR_CLASS(St16invalid_argument) ERR_CLASS(St12domain_error) ERR_CLASS(St11range_error) ERR_CLASS(St14overflow_error)

#define EXC_CLASS(M, TXT)                                                      \
  void _ZN##M##D2Ev(Exc *) {}                                                  \
  void _ZN##M##D1Ev(Exc *) {}                                                  \
  void _ZN##M##D0Ev(Exc *e) { _ZdlPv(e); }                                     \
  const char *_ZNK##M##4whatEv(const Exc *) { return TXT; }                    \
  const void *const _ZTV##M[] = {nullptr, _ZTI##M, reinterpret_cast<const void *>(&_ZN##M##D1Ev), reinterpret_cast<const void *>(&_ZN##M##D0Ev), reinterpret_cast<const void *>(&_ZNK##M##4whatEv)};
EXC_CLASS(St9exception, "std::exception") EXC_CLASS(St9bad_alloc, "std::bad_alloc") EXC_CLASS(St8bad_cast, "std::bad_cast") EXC_CLASS(St17bad_function_call, "bad_function_call") EXC_CLASS(St20bad_array_new_length, "std::bad_array_new_length") EXC_CLASS(St10bad_typeid, "std::bad_typeid")

void *__cxa_allocate_exception(std::size_t) noexcept;
void __cxa_throw(void *, void *, void (*)(void *)) __attribute__((noreturn));
#define THROW_ERR(M, MSG) { Err *e = static_cast<Err *>(__cxa_allocate_exception(sizeof(Err))); _ZN##M##C1EPKc(e, MSG); __cxa_throw(e, const_cast<char *>(_ZTI##M), reinterpret_cast<void (*)(void *)>(&_ZN##M##D1Ev)); }
#define THROW_EXC(M) { Exc *e = static_cast<Exc *>(__cxa_allocate_exception(sizeof(Exc))); e->vptr = _ZTV##M + 2; __cxa_throw(e, const_cast<char *>(_ZTI##M), reinterpret_cast<void (*)(void *)>(&_ZN##M##D1Ev)); }
void vfm_throw_bad_alloc() THROW_EXC(St9bad_alloc)
void _ZSt17__throw_bad_allocv() THROW_EXC(St9bad_alloc)
void _ZSt28__throw_bad_array_new_lengthv() THROW_EXC(St20bad_array_new_length)
void _ZSt16__throw_bad_castv() THROW_EXC(St8bad_cast)
void __cxa_bad_cast() THROW_EXC(St8bad_cast)
void _ZSt25__throw_bad_function_callv() THROW_EXC(St17bad_function_call)
void _ZSt20__throw_length_errorPKc(const char *m) THROW_ERR(St12length_error, m)
void _ZSt19__throw_logic_errorPKc(const char *m) THROW_ERR(St11logic_error, m)
void _ZSt20__throw_out_of_rangePKc(const char *m) THROW_ERR(St12out_of_range, m)
void _ZSt24__throw_out_of_range_fmtPKcz(const char *m, ...) THROW_ERR(St12out_of_range, m)
void _ZSt24__throw_invalid_argumentPKc(const char *m) THROW_ERR(St16invalid_argument, m)
void _ZSt21__throw_runtime_errorPKc(const char *m) THROW_ERR(St13runtime_error, m)

// std::list node hooks
typedef std::__detail::_List_node_base LN;
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN *self, LN *pos) { self->_M_next = pos; self->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = self; pos->_M_prev = self; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN *self) { LN *n = self->_M_next, *p = self->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN *self, LN *first, LN *last) {
  if (self != last) {
    last->_M_prev->_M_next = self; first->_M_prev->_M_next = last; self->_M_prev->_M_next = first;
    LN *tmp = self->_M_prev; self->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}

// std::map / std::set trees: an (unbalanced) binary search tree with the same
// header conventions as libstdc++'s red-black tree
typedef std::_Rb_tree_node_base TN;
static TN *tinc(TN *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  TN *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x;
}
static TN *tdec(TN *x) {
  if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { TN *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  TN *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
TN *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(TN *x) { return tinc(x); }
const TN *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const TN *x) { return tinc(const_cast<TN *>(x)); }
TN *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(TN *x) { return tdec(x); }
const TN *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const TN *x) { return tdec(const_cast<TN *>(x)); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, TN *x, TN *p, TN *h) {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = std::_S_black;
  if (left) { p->_M_left = x; if (p == h) { h->_M_parent = x; h->_M_right = x; } else if (p == h->_M_left) h->_M_left = x; }
  else { p->_M_right = x; if (p == h->_M_right) h->_M_right = x; }
}
TN *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(TN *z, TN *h) {
  if (h->_M_left == z && h->_M_right == z) { h->_M_parent = nullptr; h->_M_left = h; h->_M_right = h; return z; }
  if (h->_M_left == z) h->_M_left = tinc(z);
  if (h->_M_right == z) h->_M_right = tdec(z);
  TN *r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else { // splice successor y of z (no left child) into z's place
    TN *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y; r = y;
  }
  TN *p = z->_M_parent; if (r) r->_M_parent = p;
  if (p == h) h->_M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
  return z;
}
std::size_t _ZSt11_Hash_bytesPKvmm(const void *, std::size_t, std::size_t) { return 0; }
struct PRP { float mlf; std::size_t next; };
std::size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(PRP *p, std::size_t n) { std::size_t r = n < 13 ? 13 : 2 * n + 1; p->next = r; return r; }
struct BP { bool a; std::size_t b; };
std::pair<bool, std::size_t> _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(PRP *p, std::size_t nb, std::size_t ne, std::size_t ni) {
  if (ne + ni > p->next) { std::size_t r = 2 * (ne + ni) + 13; p->next = r; return std::pair<bool, std::size_t>(true, r); }
  return std::pair<bool, std::size_t>(false, 0);
}
}
// messages only
bool vfm_pad;
extern "C" {
static char vfm_classic_locale[64];
const void *_ZNSt6locale7classicEv() { return vfm_classic_locale; }
}
