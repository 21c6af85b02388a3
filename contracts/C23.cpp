// C23 strings and characters
#include "vf_random.h"
#include "rapidcheck.h"
#include "rapidcheck/gen/Text.h"
#include "rapidcheck/shrink/Shrink.h"
//@ sources: src/gen/Text.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;

// ---- removeChunks and eachElement on a container of any length ----
// A container made of pieces of an original of n elements (element i of the
// original is identified by i), with single elements replaced.
static uint64_t gLen; // of the original
struct Elem {
  uint64_t id;
  bool operator==(const Elem &o) const { return id == o.id; }
};
static const uint64_t kOther = uint64_t(1) << 63; // shrinks of elements: kOther + ...
struct Str {
  typedef Elem value_type;
  typedef size_t size_type;
  static const int kPieces = 3;
  uint64_t lo[kPieces], hi[kPieces]; // the pieces [lo, hi)
  uint64_t changedAt; // the element that differs, or none
  Elem changed;
  struct It {
    typedef std::random_access_iterator_tag iterator_category;
    typedef Elem value_type;
    typedef ptrdiff_t difference_type;
    typedef Elem *pointer;
    typedef Elem &reference;
    Str *s;
    uint64_t i;
    It operator+(uint64_t k) const { return It{s, i + k}; }
    It &operator+=(uint64_t k) { i += k; return *this; }
    It &operator++() { i++; return *this; }
    It operator++(int) { It r = *this; i++; return r; }
    ptrdiff_t operator-(const It &o) const { return static_cast<ptrdiff_t>(i - o.i); }
    bool operator==(const It &o) const { return i == o.i; }
    bool operator!=(const It &o) const { return i != o.i; }
    Elem operator*() const { return s->at(i); }
  };
  typedef It iterator;
  typedef It const_iterator;
  Str() : changedAt(~uint64_t(0)), changed{0} {
    for (int i = 0; i < kPieces; i++) lo[i] = hi[i] = 0;
  }
  static Str original() {
    Str s;
    s.hi[0] = gLen;
    return s;
  }
  size_t size() const {
    uint64_t n = 0;
    for (int i = 0; i < kPieces; i++) n += hi[i] - lo[i];
    return n;
  }
  bool empty() const { return size() == 0; }
  void reserve(size_t) {}
  void clear() { *this = Str(); }
  It begin() { return It{this, 0}; }
  It end() { return It{this, size()}; }
  It begin() const { return It{const_cast<Str *>(this), 0}; }
  It end() const { return It{const_cast<Str *>(this), size()}; }
  uint64_t idAt(uint64_t k) const {
    uint64_t before = 0, r = ~uint64_t(0);
    for (int i = 0; i < kPieces; i++) {
      const uint64_t n = hi[i] - lo[i];
      r = vf_ite(vand(k >= before, k < before + n), lo[i] + (k - before), r);
      before += n;
    }
    return vf_ite(k == changedAt, changed.id, r);
  }
  Elem at(uint64_t k) const {
    vf_check(k < size(), "no element outside the container is accessed");
    return Elem{idAt(k)};
  }
  struct Ref {
    Str *s;
    uint64_t k;
    operator Elem() const { return s->at(k); }
    Ref &operator=(const Elem &e) {
      vf_check(k < s->size(), "no element outside the container is accessed");
      vf_check(vor(s->changedAt == ~uint64_t(0), s->changedAt == k), "at most one element is replaced");
      s->changedAt = k;
      s->changed = e;
      return *this;
    }
  };
  Ref operator[](size_t k) { return Ref{this, k}; }
  Elem operator[](size_t k) const { return at(k); }
  It insert(It at, It from, It to) { // appends a range of the original
    vf_check(at.i == size(), "ranges are appended");
    vf_check(vand(from.i <= to.i, to.i <= from.s->size()), "a range of the container is copied");
    vf_check(vand(from.s->hi[0] == gLen, from.s->changedAt == ~uint64_t(0)), "the original is copied");
    for (int i = 0; i < kPieces; i++)
      if (lo[i] == hi[i] && (i == kPieces - 1 || restEmpty(i))) {
        lo[i] = from.i;
        hi[i] = to.i;
        return at;
      }
    vf_check(false, "no more pieces than expected");
    return at;
  }
  bool restEmpty(int i) const {
    for (int j = i; j < kPieces; j++)
      if (lo[j] != hi[j]) return false;
    return true;
  }
};
inline Str::It begin(const Str &s) { return s.begin(); }
inline Str::It end(const Str &s) { return s.end(); }
VF_ENTRY(remove_chunks) {
  gLen = vf_u64("length");
  vf_assume(gLen < (uint64_t(1) << 62));
  Seq<Str> s = shrink::removeChunks(Str::original());
  uint64_t size = gLen, start = 0;
  while (vf_bool("more")) {
    Maybe<Str> v = s.next();
    vf_check(!!v == (size > 0), "chunks of every size from the whole down to one element are removed");
    if (!v) {
      vf_check(!s.next(), "an ended sequence stays ended");
      vf_reach("after the last chunk");
      break;
    }
    vf_check(v->size() == gLen - size, "a chunk is removed");
    const uint64_t k = vf_u64("k");
    vf_check(vor(k >= gLen - size, v->idAt(k) == vf_ite(k < start, k, k + size)), "the elements around the chunk are kept in order");
    if (start + size < gLen) start++;
    else {
      size--;
      start = 0;
    }
  }
}
// the shrinks of element k, any number of them
static uint64_t gAsked, gGiven, gLast, gCount, gPos; // elements asked for, shrinks given, the last one, of the current element
struct ElemShrinks {
  typedef Elem ValueType;
  uint64_t k;
  Maybe<Elem> operator()() {
    vf_check(k + 1 == gAsked, "the shrinks of earlier elements are not taken again");
    if (gPos >= gCount) return Nothing;
    gLast = kOther + vf_uf("shrink", 62, 2, k, gPos);
    gPos++;
    gGiven++;
    return Elem{gLast};
  }
};
static Seq<Elem> shrinkElem(const Elem &e) {
  vf_check(e.id == gAsked, "every element is shrunk once, in order");
  vf_check(gPos >= gCount, "the shrinks of an element are taken to the end");
  gAsked++;
  gCount = vf_uf("shrinks", 40, 1, e.id);
  gPos = 0;
  return makeSeq<ElemShrinks>(ElemShrinks{e.id});
}
VF_ENTRY(each_element) {
  gLen = vf_u64("length");
  vf_assume(gLen < (uint64_t(1) << 60));
  gAsked = gGiven = gLast = gCount = gPos = 0;
  Seq<Str> s = shrink::eachElement(Str::original(), &shrinkElem);
  uint64_t n = 0;
  while (vf_bool("more")) {
    Maybe<Str> v = s.next();
    if (!v) {
      vf_check(gAsked == gLen, "the shrinks of every element are used");
      vf_check(gPos >= gCount, "the shrinks of every element are used to the end");
      vf_check(gGiven == n, "no shrink of an element is skipped");
      vf_check(!s.next(), "an ended sequence stays ended");
      vf_reach("after the last element");
      break;
    }
    n++;
    vf_check(gGiven == n, "every shrink of an element is used once");
    vf_check(v->size() == gLen, "the length is kept");
    const uint64_t k = vf_u64("k");
    vf_check(vor(k >= gLen, v->idAt(k) == vf_ite(k + 1 == gAsked, gLast, k)), "exactly the element being shrunk is replaced, by its shrink");
  }
}

// ---- characters ----
//@ assume: std::islower/std::tolower in the classic locale classify ASCII letters only
template <typename T> static bool islowerStub(T c, const std::locale &) { return vand(c >= 'a', c <= 'z'); }
template <typename T> static T tolowerStub(T c, const std::locale &) { return vand(c >= 'A', c <= 'Z') ? static_cast<T>(c + 32) : c; }
static void locales() {
  vf_contract("bool std::islower<char>(", reinterpret_cast<void *>(&islowerStub<char>), 0);
  vf_contract("bool std::islower<wchar_t>(", reinterpret_cast<void *>(&islowerStub<wchar_t>), 0);
  vf_contract("char std::tolower<char>(", reinterpret_cast<void *>(&tolowerStub<char>), 0);
  vf_contract("wchar_t std::tolower<wchar_t>(", reinterpret_cast<void *>(&tolowerStub<wchar_t>), 0);
}
// a shrink tree of a non-null character: its shrinks are the simpler characters
// (C02), none is null or the character itself, and each is again such a tree
template <typename T>
static void characterTree(const Shrinkable<T> &s) {
  const T v = s.value();
  vf_check(v != 0, "no character is null");
  Seq<Shrinkable<T>> kids = s.shrinks();
  Seq<T> want = shrink::character<T>(v);
  while (true) {
    Maybe<Shrinkable<T>> k = kids.next();
    Maybe<T> w = want.next();
    vf_check(!!k == !!w, "the shrinks of a character are the simpler characters");
    if (!k) break;
    const T x = k->value();
    vf_check(x == *w, "the shrinks of a character are the simpler characters");
    vf_check(vand(x != 0, x != v), "no shrink of a character is null or the character itself");
    Maybe<Shrinkable<T>> k2 = k->shrinks().next();
    Maybe<T> w2 = shrink::character<T>(x).next();
    vf_check(!!k2 == !!w2, "the shrinks of a shrink are its simpler characters");
    if (k2) vf_check(k2->value() == *w2, "the shrinks of a shrink are its simpler characters");
  }
}
template <typename T>
static void character() {
  locales();
  vf_cut_after(20);
  const Random r = vr_any("random");
  const Random r0 = r;
  const Shrinkable<T> s = gen::character<T>()(r, vf_int("size"));
  vf_check(r == r0, "the caller's engine is untouched");
  characterTree(s);
}
VF_ENTRY(character_char) { character<char>(); }
VF_ENTRY(character_wchar) { character<wchar_t>(); }

// ---- strings ----
// push_back and reserve of a library string by their contracts, in generation
static uint64_t gPushed;
template <typename S>
static void pushStub(S *, typename S::value_type c) {
  vf_check(c != 0, "no character of a generated string is null");
  gPushed++;
}
template <typename S>
static void reserveStub(S *, size_t) {}
struct Length {
  uint64_t size;
  static bool inv(void *p) { return gPushed <= static_cast<Length *>(p)->size; }
};
template <typename S>
static void generated(const char *push, const char *reserve) {
  if (!vf_symbolic()) return;
  const Random r = vr_any("random");
  const Random r0 = r;
  const int size = vf_int("size");
  vf_assume(vand(size >= 0, size < 2147483647));
  gPushed = 0;
  Length len{static_cast<uint64_t>(size)};
  vf_invariant("length", &Length::inv, &len);
  vf_contract(push, reinterpret_cast<void *>(&pushStub<S>), 0);
  vf_contract(reserve, reinterpret_cast<void *>(&reserveStub<S>), 0);
  const Shrinkable<S> s = gen::string<S>()(r, size);
  vf_contracts_clear();
  vf_check(r == r0, "the caller's engine is untouched");
  vf_check(gPushed <= static_cast<uint64_t>(size), "a generated string has at most size characters");
  vf_reach("generated");
}
//@ assume: C23 generated_*: basic_string::push_back appends exactly the given character (libstdc++); the bounded string_* contracts run the real one
#define STR(T) "std::__cxx11::basic_string<" T ", std::char_traits<" T ">, std::allocator<" T ">>::"
VF_ENTRY(generated_string) { generated<std::string>(STR("char") "push_back(", STR("char") "reserve("); }
VF_ENTRY(generated_wstring) { generated<std::wstring>(STR("wchar_t") "push_back(", STR("wchar_t") "reserve("); }
// the real thing, for strings of up to 2 characters
template <typename S>
static void isShrink(const Shrinkable<S> &kid, const S &want, bool deep) {
  const S x = kid.value();
  vf_check(x.size() == want.size(), "the shrinks are removals of chunks, then replacements of single characters");
  for (size_t i = 0; i < x.size(); i++) {
    vf_check(x[i] == want[i], "the shrinks are removals of chunks, then replacements of single characters");
    vf_check(x[i] != 0, "no shrink contains the null character");
  }
  if (!deep) return;
  Maybe<Shrinkable<S>> first = kid.shrinks().next();
  vf_check(!!first == (x.size() > 0), "a shrink is shrunk in turn");
  if (first) vf_check(first->value().empty(), "a shrink is shrunk in turn, the whole of it being removed first");
}
template <typename S>
static void tree(int most) {
  typedef typename S::value_type T;
  vf_bounded("strings of up to 2 characters (1 for wide ones)");
  locales();
  vf_cut_after(20);
  const Random r = vr_any("random");
  const int size = vf_pick("size", 0, most);
  const Shrinkable<S> s = gen::string<S>()(r, size);
  const S v = s.value();
  const size_t n = v.size();
  vf_check(n <= static_cast<size_t>(size), "a generated string has at most size characters");
  for (size_t i = 0; i < n; i++) vf_check(v[i] != 0, "no character of a generated string is null");
  Seq<Shrinkable<S>> kids = s.shrinks();
  for (size_t chunk = n; chunk > 0; chunk--)
    for (size_t at = 0; at + chunk <= n; at++) {
      S want;
      for (size_t i = 0; i < n; i++)
        if (i < at || i >= at + chunk) want.push_back(v[i]);
      Maybe<Shrinkable<S>> k = kids.next();
      vf_check(!!k, "every chunk is removed, from the largest down");
      isShrink(*k, want, true);
    }
  for (size_t i = 0; i < n; i++) {
    Seq<T> cs = shrink::character<T>(v[i]);
    while (Maybe<T> c = cs.next()) {
      S want = v;
      want[i] = *c;
      vf_check(*c != v[i], "no shrink equals the original");
      Maybe<Shrinkable<S>> k = kids.next();
      vf_check(!!k, "every character is replaced by each of its shrinks");
      isShrink(*k, want, false);
    }
  }
  vf_check(!kids.next(), "there are no other shrinks");
  vf_check(s.value() == v, "the value is kept");
}
VF_ENTRY(string_tree) { tree<std::string>(2); }
VF_ENTRY(wstring_tree) { tree<std::wstring>(1); }
