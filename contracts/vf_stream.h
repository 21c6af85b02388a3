// Abstract byte streams: an output iterator that checks every byte against the
// specification's next byte, and an input iterator that supplies them.
#pragma once
#include "vf.h"
#include <iterator>
// A ghost G has: uint64_t pos; uint8_t cur(); void step(); bool done();
template <typename G>
struct OutIt {
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  G *g;
  uint64_t pos;
  struct Ref {
    G *g;
    uint64_t pos;
    template <typename V>
    void operator=(const V &v) const {
      vf_check(pos == g->pos, "bytes are written in order, each once");
      vf_check(!g->done(), "nothing is written after the last byte of the encoding");
      vf_check(static_cast<uint8_t>(v) == g->cur(), "each byte is the next byte of the encoding");
      g->step();
      g->pos++;
    }
  };
  Ref operator*() const { return Ref{g, pos}; }
  OutIt &operator++() { pos++; return *this; }
  OutIt operator++(int) { OutIt o(*this); pos++; return o; }
};
template <typename G>
struct InIt {
  typedef std::forward_iterator_tag iterator_category;
  typedef uint8_t value_type; typedef std::ptrdiff_t difference_type; typedef const uint8_t *pointer; typedef uint8_t reference;
  G *g;
  uint64_t pos;
  bool isEnd;
  uint8_t operator*() const {
    vf_check(!isEnd, "the end of the input is never read");
    if (pos == g->pos) {
      vf_check(!g->done(), "only the bytes of the encoding are read");
      return g->cur();
    }
    vf_check(pos < g->pos, "bytes are read in order");
    return static_cast<uint8_t>(vf_uf("earlier byte", 8, 1, pos));
  }
  InIt &operator++() {
    if (pos == g->pos) {
      vf_check(!g->done(), "the input is not advanced past the encoding");
      g->step();
      g->pos++;
    }
    pos++;
    return *this;
  }
  InIt operator++(int) { InIt o(*this); ++*this; return o; }
  bool operator==(const InIt &o) const {
    const InIt &a = isEnd ? o : *this;
    if (a.isEnd) return true;
    if (!isEnd && !o.isEnd) return pos == o.pos;
    if (a.pos == g->pos && g->done()) return vf_uf("at the end of the input", 1, 1, a.pos) != 0; // anything may follow
    return false;
  }
  bool operator!=(const InIt &o) const { return !(*this == o); }
};
inline uint8_t vs_group(uint64_t rem) { return static_cast<uint8_t>((rem & 0x7f) | ((rem >> 7) != 0 ? 0x80 : 0)); }
