// Trusted model of the machine code of iostreams: string streams, and the
// formatted output and input of characters, strings, integers, booleans and
// pointers in the classic locale. Linked into the bitcode the engine verifies;
// never into native replays. Everything that is inline in the library's
// headers (flags, manipulators, operator<< for text) is verified as compiled.
#include <cstddef>
#include <cstdint>
#include <new>
#include <string>
typedef std::string Str;
namespace {
struct Ios { // std::basic_ios<char>
  void *vptr;
  long precision, width;
  int flags, exceptions, state;
  char rest[216 - 36];
  void *tie;
  char fill;
  bool fillInit;
};
static_assert(sizeof(Ios) <= 264, "layout");
struct Buf { // in place of the stream buffer
  Str text;
  std::size_t pos;
};
static_assert(sizeof(Buf) <= 104, "layout");
// tables with the offset of the virtual base
const long kOut[4] = {112, 0, 0, 0}, kIn[4] = {120, 0, 0, 0}, kPlain[4] = {8, 0, 0, 0};
enum { kBoolalpha = 1, kDec = 2, kHex = 8, kLeft = 32, kOct = 64, kShowbase = 512, kShowpos = 2048, kUpper = 16384, kSkipws = 4096 };
enum { kBad = 1, kEof = 2, kFail = 4 };
Ios &iosOf(void *os) { return *reinterpret_cast<Ios *>(static_cast<char *>(os) + (*static_cast<const long **>(os))[-3]); }
bool isString(void *os) { return (*static_cast<const long **>(os))[-3] != 8; }
Buf &bufOf(void *os) { return *reinterpret_cast<Buf *>(static_cast<char *>(os) + (*static_cast<const long **>(os))[-3] - 104); }
void initIos(Ios &i, int flags) {
  i.vptr = nullptr;
  i.precision = 6;
  i.width = 0;
  i.flags = flags;
  i.exceptions = 0;
  i.state = 0;
  i.tie = nullptr;
  i.fill = ' ';
  i.fillInit = true;
}
void raw(void *os, const char *p, std::size_t n) {
  if (isString(os)) bufOf(os).text.append(p, n);
}
void insert(void *os, const char *p, std::size_t n) {
  Ios &i = iosOf(os);
  const long w = i.width;
  i.width = 0;
  if (w <= static_cast<long>(n)) {
    raw(os, p, n);
    return;
  }
  if (i.flags & kLeft) raw(os, p, n);
  for (long k = static_cast<long>(n); k < w; k++) raw(os, &i.fill, 1);
  if (!(i.flags & kLeft)) raw(os, p, n);
}
void number(void *os, unsigned long mag, bool neg, bool isSigned) {
  char b[72];
  int at = 72;
  const int f = iosOf(os).flags;
  const unsigned long base = (f & kHex) ? 16 : (f & kOct) ? 8 : 10;
  const bool zero = mag == 0;
  do {
    const unsigned long d = mag % base;
    b[--at] = static_cast<char>(d < 10 ? '0' + d : (f & kUpper ? 'A' : 'a') + (d - 10));
    mag /= base;
  } while (mag != 0);
  if ((f & kShowbase) && !zero && base == 16) {
    b[--at] = f & kUpper ? 'X' : 'x';
    b[--at] = '0';
  }
  if ((f & kShowbase) && !zero && base == 8) b[--at] = '0';
  if (neg) b[--at] = '-';
  else if ((f & kShowpos) && base == 10 && isSigned) b[--at] = '+';
  insert(os, b + at, static_cast<std::size_t>(72 - at));
}
void signedNumber(void *os, long v, unsigned long asUnsigned) {
  if (iosOf(os).flags & (kHex | kOct)) number(os, asUnsigned, false, false);
  else if (v < 0) number(os, 0 - static_cast<unsigned long>(v), true, true);
  else number(os, static_cast<unsigned long>(v), false, true);
}
bool blank(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
bool sentry(void *is) { // skips white space
  Ios &i = iosOf(is);
  Buf &b = bufOf(is);
  if (i.state != 0) {
    i.state |= kFail;
    return false;
  }
  if (i.flags & kSkipws) {
    while (b.pos < b.text.size() && blank(b.text[b.pos])) b.pos++;
    if (b.pos >= b.text.size()) {
      i.state |= kEof | kFail;
      return false;
    }
  }
  return true;
}
// reads [sign] digits; false if there is no number or it does not fit
bool digits(void *is, bool &neg, unsigned long &mag, bool &over) {
  Buf &b = bufOf(is);
  neg = false;
  mag = 0;
  over = false;
  bool any = false;
  if (b.pos < b.text.size() && (b.text[b.pos] == '-' || b.text[b.pos] == '+')) {
    neg = b.text[b.pos] == '-';
    b.pos++;
  }
  while (b.pos < b.text.size() && b.text[b.pos] >= '0' && b.text[b.pos] <= '9') {
    const unsigned long d = static_cast<unsigned long>(b.text[b.pos] - '0');
    if (mag > (~0ul - d) / 10) over = true;
    mag = mag * 10 + d;
    any = true;
    b.pos++;
  }
  if (b.pos >= b.text.size()) iosOf(is).state |= kEof;
  return any;
}
long readLong(void *is) {
  bool neg, over;
  unsigned long mag;
  if (!digits(is, neg, mag, over)) {
    iosOf(is).state |= kFail;
    return 0;
  }
  const unsigned long most = neg ? 1ul << 63 : (1ul << 63) - 1;
  if (over || mag > most) {
    iosOf(is).state |= kFail;
    return neg ? INT64_MIN : INT64_MAX;
  }
  return neg ? static_cast<long>(0 - mag) : static_cast<long>(mag);
}
} // namespace
struct FakeOs {
  const long *vptr;
  Ios ios;
};
extern "C" {
#define OSS "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE"
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev(void *os) {
  *static_cast<const long **>(os) = kOut + 3;
  initIos(iosOf(os), kDec | kSkipws);
  new (&bufOf(os)) Buf();
}
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev(void *os) { bufOf(os).~Buf(); }
Str _ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void *os) { return bufOf(os).text; }
void _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode(void *is, const Str &text, int) {
  *static_cast<const long **>(is) = kIn + 3;
  initIos(iosOf(is), kDec | kSkipws);
  Buf *b = new (&bufOf(is)) Buf();
  b->text = text;
  b->pos = 0;
}
void _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev(void *is) { bufOf(is).~Buf(); }
FakeOs _ZSt4cerr = {kPlain + 3, {}}, _ZSt4cout = {kPlain + 3, {}};
void *_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void *os, const char *p, long n) {
  insert(os, p, static_cast<std::size_t>(n));
  return os;
}
void *_ZNSo3putEc(void *os, char c) {
  raw(os, &c, 1);
  return os;
}
void *_ZNSo5writeEPKcl(void *os, const char *p, long n) {
  raw(os, p, static_cast<std::size_t>(n));
  return os;
}
void *_ZNSo5flushEv(void *os) { return os; }
void *_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void *os) {
  const char c = '\n';
  raw(os, &c, 1);
  return os;
}
void *_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void *os) { return os; }
void *_ZNSolsEi(void *os, int v) {
  signedNumber(os, v, static_cast<unsigned>(v));
  return os;
}
void *_ZNSolsEs(void *os, short v) {
  signedNumber(os, v, static_cast<unsigned short>(v));
  return os;
}
void *_ZNSo9_M_insertIlEERSoT_(void *os, long v) {
  signedNumber(os, v, static_cast<unsigned long>(v));
  return os;
}
void *_ZNSo9_M_insertIxEERSoT_(void *os, long long v) {
  signedNumber(os, v, static_cast<unsigned long>(v));
  return os;
}
void *_ZNSo9_M_insertImEERSoT_(void *os, unsigned long v) {
  number(os, v, false, false);
  return os;
}
void *_ZNSo9_M_insertIyEERSoT_(void *os, unsigned long long v) {
  number(os, v, false, false);
  return os;
}
void *_ZNSo9_M_insertIbEERSoT_(void *os, bool v) {
  if (iosOf(os).flags & kBoolalpha) insert(os, v ? "true" : "false", v ? 4 : 5);
  else signedNumber(os, v, v);
  return os;
}
void *_ZNSo9_M_insertIPKvEERSoT_(void *os, const void *p) {
  Ios &i = iosOf(os);
  const int f = i.flags;
  i.flags = (f & ~(kDec | kOct | kUpper)) | kHex | kShowbase;
  number(os, reinterpret_cast<unsigned long>(p), false, false);
  i.flags = f;
  return os;
}
void _ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate(Ios *i, int state) { i->state = state; }
// character classes of the classic locale
bool _ZSt7isspaceIcEbT_RKSt6locale(char c, const void *) { return blank(c); }
bool _ZSt7isprintIcEbT_RKSt6locale(char c, const void *) { return (c >= 32) & (c < 127); }
// input
void *_ZNSi10_M_extractImEERSiRT_(void *is, unsigned long &v) {
  if (!sentry(is)) return is;
  bool neg, over;
  unsigned long mag;
  if (!digits(is, neg, mag, over)) {
    v = 0;
    iosOf(is).state |= kFail;
  } else if (over) {
    v = ~0ul;
    iosOf(is).state |= kFail;
  } else
    v = neg ? 0 - mag : mag;
  return is;
}
void *_ZNSi10_M_extractIlEERSiRT_(void *is, long &v) {
  if (sentry(is)) v = readLong(is);
  return is;
}
void *_ZNSirsERi(void *is, int &v) {
  if (!sentry(is)) return is;
  const long l = readLong(is);
  if (l < INT32_MIN) {
    v = INT32_MIN;
    iosOf(is).state |= kFail;
  } else if (l > INT32_MAX) {
    v = INT32_MAX;
    iosOf(is).state |= kFail;
  } else
    v = static_cast<int>(l);
  return is;
}
void *_ZNSi10_M_extractIbEERSiRT_(void *is, bool &v) {
  if (!sentry(is)) return is;
  const long l = readLong(is);
  if (l == 0 || l == 1) v = l == 1;
  else {
    v = true;
    iosOf(is).state |= kFail;
  }
  return is;
}
int _ZNSi4peekEv(void *is) {
  Ios &i = iosOf(is);
  Buf &b = bufOf(is);
  if (i.state != 0) return -1;
  if (b.pos < b.text.size()) return static_cast<unsigned char>(b.text[b.pos]);
  i.state |= kEof;
  return -1;
}
int _ZNSi3getEv(void *is) {
  Ios &i = iosOf(is);
  Buf &b = bufOf(is);
  if (i.state == 0 && b.pos < b.text.size()) return static_cast<unsigned char>(b.text[b.pos++]);
  i.state |= i.state == 0 ? kEof | kFail : kFail;
  return -1;
}
void *_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_(void *is) {
  Buf &b = bufOf(is);
  while (b.pos < b.text.size() && blank(b.text[b.pos])) b.pos++;
  if (b.pos >= b.text.size()) iosOf(is).state |= kEof;
  return is;
}
}
