// C08 configuration text
#include <map>
#include <string>
#include "vf.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/MapParser.h"
#include "detail/ParseException.h"
//@ sources: src/detail/MapParser.cpp src/detail/ParseException.cpp src/detail/Configuration.cpp src/detail/TestParams.cpp src/detail/Results.cpp src/detail/StringSerialization.cpp src/detail/Base64.cpp src/detail/Serialization.cpp src/detail/Platform.cpp src/Random.cpp src/Show.cpp src/detail/TestMetadata.cpp
//@ model: iomodel.cpp
using namespace rc::detail;
typedef std::map<std::string, std::string> Map;
// text of a length picked, of arbitrary characters
static std::string anyText(const char *name, int least, int most) {
  const int n = vf_pick(name, least, most);
  std::string s(static_cast<size_t>(n), 'x');
  for (int i = 0; i < n; i++) s[static_cast<size_t>(i)] = static_cast<char>(vf_int(name) & 0xFF);
  return s;
}
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool eq = true;
  for (size_t i = 0; i < a.size(); i++) eq = vand(eq, a[i] == b[i]);
  return eq;
}
static void setUp() {
  vf_nocut();
  vf_unroll(200);
}
static void roundTrips(const Map &m) {
  const std::string text = mapToString(m, vf_bool("double quotes"));
  const Map back = parseMap(text);
  vf_check(back.size() == m.size(), "no pair is lost or made up");
  auto i = m.begin();
  for (const auto &p : back) {
    vf_check(same(p.first, i->first), "keys are read back as they were");
    vf_check(same(p.second, i->second), "values are read back as they were");
    ++i;
  }
}
VF_ENTRY(map_one) {
  vf_bounded("one pair, a key of 1 or 2 and a value of up to 2 arbitrary characters");
  setUp();
  Map m;
  m[anyText("key", 1, 2)] = anyText("value", 0, 2);
  roundTrips(m);
  vf_reach("read back");
}
VF_ENTRY(map_value) {
  vf_bounded("one pair, a value of up to 4 arbitrary characters");
  setUp();
  Map m;
  m["k"] = anyText("value", 3, 4);
  roundTrips(m);
  vf_reach("read back");
}
VF_ENTRY(map_two) {
  vf_bounded("two pairs, keys of 1 and values of up to 1 arbitrary character");
  setUp();
  Map m;
  m[anyText("key", 1, 1)] = anyText("value", 0, 1);
  m[anyText("key", 1, 1)] = anyText("value", 0, 1);
  roundTrips(m);
  vf_reach("read back");
}
VF_ENTRY(map_empty) {
  vf_check(mapToString(Map()).empty() && parseMap("").empty(), "the empty map is the empty text");
  vf_reach("read back");
}
// The format: pairs `key` or `key = value`, separated by white space; keys and
// values are quoted, or run up to white space (keys: or '='). In quotes, a
// backslash makes the next character literal. An empty key ends the map.
struct Format {
  const std::string &t;
  size_t at;
  bool unterminated;
  void space() { while (at < t.size() && blankAt()) at++; }
  bool blankAt() const { return t[at] == ' ' || (t[at] >= 9 && t[at] <= 13); }
  std::string word(bool key) {
    std::string w;
    if (at < t.size() && (t[at] == '"' || t[at] == '\'')) {
      const char q = t[at];
      for (at++; at < t.size(); at++) {
        if (t[at] == q) {
          at++;
          return w;
        }
        if (t[at] == '\\') {
          at++;
          if (at == t.size()) break;
        }
        w += t[at];
      }
      unterminated = true;
      return w;
    }
    while (at < t.size() && !blankAt() && !(key && t[at] == '=')) w += t[at++];
    return w;
  }
  Map read() {
    Map m;
    while (!unterminated) {
      space();
      const std::string k = word(true);
      if (k.empty()) break;
      space();
      std::string v;
      if (!unterminated && at < t.size() && t[at] == '=') {
        at++;
        space();
        v = word(false);
      }
      if (!unterminated) m[k] = v;
    }
    return m;
  }
};
VF_ENTRY(parse) {
  vf_bounded("texts of up to 5 arbitrary characters");
  setUp();
  const std::string text = anyText("text", 0, 5);
  bool failed = false;
  Map m;
  try {
    m = parseMap(text);
  } catch (const ParseException &e) {
    failed = true;
    vf_check(e.position() <= text.size(), "the position of the error is in the text");
    vf_reach("error");
  }
  Format f{text, 0, false};
  const Map is = f.read();
  vf_check(failed == f.unterminated, "exactly malformed text is rejected");
  if (failed) return;
  vf_check(m.size() == is.size(), "the pairs read are those of the text");
  auto i = is.begin();
  for (const auto &p : m) {
    vf_check(vand(same(p.first, i->first), same(p.second, i->second)), "the pairs read are those of the text");
    ++i;
  }
  vf_reach("parsed");
}

// ---- configurations ----
static Configuration anyConfig() {
  Configuration c;
  c.testParams.seed = vf_u64("seed");
  c.testParams.maxSuccess = vf_int("max_success");
  c.testParams.maxSize = vf_int("max_size");
  c.testParams.maxDiscardRatio = vf_int("max_discard_ratio");
  c.testParams.disableShrinking = vf_bool("noshrink");
  c.verboseProgress = vf_bool("verbose_progress");
  c.verboseShrinking = vf_bool("verbose_shrinking");
  return c;
}
static const char *const kKeys[7] = {"seed", "max_success", "max_size", "max_discard_ratio", "noshrink", "verbose_progress", "verbose_shrinking"};
static uint64_t fieldOf(const Configuration &c, int k) {
  switch (k) {
  case 0: return c.testParams.seed;
  case 1: return static_cast<uint64_t>(static_cast<int64_t>(c.testParams.maxSuccess));
  case 2: return static_cast<uint64_t>(static_cast<int64_t>(c.testParams.maxSize));
  case 3: return static_cast<uint64_t>(static_cast<int64_t>(c.testParams.maxDiscardRatio));
  case 4: return c.testParams.disableShrinking;
  case 5: return c.verboseProgress;
  default: return c.verboseShrinking;
  }
}
static bool blank(char c) { return vor(c == ' ', vand(c >= 9, c <= 13)); }
static bool digit(char c) { return vand(c >= '0', c <= '9'); }
// [sign] digits, all of the text
static bool isNumber(const std::string &t, bool &neg, uint64_t &mag) {
  size_t i = 0;
  neg = false;
  mag = 0;
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) {
    neg = t[i] == '-';
    i++;
  }
  if (i == t.size()) return false;
  for (; i < t.size(); i++) {
    if (!digit(t[i])) return false;
    mag = mag * 10 + static_cast<uint64_t>(t[i] - '0');
  }
  return true;
}
static void oneKey(int least, int most) {
  setUp();
  const int k = vf_pick("which", least, most);
  const std::string text = anyText("text", 0, 3);
  for (char c : text) vf_assume(!blank(c)); // around a number, blanks may be accepted or not
  const Configuration before = anyConfig();
  Map m;
  m[kKeys[k]] = text;
  bool rejected = false;
  Configuration after;
  try {
    after = configFromString(mapToString(m), before);
  } catch (const ConfigurationException &) {
    rejected = true;
  }
  bool neg;
  uint64_t mag;
  const bool number = isNumber(text, neg, mag);
  if (rejected) {
    vf_check(!number || (k > 0 && neg && mag != 0) || (k > 3 && (mag > 1 || text.size() != 1)), "documented values are accepted");
    vf_reach("rejected");
    return;
  }
  vf_check(number, "text that is not a number is rejected");
  if (k > 0) vf_check(!neg || mag == 0, "negative numbers are rejected");
  if (k > 3) vf_check(mag <= 1, "switches are 0 or 1");
  for (int j = 0; j < 7; j++)
    if (j != k) vf_check(fieldOf(after, j) == fieldOf(before, j), "nothing else is changed");
  vf_check(fieldOf(after, k) == (neg ? 0 - mag : mag), "the value is the one given");
  vf_check(after.reproduce.empty(), "nothing else is changed");
  vf_reach("accepted");
}
VF_ENTRY(key_seed) {
  vf_bounded("values of up to 3 characters other than white space");
  oneKey(0, 0);
}
VF_ENTRY(key_number) {
  vf_bounded("values of up to 3 characters other than white space");
  oneKey(1, 3);
}
VF_ENTRY(key_switch) {
  vf_bounded("values of up to 3 characters other than white space");
  oneKey(4, 6);
}
VF_ENTRY(no_key) {
  vf_bounded("an unknown key of 1 to 3 letters, with up to 1 arbitrary character");
  setUp();
  Map m;
  const std::string key = anyText("key", 1, 3);
  m[key] = anyText("value", 0, 1);
  const Configuration before = anyConfig();
  const Configuration after = configFromString(mapToString(m), before);
  for (int j = 0; j < 7; j++) vf_check(fieldOf(after, j) == fieldOf(before, j), "nothing is changed without its key");
  vf_reach("unchanged");
}
// one field arbitrary within a bound, the others as given
static void vary(Configuration &c, int below) {
  switch (vf_pick("which", 0, 6)) {
  case 0:
    c.testParams.seed = vf_u64("seed");
    vf_assume(c.testParams.seed < static_cast<uint64_t>(below));
    break;
  case 1: c.testParams.maxSuccess = vf_range("max_success", 0, below - 1); break;
  case 2: c.testParams.maxSize = vf_range("max_size", 0, below - 1); break;
  case 3: c.testParams.maxDiscardRatio = vf_range("max_discard_ratio", 0, below - 1); break;
  case 4: c.testParams.disableShrinking = vf_pick("noshrink", 0, 1) != 0; break;
  case 5: c.verboseProgress = vf_pick("verbose_progress", 0, 1) != 0; break;
  default: c.verboseShrinking = vf_pick("verbose_shrinking", 0, 1) != 0; break;
  }
}
static void isReadBack(const Configuration &c, const Configuration &back) {
  for (int j = 0; j < 7; j++) vf_check(fieldOf(back, j) == fieldOf(c, j), "a configuration is read back as it was");
  vf_check(back.reproduce.empty(), "a configuration is read back as it was");
}
VF_ENTRY(config) {
  vf_bounded("one field arbitrary (numbers below 100), the others fixed, nothing to reproduce");
  setUp();
  Configuration c;
  c.testParams.seed = ~uint64_t(0);
  c.testParams.maxSuccess = 2147483647;
  c.testParams.maxSize = 0;
  c.testParams.maxDiscardRatio = 1;
  c.testParams.disableShrinking = c.verboseProgress = c.verboseShrinking = true;
  vary(c, 100);
  isReadBack(c, configFromString(configToString(c), anyConfig()));
  vf_reach("read back");
}
VF_ENTRY(config_minimal) {
  vf_bounded("one field arbitrary (numbers below 100), the others fixed, nothing to reproduce");
  setUp();
  Configuration c;
  vary(c, 100);
  isReadBack(c, configFromString(configToMinimalString(c)));
  vf_reach("read back");
}
VF_ENTRY(config_reproduce) {
  vf_bounded("one property to reproduce, a name of up to 2 arbitrary characters");
  setUp();
  Configuration c;
  Reproduce r;
  r.random = rc::Random(vf_u64("seed"));
  r.size = vf_range("size", 0, 255);
  c.reproduce[anyText("name", 0, 2)] = r;
  const Configuration back = configFromString(configToMinimalString(c));
  vf_check(back.reproduce == c.reproduce, "what to reproduce is read back as it was");
  vf_reach("read back");
}
VF_ENTRY(key_reproduce) {
  vf_bounded("values of up to 3 characters other than white space");
  setUp();
  const std::string text = anyText("text", 0, 3);
  for (char c : text) vf_assume(!blank(c));
  const Configuration before = anyConfig();
  Map m;
  m["reproduce"] = text;
  try {
    const Configuration after = configFromString(mapToString(m), before);
    for (int j = 0; j < 7; j++) vf_check(fieldOf(after, j) == fieldOf(before, j), "nothing else is changed");
    vf_reach("accepted");
  } catch (const ConfigurationException &) {
    vf_reach("rejected");
  }
}
