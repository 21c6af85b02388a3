// Abstract test cases: trees of case descriptions whose outcome, message,
// tags and example are uninterpreted functions of the node.
#pragma once
#include <cstring>
#include "vf_gen.h"
#include "detail/Testing.h"
namespace rcd = rc::detail;
typedef rc::Shrinkable<rcd::CaseDescription> CaseShr;
inline std::string idText(uint64_t id) { return std::string(reinterpret_cast<const char *>(&id), 8); }
inline uint64_t textId(const std::string &s) {
  uint64_t id;
  vf_check(s.size() == 8, "the text is unchanged");
  memcpy(&id, s.data(), 8);
  return id;
}
enum { kSuccess, kFailure, kDiscard };
inline uint64_t outcomeOf(uint64_t id) { // 0, 1 or 2
  const uint64_t o = vf_uf("outcome", 2, 1, id);
  vf_assume(o < 3);
  return o;
}
inline bool taggedCase(uint64_t id) { return vf_uf("tagged", 1, 1, id) != 0; }
inline rcd::CaseDescription caseOf(uint64_t id) {
  rcd::CaseDescription d;
  const uint64_t o = outcomeOf(id);
  d.result.type = o == kSuccess ? rcd::CaseResult::Type::Success : o == kFailure ? rcd::CaseResult::Type::Failure : rcd::CaseResult::Type::Discard;
  d.result.description = idText(id);
  if (taggedCase(id)) d.tags.push_back(idText(id));
  d.example = [id] { return rcd::Example{{idText(id), idText(~id)}}; };
  return d;
}
inline void isCase(const rcd::CaseDescription &d, uint64_t id) {
  vf_check(textId(d.result.description) == id, "the case reported is the case run");
}
inline void isExample(const rcd::Example &e, uint64_t id) {
  vf_check(e.size() == 1 && textId(e[0].first) == id && textId(e[0].second) == ~id, "the counterexample is the one of the case");
}
