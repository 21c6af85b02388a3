// C18 outcomes of a case
#include <sstream>
#include <stdexcept>
#include "rapidcheck.h"
#include "rapidcheck/detail/Property.h"
#include "vf.h"
//@ sources: src/detail/Property.cpp src/detail/Assertions.cpp src/detail/Results.cpp src/detail/PropertyContext.cpp src/detail/ImplicitParam.cpp src/Classify.cpp src/Log.cpp src/GenerationFailure.cpp src/gen/detail/GenerationHandler.cpp src/gen/detail/ExecHandler.cpp src/gen/detail/Recipe.cpp src/detail/Any.cpp src/Show.cpp
//@ replace: src/Random.cpp absrandom.cpp
//@ model: iomodel.cpp
using namespace rc;
using namespace rc::detail;
typedef CaseResult::Type Type;

static Type typeOf(int t) { return t == 0 ? Type::Success : t == 1 ? Type::Failure : Type::Discard; }
static std::string text(const char *name) { // 2 arbitrary characters
  std::string s;
  s += vf_any<char>(name);
  s += vf_any<char>(name);
  return s;
}
// what the results reported so far amount to
struct Combined {
  Type type;
  int n;
  std::string messages[5];
  Combined() : type(Type::Success), n(0) {}
  void only(const std::string &m) {
    messages[0] = m;
    n = 1;
  }
  void report(Type t, const std::string &m) {
    if (type == Type::Discard) return; // a discard overrides everything; the first one is kept
    if (t == Type::Discard) {
      type = t;
      only(m);
    } else if (t == Type::Failure) { // failures override successes, and are all kept
      if (type == Type::Success) only(m);
      else {
        messages[n] = m;
        n++;
      }
      type = t;
    } else if (type == Type::Success) only(m); // the last success is kept
  }
  std::string description(const std::string &log) const {
    std::string d;
    for (int i = 0; i < n; i++) {
      if (i > 0) d += "\n\n";
      d += messages[i];
    }
    if (!log.empty()) d += "\n\nLog:\n" + log;
    return d;
  }
};
static void history(int most) {
  AdapterContext ctx;
  Combined model;
  std::string log;
  const int n = vf_pick("reports", 0, most);
  const bool logs = vf_pick("logs", 0, 1) != 0;
  for (int i = 0; i < n; i++) {
    const Type t = typeOf(vf_pick("type", 0, 2));
    const std::string m = text("message");
    vf_check(ctx.reportResult(CaseResult(t, m)), "a reported result is handled");
    model.report(t, m);
    if (logs && i == 0) {
      const std::string l = text("log");
      ctx.logStream() << l << 1;
      log += l + "1";
    }
  }
  const TaggedResult r = ctx.result();
  vf_check(r.result.type == model.type, "the outcome is a discard if there was one, else a failure if there was one");
  vf_check(r.result.description == model.description(log), "the messages of that kind are kept in order, and the log");
  vf_check(r.tags.empty(), "there are no other tags");
}
VF_ENTRY(history) {
  vf_bounded("up to 3 reports, messages of 2 characters");
  history(3);
}
//@ thorough: history_long
VF_ENTRY(history_long) {
  vf_bounded("up to 5 reports, messages of 2 characters");
  history(5);
}
// ---- one more report, in any state ----
struct MessagesG {
  std::vector<std::string> *v;
  int cleared, pushed;
  const std::string *msg;
};
static MessagesG *gMsgs;
static void clearStub(std::vector<std::string> *v) {
  vf_check(v == gMsgs->v && gMsgs->pushed == 0, "messages are only dropped before the new one is added");
  gMsgs->cleared++;
}
static void pushStub(std::vector<std::string> *v, const std::string &s) {
  vf_check(v == gMsgs->v && s == *gMsgs->msg, "the message added is the one reported");
  gMsgs->pushed++;
}
VF_ENTRY(report) {
  if (!vf_symbolic()) return;
  AdapterContext ctx;
  const int before = vf_pick("before", 0, 2), type = vf_pick("type", 0, 2);
  ctx.m_resultType = typeOf(before);
  const CaseResult r(typeOf(type), text("message"));
  MessagesG g{&ctx.m_messages, 0, 0, &r.description};
  gMsgs = &g;
#define MESSAGES "std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>::"
  vf_contract(MESSAGES "clear()", reinterpret_cast<void *>(&clearStub), 0);
  vf_contract(MESSAGES "push_back(", reinterpret_cast<void *>(&pushStub), 0);
  ctx.reportResult(r);
  vf_contracts_clear();
  vf_check(ctx.m_tags.empty(), "a result adds no tags");
  const bool kept = before == 2 || (before == 1 && type == 0); // the new one is overridden
  vf_check(ctx.m_resultType == (kept ? typeOf(before) : typeOf(type)), "discards override failures, which override successes");
  if (!ctx.m_messages.empty()) return; // added in another way: decided in small only
  vf_check(g.pushed == (kept ? 0 : 1), "the message is kept exactly if its kind wins");
  if (!kept) vf_check((g.cleared > 0) == (type != before || type == 0), "earlier messages are kept exactly among failures");
  else vf_check(g.cleared == 0, "a result that is overridden drops no message");
}
VF_ENTRY(result_tags) {
  vf_bounded("up to 2 tags");
  AdapterContext ctx;
  const int n = vf_pick("tags", 0, 2);
  std::string tags[2];
  for (int i = 0; i < n; i++) {
    tags[i] = text("tag");
    ctx.addTag(tags[i]);
  }
  for (int again = 0; again < 2; again++) {
    const TaggedResult r = ctx.result();
    vf_check(r.tags.size() == static_cast<size_t>(n), "every tag is carried into the result, once");
    for (int i = 0; i < n; i++) vf_check(r.tags[static_cast<size_t>(i)] == tags[i], "tags are carried over in order");
    vf_check(r.result.type == Type::Success && r.result.description.empty(), "tags are no results");
  }
}
// ---- how a body ends ----
static std::string gMessage; // what the body ends with
static int gEnd, gType, gReports[2];
static bool gDeep;
struct Odd {};
static CaseResult endsWith() {
  return CaseResult(typeOf(gType), gMessage);
}
static void during() { // reports, tags and log output on the way
  PropertyContext *ctx = ImplicitParam<param::CurrentPropertyContext>::value();
  for (int i = 0; i < 2; i++)
    if (gReports[i] < 3) ctx->reportResult(CaseResult(typeOf(gReports[i]), i == 0 ? "first" : "second"));
  if (gDeep) {
    RC_TAG("tag");
    rc::detail::log() << "line";
  }
  switch (gEnd) {
  case 1: throw endsWith();
  case 2: throw GenerationFailure(gMessage);
  case 3: throw std::runtime_error(gMessage);
  case 4: throw gMessage;
  case 5: throw Odd();
  case 6: throw 17;
  }
}
static void bodyVoid() { during(); }
static bool bodyBool() {
  during();
  return gEnd == 7;
}
static std::string bodyString() {
  during();
  return gMessage;
}
static CaseResult bodyResult() {
  during();
  return endsWith();
}
static void isOutcome(const TaggedResult &r, Type t, const std::string &message, bool contains) {
  Combined model;
  for (int i = 0; i < 2; i++)
    if (gReports[i] < 3) model.report(typeOf(gReports[i]), i == 0 ? "first" : "second");
  const std::string mark = "\x01";
  model.report(t, contains ? mark : message);
  vf_check(r.result.type == model.type, "the outcome is combined with the ones reported before");
  if (!contains) vf_check(r.result.description == model.description(gDeep ? "line" : ""), "the message is kept");
  else { // the message is somewhere in the description, the rest is as it should be
    const std::string want = model.description(gDeep ? "line" : ""), &got = r.result.description;
    const size_t at = want.find(mark);
    if (at == std::string::npos) vf_check(got == want, "the message is kept");
    else {
      const size_t rest = want.size() - at - 1;
      vf_check(got.size() >= at + rest + message.size(), "the message is kept");
      vf_check(got.compare(0, at, want, 0, at) == 0 && got.compare(got.size() - rest, rest, want, at + 1, rest) == 0, "the other messages and the log are kept");
      vf_check(got.find(message, at) != std::string::npos, "the message is kept");
    }
  }
  vf_check(r.tags.size() == (gDeep ? 1 : 0) && (!gDeep || r.tags[0] == "\"tag\""), "the tags are kept");
  vf_check(ImplicitParam<param::CurrentPropertyContext>::m_stack.size() == 0, "the context ends with the case");
}
template <typename R>
static void adapter(R (*body)(), int end, Type t, const std::string &message, bool contains) {
  const PropertyAdapter<R (*)(), R()> a(body);
  gEnd = end;
  isOutcome(a(), t, message, contains);
}
static void way(bool reports) {
  new (&ImplicitParam<param::CurrentPropertyContext>::m_stack) ImplicitParam<param::CurrentPropertyContext>::StackT();
  for (int i = 0; i < 2; i++) gReports[i] = reports ? vf_pick("report", 0, 3) : 3;
  gDeep = reports ? vf_pick("tags and log", 0, 1) != 0 : false;
  gType = vf_pick("type", 0, 2);
  gMessage = reports ? std::string("message") : vf_pick("empty message", 0, 1) != 0 ? std::string() : "m" + text("message");
  if (!reports)
    for (size_t i = 1; i < gMessage.size(); i++) vf_assume(gMessage[i] != 0); // what() is a C string
  const int end = vf_pick("end", 0, 12);
  switch (end) {
  case 0: adapter(&bodyVoid, 0, Type::Success, "", true); break;
  case 1: adapter(&bodyVoid, 1, typeOf(gType), gMessage, false); break;
  case 2: adapter(&bodyVoid, 2, Type::Discard, gMessage, true); break;
  case 3: adapter(&bodyBool, 3, Type::Failure, gMessage, true); break;
  case 4: adapter(&bodyVoid, 4, Type::Failure, gMessage, false); break;
  case 5: adapter(&bodyString, 5, Type::Failure, "", true); break;
  case 6: adapter(&bodyResult, 6, Type::Failure, "", true); break;
  case 7: adapter(&bodyBool, 7, Type::Success, "", true); break;
  case 8: adapter(&bodyBool, 8, Type::Failure, "", true); break;
  case 9:
    if (gMessage.empty()) return;
    adapter(&bodyString, 0, Type::Failure, gMessage, false); break;
  case 10:
    gMessage.clear();
    adapter(&bodyString, 0, Type::Success, "", true);
    break;
  case 11: adapter(&bodyResult, 0, typeOf(gType), gMessage, false); break;
  case 12: adapter(&bodyString, 2, Type::Discard, gMessage, true); break;
  }
}
VF_ENTRY(ends) { // any message
  way(false);
}
VF_ENTRY(ends_after_reports) {
  vf_bounded("up to 2 reports before the end");
  way(true);
}
// ---- the assertion macros ----
static int gEvaluated;
static bool once(bool b) {
  gEvaluated++;
  return b;
}
static void boom(int how) {
  gEvaluated++;
  if (how == 1) throw std::runtime_error("x");
  if (how == 2) throw Odd();
}
static void asserted(int which, bool b, int how) {
  switch (which) {
  case 0: RC_ASSERT(once(b)); break;
  case 1: RC_ASSERT_FALSE(once(b)); break;
  case 2: RC_PRE(once(b)); break;
  case 3: RC_SUCCEED_IF(once(b)); break;
  case 4: gEvaluated++; RC_FAIL("why"); break;
  case 5: gEvaluated++; RC_SUCCEED("why"); break;
  case 6: gEvaluated++; RC_DISCARD("why"); break;
  case 7: RC_ASSERT_THROWS(boom(how)); break;
  case 8: RC_ASSERT_THROWS_AS(boom(how), std::exception); break;
  }
}
VF_ENTRY(assertions) {
  const int which = vf_pick("assertion", 0, 8), how = which >= 7 ? vf_pick("throws", 0, 2) : 0;
  const bool b = which < 4 && vf_pick("value", 0, 1) != 0;
  gEvaluated = 0;
  int end = 3;
  std::string message;
  try {
    asserted(which, b, how);
  } catch (const CaseResult &r) {
    end = r.type == Type::Success ? 0 : r.type == Type::Failure ? 1 : r.type == Type::Discard ? 2 : 9;
    message = r.description;
  }
  static const int wants[9][3] = {{1, 3, 3}, {3, 1, 1}, {2, 3, 3}, {3, 0, 0}, {1, 1, 1}, {0, 0, 0}, {2, 2, 2}, {1, 3, 3}, {1, 3, 1}};
  vf_check(end == wants[which][which >= 7 ? how : b ? 1 : 0], "an assertion ends the case as documented, and only then");
  vf_check(gEvaluated == 1, "the asserted expression is evaluated once");
  static const char *const names[9] = {"RC_ASSERT(once(b))", "RC_ASSERT_FALSE(once(b))", "RC_PRE(once(b))", "RC_SUCCEED_IF(once(b))", "RC_FAIL(\"why\")", "RC_SUCCEED(\"why\")", "RC_DISCARD(\"why\")", "RC_ASSERT_THROWS(boom(how))", "RC_ASSERT_THROWS_AS(boom(how), std::exception)"};
  if (end == 3) return;
  vf_check(message.find(names[which]) != std::string::npos, "the message names the assertion");
  if (which >= 4 && which < 7) vf_check(message.find("why", message.find(names[which]) + std::string(names[which]).size()) != std::string::npos, "the given text is in the message");
  if (which < 4) vf_check(message.find(b ? "true" : "false") != std::string::npos, "the message shows the value");
}
VF_ENTRY(make_message) {
  vf_bounded("texts of 0..2 characters");
  const std::string extra = vf_pick("extra", 0, 1) ? text("extra") : std::string(), what = text("assertion");
  const std::string m = makeMessage("f", 10, what, extra);
  std::string want = "f:10:\n" + what;
  if (!extra.empty()) want += "\n\n" + extra;
  vf_check(m == want, "a message has the place, the assertion and the given text");
}
