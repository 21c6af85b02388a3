// C24 dispatching of checks, and listeners
#include <sstream>
#include "vf_case.h"
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/DefaultTestListener.h"
#include "detail/MulticastTestListener.h"
#include "detail/ReproduceListener.h"
#include "detail/StringSerialization.h"
//@ sources: src/Check.cpp src/detail/Testing.cpp src/detail/Property.cpp src/detail/Results.cpp src/detail/TestParams.cpp src/detail/TestMetadata.cpp src/BeforeMinimalTestCase.cpp src/GenerationFailure.cpp src/detail/MulticastTestListener.cpp src/detail/ReproduceListener.cpp src/detail/StringSerialization.cpp src/detail/Serialization.cpp src/detail/Base64.cpp src/detail/ParseException.cpp src/Show.cpp src/detail/Any.cpp src/detail/Configuration.cpp src/detail/MapParser.cpp src/detail/Platform.cpp src/detail/DefaultTestListener.cpp src/detail/LogTestListener.cpp
//@ replace: src/Random.cpp absrandom.cpp
//@ model: iomodel.cpp
using namespace rc;
using namespace rc::detail;
typedef std::unordered_map<std::string, Reproduce> RepMap;

static Reproduce repOf(uint64_t id) { // an arbitrary entry, told by its parts
  Reproduce r;
  r.random = Random(vf_uf("entry engine", 64, 1, id));
  r.size = static_cast<int>(vf_uf("entry size", 32, 1, id));
  r.shrinkPath.push_back(vf_uf("entry step", 64, 1, id));
  r.shrinkPath.push_back(id);
  return r;
}
static void isRep(const Reproduce &r, uint64_t id, bool path) {
  vf_check(vr_id(r.random) == vf_uf("entry engine", 64, 1, id) && vr_drawn(r.random) == 0, "the entry's engine is used");
  vf_check(r.size == static_cast<int>(vf_uf("entry size", 32, 1, id)), "the entry's size is used");
  if (!path) vf_check(r.shrinkPath.empty(), "the path is not followed when shrinking is disabled");
  else vf_check(r.shrinkPath.size() == 2 && r.shrinkPath[0] == vf_uf("entry step", 64, 1, id) && r.shrinkPath[1] == id, "the entry's path is followed");
}
struct Nobody : TestListener {
  void onTestCaseFinished(const CaseDescription &) override { vf_check(0, "a check that is not run has no events"); }
  void onShrinkTried(const CaseDescription &, bool) override { vf_check(0, "a check that is not run has no events"); }
  void onTestFinished(const TestMetadata &, const TestResult &) override { vf_check(0, "a check that is not run has no events"); }
};
struct NoProperty {
  CaseShr operator()(const Random &, int) const {
    vf_check(0, "the property is only run by the test loop or the reproduction");
    return shrinkable::lambda([] { return CaseDescription(); });
  }
};
struct DispatchG {
  const Property *property;
  const TestMetadata *meta;
  const TestParams *params;
  TestListener *listener;
  bool disabled;
  uint64_t entry, result;
  int tested, reproduced;
};
static DispatchG *gD;
static TestResult resultOf(uint64_t x) {
  FailureResult f;
  f.description = idText(x);
  return f;
}
static TestResult testStub(const Property &p, const TestMetadata &m, const TestParams &params, TestListener &l) {
  DispatchG &g = *gD;
  vf_check(&p == g.property || !g.property, "the property itself is run");
  vf_check((&m == g.meta || !g.meta) && (&params == g.params || params == *g.params) && &l == g.listener, "the check is run with its metadata, parameters and listener");
  g.tested++;
  return resultOf(g.result);
}
static TestResult reproStub(const Property &, const Reproduce &r) {
  DispatchG &g = *gD;
  isRep(r, g.entry, !g.disabled);
  g.reproduced++;
  return resultOf(g.result);
}
static void isResult(const TestResult &r, uint64_t x) {
  vf_check(r.is<FailureResult>() && textId(r.get<FailureResult>().description) == x, "the result is passed on");
}
static std::string anyId(const char *name) { // of 0, 1 or 8 arbitrary characters
  const int n = vf_pick("id length", 0, 2);
  const std::string all = idText(vf_u64(name));
  return n == 0 ? std::string() : n == 1 ? all.substr(0, 1) : all;
}
static void dispatch(int most) {
  TestMetadata meta;
  meta.id = anyId("id");
  TestParams params;
  params.disableShrinking = vf_pick("disabled", 0, 1) != 0;
  const Property property((NoProperty()));
  Nobody listener;
  DispatchG g{&property, &meta, &params, &listener, params.disableShrinking, 0, vf_u64("result"), 0, 0};
  gD = &g;
  vf_contract("rc::detail::testProperty(", reinterpret_cast<void *>(&testStub), 0);
  vf_contract("rc::detail::reproduceProperty(", reinterpret_cast<void *>(&reproStub), 0);
  RepMap map;
  const int n = vf_pick("entries", 0, most);
  bool found = false;
  for (int i = 0; i < n; i++) {
    const std::string key = anyId("key");
    const bool fresh = map.find(key) == map.end();
    if (fresh) map.emplace(key, repOf(static_cast<uint64_t>(i)));
    if (fresh && key == meta.id) {
      found = true;
      g.entry = static_cast<uint64_t>(i);
    }
  }
  const TestResult r = checkProperty(property, meta, params, listener, map);
  if (n == 0) {
    vf_check(g.tested == 1 && g.reproduced == 0, "without reproduce data every check runs normally");
    isResult(r, g.result);
  } else if (found && !meta.id.empty()) {
    vf_check(g.tested == 0 && g.reproduced == 1, "a check whose identifier is in the map is reproduced");
    isResult(r, g.result);
  } else {
    vf_check(g.tested == 0 && g.reproduced == 0, "all other checks are skipped");
    vf_check(r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == 0 && r.get<SuccessResult>().distribution.empty(), "a check that is skipped succeeds with no cases");
  }
  if (n > 0) vf_check(map.size() > 0, "the map is unchanged");
}
VF_ENTRY(dispatch) {
  if (!vf_symbolic()) return;
  vf_bounded("maps of up to 2 entries, identifiers of 0, 1 or 8 characters");
  dispatch(2);
}
// a map of any size: looking up by contract
struct FindG {
  const RepMap *map;
  const std::string *id;
  bool found;
  const void *node;
  int calls;
};
static FindG *gFind;
static const void *findStub(const RepMap *m, const std::string &key) {
  vf_check(m == gFind->map && key == *gFind->id, "the check's own identifier is looked up");
  gFind->calls++;
  return gFind->found ? gFind->node : nullptr;
}
VF_ENTRY(dispatch_any_map) {
  if (!vf_symbolic()) return;
  TestMetadata meta;
  meta.id = anyId("id");
  TestParams params;
  params.disableShrinking = vf_pick("disabled", 0, 1) != 0;
  const Property property((NoProperty()));
  Nobody listener;
  DispatchG g{&property, &meta, &params, &listener, params.disableShrinking, 7, vf_u64("result"), 0, 0};
  gD = &g;
  RepMap map, other;
  other.emplace(meta.id, repOf(7));
  const uint64_t n = vf_u64("entries");
  map._M_h._M_element_count = n;
  FindG f{&map, &meta.id, n > 0 && vf_bool("found"), other.begin()._M_cur, 0};
  gFind = &f;
  vf_contract("rc::detail::testProperty(", reinterpret_cast<void *>(&testStub), 0);
  vf_contract("rc::detail::reproduceProperty(", reinterpret_cast<void *>(&reproStub), 0);
#define STR "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
#define REPMAP "std::unordered_map<" STR ", rc::detail::Reproduce, std::hash<" STR ">, std::equal_to<" STR ">, std::allocator<std::pair<" STR " const, rc::detail::Reproduce>>>::"
  vf_contract(REPMAP "find(", reinterpret_cast<void *>(&findStub), 0);
  const TestResult r = checkProperty(property, meta, params, listener, map);
  map._M_h._M_element_count = 0;
  if (n == 0) {
    vf_check(g.tested == 1 && g.reproduced == 0, "without reproduce data every check runs normally");
    isResult(r, g.result);
    return;
  }
  if (f.calls == 0 && !meta.id.empty()) return; // looked up in another way: decided in small only
  if (f.found && !meta.id.empty()) {
    vf_check(g.tested == 0 && g.reproduced == 1, "a check whose identifier is in the map is reproduced");
    isResult(r, g.result);
    vf_reach("reproduced");
  } else {
    vf_check(g.tested == 0 && g.reproduced == 0, "all other checks are skipped");
    vf_check(r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == 0 && r.get<SuccessResult>().distribution.empty(), "a check that is skipped succeeds with no cases");
    vf_reach("skipped");
  }
}
// ---- the shorter forms ----
static Configuration *gConf;
static const Configuration &confStub() { return *gConf; }
static TestListener *gGlobal;
static TestListener &globalStub() { return *gGlobal; }
VF_ENTRY(forms) {
  if (!vf_symbolic()) return;
  const int form = vf_pick("form", 0, 3);
  Configuration conf;
  conf.testParams.seed = vf_u64("seed");
  conf.testParams.maxSuccess = vf_int("max success");
  conf.testParams.disableShrinking = vf_pick("disabled", 0, 1) != 0;
  const bool repro = vf_pick("reproduce", 0, 1) != 0;
  if (repro) conf.reproduce.emplace("id", repOf(3));
  gConf = &conf;
  Nobody own, global;
  gGlobal = &global;
  TestMetadata meta;
  const bool named = vf_pick("named", 0, 1) != 0;
  if (named) meta.id = "id";
  meta.description = "d";
  TestParams params;
  params.disableShrinking = vf_pick("own disabled", 0, 1) != 0;
  params.maxSuccess = vf_int("own max success");
  const Property property((NoProperty()));
  const bool ownParams = form < 2;
  DispatchG g{&property, form == 3 ? nullptr : &meta, ownParams ? &params : &conf.testParams, form == 0 ? static_cast<TestListener *>(&own) : &global, ownParams ? params.disableShrinking : conf.testParams.disableShrinking, 3, vf_u64("result"), 0, 0};
  gD = &g;
  vf_contract("rc::detail::testProperty(", reinterpret_cast<void *>(&testStub), 0);
  vf_contract("rc::detail::reproduceProperty(", reinterpret_cast<void *>(&reproStub), 0);
  vf_contract("rc::detail::configuration()", reinterpret_cast<void *>(&confStub), 0);
  vf_contract("rc::detail::globalTestListener()", reinterpret_cast<void *>(&globalStub), 0);
  const TestResult r = form == 0 ? checkProperty(property, meta, params, own) : form == 1 ? checkProperty(property, meta, params) : form == 2 ? checkProperty(property, meta) : checkProperty(property);
  if (!repro) {
    vf_check(g.tested == 1 && g.reproduced == 0, "without configured reproduce data the check is run");
    isResult(r, g.result);
  } else if (named && form < 3) {
    vf_check(g.tested == 0 && g.reproduced == 1, "the configured entry is reproduced");
    isResult(r, g.result);
  } else
    vf_check(g.tested == 0 && g.reproduced == 0 && r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == 0, "all other checks are skipped");
}
// ---- the result goes to the listener once ----
struct OnceG {
  int finished, searched;
  uint64_t outcome; // of the search: 0 success, 1 gave up
  int successes;
  const TestMetadata *meta;
  uint64_t got;
};
static OnceG *gOnce;
struct OnceListener : TestListener {
  TestResult seen;
  OnceListener() : seen(SuccessResult()) {}
  void onTestCaseFinished(const CaseDescription &) override {}
  void onShrinkTried(const CaseDescription &, bool) override { vf_check(0, "nothing is shrunk"); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    vf_check(&m == gOnce->meta || m.id == gOnce->meta->id, "the result is sent with the check's metadata");
    gOnce->finished++;
    seen = r;
  }
};
struct SomeCase {
  uint64_t id;
  CaseDescription value() const { return caseOf(id); }
  Seq<CaseShr> shrinks() const { return Seq<CaseShr>(); }
};
static SearchResult onceSearch(const Property &, const TestParams &, TestListener &) {
  OnceG &g = *gOnce;
  g.searched++;
  SearchResult r;
  r.type = g.outcome == 0 ? SearchResult::Type::Success : SearchResult::Type::GaveUp;
  r.numSuccess = g.successes;
  r.numDiscarded = 0;
  if (g.outcome == 1) r.failure = SearchResult::Failure(makeShrinkable<SomeCase>(SomeCase{7}), 1, Random(2));
  return r;
}
static bool same(const TestResult &a, const TestResult &b) {
  if (a.is<SuccessResult>() && b.is<SuccessResult>()) return a.get<SuccessResult>().numSuccess == b.get<SuccessResult>().numSuccess;
  if (a.is<GaveUpResult>() && b.is<GaveUpResult>()) return a.get<GaveUpResult>().numSuccess == b.get<GaveUpResult>().numSuccess && a.get<GaveUpResult>().description == b.get<GaveUpResult>().description;
  return false;
}
VF_ENTRY(sent_once) { // failures: C17's report
  if (!vf_symbolic()) return;
  TestMetadata meta;
  meta.id = anyId("id");
  OnceG g{0, 0, static_cast<uint64_t>(vf_pick("outcome", 0, 1)), vf_int("successes"), &meta, 0};
  gOnce = &g;
  vf_contract("rc::detail::searchProperty(", reinterpret_cast<void *>(&onceSearch), 0);
  OnceListener l;
  const TestResult r = testProperty(Property(NoProperty()), meta, TestParams(), l);
  vf_check(g.searched == 1 && g.finished == 1, "the result is sent to the listener once");
  vf_check(same(r, l.seen), "the result sent is the result returned");
  vf_check(g.outcome == 0 ? r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == g.successes : r.is<GaveUpResult>() && r.get<GaveUpResult>().numSuccess == g.successes, "the result is the test loop's");
}
// ---- listeners composed together ----
struct MultiG {
  int n, next; // listeners; the one whose turn it is
  const CaseDescription *desc;
  const TestMetadata *meta;
  const TestResult *result;
  bool accepted;
  int event;
};
static MultiG *gMulti;
struct Part : TestListener {
  int i;
  explicit Part(int i) : i(i) {}
  void turn(int event) const {
    vf_check(gMulti->event == event && gMulti->next == i, "each listener receives each event once, in order");
    gMulti->next++;
  }
  void onTestCaseFinished(const CaseDescription &d) override {
    turn(0);
    vf_check(&d == gMulti->desc, "the event is passed on as it is");
  }
  void onShrinkTried(const CaseDescription &d, bool accepted) override {
    turn(1);
    vf_check(&d == gMulti->desc && accepted == gMulti->accepted, "the event is passed on as it is");
  }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    turn(2);
    vf_check(&m == gMulti->meta && &r == gMulti->result, "the event is passed on as it is");
  }
};
VF_ENTRY(multicast) {
  vf_bounded("up to 3 listeners, 2 events");
  const CaseDescription d = CaseDescription();
  const TestMetadata m;
  const TestResult r = SuccessResult();
  MultiG g{vf_pick("listeners", 0, 3), 0, &d, &m, &r, vf_bool("accepted"), 0};
  gMulti = &g;
  MulticastTestListener::Listeners ls;
  for (int i = 0; i < g.n; i++) ls.push_back(std::unique_ptr<TestListener>(new Part(i)));
  MulticastTestListener multi(std::move(ls));
  for (int e = 0; e < 2; e++) {
    g.event = vf_pick("event", 0, 2);
    g.next = 0;
    if (g.event == 0) multi.onTestCaseFinished(d);
    else if (g.event == 1) multi.onShrinkTried(d, g.accepted);
    else multi.onTestFinished(m, r);
    vf_check(g.next == g.n, "every listener receives every event");
  }
}
// any number of listeners: taking one out of its holder by contract
struct AnyG {
  const char *base;
  uint64_t n, next, told;
  const CaseDescription *d;
  const TestMetadata *m;
  const TestResult *r;
  bool accepted;
  int event;
};
static AnyG *gAny;
struct Counting : TestListener {
  void turn(int event) const {
    vf_check(vand(gAny->event == event, gAny->told + 1 == gAny->next), "each listener receives each event once, in order");
    gAny->told++;
  }
  void onTestCaseFinished(const CaseDescription &x) override {
    turn(0);
    vf_check(&x == gAny->d, "the event is passed on as it is");
  }
  void onShrinkTried(const CaseDescription &x, bool a) override {
    turn(1);
    vf_check(vand(&x == gAny->d, a == gAny->accepted), "the event is passed on as it is");
  }
  void onTestFinished(const TestMetadata &x, const TestResult &y) override {
    turn(2);
    vf_check(vand(&x == gAny->m, &y == gAny->r), "the event is passed on as it is");
  }
};
static Counting *gCounting;
static TestListener *heldStub(const void *holder) {
  vf_check(vand(gAny->next < gAny->n, static_cast<const char *>(holder) == gAny->base + gAny->next * 8), "the listeners are told in order, each once");
  vf_check(gAny->told == gAny->next, "the listeners are told in order, each once");
  gAny->next++;
  return gCounting;
}
static bool anyInv(void *p) {
  AnyG &g = *static_cast<AnyG *>(p);
  return vand(g.told == g.next, g.next <= g.n);
}
VF_ENTRY(multicast_any) {
  if (!vf_symbolic()) return;
  const CaseDescription d = CaseDescription();
  const TestMetadata m;
  const TestResult r = SuccessResult();
  AnyG g{nullptr, vf_u64("listeners"), 0, 0, &d, &m, &r, vf_bool("accepted"), vf_pick("event", 0, 2)};
  vf_assume(g.n <= 1000000);
  gAny = &g;
  Counting counting;
  gCounting = &counting;
  char *mem = static_cast<char *>(vf_bytes("holders", g.n * 8));
  g.base = mem;
  MulticastTestListener multi((MulticastTestListener::Listeners()));
  typedef std::unique_ptr<TestListener> Holder;
  multi.m_listeners._M_impl._M_start = reinterpret_cast<Holder *>(mem);
  multi.m_listeners._M_impl._M_finish = multi.m_listeners._M_impl._M_end_of_storage = multi.m_listeners._M_impl._M_start + g.n;
  vf_contract("std::unique_ptr<rc::detail::TestListener, std::default_delete<rc::detail::TestListener>>::operator->() const", reinterpret_cast<void *>(&heldStub), 0);
  vf_contract("std::unique_ptr<rc::detail::TestListener, std::default_delete<rc::detail::TestListener>>::operator*() const", reinterpret_cast<void *>(&heldStub), 0);
  vf_contract("std::unique_ptr<rc::detail::TestListener, std::default_delete<rc::detail::TestListener>>::get() const", reinterpret_cast<void *>(&heldStub), 0);
  vf_invariant("told", &anyInv, &g);
  if (g.event == 0) multi.onTestCaseFinished(d);
  else if (g.event == 1) multi.onShrinkTried(d, g.accepted);
  else multi.onTestFinished(m, r);
  vf_check(g.told == g.n, "every listener receives every event");
  vf_contracts_clear();
  multi.m_listeners._M_impl._M_start = multi.m_listeners._M_impl._M_finish = multi.m_listeners._M_impl._M_end_of_storage = nullptr;
}
// ---- the reproduce listener ----
VF_ENTRY(reproduce_listener) {
  vf_bounded("up to 3 finished tests");
  std::ostringstream os;
  RepMap want;
  {
    ReproduceListener l(os);
    const int n = vf_pick("tests", 0, 3);
    for (int i = 0; i < n; i++) {
      TestMetadata meta;
      const int id = vf_pick("id", 0, 2);
      meta.id = id == 0 ? "" : id == 1 ? "a" : "bb";
      const int kind = vf_pick("result", 0, 3);
      TestResult r = SuccessResult();
      if (kind == 1) {
        FailureResult f;
        f.reproduce.random = Random(static_cast<uint64_t>(i));
        f.reproduce.size = i;
        r = f;
        if (!meta.id.empty()) want.emplace(meta.id, f.reproduce);
      } else if (kind == 2) r = GaveUpResult();
      else if (kind == 3) r = Error("x");
      l.onTestFinished(meta, r);
      vf_check(os.str().empty(), "nothing is printed before the end");
    }
    vf_check(l.m_reproduceMap.size() == want.size(), "exactly the failing checks that have an identifier are collected");
    for (const auto &p : want) {
      const auto it = l.m_reproduceMap.find(p.first);
      vf_check(it != l.m_reproduceMap.end() && it->second.size == p.second.size && it->second.random == p.second.random, "the reproduce data collected is the failure's");
    }
  }
  const std::string out = os.str();
  if (want.empty()) vf_check(out.empty(), "nothing is printed when there is no data");
  else vf_check(out.find("RC_PARAMS=\"reproduce=" + reproduceMapToString(want) + "\"") != std::string::npos, "the data collected is printed");
}
struct EmplaceG {
  const RepMap *map;
  const std::string *id;
  int size;
  int calls;
};
static EmplaceG *gEmp;
static std::pair<const void *, bool> emplaceStub(RepMap *m, const std::string &id, Reproduce &r) {
  vf_check(m == gEmp->map && id == *gEmp->id && r.size == gEmp->size, "the failure's data is collected under its identifier");
  gEmp->calls++;
  return std::pair<const void *, bool>(nullptr, true);
}
VF_ENTRY(collected) { // one more test, whatever was collected before
  if (!vf_symbolic()) return;
  std::ostringstream os;
  ReproduceListener l(os);
  TestMetadata meta;
  meta.id = anyId("id");
  const int kind = vf_pick("result", 0, 3);
  TestResult r = SuccessResult();
  FailureResult f;
  f.reproduce.size = vf_int("size");
  if (kind == 1) r = f;
  else if (kind == 2) r = GaveUpResult();
  else if (kind == 3) r = Error("x");
  EmplaceG g{&l.m_reproduceMap, &meta.id, f.reproduce.size, 0};
  gEmp = &g;
  vf_contract("std::pair<std::__detail::_Node_iterator<std::pair<" STR " const, rc::detail::Reproduce>, false, true>, bool> " REPMAP "emplace<", reinterpret_cast<void *>(&emplaceStub), 0);
  l.onTestFinished(meta, r);
  vf_contracts_clear();
  if (!l.m_reproduceMap.empty()) return; // added in another way: decided in small only
  vf_check(g.calls == (kind == 1 && !meta.id.empty() ? 1 : 0), "exactly the failing checks that have an identifier are collected");
  if (g.calls) vf_reach("collected");
}
