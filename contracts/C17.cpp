// C17 shrinking of a failure, and its reproduction
#include "vf_case.h"
//@ sources: src/detail/Testing.cpp src/detail/Property.cpp src/detail/Results.cpp src/detail/TestParams.cpp src/detail/TestMetadata.cpp src/BeforeMinimalTestCase.cpp src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
using namespace rc::detail;
static bool fails(uint64_t id) { return outcomeOf(id) == kFailure; }
// ---- the walk down the tree: a monitor of its calls ----
struct ShrinkG {
  uint64_t cur, k; // the current case, its shrinks taken
  int phase; // 0: between shrinks, 1: taken, 2: evaluated
  bool recording; // a step was accepted that is not in the path yet
  uint64_t step, steps, recorded;
  bool ended;
};
static ShrinkG *gShrink;
struct ShrinkKids {
  typedef CaseShr ValueType;
  uint64_t id, i;
  Maybe<CaseShr> operator()();
};
struct ShrinkCase {
  uint64_t id;
  CaseDescription value() const {
    ShrinkG &g = *gShrink;
    vf_check(g.phase == 1 && g.k > 0 && id == nodeChild(g.cur, g.k - 1), "each shrink is run once, when it is its turn");
    g.phase = 2;
    return caseOf(id);
  }
  Seq<CaseShr> shrinks() const {
    vf_check(id == gShrink->cur && gShrink->k == 0, "only the shrinks of the accepted case are asked for");
    return makeSeq<ShrinkKids>(ShrinkKids{id, 0});
  }
};
Maybe<CaseShr> ShrinkKids::operator()() {
  ShrinkG &g = *gShrink;
  vf_check(g.phase == 0, "each shrink is run and reported before the next one");
  vf_check(id == g.cur && i == g.k, "the shrinks of the current case are tried in order");
  vf_check(!g.recording, "every accepted step is recorded");
  if (i >= nodeCount(id)) {
    g.ended = true;
    return Nothing;
  }
  const uint64_t c = nodeChild(id, i);
  i++;
  g.k++;
  g.phase = 1;
  return makeShrinkable<ShrinkCase>(ShrinkCase{c});
}
struct ShrinkListener : TestListener {
  void onTestCaseFinished(const CaseDescription &) override { vf_check(0, "shrinks are not reported as cases"); }
  void onShrinkTried(const CaseDescription &d, bool accepted) override {
    ShrinkG &g = *gShrink;
    vf_check(g.phase == 2, "each shrink tried is reported once");
    const uint64_t c = nodeChild(g.cur, g.k - 1);
    isCase(d, c);
    vf_check(accepted == fails(c), "a shrink is accepted exactly if it fails");
    g.phase = 0;
    if (!accepted) return;
    g.cur = c;
    g.step = g.k - 1;
    g.steps++;
    g.recording = true;
    g.k = 0;
  }
  void onTestFinished(const TestMetadata &, const TestResult &) override { vf_check(0, "the end is not reported by the shrinking"); }
};
typedef std::vector<size_t> Path;
static void pathPush(Path *, const size_t &x) {
  ShrinkG &g = *gShrink;
  vf_check(g.recording && x == g.step, "the path is the index of each accepted shrink");
  g.recording = false;
  g.recorded++;
}
#define PATH "std::vector<unsigned long, std::allocator<unsigned long>>::"
static bool shrinkInv(void *p) {
  ShrinkG &g = *static_cast<ShrinkG *>(p);
  return vand(vand(g.k <= nodeCount(g.cur), g.phase == 0), vand(vand(!g.recording, !g.ended), g.recorded == g.steps));
}
static uint64_t shrunk(const CaseShr &s) { return static_cast<CaseShr::ShrinkableImpl<ShrinkCase> *>(s.m_impl)->m_impl.id; }
VF_ENTRY(shrinking) {
  if (!vf_symbolic()) return;
  ShrinkG g{vf_u64("root"), 0, 0, false, 0, 0, 0, false};
  gShrink = &g;
  vf_contract(PATH "push_back(unsigned long const&)", reinterpret_cast<void *>(&pathPush), 0);
  vf_invariant("walk", &shrinkInv, &g);
  ShrinkListener listener;
  const auto r = shrinkTestCase(CaseShr(makeShrinkable<ShrinkCase>(ShrinkCase{g.cur})), listener);
  vf_check(g.ended && g.phase == 0 && g.k == nodeCount(g.cur), "shrinking ends only when every shrink of the current case was tried");
  vf_check(shrunk(r.first) == g.cur, "the result is the last case accepted");
  vf_check(!g.recording && g.recorded == g.steps, "the path has one index per step");
  vf_check(r.second.empty(), "the path has nothing else");
  vf_reach("minimal");
}
// ---- what is reported: the loop and the walk by contract ----
struct ReportG {
  uint64_t first, minimal, rnd; // the failing case found, the one shrunk to
  int size, successes;
  bool disabled;
  uint64_t step0, step1; // the path found
  int searched, shrunk, evaluated, reported;
};
static ReportG *gReport;
struct ReportCase {
  uint64_t id;
  CaseDescription value() const {
    ReportG &g = *gReport;
    vf_check(id == (g.disabled ? g.first : g.minimal), "only the reported case is run again");
    g.evaluated++;
    return caseOf(id);
  }
  Seq<CaseShr> shrinks() const {
    vf_check(0, "no shrinks are asked for");
    return Seq<CaseShr>();
  }
};
static SearchResult searchStub(const Property &, const TestParams &, TestListener &) {
  ReportG &g = *gReport;
  g.searched++;
  SearchResult r;
  r.type = SearchResult::Type::Failure;
  r.numSuccess = g.successes;
  r.numDiscarded = 0;
  r.failure = SearchResult::Failure(makeShrinkable<ReportCase>(ReportCase{g.first}), g.size, Random(g.rnd));
  return r;
}
static std::pair<CaseShr, Path> shrinkStub(const CaseShr &s, TestListener &) {
  ReportG &g = *gReport;
  vf_check(static_cast<CaseShr::ShrinkableImpl<ReportCase> *>(s.m_impl)->m_impl.id == g.first, "the failing case is shrunk");
  vf_check(!g.disabled, "nothing is shrunk when shrinking is disabled");
  vf_check(g.searched == 1, "shrinking follows the search");
  g.shrunk++;
  return std::make_pair(CaseShr(makeShrinkable<ReportCase>(ReportCase{g.minimal})), Path{g.step0, g.step1});
}
static void failureIs(const TestResult &r, const ReportG &g) {
  vf_check(r.is<FailureResult>(), "the failure is reported");
  const FailureResult &f = r.get<FailureResult>();
  const uint64_t id = g.disabled ? g.first : g.minimal;
  vf_check(f.numSuccess == g.successes, "the number of successes is reported");
  vf_check(textId(f.description) == id, "the message of the minimal case is reported");
  isExample(f.counterExample, id);
  vf_check(vr_id(f.reproduce.random) == g.rnd && vr_drawn(f.reproduce.random) == 0, "the engine of the failing case is reported");
  vf_check(f.reproduce.size == g.size, "the size of the failing case is reported");
  if (g.disabled) vf_check(f.reproduce.shrinkPath.empty(), "the path is empty when shrinking is disabled");
  else vf_check(f.reproduce.shrinkPath.size() == 2 && f.reproduce.shrinkPath[0] == g.step0 && f.reproduce.shrinkPath[1] == g.step1, "the path is reported");
}
struct ReportListener : TestListener {
  void onTestCaseFinished(const CaseDescription &) override { vf_check(0, "no other case is reported"); }
  void onShrinkTried(const CaseDescription &, bool) override { vf_check(0, "no other shrink is reported"); }
  void onTestFinished(const TestMetadata &, const TestResult &r) override {
    gReport->reported++;
    failureIs(r, *gReport);
  }
};
struct NoProperty {
  CaseShr operator()(const Random &, int) const {
    vf_check(0, "the property is only run by the loop");
    return shrinkable::lambda([] { return CaseDescription(); });
  }
};
VF_ENTRY(report) {
  if (!vf_symbolic()) return;
  ReportG g{vf_u64("first"), vf_u64("minimal"), vf_u64("engine"), vf_int("size"), vf_int("successes"), vf_bool("disabled"), vf_u64("step"), vf_u64("step"), 0, 0, 0, 0};
  gReport = &g;
  vf_contract("rc::detail::searchProperty(", reinterpret_cast<void *>(&searchStub), 0);
  vf_contract("rc::detail::shrinkTestCase(", reinterpret_cast<void *>(&shrinkStub), 0);
  TestParams p;
  p.disableShrinking = g.disabled;
  ReportListener listener;
  const TestResult r = testProperty(Property(NoProperty()), TestMetadata(), p, listener);
  vf_check(g.searched == 1 && g.reported == 1, "one search, one report");
  vf_check(g.shrunk == (g.disabled ? 0 : 1), "the case is shrunk exactly if shrinking is enabled");
  failureIs(r, g);
  vf_reach("reported");
}
// ---- reproduction: the walk by contract ----
struct ReproG {
  uint64_t root, target, rnd, step;
  int size;
  bool found;
  int generated, walked, evaluated;
};
static ReproG *gRepro;
struct ReproCase {
  uint64_t id;
  CaseDescription value() const {
    ReproG &g = *gRepro;
    vf_check(id == g.target && g.walked == 1, "only the case at the end of the path is run");
    g.evaluated++;
    return caseOf(id);
  }
  Seq<CaseShr> shrinks() const { return Seq<CaseShr>(); }
};
struct ReproProperty {
  CaseShr operator()(const Random &r, int size) const {
    ReproG &g = *gRepro;
    vf_check(vr_id(r) == g.rnd && vr_drawn(r) == 0 && size == g.size, "the case is generated from the recorded engine and size");
    g.generated++;
    return makeShrinkable<ReproCase>(ReproCase{g.root});
  }
};
static Maybe<CaseShr> walkStub(const CaseShr &s, const Path &path) {
  ReproG &g = *gRepro;
  vf_check(static_cast<CaseShr::ShrinkableImpl<ReproCase> *>(s.m_impl)->m_impl.id == g.root, "the path starts at the generated case");
  vf_check(path.size() == 1 && path[0] == g.step, "the recorded path is walked");
  g.walked++;
  if (!g.found) return Nothing;
  return makeShrinkable<ReproCase>(ReproCase{g.target});
}
VF_ENTRY(reproduce) {
  if (!vf_symbolic()) return;
  ReproG g{vf_u64("root"), vf_u64("target"), vf_u64("engine"), vf_u64("step"), vf_int("size"), vf_bool("found"), 0, 0, 0};
  gRepro = &g;
  vf_contract("rc::Maybe<rc::Shrinkable<rc::detail::CaseDescription>> rc::shrinkable::walkPath<", reinterpret_cast<void *>(&walkStub), 0);
  Reproduce rep;
  rep.random = Random(g.rnd);
  rep.size = g.size;
  rep.shrinkPath.push_back(g.step);
  const TestResult r = reproduceProperty(Property(ReproProperty()), rep);
  vf_check(g.generated == 1, "the case is generated once");
  if (g.walked == 0) return; // then decided in small only
  if (!g.found) {
    vf_check(r.is<Error>(), "an error is reported if the path leads nowhere");
    vf_reach("nowhere");
    return;
  }
  if (!fails(g.target)) {
    vf_check(r.is<Error>(), "an error is reported if the case does not fail");
    vf_reach("no failure");
    return;
  }
  vf_check(r.is<FailureResult>(), "the failure is reproduced");
  const FailureResult &f = r.get<FailureResult>();
  vf_check(f.numSuccess == 0, "no successes are reported");
  vf_check(textId(f.description) == g.target, "the message is the case's");
  isExample(f.counterExample, g.target);
  vf_check(vr_id(f.reproduce.random) == g.rnd && vr_drawn(f.reproduce.random) == 0 && f.reproduce.size == g.size && f.reproduce.shrinkPath.size() == 1 && f.reproduce.shrinkPath[0] == g.step, "the reproduce data is kept");
  vf_reach("reproduced");
}
// ---- all together, in small ----
struct Small { // trees of depth two with 0..2 shrinks each
  static uint64_t few(uint64_t id) { return vf_uf("few", 2, 1, id); }
  static CaseShr make(uint64_t id, int depth) {
    return shrinkable::lambda([=] { return caseOf(id); }, [=] {
      std::vector<CaseShr> kids;
      if (depth > 0)
        for (uint64_t i = 0; i < vf_concretize(few(id)) % 3; i++) kids.push_back(make(nodeChild(id, i), depth - 1));
      return seq::fromContainer(kids);
    });
  }
};
struct SmallProperty {
  CaseShr operator()(const Random &r, int size) const { return Small::make(treeOf(0, vr_id(r), size), 2); }
};
struct AnyListener : TestListener {
  void onTestCaseFinished(const CaseDescription &) override {}
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};
VF_ENTRY(round_trip) {
  vf_bounded("trees of depth two with 0..2 shrinks each");
  vf_nocut();
  TestParams p;
  p.seed = 1;
  p.maxSuccess = 1;
  p.maxDiscardRatio = 0;
  p.disableShrinking = vf_pick("disabled", 0, 1) != 0;
  const uint64_t root = treeOf(0, rightOf(1), 0);
  vf_assume(fails(root));
  // the definition of the local minimum
  uint64_t cur = root, depth = 2;
  uint64_t path[2];
  size_t steps = 0;
  bool moved = !p.disableShrinking;
  while (moved && depth > 0) {
    moved = false;
    for (uint64_t i = 0; i < vf_concretize(Small::few(cur)) % 3 && !moved; i++)
      if (fails(nodeChild(cur, i))) {
        path[steps] = i;
        steps++;
        cur = nodeChild(cur, i);
        depth--;
        moved = true;
      }
  }
  const Property property((SmallProperty()));
  AnyListener listener;
  const TestResult r = testProperty(property, TestMetadata(), p, listener);
  vf_check(r.is<FailureResult>(), "the failure is found");
  const FailureResult &f = r.get<FailureResult>();
  vf_check(textId(f.description) == cur, "the first failing shrink is followed until there is none");
  isExample(f.counterExample, cur);
  vf_check(f.reproduce.shrinkPath.size() == steps, "the path has one index per step");
  for (size_t i = 0; i < steps; i++) vf_check(f.reproduce.shrinkPath[i] == path[i], "the path is the index of each accepted shrink");
  const TestResult again = reproduceProperty(property, f.reproduce);
  vf_check(again.is<FailureResult>(), "the failure is reproduced");
  vf_check(textId(again.get<FailureResult>().description) == cur, "the same failure is reproduced");
  isExample(again.get<FailureResult>().counterExample, cur);
}
