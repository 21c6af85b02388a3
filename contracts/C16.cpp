// C16 the test loop
#include "vf_case.h"
//@ sources: src/detail/Testing.cpp src/detail/Property.cpp src/detail/Results.cpp src/detail/TestParams.cpp src/detail/TestMetadata.cpp src/BeforeMinimalTestCase.cpp src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
using namespace rc::detail;
// ---- the sizes: for each number of successes so far ----
static int sizeSpec(const TestParams &p, int i) {
  const int64_t numSizes = static_cast<int64_t>(p.maxSize) + 1;
  const int64_t regular = (p.maxSuccess / numSizes) * numSizes; // cases in full rounds
  if (i < regular) return static_cast<int>(i % numSizes);
  const int64_t rest = p.maxSuccess - regular;
  if (rest == 1) return 0;
  return static_cast<int>(((i % numSizes) * p.maxSize) / (rest - 1));
}
// ---- the loop: a monitor of its calls ----
struct LoopG {
  TestParams p;
  uint64_t engine; // what is left of the engine
  int64_t successes, discards, recent;
  uint64_t kase, rnd, tagged; // the case being run, with its engine
  int size;
  int phase; // 0: between cases, 1: generated, 2: evaluated, 3: ended
  bool stubSized; // the size was asked of the contract of sizeFor
  int stubSize;
};
static LoopG *gLoop;
struct LoopCase {
  uint64_t id;
  CaseDescription value() const {
    LoopG &g = *gLoop;
    vf_check(g.phase == 1 && id == g.kase, "each case is run exactly once");
    g.phase = 2;
    return caseOf(id);
  }
  Seq<CaseShr> shrinks() const {
    vf_check(0, "the loop does not shrink");
    return Seq<CaseShr>();
  }
};
static int64_t maxDiscards(const TestParams &p) { return static_cast<int64_t>(p.maxDiscardRatio) * p.maxSuccess; }
struct LoopProperty {
  CaseShr operator()(const Random &r, int size) const {
    LoopG &g = *gLoop;
    vf_check(g.phase == 0, "a case is run only after the one before it was reported, and none after the verdict");
    vf_check(g.successes < g.p.maxSuccess, "no case is run after max_success cases succeeded");
    vf_check(g.discards <= maxDiscards(g.p), "no case is run after too many were discarded");
    vf_check(vr_id(r) == rightOf(g.engine) && vr_drawn(r) == 0, "every case gets a fresh random split of the seed's engine");
    g.rnd = vr_id(r);
    g.engine = leftOf(g.engine);
    const int scheduled = g.stubSized ? g.stubSize : sizeSpec(g.p, static_cast<int>(g.successes));
    g.stubSized = false;
    vf_check(size == scheduled + g.recent / 10, "the size is the scheduled one plus one per ten consecutive discards");
    g.size = size;
    g.kase = treeOf(0, vr_id(r), size);
    g.phase = 1;
    return makeShrinkable<LoopCase>(LoopCase{g.kase});
  }
};
struct LoopListener : TestListener {
  void onTestCaseFinished(const CaseDescription &d) override {
    LoopG &g = *gLoop;
    vf_check(g.phase == 2, "every case run is reported exactly once");
    isCase(d, g.kase);
    g.phase = 0;
    const uint64_t o = outcomeOf(g.kase);
    if (o == kSuccess) {
      g.successes++;
      g.recent = 0;
      if (taggedCase(g.kase)) g.tagged++;
    } else if (o == kFailure) {
      g.phase = 3;
    } else {
      vf_assume(g.discards < 2147483647); // histories of fewer than 2^31 discards
      g.discards++;
      g.recent++;
      if (g.discards > maxDiscards(g.p)) g.phase = 3;
    }
  }
  void onShrinkTried(const CaseDescription &, bool) override { vf_check(0, "the loop does not shrink"); }
  void onTestFinished(const TestMetadata &, const TestResult &) override { vf_check(0, "the loop does not report the end of the test"); }
};
// contract of sizeFor: some size in the range, see `sizes`
static int sizeForStub(const TestParams &p, int i) {
  LoopG &g = *gLoop;
  vf_check(i == g.successes, "the size is the one for the number of successes so far");
  vf_check(p.maxSize == g.p.maxSize && p.maxSuccess == g.p.maxSuccess, "the size is the one for the parameters");
  g.stubSize = vf_range("scheduled size", 0, g.p.maxSize);
  g.stubSized = true;
  return g.stubSize;
}
#define TAGS "std::vector<std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>, std::allocator<std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>>>::"
static uint64_t gTagsKept;
static void tagsReserve(std::vector<Tags> *, size_t) {}
static void tagsPush(std::vector<Tags> *, Tags &&t) {
  vf_check(t.size() == 1 && textId(t[0]) == gLoop->kase, "the tags of each successful case are kept");
  gTagsKept++;
}
static bool loopInv(void *p) {
  LoopG &g = *static_cast<LoopG *>(p);
  const bool counts = vand(vand(g.successes >= 0, g.successes <= g.p.maxSuccess), vand(vand(g.recent >= 0, g.recent <= g.discards), g.discards <= 2147483647));
  return vand(vand(counts, g.phase == 0), vand(g.discards <= maxDiscards(g.p), gTagsKept == g.tagged));
}
static TestParams anyParams() {
  TestParams p;
  p.seed = vf_u64("seed");
  p.maxSuccess = vf_int("max_success");
  p.maxSize = vf_int("max_size");
  p.maxDiscardRatio = vf_int("max_discard_ratio");
  vf_assume(vand(vand(p.maxSuccess >= 0, p.maxSize >= 0), p.maxDiscardRatio >= 0)); // preconditions
  vf_assume(p.maxSize <= 1900000000); // the size plus the tenth of the discards is representable
  return p;
}
static void loopResult(const SearchResult &r, const LoopG &g) {
  vf_check(r.numSuccess == g.successes, "the number of successful cases is exact");
  vf_check(r.numDiscarded == g.discards, "the number of discarded cases is exact");
  if (r.type == SearchResult::Type::Success) {
    vf_check(g.phase == 0 && g.successes == g.p.maxSuccess, "the verdict is success only after max_success successful cases");
    vf_reach("success");
    return;
  }
  vf_check(g.phase == 3, "any other verdict is only given after a failing case or too many discards");
  if (r.type == SearchResult::Type::Failure) {
    vf_check(outcomeOf(g.kase) == kFailure, "the verdict is failure only if the last case failed");
    vf_reach("failure");
  } else {
    vf_check(r.type == SearchResult::Type::GaveUp && outcomeOf(g.kase) == kDiscard, "the verdict is giving up only if the last case was discarded");
    vf_reach("gave up");
  }
  vf_check(!!r.failure, "the last case is described");
  vf_check(r.failure->size == g.size && vr_id(r.failure->random) == g.rnd && vr_drawn(r.failure->random) == 0, "the size and the engine of the last case are kept");
  vf_check(static_cast<CaseShr::ShrinkableImpl<LoopCase> *>(r.failure->shrinkable.m_impl)->m_impl.id == g.kase, "the tree of the last case is kept");
}
VF_ENTRY(loop) {
  if (!vf_symbolic()) return;
  const TestParams p = anyParams();
  LoopG g{p, p.seed, 0, 0, 0, 0, 0, 0, 0, 0, false, 0};
  gLoop = &g;
  vf_contract(TAGS "reserve(", reinterpret_cast<void *>(&tagsReserve), 0);
  vf_contract(TAGS "push_back(std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>&&)", reinterpret_cast<void *>(&tagsPush), 0);
  vf_contract("rc::detail::(anonymous namespace)::sizeFor(", reinterpret_cast<void *>(&sizeForStub), 0);
  const Property property((LoopProperty()));
  LoopListener listener;
  vf_invariant("counts so far", &loopInv, &g);
  const SearchResult r = searchProperty(property, p, listener);
  loopResult(r, g);
  vf_check(gTagsKept == g.tagged, "the tags of every successful case are kept");
}
VF_ENTRY(loop_small) {
  vf_bounded("at most 2 successes, ratio 0..1");
  vf_nocut();
  TestParams p;
  p.seed = vf_u64("seed");
  p.maxSuccess = vf_pick("max_success", 0, 2);
  p.maxSize = vf_pick("max_size", 0, 1);
  p.maxDiscardRatio = vf_pick("max_discard_ratio", 0, 1);
  LoopG g{p, p.seed, 0, 0, 0, 0, 0, 0, 0, 0, false, 0};
  gLoop = &g;
  const Property property((LoopProperty()));
  LoopListener listener;
  const SearchResult r = searchProperty(property, p, listener);
  loopResult(r, g);
  vf_check(r.tags.size() == g.tagged, "the tags of every successful case are kept");
}
// ---- the schedule of sizes ----
struct SizesG {
  TestParams p;
  int successes;
};
static SizesG *gSizes;
struct SizesProperty {
  CaseShr operator()(const Random &, int size) const {
    SizesG &g = *gSizes;
    vf_check(size == sizeSpec(g.p, g.successes), "the sizes are those of the schedule");
    g.successes++;
    return shrinkable::lambda([] {
      CaseDescription d;
      d.result.type = CaseResult::Type::Success;
      return d;
    });
  }
};
struct QuietListener : TestListener {
  void onTestCaseFinished(const CaseDescription &) override {}
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};
static void runSizes(const TestParams &p) { // natively and in small
  SizesG g{p, 0};
  gSizes = &g;
  const Property property((SizesProperty()));
  QuietListener listener;
  searchProperty(property, p, listener);
}
VF_ENTRY(sizes) {
  TestParams p = anyParams();
  p.seed = 0;
  const int i = vf_int("i");
  vf_assume(vand(i >= 0, i < p.maxSuccess)); // precondition
  typedef int (*SizeFor)(const TestParams &, int);
  if (const SizeFor sizeFor = reinterpret_cast<SizeFor>(vf_function("rc::detail::(anonymous namespace)::sizeFor("))) {
    vf_check(sizeFor(p, i) == sizeSpec(p, i), "the sizes are those of the schedule");
  } else {
    if (vf_symbolic()) vf_contract(TAGS "reserve(", reinterpret_cast<void *>(&tagsReserve), 0);
    else vf_assume(p.maxSuccess < 1000000);
    runSizes(p);
  }
}
VF_ENTRY(sizes_small) {
  vf_bounded("at most 7 successes, sizes to 5");
  vf_nocut();
  TestParams p;
  p.maxSuccess = vf_pick("max_success", 0, 7);
  p.maxSize = vf_pick("max_size", 0, 5);
  runSizes(p);
}
VF_ENTRY(sizes_schedule) { // what the schedule amounts to
  TestParams p = anyParams();
  const int i = vf_int("i");
  vf_assume(vand(i >= 0, i < p.maxSuccess));
  const int64_t numSizes = static_cast<int64_t>(p.maxSize) + 1;
  const int64_t rounds = p.maxSuccess / numSizes, regular = rounds * numSizes, rest = p.maxSuccess - regular;
  vf_lemma(vand(regular >= 0, vand(rest >= 0, rest < numSizes)), "all but fewer than a round are in full rounds");
  if (i >= regular && rest > 1) {
    vf_lemma(i % numSizes == i - regular, "the place in the last round");
    const int64_t at = i - regular;
    vf_lemma(at * p.maxSize <= (rest - 1) * p.maxSize, "the share of the maximum");
    vf_lemma(vand((at * p.maxSize) / (rest - 1) >= 0, (at * p.maxSize) / (rest - 1) <= p.maxSize), "the size in the last round");
  }
  const int size = sizeSpec(p, i);
  vf_check(vand(size >= 0, size <= p.maxSize), "sizes are between zero and the maximum");
}
VF_ENTRY(sizes_maximum) {
  TestParams p = anyParams();
  vf_assume(p.maxSuccess >= 2);
  const int last = p.maxSuccess > p.maxSize ? p.maxSize : p.maxSuccess - 1;
  vf_check(sizeSpec(p, last) == p.maxSize, "the maximum size is used whenever there are two cases");
}
// ---- the verdict: the loop by contract ----
struct VerdictG {
  SearchResult::Type type;
  int numSuccess;
  uint64_t kase;
  int searched, reported;
};
static VerdictG *gVerdict;
struct VerdictCase {
  uint64_t id;
  CaseDescription value() const { return caseOf(id); }
  Seq<CaseShr> shrinks() const { return Seq<CaseShr>(); }
};
static SearchResult searchStub(const Property &, const TestParams &, TestListener &) {
  VerdictG &g = *gVerdict;
  vf_check(g.reported == 0, "the end is reported after the cases");
  g.searched++;
  SearchResult r;
  r.type = g.type;
  r.numSuccess = g.numSuccess;
  r.numDiscarded = vf_int("discarded");
  if (g.type != SearchResult::Type::Success) r.failure = SearchResult::Failure(makeShrinkable<VerdictCase>(VerdictCase{g.kase}), vf_int("size"), vr_any("engine"));
  return r;
}
static void verdictIs(const TestResult &r, const VerdictG &g) {
  if (g.type == SearchResult::Type::Success) {
    vf_check(r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == g.numSuccess, "success is reported with the number of successful cases");
    vf_check(r.get<SuccessResult>().distribution.empty(), "only the tags of cases are counted");
    vf_reach("success");
  } else if (g.type == SearchResult::Type::GaveUp) {
    vf_check(r.is<GaveUpResult>() && r.get<GaveUpResult>().numSuccess == g.numSuccess, "giving up is reported with the number of successful cases");
    vf_check(textId(r.get<GaveUpResult>().description) == g.kase, "giving up is reported with the last case's reason");
    vf_reach("gave up");
  } else {
    vf_check(r.is<FailureResult>() && r.get<FailureResult>().numSuccess == g.numSuccess, "failure is reported with the number of successful cases");
    vf_reach("failure");
  }
}
struct VerdictListener : TestListener {
  void onTestCaseFinished(const CaseDescription &) override { vf_check(0, "no other case is reported"); }
  void onShrinkTried(const CaseDescription &, bool) override { vf_check(0, "no shrink is reported"); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    VerdictG &g = *gVerdict;
    vf_check(textId(m.id) == 1 && textId(m.description) == 2, "the end is reported for the test");
    g.reported++;
    verdictIs(r, g);
  }
};
VF_ENTRY(verdict) {
  if (!vf_symbolic()) return;
  const int type = vf_pick("type", 0, 2);
  VerdictG g{type == 0 ? SearchResult::Type::Success : type == 1 ? SearchResult::Type::GaveUp : SearchResult::Type::Failure, vf_int("successes"), vf_u64("case"), 0, 0};
  gVerdict = &g;
  vf_contract("rc::detail::searchProperty(", reinterpret_cast<void *>(&searchStub), 0);
  const Property property((SizesProperty()));
  VerdictListener listener;
  TestParams p;
  p.disableShrinking = true;
  const TestMetadata metadata{idText(1), idText(2)};
  SizesG sizes{p, 0};
  gSizes = &sizes;
  const TestResult r = testProperty(property, metadata, p, listener);
  vf_check(g.reported == 1, "the end of the test is reported once");
  vf_check(g.searched == 1, "the cases are run once");
  verdictIs(r, g);
}
// ---- the distribution of tags ----
struct TagsG { uint64_t cases; };
static TagsG *gTags;
static uint64_t tagKind(uint64_t i) { // of the i-th case: none, {a}, {b}, {a, b}
  return vf_uf("tags", 2, 1, i);
}
struct TagsProperty {
  CaseShr operator()(const Random &, int) const {
    const uint64_t i = gTags->cases;
    gTags->cases++;
    return shrinkable::lambda([i] {
      CaseDescription d;
      d.result.type = CaseResult::Type::Success;
      if (tagKind(i) & 1) d.tags.push_back("a");
      if (tagKind(i) & 2) d.tags.push_back("b");
      return d;
    });
  }
};
VF_ENTRY(distribution) {
  vf_bounded("0..3 cases of four kinds of tags");
  vf_nocut();
  TestParams p;
  p.maxSuccess = vf_pick("max_success", 0, 3);
  TagsG g{0};
  gTags = &g;
  const Property property((TagsProperty()));
  QuietListener listener;
  const TestResult r = testProperty(property, TestMetadata(), p, listener);
  vf_check(r.is<SuccessResult>(), "success");
  const Distribution &d = r.get<SuccessResult>().distribution;
  const Tags kinds[4] = {{}, {"a"}, {"b"}, {"a", "b"}};
  int total = 0;
  for (uint64_t k = 1; k < 4; k++) {
    int n = 0;
    for (int i = 0; i < p.maxSuccess; i++) n += static_cast<int>(vf_ite(tagKind(i) == k, 1, 0));
    const auto it = d.find(kinds[k]);
    vf_check((it == d.end() ? 0 : it->second) == n, "each set of tags is counted once per successful case that has it");
    if (it != d.end()) total++;
  }
  vf_check(static_cast<int>(d.size()) == total, "nothing else is counted");
}
