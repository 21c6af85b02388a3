// C19 imperative generation
#include "rapidcheck.h"
#include "rapidcheck/gen/detail/ExecRaw.h"
#include "rapidcheck/detail/Property.h"
#include "vf.h"
#include "vf_gen.h"
//@ sources: src/gen/detail/ExecHandler.cpp src/gen/detail/Recipe.cpp src/gen/detail/GenerationHandler.cpp src/detail/ImplicitParam.cpp src/detail/Any.cpp src/detail/Property.cpp src/detail/PropertyContext.cpp src/detail/Results.cpp src/GenerationFailure.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
using namespace rc::gen::detail;
using rc::detail::Any;
using rc::detail::ImplicitParam;
using rc::detail::ImplicitScope;
typedef gen::detail::param::CurrentHandler CurrentHandler;
typedef Recipe::Ingredient Ingredient;
typedef Recipe::Ingredients Ingredients;

static void emptyState() { // constructors of globals are not run by the verifier
  new (&ImplicitParam<CurrentHandler>::m_stack) ImplicitParam<CurrentHandler>::StackT();
  new (&ImplicitParam<rc::detail::param::CurrentPropertyContext>::m_stack) ImplicitParam<rc::detail::param::CurrentPropertyContext>::StackT();
  new (&ImplicitScope::m_scopes) ImplicitScope::ScopeStack();
}
struct Stop {};
// values wrapped in Any, as picks are
struct AnyNode {
  uint64_t id;
  Any value() const { return Any::of(nodeValue(id)); }
  Seq<Shrinkable<Any>> shrinks() const;
};
struct AnyKids;
struct TrackAny { // where the shrinks of a pick of interest are
  uint64_t id;
  AnyKids *at;
  uint64_t k;
  bool on;
  static bool inv(void *p);
};
static TrackAny gAt;
struct AnyKids {
  typedef Shrinkable<Any> ValueType;
  uint64_t id, i;
  Maybe<Shrinkable<Any>> operator()() {
    if (gAt.on && gAt.id == id) gAt.at = this;
    if (i >= nodeCount(id)) return Nothing;
    const uint64_t at = i;
    i++;
    return makeShrinkable<AnyNode>(AnyNode{nodeChild(id, at)});
  }
};
bool TrackAny::inv(void *p) {
  TrackAny &g = *static_cast<TrackAny *>(p);
  return g.at == nullptr || g.at->i == g.k;
}
Seq<Shrinkable<Any>> AnyNode::shrinks() const { return makeSeq<AnyKids>(AnyKids{id, 0}); }
static Shrinkable<Any> anyNode(uint64_t id) { return makeShrinkable<AnyNode>(AnyNode{id}); }
static uint64_t valueIn(const Any &a) { return *static_cast<const uint64_t *>(const_cast<Any &>(a).m_impl->get()); }
static bool isAnyNode(const Shrinkable<Any> &s, uint64_t id) { return valueIn(s.value()) == nodeValue(id); }

// ---- one pick, from any state of the handler ----
static uint64_t gCalls, gSeenRnd;
static int gSeenSize;
static GenerationHandler *gSeenHandler;
struct PickGen { // its body and the value may look at the context and throw
  uint64_t id;
  Shrinkable<Any> operator()(const Random &r, int size) const {
    gCalls++;
    gSeenRnd = vr_id(r);
    gSeenSize = size;
    gSeenHandler = ImplicitParam<CurrentHandler>::value();
    return anyNode(treeOf(id, vr_id(r), size));
  }
};
struct ThrowingAny {
  Any value() const { throw Stop(); }
  Seq<Shrinkable<Any>> shrinks() const { return Seq<Shrinkable<Any>>(); }
};
struct RawIngredients { // n ingredients in arbitrary memory, with room for one more
  char *mem;
  uint64_t n;
  RawIngredients(Recipe &recipe) {
    n = vf_u64("ingredients");
    vf_assume(n <= 1000000);
    mem = static_cast<char *>(vf_bytes("ingredients", (n + 1) * sizeof(Ingredient)));
    set(recipe.ingredients);
  }
  void set(Ingredients &v) {
    v._M_impl._M_start = reinterpret_cast<Ingredient *>(mem);
    v._M_impl._M_finish = v._M_impl._M_start + n;
    v._M_impl._M_end_of_storage = v._M_impl._M_start + n + 1;
  }
};
VF_ENTRY(pick_known) { // a pick that the recipe has an ingredient for
  emptyState();
  Recipe &recipe = *new Recipe;
  recipe.random = vr_any("recipe's engine");
  recipe.size = vf_any<int>("size");
  RawIngredients raw(recipe);
  const uint64_t p = vf_u64("picks made");
  vf_assume(p < raw.n);
  const bool throws = vf_pick("throws", 0, 1) != 0;
  const uint64_t id = vf_u64("ingredient");
  Ingredient *at = recipe.ingredients._M_impl._M_start + p;
  new (at) Ingredient("d", throws ? makeShrinkable<ThrowingAny>() : anyNode(id));
  ExecHandler h(recipe);
  vf_check(vr_id(h.m_random) == vr_id(recipe.random), "picks start from the recipe's engine");
  vf_check(h.m_it == recipe.ingredients.begin(), "picks start from the first ingredient");
  h.m_it = recipe.ingredients.begin() + p;
  const uint64_t r = vf_u64("engine");
  h.m_random = Random(r);
  ImplicitParam<CurrentHandler> let(&h);
  gCalls = 0;
  bool threw = false;
  try {
    const Any v = h.onGenerate(Gen<Any>(PickGen{vf_u64("generator")}));
    vf_check(valueIn(v) == nodeValue(id), "a pick gives the value of its ingredient");
  } catch (const Stop &) {
    threw = true;
  }
  vf_check(threw == throws, "an exception of a pick's value goes to the caller, and only that");
  vf_check(gCalls == 0, "a pick that has an ingredient is not generated again");
  vf_check(vr_id(h.m_random) == leftOf(r), "every pick splits the engine once");
  vf_check(h.m_it == recipe.ingredients.begin() + p + 1, "the next pick takes the next ingredient");
  vf_check(recipe.ingredients.size() == raw.n, "no ingredient is added or removed");
  vf_check(ImplicitParam<CurrentHandler>::value() == &h, "the handler is in effect again after the pick");
  vf_check(ImplicitScope::m_scopes.empty(), "the pick's scope has ended");
}
VF_ENTRY(pick_new) { // a pick beyond the recipe's ingredients
  emptyState();
  Recipe &recipe = *new Recipe;
  recipe.random = vr_any("recipe's engine");
  recipe.size = vf_any<int>("size");
  RawIngredients raw(recipe);
  ExecHandler h(recipe);
  h.m_it = recipe.ingredients.end();
  const uint64_t r = vf_u64("engine");
  h.m_random = Random(r);
  const uint64_t k = vf_u64("some ingredient");
  vf_assume(k < raw.n);
  const uint64_t *const some = reinterpret_cast<const uint64_t *>(recipe.ingredients._M_impl._M_start + k) + vf_pick("word of it", 0, sizeof(Ingredient) / 8 - 1);
  const uint64_t word = *some;
  ImplicitParam<CurrentHandler> let(&h);
  gCalls = 0;
  const uint64_t g = vf_u64("generator");
  const Any v = h.onGenerate(Gen<Any>(PickGen{g}).as("nm"));
  vf_check(gCalls == 1, "the generator is invoked once");
  vf_check(gSeenRnd == rightOf(r), "each pick has its own split of the engine");
  vf_check(gSeenSize == recipe.size, "picks are generated at the case's size");
  vf_check(gSeenHandler != &h, "the generator does not see the enclosing handler");
  const uint64_t id = treeOf(g, rightOf(r), recipe.size);
  vf_check(valueIn(v) == nodeValue(id), "the pick gives the generated value");
  vf_check(vr_id(h.m_random) == leftOf(r), "every pick splits the engine once");
  vf_check(recipe.ingredients.size() == raw.n + 1, "the pick becomes an ingredient");
  const Ingredient &i = recipe.ingredients._M_impl._M_start[raw.n];
  vf_check(i.description == "nm", "the ingredient has the generator's name");
  vf_check(isAnyNode(i.shrinkable, id), "the ingredient is the generated shrinkable");
  vf_check(h.m_it == recipe.ingredients.end(), "the next pick will be a new one");
  vf_check(*some == word, "earlier ingredients are not changed");
  vf_check(ImplicitParam<CurrentHandler>::value() == &h, "the handler is in effect again after the pick");
  vf_check(ImplicitScope::m_scopes.empty(), "the pick's scope has ended");
}

// ---- recipes of up to three ingredients ----
struct Plain { // what a recipe is
  uint64_t rnd, n, fixed, ids[4];
  int size;
};
static Plain arbitraryPlain(int most) {
  Plain p;
  p.rnd = vf_u64("engine");
  p.size = vf_any<int>("size");
  p.n = vf_pick("ingredients", 0, most);
  p.fixed = vf_pick("fixed", 0, p.n);
  for (uint64_t i = 0; i < p.n; i++) p.ids[i] = vf_u64("ingredient");
  return p;
}
static const char *const kNames[4] = {"p0", "p1", "p2", "p3"};
static Recipe recipeOf(const Plain &p) {
  Recipe r;
  r.random = Random(p.rnd);
  r.size = p.size;
  r.numFixed = p.fixed;
  for (uint64_t i = 0; i < p.n; i++) r.ingredients.push_back(Ingredient(kNames[i], anyNode(p.ids[i])));
  return r;
}
static void isRecipe(const Recipe &r, const Plain &p) {
  vf_check(vand(vr_id(r.random) == p.rnd, r.size == p.size), "the recipe keeps its engine and size");
  vf_check(r.numFixed == p.fixed, "picks before the one last shrunk are fixed");
  vf_check(r.ingredients.size() == p.n, "the recipe has the prescribed ingredients");
  for (uint64_t i = 0; i < p.n; i++) {
    const Ingredient &x = r.ingredients[i];
    vf_check(x.description == kNames[i], "an ingredient keeps its description");
    vf_check(isAnyNode(x.shrinkable, p.ids[i]), "an ingredient is the prescribed one");
  }
}
static Plain shrunk(const Plain &p, uint64_t i, uint64_t k) { // replaces pick i by its k-th shrink
  Plain q = p;
  q.ids[i] = nodeChild(p.ids[i], k);
  q.n = i + 1;
  q.fixed = i;
  return q;
}
VF_ENTRY(recipe_shrinks) {
  emptyState();
  const Plain p = arbitraryPlain(3);
  const Recipe r = recipeOf(p);
  // the ingredients before pick i have few shrinks; pick i has any number
  const uint64_t i = vf_pick("pick", 0, 3);
  if (i > p.n) return;
  Seq<Recipe> s = shrinkRecipe(r);
  for (uint64_t j = p.fixed; j < i; j++) {
    const uint64_t m = vf_pick("shrinks of an earlier pick", 0, 1);
    vf_assume(nodeCount(p.ids[j]) == m);
    for (uint64_t k = 0; k < m; k++) {
      Maybe<Recipe> x = s.next();
      vf_check(!!x, "every shrink of every pick that is not fixed is offered");
      isRecipe(*x, shrunk(p, j, k));
    }
  }
  if (i == p.n || i < p.fixed) {
    if (i == p.n) {
      vf_check(!s.next(), "nothing else is offered");
      vf_check(!s.next(), "an ended sequence stays ended");
    }
    return;
  }
  // pick i, when it has one or two
  const uint64_t n = nodeCount(p.ids[i]);
  vf_assume(n > 0);
  vf_assume(n <= 2);
  for (uint64_t k = 0; k < n; k++) {
    Maybe<Recipe> x = s.next();
    vf_check(!!x, "every shrink of every pick that is not fixed is offered");
    isRecipe(*x, shrunk(p, i, k));
  }
  isRecipe(r, p);
}
VF_ENTRY(recipe_shrinks_any) { // a pick with any number of shrinks
  emptyState();
  Plain p;
  p.rnd = vf_u64("engine");
  p.size = vf_any<int>("size");
  p.n = vf_pick("ingredients", 1, 2);
  for (uint64_t j = 0; j < p.n; j++) p.ids[j] = vf_u64("ingredient");
  const uint64_t i = vf_pick("pick", 0, p.n - 1); // the others have none
  p.fixed = i;
  for (uint64_t j = i + 1; j < p.n; j++) vf_assume(nodeCount(p.ids[j]) == 0);
  const Recipe r = recipeOf(p);
  Seq<Recipe> s = shrinkRecipe(r);
  // pick i: any number of them; then nothing of the later picks
  gAt = TrackAny{p.ids[i], nullptr, 0, true};
  vf_invariant("position in the pick's shrinks", &TrackAny::inv, &gAt);
  const uint64_t n = nodeCount(p.ids[i]);
  vf_cut_after(1);
  while (vf_bool("more")) {
    Maybe<Recipe> x = s.next();
    vf_check(!!x == (gAt.k < n), "every shrink of every pick that is not fixed is offered, and nothing else");
    if (!x) {
      vf_check(!s.next(), "an ended sequence stays ended");
      vf_reach("after the last shrink");
      break;
    }
    isRecipe(*x, shrunk(p, i, gAt.k));
    gAt.k++;
  }
  isRecipe(r, p);
}

// ---- programs: up to three picks, each depending on what was picked before ----
// which generator is picked from, whether there is another pick, and the result
// are arbitrary functions of the values picked so far
static const int kPicks = 3, kDepth = 3;
struct Run {
  uint64_t n, v[4];
  uint64_t history() const { // of the values so far
    uint64_t h = 0;
    for (uint64_t i = 0; i < n; i++) h = vf_uf("history", 64, 2, h, v[i]);
    return h;
  }
  bool more() const { return n < uint64_t(kPicks) && vf_uf("picks again", 1, 1, history()) != 0; }
  uint64_t generator() const { return vf_uf("picks from", 64, 1, history()); }
  uint64_t result() const { return vf_uf("result", 64, 1, history()); }
};
struct PGen {
  uint64_t id;
  Shrinkable<uint64_t> operator()(const Random &r, int size) const {
    gCalls++;
    return makeShrinkable<NodeOf<uint64_t>>(NodeOf<uint64_t>{treeOf(id, vr_id(r), size)});
  }
};
static Run gRun; // of the last run
static uint64_t gRuns;
struct Program {
  uint64_t operator()() const {
    Run run;
    run.n = 0;
    while (run.more()) {
      run.v[run.n] = *Gen<uint64_t>(PGen{run.generator()}).as(kNames[run.n]);
      run.n++;
    }
    gRun = run;
    gRuns++;
    return run.result();
  }
};
// what running the program on a recipe gives: known picks are the ingredients'
// values, later ones are generated from the engine's i-th split
static Run runOn(Plain &p) {
  Run run;
  run.n = 0;
  uint64_t left = p.rnd;
  while (run.more()) {
    if (run.n == p.n) {
      p.ids[p.n] = treeOf(run.generator(), rightOf(left), p.size);
      p.n++;
    }
    run.v[run.n] = nodeValue(p.ids[run.n]);
    left = leftOf(left);
    run.n++;
  }
  return run;
}
typedef std::pair<uint64_t, Recipe> Out;
typedef Shrinkable<Out> OutShr;
static void isRunOf(const OutShr &s, Plain p, Plain *out, int times) {
  const Run expected = runOn(p);
  for (int i = 0; i < times; i++) {
    const Out o = s.value();
    vf_check(o.first == expected.result(), "the value is the program's, run on the prescribed picks");
    isRecipe(o.second, p);
    vf_check(ImplicitScope::m_scopes.empty(), "no scope is left");
    vf_check(ImplicitParam<CurrentHandler>::m_stack.empty(), "no handler is left");
  }
  if (out != nullptr) *out = p;
}
static void run_(int most) { // the value, from any recipe: the same each time
  emptyState();
  const Plain p = arbitraryPlain(most);
  const OutShr s = shrinkableWithRecipe(Program(), recipeOf(p));
  isRunOf(s, p, nullptr, 2);
}
VF_ENTRY(run) { run_(kPicks); }
// the shrinks of any recipe: those of its picks, from the first that is not fixed
VF_ENTRY(run_shrinks) {
  emptyState();
  const Plain p0 = arbitraryPlain(2);
  const OutShr s = shrinkableWithRecipe(Program(), recipeOf(p0));
  Plain p = p0;
  runOn(p);
  Seq<OutShr> shrinks = s.shrinks();
  const uint64_t i = vf_pick("pick", 0, kPicks);
  if (i > p.n) return;
  for (uint64_t j = p.fixed; j < i; j++) {
    const uint64_t m = vf_pick("shrinks of an earlier pick", 0, 1);
    vf_assume(nodeCount(p.ids[j]) == m);
    if (m > 0) vf_check(!!shrinks.next(), "every shrink of every pick that is not fixed is offered");
  }
  if (i < p.fixed) return;
  if (i == p.n) {
    vf_check(!shrinks.next(), "nothing else is offered");
    return;
  }
  const uint64_t n = nodeCount(p.ids[i]);
  vf_assume(n > 0);
  Maybe<OutShr> x = shrinks.next();
  vf_check(!!x, "every shrink of every pick that is not fixed is offered");
  isRunOf(*x, shrunk(p, i, 0), nullptr, 1);
}
// gen::exec: a function of engine and size; a path of shrinks
VF_ENTRY(exec) {
  emptyState();
  const Random r = vr_any("engine");
  const int size = vf_any<int>("size");
  const Gen<uint64_t> g = gen::exec(Program());
  Plain p = {vr_id(r), 0, 0, {0, 0, 0, 0}, size};
  const Random before(r);
  const Shrinkable<uint64_t> s = g(r, size), again = g(r, size);
  vf_check(vr_id(before) == vr_id(r) && vr_drawn(r) == 0, "the caller's engine is untouched");
  const Run expected = runOn(p);
  vf_check(s.value() == expected.result(), "the value is the program's, run on generated picks");
  vf_check(again.value() == expected.result(), "the generator is a function of engine and size");
}
VF_ENTRY(exec_path) {
  emptyState();
  const Random r = vr_any("engine");
  const int size = vf_any<int>("size");
  Plain p = {vr_id(r), 0, 0, {0, 0, 0, 0}, size};
  Shrinkable<uint64_t> s = gen::exec(Program())(r, size);
  for (int depth = 0; depth < kDepth; depth++) {
    runOn(p);
    const uint64_t i = vf_pick("pick", 0, kPicks - 1);
    if (i >= p.n || i < p.fixed) return;
    for (uint64_t j = p.fixed; j < i; j++) vf_assume(nodeCount(p.ids[j]) == 0);
    vf_assume(nodeCount(p.ids[i]) > 0);
    Seq<Shrinkable<uint64_t>> shrinks = s.shrinks();
    Maybe<Shrinkable<uint64_t>> x = shrinks.next();
    vf_check(!!x, "every shrink of every pick that is not fixed is offered");
    p = shrunk(p, i, 0);
    Plain q = p;
    const Run expected = runOn(q);
    vf_check(x->value() == expected.result(), "a shrink's value is the program's, run on the picks with one replaced");
    s = std::move(*x);
  }
}

// arguments are one pick, of their tuple, before the others
namespace rc {
template <>
struct Arbitrary<Val> {
  static Gen<Val> arbitrary() { return absGen(1); }
};
}
struct Taking {
  uint64_t operator()(const Val &a, const Val &b) const {
    const uint64_t c = *Gen<uint64_t>(PGen{7});
    return vf_uf("result of three", 64, 3, a.get(), b.get(), c);
  }
};
VF_ENTRY(arguments) {
  emptyState();
  const Random r = vr_any("engine");
  const int size = vf_any<int>("size");
  const Gen<uint64_t> g = gen::exec(Taking());
  const Shrinkable<uint64_t> s = g(r, size);
  const uint64_t id = vr_id(r), args = rightOf(id), after = leftOf(id);
  const uint64_t a = treeOf(1, rightOf(args), size), b = treeOf(1, rightOf(leftOf(args)), size), c = treeOf(7, rightOf(after), size);
  const uint64_t vc = nodeValue(c);
  vf_check(s.value() == vf_uf("result of three", 64, 3, nodeValue(a), nodeValue(b), vc), "the arguments are the first pick");
  // the first shrink: of the first argument, with the second kept and the pick made again
  vf_assume(nodeCount(a) > 0);
  Seq<Shrinkable<uint64_t>> shrinks = s.shrinks();
  Maybe<Shrinkable<uint64_t>> x = shrinks.next();
  vf_check(!!x, "the arguments shrink");
  vf_check(x->value() == vf_uf("result of three", 64, 3, nodeValue(nodeChild(a, 0)), nodeValue(b), vc), "the arguments shrink one at a time");
}
VF_ENTRY(no_handler) { // outside a generator a pick is an error
  emptyState();
  bool threw = false;
  gCalls = 0;
  try {
    *Gen<uint64_t>(PGen{1});
  } catch (const std::runtime_error &) {
    threw = true;
  }
  vf_check(threw && gCalls == 0, "a pick outside every generator is refused");
}
