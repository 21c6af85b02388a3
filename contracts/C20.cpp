// C20 dynamically scoped parameters
//
// Programs are well nested: they read parameters, run programs with a
// parameter bound or in a new scope, one after the other, and may end by an
// exception at any point. The claim for a program run in a state S is:
//   every parameter's bindings and the scopes are afterwards as in S, except
//   that a parameter nothing of which was visible in S may have its default
//   on top, at the current level, registered once with the current scope.
// It is shown by induction over programs: `Body` is any program of which the
// claim is known, and the steps below show it for a read, a binding around a
// body, and a scope around a body, from any state.
#include "rapidcheck.h"
#include "rapidcheck/detail/ImplicitParam.h"
#include "rapidcheck/detail/PropertyContext.h"
#include "rapidcheck/gen/detail/GenerationHandler.h"
#include "rapidcheck/gen/detail/ExecHandler.h"
#include "vf.h"
#include "vf_gen.h"
//@ sources: src/detail/ImplicitParam.cpp src/Classify.cpp src/Log.cpp src/detail/PropertyContext.cpp src/gen/detail/GenerationHandler.cpp src/gen/detail/ExecHandler.cpp src/gen/detail/Recipe.cpp src/detail/Any.cpp src/detail/Results.cpp src/GenerationFailure.cpp src/detail/Property.cpp
//@ replace: src/Random.cpp absrandom.cpp
//@ assume: room to push three more bindings and scopes without growing the vectors (the growth is std::vector's; it happens in the entries that start from the empty state)
using namespace rc;
using namespace rc::detail;
namespace gdp = rc::gen::detail::param;

static uint64_t gDefaults[2]; // calls of defaultValue
struct ParA {
  typedef uint64_t ValueType;
  static uint64_t defaultValue() { gDefaults[0]++; return 1000; }
};
struct ParB {
  typedef uint64_t ValueType;
  static uint64_t defaultValue() { gDefaults[1]++; return 2000; }
};
typedef ImplicitScope::Destructors Dtors;
template <typename P>
struct Par {
  typedef typename ImplicitParam<P>::Binding Binding;
  uint64_t n, level, top, k, kValue, kLevel;
  static std::vector<Binding> &stack() { return ImplicitParam<P>::m_stack.c; }
  void arbitrary(const char *name, uint64_t L) {
    n = vf_u64("bindings");
    const uint64_t room = 3;
    vf_assume(n <= 1000000);
    char *mem = static_cast<char *>(vf_bytes(name, (n + room) * sizeof(Binding)));
    std::vector<Binding> &v = stack();
    v._M_impl._M_start = reinterpret_cast<Binding *>(mem);
    v._M_impl._M_finish = v._M_impl._M_start + n;
    v._M_impl._M_end_of_storage = v._M_impl._M_start + n + room;
    level = 0;
    top = 0;
    k = 0;
    if (n > 0) {
      level = v._M_impl._M_start[n - 1].second;
      top = v._M_impl._M_start[n - 1].first;
      vf_assume(level <= L);
      k = vf_u64("some binding");
      vf_assume(k < n);
      kValue = v._M_impl._M_start[k].first;
      kLevel = v._M_impl._M_start[k].second;
    }
  }
  bool visible(uint64_t L) const { return vand(n > 0, level == L); }
  uint64_t size() const { return stack().size(); }
  void below() const { // the bindings of S are still there
    vf_check(size() >= n, "no binding of an outer extent is removed");
    if (n > 0) vf_check(vand(stack()._M_impl._M_start[k].first == kValue, stack()._M_impl._M_start[k].second == kLevel), "outer bindings are not changed");
  }
  void same() const {
    below();
    vf_check(size() == n, "the bindings are the previous ones");
  }
};
struct State {
  Par<ParA> a;
  Par<ParB> b;
  uint64_t L, d; // scopes, destructors of the innermost
  static std::vector<Dtors> &scopes() { return ImplicitScope::m_scopes.c; }
  State() {
    L = vf_u64("scopes");
    vf_assume(L <= 1000000);
    const uint64_t room = 3;
    char *mem = static_cast<char *>(vf_bytes("scope stack", (L + room) * sizeof(Dtors)));
    std::vector<Dtors> &v = scopes();
    v._M_impl._M_start = reinterpret_cast<Dtors *>(mem);
    v._M_impl._M_finish = v._M_impl._M_start + L;
    v._M_impl._M_end_of_storage = v._M_impl._M_start + L + room;
    d = 0;
    if (L > 0) {
      d = vf_u64("destructors");
      vf_assume(d <= 1000000);
      char *dm = static_cast<char *>(vf_bytes("destructor list", (d + room) * sizeof(ImplicitScope::Destructor)));
      Dtors &t = v._M_impl._M_start[L - 1];
      t._M_impl._M_start = reinterpret_cast<ImplicitScope::Destructor *>(dm);
      t._M_impl._M_finish = t._M_impl._M_start + d;
      t._M_impl._M_end_of_storage = t._M_impl._M_start + d + room;
    }
    a.arbitrary("bindings of A", L);
    b.arbitrary("bindings of B", L);
    gDefaults[0] = gDefaults[1] = 0;
  }
  static Dtors &top() { return scopes()._M_impl._M_finish[-1]; }
  uint64_t registered() const { return L > 0 ? top().size() : 0; }
};
typedef std::stack<Par<ParA>::Binding, std::vector<Par<ParA>::Binding>> StackA;
typedef std::stack<Par<ParB>::Binding, std::vector<Par<ParB>::Binding>> StackB;
static ImplicitScope::Destructor popA() { return popStackBinding<StackA, &ImplicitParam<ParA>::m_stack>; }
static ImplicitScope::Destructor popB() { return popStackBinding<StackB, &ImplicitParam<ParB>::m_stack>; }

struct Stop {};
// any program for which the claim holds: it may make the default of a
// parameter that is not visible, in some order, and may end by an exception
static void body() {
  const int what = vf_pick("body", 0, 4);
  if (what == 1 || what == 3) ImplicitParam<ParA>::value();
  if (what >= 2) ImplicitParam<ParB>::value();
  if (what == 4) ImplicitParam<ParA>::value();
  if (vf_bool("throws")) throw Stop();
}
// the claim: `madeA` tells whether A's default was made
template <typename P>
static uint64_t made(const Par<P> &p, uint64_t L, uint64_t dflt) {
  p.below();
  const uint64_t extra = p.size() - p.n;
  vf_check(extra <= 1, "at most the default is left");
  if (extra == 0) return 0;
  vf_check(!p.visible(L), "a default is made only if nothing was visible");
  const auto &t = p.stack().back();
  vf_check(vand(t.first == dflt, t.second == L), "the default is bound at the current level");
  return 1;
}
static void claim(const State &s) {
  vf_check(State::scopes().size() == s.L, "the scopes are the previous ones");
  const uint64_t a = made(s.a, s.L, 1000);
  const uint64_t b = made(s.b, s.L, 2000);
  if (s.L == 0) return;
  vf_check(s.registered() == s.d + a + b, "each default is registered with the current scope, once");
  bool ra = false, rb = false;
  for (uint64_t i = 0; i < a + b; i++) {
    const ImplicitScope::Destructor f = State::top()._M_impl._M_start[s.d + i];
    if (f == popA()) ra = true;
    if (f == popB()) rb = true;
  }
  vf_check(vand(ra == (a == 1), rb == (b == 1)), "the scope's end undoes the default of that parameter");
}
VF_ENTRY(body) { // the body used below satisfies the claim
  State s;
  try {
    body();
  } catch (const Stop &) {
  }
  claim(s);
}
VF_ENTRY(read) {
  State s;
  const bool vis = s.a.visible(s.L);
  const uint64_t seen = ImplicitParam<ParA>::value();
  if (vis) {
    vf_check(seen == s.a.top, "the innermost binding is seen");
    s.a.same();
    vf_check(gDefaults[0] == 0, "no default is made for a bound parameter");
  } else {
    vf_check(seen == 1000, "with nothing bound in this scope the default is seen");
    vf_check(gDefaults[0] == 1, "one default is made");
  }
  claim(s);
  const uint64_t size = s.a.size();
  vf_check(ImplicitParam<ParA>::value() == seen, "a second read sees the same");
  vf_check(s.a.size() == size, "a second read makes nothing");
  ImplicitParam<ParA>::value() = 77;
  vf_check(ImplicitParam<ParA>::value() == 77, "the value handed out is the binding's own");
  s.b.same();
}
VF_ENTRY(bind) {
  State s;
  const uint64_t v = vf_u64("value");
  try {
    ImplicitParam<ParA> let(v);
    vf_check(ImplicitParam<ParA>::value() == v, "a bound value is visible");
    vf_check(gDefaults[0] == 0, "no default is made for a bound parameter");
    body();
    vf_check(ImplicitParam<ParA>::value() == v, "a bound value stays visible for its extent");
  } catch (const Stop &) {
  }
  s.a.same();
  claim(s);
}
VF_ENTRY(rebind) { // an inner binding hides the outer one, which is restored
  State s;
  const uint64_t v = vf_u64("outer"), w = vf_u64("inner");
  try {
    ImplicitParam<ParA> let(v);
    try {
      ImplicitParam<ParA> inner(w);
      vf_check(ImplicitParam<ParA>::value() == w, "the inner binding hides the outer one");
      body();
      vf_check(ImplicitParam<ParA>::value() == w, "the inner binding is visible until it ends");
    } catch (const Stop &) {
    }
    vf_check(ImplicitParam<ParA>::value() == v, "the outer binding is restored");
    body();
    vf_check(ImplicitParam<ParA>::value() == v, "the outer binding stays visible");
  } catch (const Stop &) {
  }
  s.a.same();
  claim(s);
}
VF_ENTRY(scope) {
  State s;
  try {
    ImplicitScope scope;
    const int how = vf_pick("read", 0, 2);
    if (how == 1) vf_check(ImplicitParam<ParA>::value() == 1000, "a new scope hides every binding");
    if (how == 2) {
      const uint64_t v = vf_u64("value");
      ImplicitParam<ParA> let(v);
      vf_check(ImplicitParam<ParA>::value() == v, "a binding in a new scope is visible");
      body();
      vf_check(ImplicitParam<ParA>::value() == v, "a binding in a new scope is visible for its extent");
    }
    body();
    if (how == 2) vf_check(ImplicitParam<ParA>::value() == 1000, "a new scope hides every binding");
  } catch (const Stop &) {
  }
  s.a.same();
  s.b.same();
  vf_check(State::scopes().size() == s.L, "the scopes are the previous ones");
  vf_check(s.registered() == s.d, "nothing is left registered with the outer scope");
  const bool vis = s.a.visible(s.L);
  const uint64_t seen = ImplicitParam<ParA>::value();
  vf_check(seen == vf_ite(vis, s.a.top, 1000), "the end of the scope restores what was visible");
}
VF_ENTRY(nested_scopes) {
  State s;
  const uint64_t v = vf_u64("value"), w = vf_u64("inner value");
  try {
    ImplicitParam<ParA> let(v);
    try {
      ImplicitScope scope;
      ImplicitParam<ParA> let2(w);
      try {
        ImplicitScope scope2;
        body();
        vf_check(ImplicitParam<ParA>::value() == 1000, "a new scope hides every binding");
      } catch (const Stop &) {
      }
      vf_check(ImplicitParam<ParA>::value() == w, "the scope's end restores the binding of the enclosing scope");
      body();
    } catch (const Stop &) {
    }
    vf_check(ImplicitParam<ParA>::value() == v, "the scope's end restores the binding of the enclosing scope");
  } catch (const Stop &) {
  }
  s.a.same();
  claim(s);
}

// ---- any program up to a nesting depth, from the empty state ----
struct Model {
  bool hasA, hasB;
  uint64_t a, b; // visible in this scope
};
static void readA(Model &m) {
  if (!m.hasA) m.a = 1000;
  m.hasA = true;
  vf_check(ImplicitParam<ParA>::value() == m.a, "the parameter read is the visible one");
}
static void readB(Model &m) {
  if (!m.hasB) m.b = 2000;
  m.hasB = true;
  vf_check(ImplicitParam<ParB>::value() == m.b, "the parameter read is the visible one");
}
static void program(Model &m, int depth) {
  const int pre = vf_pick("first read", 0, 2);
  if (pre == 1) readA(m);
  if (pre == 2) readB(m);
  const int what = depth == 0 ? 0 : vf_pick("then", 0, 3);
  const Model before = m;
  if (what == 1) {
    const uint64_t v = vf_u64("value");
    try {
      ImplicitParam<ParA> let(v);
      m.hasA = true;
      m.a = v;
      program(m, depth - 1);
    } catch (const Stop &) {
    }
    m.hasA = before.hasA;
    m.a = before.a;
  } else if (what == 2) {
    const uint64_t v = vf_u64("value");
    try {
      ImplicitParam<ParB> let(v);
      m.hasB = true;
      m.b = v;
      program(m, depth - 1);
    } catch (const Stop &) {
    }
    m.hasB = before.hasB;
    m.b = before.b;
  } else if (what == 3) {
    try {
      ImplicitScope scope;
      Model inner = {false, false, 0, 0};
      program(inner, depth - 1);
    } catch (const Stop &) {
    }
  }
  if (vf_bool("throws")) throw Stop();
  readA(m);
}
static void emptyState() {
  new (&ImplicitParam<ParA>::m_stack) StackA();
  new (&ImplicitParam<ParB>::m_stack) StackB();
  new (&ImplicitScope::m_scopes) ImplicitScope::ScopeStack();
}
static void history(int depth) {
  emptyState();
  Model m = {false, false, 0, 0};
  try {
    program(m, depth);
  } catch (const Stop &) {
  }
  vf_check(ImplicitScope::m_scopes.size() == 0, "every scope has ended");
  vf_check(vand(ImplicitParam<ParA>::m_stack.size() <= 1, ImplicitParam<ParB>::m_stack.size() <= 1), "outside everything at most the default is bound");
  Model out = {false, false, 0, 0};
  readA(out);
  readB(out);
}
VF_ENTRY(history) {
  vf_bounded("programs of nesting depth up to 3");
  history(3);
}
//@ thorough: history_deep
VF_ENTRY(history_deep) {
  vf_bounded("programs of nesting depth up to 4");
  history(4);
}

// ---- what picks, tags and log output reach ----
// the binding that is visible, if any, is `ctx`
template <typename P>
static bool innermost(typename P::ValueType ctx) {
  typedef typename ImplicitParam<P>::Binding Binding;
  const uint64_t L = vf_u64("scopes"), n = vf_u64("bindings");
  vf_assume(vand(L <= 1000000, n <= 1000000));
  const uint64_t room = 3;
  std::vector<Dtors> &sv = ImplicitScope::m_scopes.c;
  sv._M_impl._M_start = reinterpret_cast<Dtors *>(vf_bytes("scope stack", (L + room) * sizeof(Dtors)));
  sv._M_impl._M_finish = sv._M_impl._M_start + L;
  sv._M_impl._M_end_of_storage = sv._M_impl._M_finish + room;
  if (L > 0) new (sv._M_impl._M_finish - 1) Dtors();
  std::vector<Binding> &v = ImplicitParam<P>::m_stack.c;
  v._M_impl._M_start = reinterpret_cast<Binding *>(vf_bytes("bindings", (n + room) * sizeof(Binding)));
  v._M_impl._M_finish = v._M_impl._M_start + n;
  v._M_impl._M_end_of_storage = v._M_impl._M_finish + room;
  bool vis = false;
  if (n > 0) {
    const uint64_t level = vf_u64("level");
    vf_assume(level <= L);
    v._M_impl._M_finish[-1].second = level;
    v._M_impl._M_finish[-1].first = ctx;
    vis = level == L;
  }
  return vis;
}
struct Context : PropertyContext {
  uint64_t results, logs, n;
  std::string tags[3];
  Context() : results(0), logs(0), n(0) {}
  bool reportResult(const CaseResult &) override { results++; return true; }
  std::ostream &logStream() override { logs++; return *reinterpret_cast<std::ostream *>(this); }
  void addTag(std::string s) override {
    vf_check(n < 3, "a tag is added once");
    tags[n] = std::move(s);
    n++;
  }
};
static std::string tagText(int i) { return i == 0 ? "t" : i == 1 ? "" : "a longer tag that is not stored in place"; }
struct TagList {
  alignas(Stringified) char mem[3 * sizeof(Stringified)];
  int n;
  explicit TagList(int n) : n(n) {
    for (int i = 0; i < n; i++) new (mem + i * sizeof(Stringified)) std::string(tagText(i));
  }
  std::initializer_list<Stringified> list() const { return std::initializer_list<Stringified>(reinterpret_cast<const Stringified *>(mem), static_cast<size_t>(n)); }
};
static void isTags(const Context &c, bool vis, int n) {
  vf_check(c.n == (vis ? static_cast<uint64_t>(n) : 0), "the innermost property gets every tag, and only it");
  vf_check(vand(c.results == 0, c.logs == 0), "a tag is nothing else");
  if (vis)
    for (int i = 0; i < n; i++) vf_check(c.tags[i] == tagText(i), "the tags arrive in order");
}
VF_ENTRY(tag) {
  Context c;
  const bool vis = innermost<param::CurrentPropertyContext>(&c);
  const int n = vf_pick("tags", 0, 3);
  const TagList l(n);
  tag(l.list());
  isTags(c, vis, n);
}
VF_ENTRY(classify) {
  Context c;
  const bool vis = innermost<param::CurrentPropertyContext>(&c);
  const int n = vf_pick("tags", 0, 3);
  const TagList l(n);
  const bool empty = vf_pick("empty condition", 0, 1);
  classify(empty ? "" : "t", l.list()); // "t" is the first tag
  isTags(c, vis, n == 0 && !empty ? 1 : n);
}
VF_ENTRY(log) {
  Context c;
  const bool vis = innermost<param::CurrentPropertyContext>(&c);
  std::ostream *os = &rc::detail::log();
  vf_check(os == (vis ? reinterpret_cast<std::ostream *>(static_cast<void *>(static_cast<PropertyContext *>(&c))) : &std::cerr), "log output goes to the innermost property, else to the standard error");
  vf_check(vand(c.logs == (vis ? 1 : 0), vand(c.n == 0, c.results == 0)), "logging is nothing else");
}
VF_ENTRY(report) { // the default context ignores results
  Context c;
  const bool vis = innermost<param::CurrentPropertyContext>(&c);
  const bool handled = ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(CaseResult(CaseResult::Type::Failure, "x"));
  vf_check(handled == vis, "a result is handled exactly if some property is active");
  vf_check(c.results == (vis ? 1 : 0), "a result goes to the innermost property");
}
struct Handler : gen::detail::GenerationHandler {
  uint64_t calls, rnd;
  int size;
  Any onGenerate(const Gen<Any> &g) override {
    calls++;
    vf_check(g.name() == "pick", "the picked generator keeps its name");
    return g(Random(rnd), size).value();
  }
};
VF_ENTRY(pick) {
  Handler h;
  h.calls = 0;
  h.size = vf_int("size");
  h.rnd = vf_u64("engine id");
  const bool vis = innermost<gdp::CurrentHandler>(&h);
  const Gen<Val> g = absGen(1).as("pick");
  bool threw = false;
  uint64_t got = 0;
  try {
    got = (*g).get();
  } catch (const std::runtime_error &) {
    threw = true;
  }
  vf_check(threw == !vis, "outside any generator a pick is refused");
  vf_check(h.calls == (vis ? 1 : 0), "a pick asks the innermost generator, once");
  if (vis) vf_check(got == nodeValue(treeOf(1, h.rnd, h.size)), "a pick is the value the innermost generator gives");
}
