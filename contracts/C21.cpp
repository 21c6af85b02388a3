// C21 stateful testing
#include <cstring>
#include <memory>
#include <vector>
#include "vf_gen.h"
#include "rapidcheck/state.h"
//@ sources: src/GenerationFailure.cpp src/detail/Results.cpp
//@ replace: src/Random.cpp absrandom.cpp
using namespace rc;
typedef rc::detail::CaseResult CaseResult;
// ---- models and commands ----
// A model state is a number. Whether a command is valid in a state, and the
// state it leads to, are uninterpreted functions of the command and the state.
struct Model {
  uint64_t s;
};
struct Sut {
  uint64_t id;
};
inline bool validIn(uint64_t cmd, uint64_t s) { return vf_uf("valid", 1, 2, cmd, s) != 0; }
inline uint64_t nextOf(uint64_t cmd, uint64_t s) { return vf_uf("next_state", 64, 2, cmd, s); }
static uint64_t gInitial; // the initial state
struct Initial {
  Model operator()() const { return Model{gInitial}; }
};

// ---- running and checking sequences of any length ----
enum { kNone, kDiscarded, kFailed, kThrown };
struct Boom {};
struct RunG {
  uint64_t n, k; // the length, the current command
  uint64_t state;
  uint64_t done; // what was done with the current command
  bool run; // the commands are run
  const Sut *sut;
  int thrown;
};
static RunG *gRun;
static void mayThrow(const char *what) {
  gRun->thrown = vf_pick(what, kNone, kThrown);
  if (gRun->thrown == kDiscarded) throw CaseResult(CaseResult::Type::Discard, "");
  if (gRun->thrown == kFailed) throw CaseResult(CaseResult::Type::Failure, "");
  if (gRun->thrown == kThrown) throw Boom();
}
struct AnyCmd {
  typedef ::Model Model;
  typedef ::Sut Sut;
  uint64_t i;
  const AnyCmd *operator->() const { return this; }
  void checkPreconditions(const Model &s0) const {
    RunG &g = *gRun;
    vf_check(vand(i == g.k, g.done == 0), "the preconditions of each command are checked once, in order");
    vf_check(s0.s == g.state, "preconditions are checked in the state the preceding commands lead to");
    g.done = 1;
    mayThrow("checkPreconditions");
  }
  void run(const Model &s0, Sut &sut) const {
    RunG &g = *gRun;
    vf_check(g.run, "checking validity does not run commands");
    vf_check(vand(i == g.k, g.done == 1), "each command is run once, after its preconditions are checked and before it is applied");
    vf_check(s0.s == g.state, "each command is run against the state before it");
    vf_check(&sut == g.sut, "each command is run on the system");
    g.done = 2;
    mayThrow("run");
  }
  void apply(Model &s0) const {
    RunG &g = *gRun;
    vf_check(vand(i == g.k, g.done == vf_ite(g.run, uint64_t(2), uint64_t(1))), "each command is applied once, after it was checked and run");
    vf_check(s0.s == g.state, "each command is applied to the state before it");
    g.done = 0;
    g.k++;
    g.state = nextOf(i, g.state);
    s0.s = g.state;
    mayThrow("apply");
  }
};
struct AnyCmdPtr {
  typedef AnyCmd element_type;
  AnyCmd cmd;
  const AnyCmd *operator->() const { return &cmd; }
};
struct AnyCmds {
  typedef AnyCmdPtr value_type;
  struct It {
    uint64_t i;
    AnyCmdPtr operator*() const {
      vf_check(i < gRun->n, "no command outside the sequence is accessed");
      return AnyCmdPtr{AnyCmd{i}};
    }
    It &operator++() { i++; return *this; }
    bool operator!=(const It &o) const { return i != o.i; }
  };
  It begin() const { return It{0}; }
  It end() const { return It{gRun->n}; }
};
static bool runInv(void *p) {
  RunG &g = *static_cast<RunG *>(p);
  return vand(g.k <= g.n, vand(g.done == 0, g.thrown == kNone));
}
static void anyRun(RunG &g, bool run) {
  gRun = &g;
  gInitial = vf_u64("initial");
  g = RunG{vf_u64("commands"), 0, gInitial, 0, run, nullptr, kNone};
  vf_invariant("commands so far", &runInv, &g);
}
static void ended(const RunG &g, int how) {
  vf_invariants_clear();
  vf_check(how == g.thrown, "what a command throws is what ends the sequence");
  vf_check(vor(how != kNone, g.k == g.n), "every command is handled");
}
VF_ENTRY(run_all) {
  RunG g;
  anyRun(g, true);
  Sut sut{0};
  g.sut = &sut;
  int how = kNone;
  try {
    if (vf_bool("from a value")) state::runAll(AnyCmds(), Model{gInitial}, sut);
    else state::runAll(AnyCmds(), Initial(), sut);
  } catch (const CaseResult &r) {
    how = r.type == CaseResult::Type::Discard ? kDiscarded : kFailed;
  } catch (const Boom &) {
    how = kThrown;
  }
  ended(g, how);
  vf_reach("run");
}
VF_ENTRY(apply_all) {
  RunG g;
  anyRun(g, false);
  Model m{gInitial};
  int how = kNone;
  try {
    state::applyAll(AnyCmds(), m);
  } catch (const CaseResult &r) {
    how = r.type == CaseResult::Type::Discard ? kDiscarded : kFailed;
  } catch (const Boom &) {
    how = kThrown;
  }
  ended(g, how);
  vf_check(vor(how != kNone, m.s == g.state), "the model ends in the state after the last command");
  vf_reach("applied");
}
VF_ENTRY(is_valid_sequence) {
  RunG g;
  anyRun(g, false);
  int how = kNone;
  bool valid = false;
  try {
    valid = vf_bool("from a value") ? state::isValidSequence(AnyCmds(), Model{gInitial}) : state::isValidSequence(AnyCmds(), Initial());
  } catch (const CaseResult &r) {
    how = r.type == CaseResult::Type::Discard ? kDiscarded : kFailed;
  } catch (const Boom &) {
    how = kThrown;
  }
  vf_invariants_clear();
  if (how == kNone) vf_check(vand(valid == (g.thrown == kNone), vor(g.thrown == kNone, g.thrown == kDiscarded)), "a sequence is valid exactly if no precondition discards");
  else vf_check(vand(how == g.thrown, how != kDiscarded), "what a command throws other than a discard gets out");
  vf_check(vor(g.thrown != kNone, g.k == g.n), "every command is handled");
  vf_reach("decided");
}

// ---- commands that are valid or not ----
struct Cmd : state::Command<Model, Sut> {
  uint64_t id;
  explicit Cmd(uint64_t i) : id(i) {}
  void checkPreconditions(const Model &s0) const override {
    if (!validIn(id, s0.s)) throw CaseResult(CaseResult::Type::Discard, "");
  }
  void apply(Model &s0) const override;
};
typedef state::Command<Model, Sut> Base;
typedef std::shared_ptr<const Base> CmdSP;
inline uint64_t idOf(const CmdSP &c) { return static_cast<const Cmd &>(*c).id; }
// while a sequence of any length is generated or repaired
struct MakeG {
  uint64_t state;
  uint64_t applied; // commands applied so far
  int failed; // consecutive attempts that gave no valid command
  uint64_t erased; // commands removed
  uint64_t n; // length of the sequence
  uint64_t slotAt; // the command held in the slot, counting removed ones
  uint64_t engine; // the engine the next split is taken from
  uint64_t accepted; // the last command generated
  uint64_t before; // length before repairing
  uint64_t made;
  int size;
  bool repair;
};
static MakeG *gMake;
static uint64_t slotCommand();
inline void Cmd::apply(Model &s0) const {
  if (gMake != nullptr) {
    MakeG &g = *gMake;
    vf_check(s0.s == g.state, "commands are applied in order from the initial state");
    vf_check(validIn(id, g.state), "each command's preconditions hold in the state the preceding commands lead to");
    vf_check(slotCommand() == id, "the command applied is the one kept");
    g.applied++;
    g.failed = 0;
    g.state = nextOf(id, g.state);
  }
  s0.s = nextOf(id, s0.s);
}
VF_ENTRY(is_valid_command) {
  struct C : Base {
    void checkPreconditions(const Model &s0) const override {
      vf_check(s0.s == gInitial, "the preconditions are checked in the given state");
      mayThrow("checkPreconditions");
    }
    void apply(Model &) const override { vf_check(false, "the command is not applied"); }
    void run(const Model &, Sut &) const override { vf_check(false, "the command is not run"); }
  };
  RunG g{0, 0, 0, 0, false, nullptr, kNone};
  gRun = &g;
  gInitial = vf_u64("initial");
  int how = kNone;
  bool valid = false;
  try {
    valid = state::isValidCommand(C(), Model{gInitial});
  } catch (const CaseResult &r) {
    how = r.type == CaseResult::Type::Discard ? kDiscarded : kFailed;
  } catch (const Boom &) {
    how = kThrown;
  }
  if (how == kNone) vf_check(vand(valid == (g.thrown == kNone), vor(g.thrown == kNone, g.thrown == kDiscarded)), "a command is valid exactly if its precondition does not discard");
  else vf_check(vand(how == g.thrown, how != kDiscarded), "what a command throws other than a discard gets out");
  vf_reach("decided");
}
VF_ENTRY(next_state) {
  const Cmd c(vf_u64("command"));
  const Model m{vf_u64("state")};
  const Model after = c.nextState(m);
  vf_check(after.s == nextOf(c.id, m.s), "the next state is the state after applying the command");
  vf_reach("applied");
}

// ---- generated sequences ----
// the tree of commands for a state: any command, valid in the state or not, or
// no command
static uint64_t gFailures, gMaxFailures; // attempts that gave no valid command
static void failedOnce() {
  if (gMake != nullptr) {
    gMake->failed++;
    return;
  }
  gFailures++;
  vf_assume(gFailures <= gMaxFailures);
}
static uint64_t gMaxKids;
inline uint64_t kidCount(uint64_t id) { return vf_concretize(vf_ite(nodeCount(id) < gMaxKids, nodeCount(id), gMaxKids)); }
struct CmdNode;
struct CmdKids {
  typedef Shrinkable<CmdSP> ValueType;
  uint64_t id, i;
  Maybe<Shrinkable<CmdSP>> operator()();
};
struct CmdNode {
  uint64_t id;
  CmdSP value() const { return std::make_shared<const Cmd>(nodeValue(id)); }
  Seq<Shrinkable<CmdSP>> shrinks() const { return makeSeq<CmdKids>(CmdKids{id, 0}); }
};
inline Maybe<Shrinkable<CmdSP>> CmdKids::operator()() {
  if (i >= kidCount(id)) return Nothing;
  const uint64_t at = i;
  i++;
  return makeShrinkable<CmdNode>(CmdNode{nodeChild(id, at)});
}
static bool gThrowing;
struct CmdTree {
  uint64_t state;
  void called(const Random &r, int size, uint64_t id) const {
    MakeG &g = *gMake;
    vf_check(state == g.state, "commands are generated for the state they are to be used in");
    vf_check(size == g.size, "commands are generated with the size of the sequence");
    vf_check(g.failed < 100, "no more than 100 attempts are made");
    if (g.repair) vf_check(vr_id(r) == vf_uf("entry_engine", 64, 1, g.applied + g.erased), "a command is regenerated with its own engine");
    g.accepted = nodeValue(id);
    g.made++;
  }
  Shrinkable<CmdSP> operator()(const Random &r, int size) const {
    vf_check(vr_drawn(r) == 0, "commands are not generated with an engine that numbers were drawn from");
    const uint64_t id = treeOf(state, vr_id(r), size);
    if (gMake != nullptr) called(r, size, id);
    if (gThrowing) {
      const uint64_t how = vf_uf("no_command", 2, 1, id);
      if (how == 1) { failedOnce(); throw GenerationFailure("none"); }
      if (how == 2) { failedOnce(); throw CaseResult(CaseResult::Type::Discard, "none"); }
    }
    if (!validIn(nodeValue(id), state)) failedOnce();
    return makeShrinkable<CmdNode>(CmdNode{id});
  }
};
struct CmdGen {
  Gen<CmdSP> operator()(const Model &m) const { return CmdTree{m.s}; }
};
typedef state::Commands<Base> Cmds;
static void isValid(const Cmds &cmds) {
  uint64_t s = gInitial;
  for (size_t i = 0; i < cmds.size(); i++) {
    vf_check(validIn(idOf(cmds[i]), s), "each command's preconditions hold in the state the preceding commands lead to");
    s = nextOf(idOf(cmds[i]), s);
  }
}
struct Done {};
static void walk(Maybe<Shrinkable<Cmds>> s, size_t most, int depth) {
  const Cmds cmds = s->value();
  isValid(cmds);
  vf_check(cmds.size() <= most, "shrinks are not longer");
  if (depth == 0) return;
  Seq<Shrinkable<Cmds>> kids = s->shrinks();
  s.reset(); // the shrinks do not need what they were taken from
  while (Maybe<Shrinkable<Cmds>> k = kids.next()) {
    if (depth > 1 && vf_bool("this one's shrinks")) {
      walk(std::move(k), cmds.size(), depth - 1);
      throw Done();
    }
    walk(std::move(k), cmds.size(), 0);
  }
  vf_check(!kids.next(), "an ended sequence stays ended");
}
static void sequences(int minSize, int maxSize, uint64_t failedGenerating, uint64_t failedShrinking, uint64_t maxKids, int depth, bool throwing) {
  vf_bounded("size <= 2, so up to 3 commands, with up to 1 shrink each and up to 1 failed attempt, two shrinks deep");
  vf_nocut();
  vf_unroll(40);
  gInitial = vf_u64("initial");
  gFailures = 0;
  gMaxFailures = failedGenerating;
  gMaxKids = maxKids;
  gThrowing = throwing;
  const Random r = vr_any("engine");
  const Random r0 = r;
  const int size = vf_pick("size", minSize, maxSize);
  const Gen<Cmds> g = throwing && vf_bool("from a value") ? state::gen::commands(Model{gInitial}, CmdGen()) : state::gen::commands(Initial(), CmdGen());
  Maybe<Shrinkable<Cmds>> s = g(r, size);
  vf_check(r == r0, "the caller's engine is untouched");
  const size_t n = s->value().size();
  vf_check(vand(n >= 1, n <= static_cast<size_t>(size) + 1), "there are between one and size + 1 commands");
  gFailures = 0;
  gMaxFailures = failedShrinking;
  try {
    walk(std::move(s), n, depth);
  } catch (const Done &) {
  }
  vf_reach("generated");
}
VF_ENTRY(generated) { sequences(0, 1, 1, 1, 1, 1, true); }
VF_ENTRY(generated_three) { sequences(2, 2, 0, 1, 1, 1, false); }
VF_ENTRY(generated_deep) { sequences(1, 1, 0, 1, 1, 2, false); }
VF_ENTRY(generated_deeper) { sequences(1, 1, 1, 1, 1, 2, true); }
//@ thorough: generated_deeper

// ---- generating and repairing sequences of any length ----
typedef state::gen::detail::CommandsGen<Initial, CmdGen> CG;
typedef CG::CommandSequence Sequence;
typedef CG::CommandEntry Entry;
typedef std::vector<Entry> Entries;
// one entry is held at a time; the vector only has a length
alignas(Entry) static char gSlot[sizeof(Entry)];
alignas(Cmd) static char gSlotCmd[sizeof(Cmd)];
static Entry &slot() { return *reinterpret_cast<Entry *>(gSlot); }
static Cmd &slotCmd() { return *reinterpret_cast<Cmd *>(gSlotCmd); }
static uint64_t slotCommand() { return slotCmd().id; }
static void initSlot() { // owns nothing
  memset(gSlot, 0, sizeof gSlot);
  new (gSlotCmd) Cmd(0);
  new (&slot().m_command) CmdSP(std::shared_ptr<void>(), &slotCmd());
}
static void setSlot(uint64_t cmd, const Random &r) {
  slotCmd().id = cmd;
  memcpy(static_cast<void *>(&slot().m_random), &r, sizeof r);
}
static Entries *gEntries;
static void setLength(Entries *v, uint64_t n) { v->_M_impl._M_finish = v->_M_impl._M_start + n; }
static void pushStub(Entries *v, Entry &&e) {
  MakeG &g = *gMake;
  vf_check(g.applied == g.n, "each command is applied before the next is generated");
  vf_check(idOf(e.command()) == g.accepted, "the command that was generated is kept");
  setSlot(idOf(e.command()), e.random());
  g.slotAt = g.n;
  g.n++;
  gEntries = v;
  setLength(v, g.n);
}
static Entry &backStub(Entries *) {
  vf_check(gMake->slotAt + 1 == gMake->n, "the last command is accessed");
  return slot();
}
static Entry &atStub(Entries *, size_t i) {
  MakeG &g = *gMake;
  vf_check(i < g.n, "no command outside the sequence is accessed");
  const uint64_t k = i + g.erased; // commands before i were kept or removed
  if (k == g.slotAt) return slot();
  vf_check(i == g.applied, "commands are repaired in order");
  setSlot(vf_uf("entry_command", 64, 1, k), Random(vf_uf("entry_engine", 64, 1, k)));
  g.slotAt = k;
  g.failed = 0;
  return slot();
}
static Entry *assignStub(Entry *e, Entry &&other) {
  vf_check(e == &slot(), "the command repaired is replaced");
  vf_check(idOf(other.command()) == gMake->accepted, "the command that was generated is kept");
  setSlot(idOf(other.command()), other.random());
  return e;
}
static Entry *eraseStub(Entries *v, Entry *at) {
  MakeG &g = *gMake;
  vf_check(at == v->_M_impl._M_start + g.applied, "the command being repaired is the one removed");
  vf_check(g.slotAt == g.applied + g.erased, "a command is removed only after it was tried");
  vf_check(!validIn(slotCommand(), g.state), "only a command that is not valid is removed");
  vf_check(g.failed == 1, "only a command that could not be regenerated is removed");
  g.erased++;
  g.n--;
  setLength(v, g.n);
  return at;
}
static void reserveEntries(Entries *v, size_t) { gEntries = v; }
static void destroyEntries(Entries *) {}
static bool makeInv(void *p) {
  MakeG &g = *static_cast<MakeG *>(p);
  if (gEntries != nullptr && gEntries->size() != g.n) return false;
  if (g.repair) return vand(vand(g.applied <= g.n, g.n + g.erased == g.before), vor(g.slotAt == ~uint64_t(0), g.slotAt < g.applied + g.erased));
  return vand(vand(g.applied == g.n, g.n <= uint64_t(g.size) + 1), g.failed <= 100);
}
static void vectorContracts() {
#define ENTRIES "std::vector<rc::state::gen::detail::CommandsGen<Initial, CmdGen>::CommandEntry, std::allocator<rc::state::gen::detail::CommandsGen<Initial, CmdGen>::CommandEntry>>::"
  vf_contract(ENTRIES "push_back(", reinterpret_cast<void *>(&pushStub), 0);
  vf_contract(ENTRIES "back()", reinterpret_cast<void *>(&backStub), 0);
  vf_contract(ENTRIES "operator[](", reinterpret_cast<void *>(&atStub), 0);
  vf_contract(ENTRIES "erase(", reinterpret_cast<void *>(&eraseStub), 0);
  vf_contract(ENTRIES "reserve(", reinterpret_cast<void *>(&reserveEntries), 0);
  vf_contract("rc::state::gen::detail::CommandsGen<Initial, CmdGen>::CommandEntry::operator=(rc::state::gen::detail::CommandsGen<Initial, CmdGen>::CommandEntry&&)", reinterpret_cast<void *>(&assignStub), 0);
  vf_contract(ENTRIES "~vector()", reinterpret_cast<void *>(&destroyEntries), 0);
}
//@ assume: C21 generate, repair: vector::reserve, push_back, back, operator[], erase and the destructor have their library meaning there; the generated* contracts run the real ones
static void anyMake(MakeG &g, bool repair) {
  gInitial = vf_u64("initial");
  g = MakeG{gInitial, 0, 0, 0, 0, ~uint64_t(0), 0, 0, 0, 0, vf_int("size"), repair};
  vf_assume(vand(g.size >= 0, g.size < 1000000));
  gEntries = nullptr;
  initSlot();
  gThrowing = true;
  gMaxKids = 0;
  vectorContracts();
}
VF_ENTRY(generate) {
  if (!vf_symbolic()) return;
  MakeG g;
  anyMake(g, false);
  const Random r = vr_any("engine");
  const int size = g.size;
  gMake = &g;
  vf_invariant("generated so far", &makeInv, &g);
  bool failed = false;
  uint64_t n = 0;
  try {
    const Sequence s(Initial(), r, CmdGen(), size);
    n = s.m_entries.size();
  } catch (const GenerationFailure &) {
    failed = true;
  }
  gMake = nullptr;
  vf_invariants_clear();
  vf_contracts_clear();
  if (failed) {
    vf_check(g.failed == 100, "generation fails only after 100 attempts");
    vf_reach("failed");
  } else {
    vf_check(vand(n == g.n, g.applied == n), "every command of the sequence was checked in its state");
    vf_check(vand(n >= 1, n <= uint64_t(size) + 1), "there are between one and size + 1 commands");
    vf_reach("generated");
  }
}
VF_ENTRY(repair) {
  if (!vf_symbolic()) return;
  MakeG g;
  anyMake(g, true);
  g.n = g.before = vf_u64("length");
  vf_assume(g.n < 1000000);
  Sequence *s = static_cast<Sequence *>(::operator new(sizeof(Sequence)));
  memset(static_cast<void *>(s), 0, sizeof(Sequence));
  s->m_size = g.size;
  gEntries = &s->m_entries;
  setLength(gEntries, g.n);
  gMake = &g;
  vf_invariant("repaired so far", &makeInv, &g);
  s->repairEntries();
  gMake = nullptr;
  vf_invariants_clear();
  vf_contracts_clear();
  vf_check(vand(s->m_entries.size() == g.n, g.applied == g.n), "every command left is valid in its state");
  vf_check(g.n + g.erased == g.before, "commands are only removed");
  vf_reach("repaired");
}
