// Dynamic states: phase provider, manual and phase-driven rule state providers.
#include <map>
#include <memory>
#include <set>

#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_based_right_of_way_rule_state_provider.h"
#include "maliput/base/phased_discrete_rule_state_provider.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;

namespace {

using DV = DiscreteValueRule::DiscreteValue;
using RV = RangeValueRule::Range;

// A state, its optional successor and the optional duration, as strings / numbers.
struct Ref {
  std::string now;
  std::optional<std::string> next;
  std::optional<double> dur;
  bool operator==(const Ref& o) const { return now == o.now && next == o.next && dur == o.dur; }
};
std::string Str(const std::optional<Ref>& r) {
  if (!r) return "nothing";
  std::ostringstream o;
  o << r->now;
  if (r->next) o << " then " << *r->next;
  if (r->dur) o << " in " << *r->dur;
  return o.str();
}

std::string Name(const DV& v) { return v.value + "/" + std::to_string(v.severity) + "/" + std::to_string(v.related_rules.size()); }
std::string Name(const RV& v) {
  std::ostringstream o;
  o << v.description << "/" << v.severity << "/" << v.min << "/" << v.max;
  return o.str();
}
template <typename T>
std::string Name(const TypeSpecificIdentifier<T>& id) {
  return id.string();
}
template <typename R>
std::optional<Ref> Read(const std::optional<R>& r) {
  if (!r) return std::nullopt;
  Ref x{Name(r->state), {}, {}};
  if (r->next) {
    x.next = Name(r->next->state);
    x.dur = r->next->duration_until;
  }
  return x;
}

const std::vector<std::optional<double>> kDurations{std::nullopt, 5., 0., -1.};

// ---- Phase provider.

void PhaseHistory(mc::Ctx& c) {
  ManualPhaseProvider provider;
  std::map<std::string, Ref> ref;
  std::string hist;
  const int n = 1 + c.choose(mc::Thorough() ? 4 : 3);
  for (int k = 0; k < n; ++k) {
    const bool add = c.flip();
    const std::string ring = c.flip() ? "A" : "B";
    const std::string phase = c.flip() ? "p" : "q";
    const int nx = c.choose(3);
    const int d = c.choose(2);
    std::optional<Phase::Id> next;
    std::optional<double> dur;
    if (nx > 0) next = Phase::Id(nx == 1 ? "p" : "q");
    if (d > 0) dur = 2.5 + k;
    hist += std::string(add ? "add " : "set ") + ring + " " + phase + (next ? " next " + next->string() : "") + (dur ? " dur" : "") + "; ";
    bool ok = !(dur && !next) && (add ? ref.count(ring) == 0 : ref.count(ring) == 1);
    if (ok) ref[ring] = Ref{phase, next ? std::optional<std::string>(next->string()) : std::nullopt, dur};
    c.op();
    const bool threw = mc::Throws([&] {
      if (add) {
        provider.AddPhaseRing(PhaseRing::Id(ring), Phase::Id(phase), next, dur);
      } else {
        provider.SetPhase(PhaseRing::Id(ring), Phase::Id(phase), next, dur);
      }
    });
    c.expect(threw == !ok, "phase-step-outcome", [&] { return hist; });
    std::string st;
    for (const char* id : {"A", "B", "C"}) {
      const auto got = Read(provider.GetPhase(PhaseRing::Id(id)));
      const auto want = ref.count(id) ? std::optional<Ref>(ref[id]) : std::nullopt;
      c.op();
      if (want) c.nontrivial();
      st += Str(want) + ";";
      c.expect(got == want, "phase-get", [&] { return hist + " ring " + id + " is " + Str(got) + " expected " + Str(want); });
    }
    c.state(st);
  }
  c.trace([&] { return hist; });
}

// ---- Manual providers of discrete and range values.

struct Kinds {
  struct Discrete {
    using Provider = ManualDiscreteValueRuleStateProvider;
    using State = DV;
    static std::vector<State> States() {
      return {DV(0, {}, {}, "go"), DV(1, {{"g", {Rule::Id("z")}}}, {}, "stop"), DV(0, {}, {}, "stop"), DV(0, {}, {}, "other")};
    }
    static void Add(ManualRulebook* b, const char* id, const char* type, const LaneSRoute& z, const std::vector<State>& s) {
      b->AddRule(DiscreteValueRule(Rule::Id(id), Rule::TypeId(type), z, s));
    }
  };
  struct Range {
    using Provider = ManualRangeValueRuleStateProvider;
    using State = RV;
    static std::vector<State> States() {
      return {RV(0, {}, {}, "fast", 1., 3.), RV(0, {}, {}, "slow", 1., 2.), RV(0, {}, {}, "slow", 0., 2.), RV(0, {}, {}, "fast", 1., 4.)};
    }
    static void Add(ManualRulebook* b, const char* id, const char* type, const LaneSRoute& z, const std::vector<State>& s) {
      b->AddRule(RangeValueRule(Rule::Id(id), Rule::TypeId(type), z, s));
    }
  };
};

struct RuleRef {
  std::string id, type;
  std::vector<LaneSRange> zone;
  std::vector<int> states;
};
const std::vector<RuleRef>& Rules() {
  static const std::vector<RuleRef> r{
      {"r1", "T", {{LaneId("a"), SRange(0., 4.)}, {LaneId("a"), SRange(8., 7.)}}, {0, 1}},
      {"r2", "T", {{LaneId("b"), SRange(2., 5.)}, {LaneId("a"), SRange(3., 5.)}}, {1, 2}},
      {"r3", "U", {{LaneId("a"), SRange(0., 10.)}}, {0, 2, 1}},
  };
  return r;
}
LaneSRoute Zone(const RuleRef& r) { return LaneSRoute(r.zone); }

world::World* TheWorld() {
  static auto* w = [] {
    auto* x = new world::World(1. / 64., 1. / 64.);
    x->Road("0", {{"a", {{0., 0., 0.}, 0.}, 10.}, {"b", {{0., 4., 0.}, 0.}, 10.}});
    x->CloseEnds();
    return x;
  }();
  return w;
}

bool RefApplies(const RuleRef& r, const std::string& lane, double s, const std::string& type, double tol) {
  if (r.type != type) return false;
  for (const auto& z : r.zone) {
    const double lo = std::min(z.s_range().s0(), z.s_range().s1()), hi = std::max(z.s_range().s0(), z.s_range().s1());
    if (z.lane_id().string() == lane && s >= lo - tol && s <= hi + tol) return true;
  }
  return false;
}

template <typename Provider, typename Lookup>
void CheckPositions(mc::Ctx& c, const Provider& p, const std::set<std::string>& live, Lookup lookup, bool may_be_missing, const std::string& hist) {
  for (const char* lane : {"a", "b"})
    for (double s : {0., 3.5, 4.25, 6., 7.5, 8.25, 10.})
      for (double tol : {0., 0.5})
        for (const char* type : {"T", "U", "V"}) {
          std::vector<std::optional<Ref>> want;
          for (const auto& r : Rules())
            if (live.count(r.id) && RefApplies(r, lane, s, type, tol)) want.push_back(lookup(r.id));
          std::optional<Ref> got;
          bool threw = false;
          c.op();
          try {
            got = Read(p.GetState(RoadPosition((*TheWorld())[lane], LanePosition(s, 0., 0.)), Rule::TypeId(type), tol));
          } catch (const std::exception&) {
            threw = true;
          }
          bool ok = false;
          if (want.empty()) ok = !threw && !got;
          for (const auto& w : want) {
            // Any of the applicable rules may be reported; one that has no state yields no value.
            ok = ok || (w ? (!threw && got == w) : (threw || !got));
          }
          if (!want.empty()) c.nontrivial();
          c.expect(ok, "state-by-position", [&] {
            std::string m = hist + " lane " + lane + " s " + std::to_string(s) + " type " + type + " tolerance " + std::to_string(tol) + ": got " +
                            (threw ? "an exception" : Str(got)) + " expected one of:";
            for (const auto& w : want) m += " <" + Str(w) + ">";
            return m;
          });
        }
  c.expect(mc::Throws([&] { p.GetState(RoadPosition((*TheWorld())["a"], LanePosition(1., 0., 0.)), Rule::TypeId("T"), -0.1); }),
           "state-by-position-negative-tolerance");
}

template <typename K>
void Manual(mc::Ctx& c) {
  static const auto states = K::States();
  ManualRulebook book;
  for (const auto& r : Rules()) {
    std::vector<typename K::State> st;
    for (int i : r.states) st.push_back(states[i]);
    K::Add(&book, r.id.c_str(), r.type.c_str(), Zone(r), st);
  }
  // A rule of another kind, with the same type.
  typename K::Provider p(&book);
  std::map<std::string, Ref> ref;
  std::set<std::string> live{"r1", "r2", "r3"};
  std::string hist;
  const int n = 1 + c.choose(mc::Thorough() ? 3 : 2);
  for (int k = 0; k < n; ++k) {
    const int what = c.choose(5);
    if (what == 4) {
      if (live.count("r1") == 0) c.prune();
      hist += "remove r1 from the book; ";
      book.RemoveRule(Rule::Id("r1"));
      live.erase("r1");
      continue;
    }
    const std::string id = what == 3 ? "r9" : Rules()[what].id;
    const int st = c.choose(states.size());
    const int nx = c.choose(states.size() + 1);
    std::optional<double> dur = c.pick(kDurations);
    auto has = [&](int i) { return what != 3 && std::find(Rules()[what].states.begin(), Rules()[what].states.end(), i) != Rules()[what].states.end(); };
    const bool next_given = nx > 0;
    const bool ok = what != 3 && live.count(id) && has(st) && (next_given ? has(nx - 1) && (!dur || *dur > 0.) : !dur.has_value());
    // Several ways of failing at once are only explored in the last step.
    if (!ok && k + 1 < n) c.prune();
    hist += "set " + id + " " + Name(states[st]) + (next_given ? " next " + Name(states[nx - 1]) : "") + (dur ? " dur " + std::to_string(*dur) : "") + "; ";
    c.op();
    const bool threw = mc::Throws([&] {
      p.SetState(Rule::Id(id), states[st], next_given ? std::optional<typename K::State>(states[nx - 1]) : std::nullopt, dur);
    });
    c.expect(threw == !ok, "set-state-outcome", [&] { return hist + (threw ? "threw" : "accepted"); });
    if (ok) ref[id] = Ref{Name(states[st]), next_given ? std::optional<std::string>(Name(states[nx - 1])) : std::nullopt, next_given ? dur : std::nullopt};
  }
  c.trace([&] { return hist; });
  auto lookup = [&](const std::string& id) { return ref.count(id) ? std::optional<Ref>(ref[id]) : std::nullopt; };
  std::string st;
  for (const char* id : {"r1", "r2", "r3", "r9"}) {
    const auto got = Read(p.GetState(Rule::Id(id)));
    st += Str(lookup(id)) + ";";
    c.op();
    c.expect(got == lookup(id), "get-state", [&] { return hist + " " + id + " is " + Str(got) + " expected " + Str(lookup(id)); });
  }
  c.state(st + (live.count("r1") ? "" : "-"));
  CheckPositions(c, p, live, lookup, true, hist);
}

// ---- Phase-driven provider of discrete values.

void Phased(mc::Ctx& c) {
  static const auto states = Kinds::Discrete::States();
  ManualRulebook book;
  for (const auto& r : Rules()) {
    std::vector<DV> st;
    for (int i : r.states) st.push_back(states[i]);
    Kinds::Discrete::Add(&book, r.id.c_str(), r.type.c_str(), Zone(r), st);
  }
  // Ring A drives r1 and r3, ring B drives r2.
  using S = std::map<std::string, int>;
  const std::map<std::string, std::map<std::string, S>> rings{
      {"A", {{"p", {{"r1", 0}, {"r3", 2}}}, {"q", {{"r1", 1}, {"r3", 0}}}}}, {"B", {{"p", {{"r2", 2}}}, {"s", {{"r2", 1}}}}}};
  ManualPhaseRingBook ring_book;
  auto make_ring = [&](const std::string& id) {
    std::vector<Phase> ph;
    for (const auto& p : rings.at(id)) {
      DiscreteValueRuleStates ds;
      for (const auto& kv : p.second) ds.emplace(Rule::Id(kv.first), states[kv.second]);
      ph.emplace_back(Phase::Id(p.first), RuleStates{}, ds);
    }
    return PhaseRing(PhaseRing::Id(id), ph);
  };
  ManualPhaseProvider phases;
  std::set<std::string> in_book;
  std::map<std::string, Ref> phase_ref;
  std::map<std::string, Ref> manual_ref;
  for (const char* id : {"A", "B"}) {
    if (c.flip()) {
      ring_book.AddPhaseRing(make_ring(id));
      in_book.insert(id);
    }
  }
  const bool use_default = c.flip();
  std::unique_ptr<PhasedDiscreteRuleStateProvider> p;
  std::string hist = "rings " + std::string(in_book.count("A") ? "A" : "") + (in_book.count("B") ? "B" : "") + (use_default ? " default; " : "; ");
  if (use_default) {
    p = PhasedDiscreteRuleStateProvider::GetDefaultPhasedDiscreteRuleStateProvider(&book, &ring_book, &phases);
    for (const auto& r : Rules()) manual_ref[r.id] = Ref{Name(states[r.states[0]]), {}, {}};
  } else {
    p = std::make_unique<PhasedDiscreteRuleStateProvider>(&book, &ring_book, &phases);
  }
  const int n = c.choose(mc::Thorough() ? 4 : 3);
  for (int k = 0; k < n; ++k) {
    const int what = c.choose(4);
    c.op();
    if (what <= 1) {  // The phase of ring A / B.
      const std::string ring = what == 0 ? "A" : "B";
      const std::vector<std::string> ids = what == 0 ? std::vector<std::string>{"p", "q"} : std::vector<std::string>{"p", "s"};
      const std::string now = c.pick(ids);
      const int nx = c.choose(4);  // none, first, second, second with duration
      std::optional<Phase::Id> next;
      std::optional<double> dur;
      if (nx > 0) next = Phase::Id(ids[nx == 1 ? 0 : 1]);
      if (nx == 3) dur = 7.5;
      hist += "phase " + ring + "=" + now + (next ? " next " + next->string() : "") + (dur ? " dur" : "") + "; ";
      if (phase_ref.count(ring)) {
        phases.SetPhase(PhaseRing::Id(ring), Phase::Id(now), next, dur);
      } else {
        phases.AddPhaseRing(PhaseRing::Id(ring), Phase::Id(now), next, dur);
      }
      phase_ref[ring] = Ref{now, next ? std::optional<std::string>(next->string()) : std::nullopt, dur};
    } else if (what == 2) {  // Ring A leaves or (re)enters the book.
      hist += "toggle A; ";
      if (in_book.erase("A")) {
        ring_book.RemovePhaseRing(PhaseRing::Id("A"));
      } else {
        ring_book.AddPhaseRing(make_ring("A"));
        in_book.insert("A");
      }
    } else {  // Manual state.
      const int r = c.choose(3);
      const int st = c.choose(2), nx = c.choose(2);
      const DV v = states[Rules()[r].states[st]];
      std::optional<DV> next;
      if (nx) next = states[Rules()[r].states[1 - st]];
      hist += "set " + Rules()[r].id + " " + Name(v) + (nx ? " next" : "") + "; ";
      p->SetState(Rule::Id(Rules()[r].id), v, next, nx ? std::optional<double>(3.) : std::nullopt);
      manual_ref[Rules()[r].id] = Ref{Name(v), next ? std::optional<std::string>(Name(*next)) : std::nullopt, nx ? std::optional<double>(3.) : std::nullopt};
    }
  }
  c.trace([&] { return hist; });
  auto lookup = [&](const std::string& id) -> std::optional<Ref> {
    for (const auto& ring : rings) {
      if (!in_book.count(ring.first) || !phase_ref.count(ring.first)) continue;
      if (!ring.second.begin()->second.count(id)) continue;
      const Ref& ph = phase_ref[ring.first];
      Ref r{Name(states[ring.second.at(ph.now).at(id)]), {}, {}};
      if (ph.next) {
        r.next = Name(states[ring.second.at(*ph.next).at(id)]);
        r.dur = ph.dur;
      }
      return r;
    }
    return manual_ref.count(id) ? std::optional<Ref>(manual_ref[id]) : std::nullopt;
  };
  std::string st;
  for (const char* id : {"r1", "r2", "r3", "r9"}) {
    const auto got = Read(p->GetState(Rule::Id(id)));
    st += Str(lookup(id)) + ";";
    c.op();
    c.expect(got == lookup(id), "phased-get-state", [&] { return hist + " " + id + " is " + Str(got) + " expected " + Str(lookup(id)); });
  }
  c.state(st);
  CheckPositions(c, *p, {"r1", "r2", "r3"}, lookup, false, hist);
}

// ---- Right of way providers.

void RightOfWay(mc::Ctx& c) {
  ManualRightOfWayRuleStateProvider manual;
  ManualPhaseRingBook ring_book;
  ManualPhaseProvider phases;
  auto rs = [](const char* a, const char* b) {
    return RuleStates{{RightOfWayRule::Id("a"), RightOfWayRule::State::Id(a)}, {RightOfWayRule::Id("b"), RightOfWayRule::State::Id(b)}};
  };
  const bool in_book = c.flip();
  if (in_book) {
    ring_book.AddPhaseRing(PhaseRing(PhaseRing::Id("R"), {Phase(Phase::Id("p"), rs("go", "stop"), {}), Phase(Phase::Id("q"), rs("stop", "wait"), {})}));
  }
  PhaseBasedRightOfWayRuleStateProvider phased(&ring_book, &phases);
  const std::map<std::string, std::map<std::string, std::string>> table{{"p", {{"a", "go"}, {"b", "stop"}}}, {"q", {{"a", "stop"}, {"b", "wait"}}}};
  std::map<std::string, std::string> ref;
  std::optional<Ref> phase;
  std::string hist;
  const int n = 1 + c.choose(mc::Thorough() ? 5 : 4);
  for (int k = 0; k < n; ++k) {
    const int what = c.choose(3);
    c.op();
    if (what < 2) {
      const std::string id = c.flip() ? "a" : "b";
      const std::string st = c.flip() ? "go" : "stop";
      hist += (what == 0 ? "add " : "set ") + id + " " + st + "; ";
      const bool ok = (what == 0) == (ref.count(id) == 0);
      const bool threw = mc::Throws([&] {
        if (what == 0) {
          manual.AddState(RightOfWayRule::Id(id), RightOfWayRule::State::Id(st));
        } else {
          manual.SetState(RightOfWayRule::Id(id), RightOfWayRule::State::Id(st));
        }
      });
      if (ok) ref[id] = st;
      c.expect(threw == !ok, "right-of-way-step", [&] { return hist; });
    } else {
      const std::string now = c.flip() ? "p" : "q";
      const int nx = c.choose(4);
      std::optional<Phase::Id> next;
      std::optional<double> dur;
      if (nx > 0) next = Phase::Id(nx == 1 ? "p" : "q");
      if (nx == 3) dur = 4.;
      hist += "phase " + now + (next ? " next " + next->string() : "") + "; ";
      if (phase) {
        phases.SetPhase(PhaseRing::Id("R"), Phase::Id(now), next, dur);
      } else {
        phases.AddPhaseRing(PhaseRing::Id("R"), Phase::Id(now), next, dur);
      }
      phase = Ref{now, next ? std::optional<std::string>(next->string()) : std::nullopt, dur};
    }
  }
  c.trace([&] { return hist; });
  std::string st = in_book ? "+" : "-";
  for (const char* id : {"a", "b", "c"}) {
    c.op(2);
    const auto got = Read(manual.GetState(RightOfWayRule::Id(id)));
    const auto want = ref.count(id) ? std::optional<Ref>(Ref{ref[id], {}, {}}) : std::nullopt;
    c.expect(got == want, "right-of-way-manual", [&] { return hist + " " + id + ": " + Str(got) + " expected " + Str(want); });
    std::optional<Ref> pw;
    if (in_book && phase && std::string(id) != "c") {
      pw = Ref{table.at(phase->now).at(id), {}, {}};
      if (phase->next) {
        pw->next = table.at(*phase->next).at(id);
        pw->dur = phase->dur;
      }
      c.nontrivial();
    }
    const auto pg = Read(phased.GetState(RightOfWayRule::Id(id)));
    c.expect(pg == pw, "right-of-way-phased", [&] { return hist + " " + id + ": " + Str(pg) + " expected " + Str(pw); });
    st += Str(want) + Str(pw);
  }
  c.state(st);
}

// ---- Default population.

void Defaults(mc::Ctx& c) {
  // Rings with 1..3 phases and arbitrary next phases.
  using Next = PhaseRing::NextPhase;
  ManualPhaseRingBook book;
  std::map<std::string, PhaseRing> rings;
  const int n = c.choose(3);
  std::string desc;
  for (int k = 0; k < n; ++k) {
    const std::string id = std::string(1, 'A' + k);
    const int m = 1 + c.choose(2);
    std::vector<Phase> ph;
    std::unordered_map<Phase::Id, std::vector<Next>> next;
    desc += id + ":";
    for (int i = 0; i < m; ++i) {
      const Phase::Id pid("p" + std::to_string(i));
      ph.emplace_back(pid, RuleStates{}, DiscreteValueRuleStates{});
      std::vector<Next> v;
      const int t = c.choose(3);
      for (int j = 0; j < t; ++j) {
        const int x = c.choose(2 * m);
        v.push_back({Phase::Id("p" + std::to_string(x / 2)), x % 2 ? std::optional<double>(3. + j) : std::nullopt});
        desc += pid.string() + ">" + v.back().id.string() + (x % 2 ? "!" : "") + ",";
      }
      next.emplace(pid, v);
    }
    const bool given = c.flip();
    PhaseRing r = given ? PhaseRing(PhaseRing::Id(id), ph, next) : PhaseRing(PhaseRing::Id(id), ph);
    if (!given) desc += "(none)";
    book.AddPhaseRing(r);
    rings.emplace(id, r);
  }
  c.trace([&] { return desc; });
  c.state(desc);
  c.op();
  const auto p = ManualPhaseProvider::GetDefaultPopulatedManualPhaseProvider(&book);
  for (const char* id : {"A", "B", "C"}) {
    c.op();
    const auto got = p->GetPhase(PhaseRing::Id(id));
    const auto it = rings.find(id);
    c.expect(got.has_value() == (it != rings.end()), "default-phase-presence", [&] { return desc; });
    if (!got) continue;
    c.nontrivial();
    c.expect(it->second.GetPhase(got->state).has_value(), "default-phase-in-ring", [&] { return desc; });
    const auto& next = it->second.GetNextPhases(got->state);
    c.expect(got->next.has_value() == !next.empty(), "default-next-presence", [&] { return desc; });
    if (got->next) {
      bool found = false;
      for (const auto& x : next) found = found || (x.id == got->next->state && x.duration_until == got->next->duration_until);
      c.expect(found, "default-next-in-table", [&] { return desc; });
    }
  }
  c.expect(mc::Throws([] { ManualPhaseProvider::GetDefaultPopulatedManualPhaseProvider(nullptr); }), "default-null-book");
  // Range rules start in their first state.
  ManualRulebook rulebook;
  const auto states = Kinds::Range::States();
  std::vector<std::pair<std::string, std::string>> want;
  const int mask = c.choose(8);
  for (int i = 0; i < 3; ++i) {
    if (!(mask & (1 << i))) continue;
    Kinds::Range::Add(&rulebook, Rules()[i].id.c_str(), "T", Zone(Rules()[i]), {states[(i + 1) % 4], states[i]});
    want.emplace_back(Rules()[i].id, Name(states[(i + 1) % 4]));
  }
  const auto rp = ManualRangeValueRuleStateProvider::GetDefaultManualRangeValueRuleStateProvider(&rulebook);
  for (const auto& w : want) {
    c.op();
    const auto got = Read(rp->GetState(Rule::Id(w.first)));
    c.expect(got == std::optional<Ref>(Ref{w.second, {}, {}}), "default-range-state", [&] { return w.first; });
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"phase-provider", "all histories of up to 3 (thorough 4) additions/updates over 2 rings, 2 phases, next phases, durations", PhaseHistory},
                   {"manual-discrete", "all histories of up to 2 (3) state settings (valid, foreign, unknown; next; durations) and a rule removal, then all queries", Manual<Kinds::Discrete>},
                   {"manual-range", "the same for range value rules", Manual<Kinds::Range>},
                   {"phased", "all histories of up to 2 (3) phase changes, ring additions/removals and manual settings from 8 initial set-ups", Phased},
                   {"right-of-way", "all histories of up to 4 (5) operations on the manual and phase-based right-of-way providers", RightOfWay},
                   {"defaults", "all books of up to 2 rings with all next-phase tables; all sets of 3 range rules", Defaults}});
}
