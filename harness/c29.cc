// Comparisons report a difference exactly when there is one; positions and bounds hold what they are given.
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "maliput/api/compare.h"
#include "maliput/api/rules/compare.h"
#include "maliput/common/compare.h"
#include "maliput/routing/compare.h"
#include "mc.h"
#include "world.h"

using namespace maliput::api;
using namespace maliput::api::rules;
using maliput::math::Vector3;

namespace {

world::LaneSpec Named(const std::string& id) {
  world::LaneSpec spec;
  spec.id = id;
  return spec;
}

// A type of things to compare: fields, each with a few different values. `loose` names values of a field that differ
// just by an order of which no comparison says whether it matters.
struct Family {
  std::string name;
  std::vector<int> fields;
  std::function<bool(const std::vector<int>&, const std::vector<int>&)> differ;  // As the implementation has it.
  std::function<std::string(int field, int value)> loose;
};

template <typename T>
Family Make(const std::string& name, const std::vector<int>& fields, std::function<T(const std::vector<int>&)> build, std::function<std::string(int, int)> loose = nullptr) {
  return {name, fields, [build](const std::vector<int>& a, const std::vector<int>& b) {
            const T x = build(a), y = build(b);
            return IsEqual(x, y).message.has_value();
          },
          loose};
}

// All lists of up to n different elements out of n.
std::vector<std::vector<int>> Lists(int n, bool repeated = false) {
  std::vector<std::vector<int>> r{{}};
  for (size_t from = 0, length = 0; length < static_cast<size_t>(n); ++length) {
    const size_t to = r.size();
    for (; from < to; ++from) {
      for (int x = 0; x < n; ++x) {
        bool ok = true;
        for (int y : r[from]) ok = ok && (repeated || x != y);
        if (!ok) continue;
        r.push_back(r[from]);
        r.back().push_back(x);
      }
    }
  }
  return r;
}
const std::vector<std::vector<int>> kLists = Lists(2);          // {} 0 1 01 10
const std::vector<std::vector<int>> kLists3 = Lists(3);         // All of up to three different elements.
const std::vector<std::vector<int>> kRepeated = Lists(2, true);  // {} 0 1 00 01 10 11
std::string Sorted(std::vector<int> l) {
  std::sort(l.begin(), l.end());
  std::string r;
  for (int x : l) r += std::to_string(x);
  return r;
}

const char* Name(int i) { return i == 0 ? "a" : i == 1 ? "b" : "ab"; }

SRange Range(int i) { return i == 0 ? SRange(0., 2.) : i == 1 ? SRange(2., 0.) : i == 2 ? SRange(0., 2. + 1e-9) : SRange(1., 2.); }
LaneSRange Lane_(int i) { return LaneSRange(LaneId(Name(i / 2)), Range(i % 2)); }
LaneSRoute Zone(int list) {
  std::vector<LaneSRange> r;
  for (int x : kRepeated[list]) r.push_back(Lane_(x));
  return LaneSRoute(r);
}
Rotation Turn(int i) { return i == 0 ? Rotation() : i == 1 ? Rotation::FromRpy(.5, 0., 0.) : i == 2 ? Rotation::FromRpy(0., .5, 0.) : Rotation::FromRpy(0., 0., -3.); }
InertialPosition At(int i) { return InertialPosition(i & 1 ? 1. : 0., i & 2 ? -2. : 0., i & 4 ? 1e-9 : 0.); }

Rule::RelatedRules Related(int i) {
  Rule::RelatedRules r;
  if (i == 1) r["g"] = {Rule::Id("a")};
  if (i == 2) r["g"] = {Rule::Id("b")};
  if (i == 3) r["h"] = {Rule::Id("a")};
  return r;
}
Rule::RelatedUniqueIds RelatedIds(int i) {
  Rule::RelatedUniqueIds r;
  if (i == 1) r["g"] = {UniqueId("a")};
  if (i == 2) r["g"] = {UniqueId("a"), UniqueId("b")};
  if (i == 3) r["h"] = {UniqueId("a")};
  return r;
}
using Discrete = DiscreteValueRule::DiscreteValue;
Discrete Value(const std::vector<int>& v) { return Discrete(v[0], Related(v[1]), RelatedIds(v[2]), Name(v[3])); }
Discrete Value(int i) { return Value(i == 0 ? std::vector<int>{0, 0, 0, 0} : i == 1 ? std::vector<int>{1, 0, 0, 0} : std::vector<int>{0, 0, 0, 1}); }
std::vector<Discrete> Values(int list) {
  std::vector<Discrete> r;
  for (int x : kLists3[list]) r.push_back(Value(x));
  return r;
}
RangeValueRule::Range Interval(const std::vector<int>& v) {
  return RangeValueRule::Range(v[0], Related(v[1]), RelatedIds(v[2]), Name(v[3]), v[4] ? 1. : 0., v[5] ? 2. : 2. + 1e-9);
}
RangeValueRule::Range Interval(int i) { return Interval(i == 0 ? std::vector<int>{0, 0, 0, 0, 0, 0} : i == 1 ? std::vector<int>{0, 0, 0, 0, 0, 1} : std::vector<int>{1, 0, 0, 0, 0, 0}); }
std::vector<RangeValueRule::Range> Intervals(int list) {
  std::vector<RangeValueRule::Range> r;
  for (int x : kLists3[list]) r.push_back(Interval(x));
  return r;
}

// Maps of up to two keys, to one of n values each.
template <typename M, typename K, typename F>
M Map(int i, int n, F value) {
  M m;
  for (const char* key : {"a", "b"}) {
    if (i % (n + 1)) m.emplace(K(key), value(i % (n + 1) - 1));
    i /= n + 1;
  }
  return m;
}
RuleStates States(int i) {
  return Map<RuleStates, RightOfWayRule::Id>(i, 2, [](int v) { return RightOfWayRule::State::Id(Name(v)); });
}
DiscreteValueRuleStates ValueStates(int i) {
  return Map<DiscreteValueRuleStates, Rule::Id>(i, 3, [](int v) { return Value(v); });
}
struct BulbKey : UniqueBulbId {
  explicit BulbKey(const char* k) : UniqueBulbId(TrafficLight::Id("t"), BulbGroup::Id("g"), Bulb::Id(k)) {}
};
BulbStates Bulbs(int i) {
  BulbStates m;
  for (const char* key : {"a", "b"}) {
    if (i % 4) m.emplace(BulbKey(key), static_cast<BulbState>(i % 4 - 1));
    i /= 4;
  }
  return m;
}
std::optional<BulbStates> MaybeBulbs(int i) { return i == 0 ? std::nullopt : std::make_optional(Bulbs(i - 1)); }
std::optional<double> Maybe(int i) {
  return i == 0 ? std::nullopt : i == 1 ? std::make_optional(0.) : i == 2 ? std::make_optional(2.) : std::make_optional(2. + 1e-9);
}
PhaseRing::NextPhase Next(int i) { return PhaseRing::NextPhase{maliput::api::rules::Phase::Id(Name(i / 4)), Maybe(i % 4)}; }
using Usage = DirectionUsageRule::State;
Usage UsageState(int id, int i) { return Usage(Usage::Id(Name(id)), static_cast<Usage::Type>(i % 7), static_cast<Usage::Severity>(i / 7)); }
using Way = RightOfWayRule::State;
Way::YieldGroup Yield(int list) {
  Way::YieldGroup r;
  for (int x : kLists[list]) r.push_back(RightOfWayRule::Id(Name(x)));
  return r;
}
Way WayState(int id, int type, int list) { return Way(Way::Id(Name(id)), static_cast<Way::Type>(type), Yield(list)); }
std::vector<Way> WayStates(int i) {  // Not empty.
  std::vector<Way> r;
  for (int id = 0; id < 2; ++id) {
    const int v = i % 4;
    if (v) r.push_back(WayState(id, v == 2, v == 3));
    i /= 4;
  }
  return r;
}
RightOfWayRule::RelatedBulbGroups Groups(int i) {
  RightOfWayRule::RelatedBulbGroups m;
  for (const char* key : {"a", "b"}) {
    if (i % 6) {
      std::vector<BulbGroup::Id> l;
      for (int x : kLists[i % 6 - 1]) l.push_back(BulbGroup::Id(Name(x)));
      m.emplace(TrafficLight::Id(key), l);
    }
    i /= 6;
  }
  return m;
}
std::string LooseGroups(int i) { return (i % 6 ? Sorted(kLists[i % 6 - 1]) : "-") + "," + (i / 6 ? Sorted(kLists[i / 6 - 1]) : "-"); }

std::unique_ptr<Bulb> MakeBulb(const std::vector<int>& v) {
  std::optional<std::vector<BulbState>> states;
  if (v[5]) {
    states.emplace();
    for (int x : kLists[v[5]]) states->push_back(static_cast<BulbState>(x + 1));
  }
  Bulb::BoundingBox box;
  if (v[6]) (v[6] <= 3 ? box.p_BMin : box.p_BMax)[(v[6] - 1) % 3] *= 2.;
  return std::make_unique<Bulb>(Bulb::Id(Name(v[0])), At(v[1]), Turn(v[2]), static_cast<BulbColor>(v[3]), v[4] ? BulbType::kArrow : BulbType::kRound, v[4] ? Maybe(v[4]) : std::nullopt, states, box);
}
std::unique_ptr<Bulb> MakeBulb(int id, int i) {
  std::vector<int> v{id, 0, 0, 0, 0, 0, 0};
  if (i) v[i] = 1;
  return MakeBulb(v);
}
std::unique_ptr<BulbGroup> MakeGroup(int id, int at, int turn, int bulbs) {
  std::vector<std::unique_ptr<Bulb>> b;
  for (int i = 0; i < 2; ++i) {
    if (i && bulbs % 8 == 7) break;
    b.push_back(MakeBulb(i, i ? bulbs % 8 : bulbs / 8));
  }
  return std::make_unique<BulbGroup>(BulbGroup::Id(Name(id)), At(at), Turn(turn), std::move(b));
}

template <typename T>
Family MakePointer(const std::string& name, const std::vector<int>& fields, std::function<std::unique_ptr<T>(const std::vector<int>&)> build, std::function<std::string(int, int)> loose = nullptr) {
  return {name, fields, [build](const std::vector<int>& a, const std::vector<int>& b) {
            const auto x = build(a), y = build(b);
            return IsEqual(static_cast<const T*>(x.get()), static_cast<const T*>(y.get())).message.has_value();
          },
          loose};
}
template <typename T>
Family MakeNamed(const std::string& name, const std::vector<int>& fields, std::function<T(const std::vector<int>&)> build) {
  return {name, fields, [build](const std::vector<int>& a, const std::vector<int>& b) {
            const T x = build(a), y = build(b);
            return maliput::api::IsEqual("x", "y", x, y).message.has_value();
          },
          nullptr};
}

using V = std::vector<int>;
const int kN3 = kLists3.size(), kN2 = kLists.size(), kNR = kRepeated.size();

const std::vector<Family>& Families() {
  // What pointers refer to: never dereferenced but to be described.
  static const world::StraightLane* const kLanes[] = {new world::StraightLane(Named("a")), new world::StraightLane(Named("b")), nullptr};
  const auto loose3 = [](int which) { return [which](int f, int v) { return f == which ? Sorted(kLists3[v]) : std::to_string(v); }; };
  static const std::vector<Family> r{
      MakeNamed<bool>("bool", {2}, [](const V& v) { return v[0] == 1; }),
      MakeNamed<std::size_t>("size", {4}, [](const V& v) { return v[0] == 3 ? std::size_t(-1) : std::size_t(v[0]); }),
      MakeNamed<double>("number", {7}, [](const V& v) {
        const double x[] = {0., 1., -1., 1. + 1e-12, 1e9, HUGE_VAL, -HUGE_VAL};
        return x[v[0]];
      }),
      MakeNamed<LaneId>("identifier", {3}, [](const V& v) { return LaneId(Name(v[0])); }),
      MakeNamed<const maliput::api::Lane*>("lane", {3}, [](const V& v) { return kLanes[v[0]]; }),
      MakeNamed<const maliput::api::Junction*>("junction", {3}, [](const V& v) { return reinterpret_cast<const maliput::api::Junction*>(v[0] * 64L); }),
      MakeNamed<const maliput::api::Segment*>("segment", {3}, [](const V& v) { return reinterpret_cast<const maliput::api::Segment*>(v[0] * 64L); }),
      MakeNamed<const maliput::api::BranchPoint*>("branch point", {3}, [](const V& v) { return reinterpret_cast<const maliput::api::BranchPoint*>(v[0] * 64L); }),
      Make<SRange>("range", {3, 3}, [](const V& v) {
        const double x[] = {0., 1., 1. + 1e-9};
        return SRange(x[v[0]], x[v[1]]);
      }),
      Make<LaneSRange>("lane range", {3, 4}, [](const V& v) { return LaneSRange(LaneId(Name(v[0])), Range(v[1])); }),
      Make<std::vector<LaneSRange>>("lane ranges", {kN3}, [](const V& v) {
        std::vector<LaneSRange> l;
        for (int x : kLists3[v[0]]) l.push_back(Lane_(x));
        return l;
      }),
      Make<LaneSRoute>("route", {kNR}, [](const V& v) { return Zone(v[0]); }),
      Make<InertialPosition>("position", {8}, [](const V& v) { return At(v[0]); }),
      Make<Rotation>("rotation", {4}, [](const V& v) { return Turn(v[0]); }),
      Make<LaneEnd::Which>("end", {2}, [](const V& v) { return static_cast<LaneEnd::Which>(v[0]); }),
      Make<LaneEnd>("lane end", {3, 2}, [](const V& v) { return LaneEnd(kLanes[v[0]], static_cast<LaneEnd::Which>(v[1])); }),
      {"lane end by name", {3, 2}, [](const V& a, const V& b) {
         return IsLaneEndEqual(LaneEnd(kLanes[a[0]], static_cast<LaneEnd::Which>(a[1])), LaneEnd(kLanes[b[0]], static_cast<LaneEnd::Which>(b[1]))).message.has_value();
       }, nullptr},
      Make<RuleStates>("right of way states", {9}, [](const V& v) { return States(v[0]); }),
      Make<Discrete>("discrete value", {2, 4, 4, 3}, [](const V& v) { return Value(v); }),
      Make<std::vector<Discrete>>("discrete values", {kN3}, [](const V& v) { return Values(v[0]); }, loose3(0)),
      Make<DiscreteValueRuleStates>("discrete states", {16}, [](const V& v) { return ValueStates(v[0]); }),
      Make<DiscreteValueRule>("discrete rule", {2, 2, 3, kN3 - 1}, [](const V& v) { return DiscreteValueRule(Rule::Id(Name(v[0])), Rule::TypeId(Name(v[1])), Zone(v[2]), Values(v[3] + 1)); },
                              [](int f, int v) { return f == 3 ? Sorted(kLists3[v + 1]) : std::to_string(v); }),
      Make<RangeValueRule::Range>("range value", {2, 3, 3, 2, 2, 2}, [](const V& v) { return Interval(v); }),
      Make<std::vector<RangeValueRule::Range>>("range values", {kN3}, [](const V& v) { return Intervals(v[0]); }, loose3(0)),
      Make<RangeValueRule>("range rule", {2, 2, 3, kN3 - 1}, [](const V& v) { return RangeValueRule(Rule::Id(Name(v[0])), Rule::TypeId(Name(v[1])), Zone(v[2]), Intervals(v[3] + 1)); },
                           [](int f, int v) { return f == 3 ? Sorted(kLists3[v + 1]) : std::to_string(v); }),
      Make<maliput::api::rules::Phase>("phase", {2, 4, 5, 7}, [](const V& v) {
        static const int kMaybe[] = {0, 1, 2, 3, 5, 6, 9};
        return maliput::api::rules::Phase(maliput::api::rules::Phase::Id(Name(v[0])), States(v[1]), ValueStates(v[2]), MaybeBulbs(kMaybe[v[3]]));
      }),
      Make<PhaseRing::NextPhase>("next phase", {8}, [](const V& v) { return Next(v[0]); }),
      Make<std::vector<PhaseRing::NextPhase>>("next phases", {kN3}, [](const V& v) {
        std::vector<PhaseRing::NextPhase> l;
        for (int x : kLists3[v[0]]) l.push_back(Next(x));
        return l;
      }),
      Make<Usage::Type>("usage type", {7}, [](const V& v) { return static_cast<Usage::Type>(v[0]); }),
      Make<Usage::Severity>("usage severity", {2}, [](const V& v) { return static_cast<Usage::Severity>(v[0]); }),
      Make<Usage>("usage state", {2, 14}, [](const V& v) { return UsageState(v[0], v[1]); }),
      Make<std::unordered_map<Usage::Id, Usage>>("usage states", {4, 4}, [](const V& v) {
        std::unordered_map<Usage::Id, Usage> m;
        for (int i = 0; i < 2; ++i) {
          if (v[i]) m.emplace(Usage::Id(Name(i)), UsageState(i, v[i] == 3 ? 7 : v[i] - 1));
        }
        return m;
      }),
      Make<DirectionUsageRule>("usage rule", {2, 4, 4, 4}, [](const V& v) {
        std::vector<Usage> l;
        for (int i = 0; i < 2; ++i) {
          if (v[2 + i]) l.push_back(UsageState(i, v[2 + i] == 3 ? 7 : v[2 + i] - 1));
        }
        if (l.empty()) throw mc::Prune{};
        return DirectionUsageRule(DirectionUsageRule::Id(Name(v[0])), Lane_(v[1]), l);
      }),
      Make<RightOfWayRule::ZoneType>("zone type", {2}, [](const V& v) { return static_cast<RightOfWayRule::ZoneType>(v[0]); }),
      Make<Way::Type>("way type", {3}, [](const V& v) { return static_cast<Way::Type>(v[0]); }),
      Make<Way::YieldGroup>("yield group", {kN2}, [](const V& v) { return Yield(v[0]); }, [](int, int v) { return Sorted(kLists[v]); }),
      Make<Way>("way state", {2, 3, kN2}, [](const V& v) { return WayState(v[0], v[1], v[2]); }, [](int f, int v) { return f == 2 ? Sorted(kLists[v]) : std::to_string(v); }),
      Make<std::unordered_map<Way::Id, Way>>("way states", {16}, [](const V& v) {
        std::unordered_map<Way::Id, Way> m;
        for (const auto& s : WayStates(v[0])) m.emplace(s.id(), s);
        return m;
      }),
      Make<RightOfWayRule>("way rule", {2, 2, 2, 15, 5}, [](const V& v) {
        static const int kGroups[] = {0, 2, 3, 4, 12};
        return RightOfWayRule(RightOfWayRule::Id(Name(v[0])), Zone(v[1]), static_cast<RightOfWayRule::ZoneType>(v[2]), WayStates(v[3] + 1), Groups(kGroups[v[4]]));
      }),
      Make<RightOfWayRuleStateProvider::RightOfWayResult>("way result", {2, 3, 4}, [](const V& v) {
        RightOfWayRuleStateProvider::RightOfWayResult x{Way::Id(Name(v[0])), {}};
        if (v[1] == 0 && v[2]) throw mc::Prune{};
        if (v[1]) x.next = RightOfWayRuleStateProvider::RightOfWayResult::Next{Way::Id(Name(v[1] - 1)), Maybe(v[2])};
        return x;
      }),
      Make<SpeedLimitRule::Severity>("speed severity", {2}, [](const V& v) { return static_cast<SpeedLimitRule::Severity>(v[0]); }),
      Make<SpeedLimitRule>("speed rule", {2, 4, 2, 3, 3}, [](const V& v) {
        return SpeedLimitRule(SpeedLimitRule::Id(Name(v[0])), Lane_(v[1]), static_cast<SpeedLimitRule::Severity>(v[2]), v[3] == 2 ? 1e-9 : v[3], 7. + (v[4] == 2 ? 1e-9 : v[4]));
      }),
      Make<RightOfWayRule::RelatedBulbGroups>("bulb groups", {36}, [](const V& v) { return Groups(v[0]); }, [](int, int v) { return LooseGroups(v); }),
      Make<BulbColor>("color", {3}, [](const V& v) { return static_cast<BulbColor>(v[0]); }),
      Make<BulbType>("bulb type", {2}, [](const V& v) { return static_cast<BulbType>(v[0]); }),
      Make<BulbState>("bulb state", {3}, [](const V& v) { return static_cast<BulbState>(v[0]); }),
      Make<std::optional<BulbStates>>("bulb states", {17}, [](const V& v) { return MaybeBulbs(v[0]); }),
      Make<std::optional<double>>("optional number", {4}, [](const V& v) { return Maybe(v[0]); }),
      Make<Bulb::BoundingBox>("box", {2, 2, 2, 2, 2, 2}, [](const V& v) {
        Bulb::BoundingBox b;
        for (int i = 0; i < 6; ++i) (i < 3 ? b.p_BMin : b.p_BMax)[i % 3] = i / 3 + (v[i] ? 1e-9 : 0.);
        return b;
      }),
      MakePointer<Bulb>("bulb", {2, 2, 4, 2, 3, 3, 7}, [](const V& v) { return MakeBulb(v); }),
      MakePointer<BulbGroup>("bulb group", {2, 4, 4, 16}, [](const V& v) {
        static const int kBulbs[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 24, 32, 40, 48, 55};
        return MakeGroup(v[0], v[1], v[2], kBulbs[v[3]]);
      }),
      {"bulbs", {3, 3, 3}, [](const V& a, const V& b) {
         std::vector<std::unique_ptr<Bulb>> keep;
         std::vector<const Bulb*> l[2];
         for (int side = 0; side < 2; ++side) {
           const V& v = side ? b : a;
           for (int i = 0; i < 3; ++i) {
             if (!v[i]) break;
             keep.push_back(MakeBulb(i, v[i] - 1));
             l[side].push_back(keep.back().get());
           }
         }
         return IsEqual("x", "y", l[0], l[1]).message.has_value();
       }, nullptr},
      MakePointer<TrafficLight>("traffic light", {2, 4, 4, 5, 5}, [](const V& v) {
        std::vector<std::unique_ptr<BulbGroup>> g;
        if (v[3]) g.push_back(MakeGroup(0, v[3] == 2, v[3] == 3, v[3] == 4 ? 3 : 0));
        if (v[4]) g.push_back(MakeGroup(1, v[4] == 2, v[4] == 3, v[4] == 4 ? 3 : 0));
        return std::make_unique<TrafficLight>(TrafficLight::Id(Name(v[0])), At(v[1]), Turn(v[2]), std::move(g));
      })};
  return r;
}

// Every pair of things of every type.
void Equality(mc::Ctx& c) {
  const Family& f = c.pick(Families());
  V a, b;
  int differing = 0;
  std::string text = f.name;
  for (int n : f.fields) a.push_back(c.choose(n));
  // Things of many fields: those that differ in at most two of them.
  for (int n : f.fields) {
    b.push_back(c.choose(n));
    if (b.back() != a[b.size() - 1] && ++differing > 2 && f.fields.size() > 6 && !mc::Thorough()) c.prune();
  }
  bool loose = f.loose != nullptr && a != b;
  for (size_t i = 0; i < a.size(); ++i) {
    text += " " + std::to_string(a[i]) + "/" + std::to_string(b[i]);
    loose = loose && f.loose(i, a[i]) == f.loose(i, b[i]);
  }
  if (loose) c.prune();  // Not stated: whether the order matters.
  if (f.name == "bulbs") {  // Lists end at the first one missing.
    for (const V* v : {&a, &b}) {
      if ((!(*v)[0] && (*v)[1]) || (!(*v)[1] && (*v)[2])) c.prune();
    }
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  const bool got = f.differ(a, b);
  c.expect(got == (a != b), a != b ? "a difference is not reported" : "a difference is reported between equal values", text);
  c.nontrivial(a != b);
}

// Positions, bounds, and results within a tolerance, per component.
struct Close {
  const char* name;
  int components;
  bool (*differ)(const std::vector<double>& d, double tolerance);  // The differences of the components.
  bool angles;
};

// The values that are compared: close to some base, or of opposite signs and equal magnitudes.
int mode{0};
double A(const std::vector<double>& d, int i, double base) { return mode == 1 ? -d[i] / 2. : mode == 2 ? -4096. - base : base; }
double B(const std::vector<double>& d, int i, double base) { return mode == 1 ? d[i] / 2. : A(d, i, base) + d[i]; }
using Diffs = std::vector<double>;
LanePosition LaneA(const Diffs& d) { return LanePosition(A(d, 0, 1.), A(d, 1, 2.), A(d, 2, 3.)); }
LanePosition LaneB(const Diffs& d) { return LanePosition(B(d, 0, 1.), B(d, 1, 2.), B(d, 2, 3.)); }
InertialPosition InertialA(const Diffs& d, int at) { return InertialPosition(A(d, at, 4.), A(d, at + 1, 5.), A(d, at + 2, 6.)); }
InertialPosition InertialB(const Diffs& d, int at) { return InertialPosition(B(d, at, 4.), B(d, at + 1, 5.), B(d, at + 2, 6.)); }
int Step(double d, double t) { return std::abs(d) > t ? (d < 0. ? -1 : 1) : 0; }

const std::vector<Close>& Closes() {
  static const std::vector<Close> r{
      {"inertial position", 3, [](const Diffs& d, double t) { return IsInertialPositionClose(InertialA(d, 0), InertialB(d, 0), t).message.has_value(); }, false},
      {"lane position", 3, [](const Diffs& d, double t) { return IsLanePositionClose(LaneB(d), LaneA(d), t).message.has_value(); }, false},
      {"rotation", 3, [](const Diffs& d, double t) {
         if (mode == 1) return IsRotationClose(Rotation::FromRpy(A(d, 0, 0.), A(d, 1, 0.), A(d, 2, 0.)), Rotation::FromRpy(B(d, 0, 0.), B(d, 1, 0.), B(d, 2, 0.)), t).message.has_value();
         const double k = mode ? -1. : 1.;
         return IsRotationClose(Rotation::FromRpy(k * .25, k * -.5, k * 1.), Rotation::FromRpy(k * .25 + d[0], k * -.5 + d[1], k * 1. + d[2]), t).message.has_value();
       }, true},
      {"r bounds", 2, [](const Diffs& d, double t) { return IsRBoundsClose(RBounds(-8., 8.), RBounds(-8. + d[0], 8. + d[1]), t).message.has_value(); }, false},
      {"h bounds", 2, [](const Diffs& d, double t) { return IsHBoundsClose(HBounds(-8. + d[0], 8. + d[1]), HBounds(-8., 8.), t).message.has_value(); }, false},
      {"lane position result", 7, [](const Diffs& d, double t) {
         return IsLanePositionResultClose({LaneA(d), InertialA(d, 3), A(d, 6, 7.)}, {LaneB(d), InertialB(d, 3), B(d, 6, 7.)}, t).message.has_value();
       }, false},
      {"road position result", 8, [](const Diffs& d, double t) {
         static const world::StraightLane a{Named("a")}, b{Named("b")};
         return IsRoadPositionResultClose({RoadPosition(&a, LaneA(d)), InertialA(d, 3), A(d, 6, 7.)},
                                          {RoadPosition(std::abs(d[7]) > t ? (d[7] < 0. ? nullptr : &b) : &a, LaneB(d)), InertialB(d, 3), B(d, 6, 7.)}, t)
             .message.has_value();
       }, false},
      {"phase position result", 8, [](const Diffs& d, double t) {
         return maliput::routing::IsPhasePositionResultClose({1, LaneA(d), InertialA(d, 3), A(d, 6, 7.)}, {1 + Step(d[7], t), LaneB(d), InertialB(d, 3), B(d, 6, 7.)}, t).message.has_value();
       }, false},
      {"route position result", 9, [](const Diffs& d, double t) {
         return maliput::routing::IsRoutePositionResultClose({3, {1, LaneA(d), InertialA(d, 3), A(d, 6, 7.)}},
                                                             {3 + Step(d[8], t), {1 + Step(d[7], t), LaneB(d), InertialB(d, 3), B(d, 6, 7.)}}, t)
             .message.has_value();
       }, false}};
  return r;
}

void Closeness(mc::Ctx& c) {
  const Close& k = c.pick(Closes());
  mode = c.choose(3);
  static const double kTolerances[] = {.125, 2., 0., .03125};
  const double t = kTolerances[k.angles ? 3 * c.choose(2) : c.choose(3)];
  // In units of the tolerance; all of them exact.
  static const std::vector<double> few{0., 1., -1., 1.5, -1.5, .5};
  const int n = mc::Thorough() ? (k.components > 8 ? 4 : 5) : k.components > 8 ? 3 : k.components > 7 ? 4 : k.components > 3 ? 5 : 6;
  std::vector<double> d;
  bool differ = false;
  std::string text = std::string(k.name) + " of kind " + std::to_string(mode) + " within " + std::to_string(t);
  int far = 0;
  for (int i = 0; i < k.components; ++i) {
    const int which = c.choose(n);
    const double units = k.angles ? few[which] * .9 : few[which];
    d.push_back(t > 0. ? units * t : std::abs(units) > 1. ? units * .125 : 0.);
    if (std::abs(units) > 1. && ++far > 2 && !mc::Thorough()) c.prune();
    differ = differ || std::abs(units) > 1.;
    text += " " + std::to_string(d.back());
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.expect(k.differ(d, t) == differ, differ ? "what is far is taken as close" : "what is close is taken as far", text);
  c.nontrivial(differ);
}

// A road geometry whose index is wrong for some identifiers.
class Faulty : public maliput::api::RoadGeometry {
 public:
  explicit Faulty(const maliput::api::RoadGeometry* rg) : rg_(rg), index_(this) {}
  std::map<std::string, int> wrong;  // 1: nothing; 2: another one.

 private:
  class Index : public IdIndex {
   public:
    explicit Index(const Faulty* f) : f_(f) {}
    template <typename T, typename F>
    const T* Get(const std::string& id, const char* other, F get) const {
      const auto at = f_->wrong.find(id);
      if (at == f_->wrong.end()) return get(id);
      return at->second == 1 ? nullptr : get(other == id ? std::string(other, 1) + "1" : other);
    }
    const maliput::api::Lane* DoGetLane(const LaneId& id) const override {
      return Get<maliput::api::Lane>(id.string(), "l0", [&](const std::string& s) { return f_->rg_->ById().GetLane(LaneId(s)); });
    }
    const std::unordered_map<LaneId, const maliput::api::Lane*>& DoGetLanes() const override { return f_->rg_->ById().GetLanes(); }
    const maliput::api::Segment* DoGetSegment(const SegmentId& id) const override {
      return Get<maliput::api::Segment>(id.string(), "s0", [&](const std::string& s) { return f_->rg_->ById().GetSegment(SegmentId(s)); });
    }
    const maliput::api::Junction* DoGetJunction(const JunctionId& id) const override {
      return Get<maliput::api::Junction>(id.string(), "j0", [&](const std::string& s) { return f_->rg_->ById().GetJunction(JunctionId(s)); });
    }
    const maliput::api::BranchPoint* DoGetBranchPoint(const BranchPointId& id) const override {
      return Get<maliput::api::BranchPoint>(id.string(), "b0", [&](const std::string& s) { return f_->rg_->ById().GetBranchPoint(BranchPointId(s)); });
    }
    const Faulty* f_;
  };
  RoadGeometryId do_id() const override { return rg_->id(); }
  int do_num_junctions() const override { return rg_->num_junctions(); }
  const maliput::api::Junction* do_junction(int i) const override { return rg_->junction(i); }
  int do_num_branch_points() const override { return rg_->num_branch_points(); }
  const maliput::api::BranchPoint* do_branch_point(int i) const override { return rg_->branch_point(i); }
  const IdIndex& DoById() const override { return index_; }
  RoadPositionResult DoToRoadPosition(const InertialPosition& p, const std::optional<RoadPosition>& h) const override { return rg_->ToRoadPosition(p, h); }
  std::vector<RoadPositionResult> DoFindRoadPositions(const InertialPosition& p, double r) const override { return rg_->FindRoadPositions(p, r); }
  double do_linear_tolerance() const override { return rg_->linear_tolerance(); }
  double do_angular_tolerance() const override { return rg_->angular_tolerance(); }
  double do_scale_length() const override { return rg_->scale_length(); }
  Vector3 do_inertial_to_backend_frame_translation() const override { return rg_->inertial_to_backend_frame_translation(); }
  const maliput::api::RoadGeometry* rg_;
  Index index_;
};

void Indexing(mc::Ctx& c) {
  // The numbers of lanes of the segments of each junction.
  static const std::vector<std::vector<std::vector<int>>> kRoads{{{1, 1}, {1}}, {{2}, {1}}, {{2, 1}}, {{1}, {1}}, {}, {{}}, {{}, {1}}};
  const auto& road = c.pick(kRoads);
  world::World w;
  std::vector<std::string> ids;
  int lanes = 0, segments = 0, junctions = 0;
  for (const auto& j : road) {
    const std::string jid = "j" + std::to_string(junctions++);
    w.Junction(jid);
    ids.push_back(jid);
    for (int n : j) {
      const std::string sid = "s" + std::to_string(segments++);
      w.Segment(sid);
      ids.push_back(sid);
      for (int i = 0; i < n; ++i) {
        world::LaneSpec spec;
        spec.id = "l" + std::to_string(lanes++);
        w.Lane(spec);
        ids.push_back(spec.id);
      }
    }
  }
  int branches = 0;
  for (int l = 0; l < lanes; ++l) {
    for (auto end : {world::kStart, world::kFinish}) {
      const std::string bid = "b" + std::to_string(branches++);
      w.Branch(bid, {{"l" + std::to_string(l), end}}, {});
      ids.push_back(bid);
    }
  }
  // One that joins nothing yet.
  if (lanes < 3) {
    ids.push_back("b" + std::to_string(branches));
    w.Branch(ids.back(), {}, {});
  }
  Faulty rg(w.rg.get());
  std::string text = std::to_string(ids.size()) + " things";
  for (const auto& id : ids) {
    const int fault = rg.wrong.size() < 2 ? c.choose(3) : 0;
    if (fault == 2 && id[0] == 'j' && junctions == 1) c.prune();
    if (fault == 2 && id[0] == 'b' && branches == 0) c.prune();
    if (fault) rg.wrong[id] = fault;
    if (fault) text += " " + id + (fault == 1 ? " missing" : " wrong");
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.expect(CheckIdIndexing(&rg).has_value() == !rg.wrong.empty(), "faults of an index", text);
  c.nontrivial(!rg.wrong.empty());
}

// Results collected: all differences are kept.
void Collections(mc::Ctx& c) {
  maliput::common::ComparisonResultCollector dut;
  int failed = 0;
  const int n = c.choose(6);
  std::vector<std::string> messages;
  for (int i = 0; i < n; ++i) {
    const int which = c.choose(3);
    c.op();
    if (which == 0) dut.AddResult("file", 10 + i, "x == y", maliput::common::ComparisonResult<int>{std::nullopt});
    if (which == 1) dut.AddResult("file", 10 + i, "x == y", maliput::common::ComparisonResult<int>{"message " + std::to_string(i)});
    if (which == 2) dut.AddResult("file", 10 + i, "", maliput::common::ComparisonResult<double>{""});
    if (which == 1) messages.push_back("message " + std::to_string(i));
    failed += which > 0;
    c.expect(dut.count() == i + 1 && dut.failed() == failed, "results counted", "");
    c.expect(dut.result().has_value() == (failed > 0), "results collected", "");
    for (const auto& m : messages) c.expect(dut.result()->find(m) != std::string::npos, "messages collected", m);
  }
  c.nontrivial(failed > 0);
  c.state(std::to_string(n) + " " + std::to_string(failed));
}

// Every history of changes to a position or to bounds.
const double kNumbers[] = {0., -0., 1.5, -1.5, 1e300, -1e-300, HUGE_VAL, -HUGE_VAL, NAN};
bool Same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

template <typename B>
void Bounds(mc::Ctx& c) {
  double lo = 0., hi = 0.;
  B dut;
  std::string text = "bounds";
  if (c.flip()) {
    const double a = kNumbers[c.choose(9)], b = kNumbers[c.choose(9)];
    text += " " + std::to_string(a) + ".." + std::to_string(b);
    const bool ok = a <= 0. && b >= 0.;
    c.expect(mc::Throws([&] { dut = B(a, b); }) == !ok, "bounds accepted", text);
    if (ok) lo = a, hi = b;
  }
  const int length = mc::Thorough() ? 3 : 2;
  for (int i = 0; i <= length; ++i) {
    c.expect(dut.min() == lo && dut.max() == hi, "bounds", text);
    const B copy(dut);
    c.expect(copy.min() == lo && copy.max() == hi, "bounds copied", text);
    if (i == length) break;
    const bool top = c.flip();
    const double x = kNumbers[c.choose(9)];
    text += std::string(top ? " max " : " min ") + std::to_string(x);
    const bool ok = top ? x >= 0. : x <= 0.;
    c.op();
    c.expect(mc::Throws([&] { top ? dut.set_max(x) : dut.set_min(x); }) == !ok, "bound accepted", text);
    if (ok) (top ? hi : lo) = x;
    c.nontrivial(!ok);
  }
  c.trace([&] { return text; });
  c.state(text);
}

void Positions(mc::Ctx& c) {
  const int kind = c.choose(4);
  if (kind == 2) return Bounds<RBounds>(c);
  if (kind == 3) return Bounds<HBounds>(c);
  Vector3 want(0., 0., 0.);
  InertialPosition p;
  LanePosition q;
  const int start = c.choose(3);
  if (start) want = Vector3(1., 2., 3.);
  if (start == 1) p = InertialPosition(1., 2., 3.), q = LanePosition(1., 2., 3.);
  if (start == 2) p = InertialPosition::FromXyz(want), q = LanePosition::FromSrh(want);
  std::string text = (kind ? "lane" : "inertial") + std::to_string(start);
  for (int i = 0; i < 3; ++i) {
    const int op = c.choose(5);
    if (op == 4) break;
    c.op();
    if (op == 3) {
      want = Vector3(-4., 0., 8. + i);
      kind ? q.set_srh(want) : p.set_xyz(want);
      text += " all";
    } else {
      const double x = kNumbers[c.choose(8)];
      want[op] = x;
      text += " " + std::to_string(op) + "=" + std::to_string(x);
      if (op == 0) kind ? q.set_s(x) : p.set_x(x);
      if (op == 1) kind ? q.set_r(x) : p.set_y(x);
      if (op == 2) kind ? q.set_h(x) : p.set_z(x);
    }
  }
  const double got[] = {kind ? q.s() : p.x(), kind ? q.r() : p.y(), kind ? q.h() : p.z()};
  for (int i = 0; i < 3; ++i) c.expect(Same(got[i], want[i]), "components", text);
  c.expect((kind ? q.srh() : p.xyz()) == want, "vector", text);
  if (!kind) {
    const Vector3 o(.5, -2., 16.);
    const InertialPosition other = InertialPosition::FromXyz(o);
    c.expect((p == other) == (want == o) && (p != other) == (want != o) && p == InertialPosition::FromXyz(want), "equality", text);
    const auto same = [&](const InertialPosition& x, const Vector3& y) { return Same(x.x(), y[0]) && Same(x.y(), y[1]) && Same(x.z(), y[2]); };
    c.expect(same(p + other, Vector3(want[0] + o[0], want[1] + o[1], want[2] + o[2])), "sum", text);
    c.expect(same(p - other, Vector3(want[0] - o[0], want[1] - o[1], want[2] - o[2])), "difference", text);
    c.expect(same(p * -2., Vector3(want[0] * -2., want[1] * -2., want[2] * -2.)) && same(-2. * p, Vector3(want[0] * -2., want[1] * -2., want[2] * -2.)), "scaled", text);
    double most = 0;
    for (int i = 0; i < 3; ++i) most = std::max(most, std::abs(want[i]));
    if (most < 1e100) {
      const double far = std::sqrt((want[0] - o[0]) * (want[0] - o[0]) + (want[1] - o[1]) * (want[1] - o[1]) + (want[2] - o[2]) * (want[2] - o[2]));
      c.expect(std::abs(p.Distance(other) - far) <= 1e-12 * far && std::abs(other.Distance(p) - far) <= 1e-12 * far, "distance", text);
      const double length = std::sqrt(want[0] * want[0] + want[1] * want[1] + want[2] * want[2]);
      c.expect(std::abs(p.length() - length) <= 1e-12 * length, "length", text);
    }
  }
  c.nontrivial();
  c.trace([&] { return text; });
  c.state(text);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"equality", "all pairs of values of 50 types, built from a few values of each field", Equality},
                               {"closeness", "differences of each component around the tolerance: small values, large ones, and opposite ones", Closeness},
                               {"indexing", "roads x up to two faults of their index", Indexing},
                               {"collections", "all sequences of up to 5 results", Collections},
                               {"positions", "every history of up to 3 changes of positions and bounds", Positions}});
}
