// Road geometry invariants and road network validation: a defect is reported exactly when it is there and asked for.
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <set>

#include "maliput/api/road_network.h"
#include "maliput/api/road_network_validator.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/base/traffic_light_book.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using namespace maliput::api::rules;
using api::LaneEnd;
using api::LaneId;
using api::LaneSRange;
using api::LaneSRoute;
using api::SRange;
using world::kFinish;
using world::kStart;

namespace {

constexpr double kLin = 1. / 16., kAng = 1. / 32.;

// ---- Lane ends that meet at a branch point.
void Continuity(mc::Ctx& c) {
  const int na = c.choose(3), nb = c.choose(3);
  if (na + nb == 0) c.prune();
  struct E {
    bool a, start;
    int what;
    double amount;
  };
  std::vector<E> ends;
  const double yaw = c.pick(std::vector<double>{0., 1., -2.5}), pitch = 0.25, roll = c.pick(std::vector<double>{0., 0.125});
  for (int i = 0; i < na + nb; ++i) ends.push_back({i < na, c.flip(), 0, 0.});
  // One of the ends is off (by less or by more than the tolerance), in position or in orientation.
  const int which = c.choose(na + nb);
  ends[which].what = c.choose(7);
  const bool big = ends[which].what > 0 && c.flip();
  const bool neg = ends[which].what > 0 && c.flip();
  ends[which].amount = (neg ? -1. : 1.) * (ends[which].what == 0 ? 0. : (ends[which].what <= 3 ? kLin : kAng) * (big ? 3. : 0.25));
  const math::Vector3 meet(3., -2., 1.);
  world::World w(kLin, kAng, 1., {10., 20., 30.});
  std::string hist;
  std::vector<world::EndRef> a, b;
  for (size_t i = 0; i < ends.size(); ++i) {
    const E& e = ends[i];
    // On the A side lanes end here when they finish here; on the B side they begin here when they start here.
    const bool reversed = e.a == e.start;
    world::LaneSpec spec;
    spec.id = "l" + std::to_string(i);
    spec.length = 5. + i;
    spec.pose.yaw = (reversed ? yaw + M_PI : yaw) + (e.what == 4 ? e.amount : 0.);
    spec.pose.pitch = (reversed ? -pitch : pitch) + (e.what == 5 ? e.amount : 0.);
    spec.pose.roll = (reversed ? -roll : roll) + (e.what == 6 ? e.amount : 0.);
    const world::StraightLane probe(spec);
    spec.pose.origin = e.start ? meet : meet - spec.length * probe.s_hat;
    spec.pose.origin += math::Vector3(e.what == 1 ? e.amount : 0., e.what == 2 ? e.amount : 0., e.what == 3 ? e.amount : 0.);
    w.Road(std::to_string(i), {spec});
    (e.a ? a : b).push_back({spec.id, e.start ? kStart : kFinish});
    hist += std::string(e.a ? "A:" : "B:") + (e.start ? "start" : "finish") + (e.what ? " off " + std::to_string(e.what) + " by " + std::to_string(e.amount) : "") + "; ";
  }
  w.Branch("meet", a, b);
  w.CloseEnds();
  c.state(hist);
  c.trace([&] { return hist; });
  c.op();
  const bool ok = !big || ends.size() == 1;
  if (!ok) c.nontrivial();
  const auto failures = w.rg->CheckInvariants();
  c.expect(failures.empty() == ok, "continuity", [&] { return hist + (failures.empty() ? "not reported" : failures[0]); });
}

// ---- Validation of a whole network with up to three defects (of the geometry, of the rules, of the phases).

// Pieces that claim to belong elsewhere, when told to.
struct LJunction : geometry_base::Junction {
  using geometry_base::Junction::Junction;
  const api::RoadGeometry* claim{};
  const api::RoadGeometry* do_road_geometry() const override { return claim; }
};
struct LSegment : geometry_base::Segment {
  using geometry_base::Segment::Segment;
  const api::Junction* claim{};
  const api::Junction* do_junction() const override { return claim; }
};
struct LLane : world::StraightLane {
  using world::StraightLane::StraightLane;
  const api::Segment* claim{};
  int claim_index{0};
  const api::Segment* do_segment() const override { return claim; }
  int do_index() const override { return claim_index; }
};
struct LBranchPoint : geometry_base::BranchPoint {
  using geometry_base::BranchPoint::BranchPoint;
  const api::RoadGeometry* claim{};
  const api::RoadGeometry* do_road_geometry() const override { return claim; }
};
struct LRoadGeometry : geometry_base::RoadGeometry {
  using geometry_base::RoadGeometry::RoadGeometry;
  // An index that does not know some elements.
  struct Index : api::RoadGeometry::IdIndex {
    api::BasicIdIndex all;
    std::string hidden;
    const api::Lane* DoGetLane(const LaneId& id) const override { return id.string() == hidden ? nullptr : all.GetLane(id); }
    const std::unordered_map<LaneId, const api::Lane*>& DoGetLanes() const override { return all.GetLanes(); }
    const api::Segment* DoGetSegment(const api::SegmentId& id) const override { return id.string() == hidden ? nullptr : all.GetSegment(id); }
    const api::Junction* DoGetJunction(const api::JunctionId& id) const override { return id.string() == hidden ? nullptr : all.GetJunction(id); }
    const api::BranchPoint* DoGetBranchPoint(const api::BranchPointId& id) const override {
      return id.string() == hidden ? nullptr : all.GetBranchPoint(id);
    }
  } index;
  const IdIndex& DoById() const override { return index; }
};

enum : unsigned { kCoverage = 1, kInvariants = 2, kHierarchy = 4, kBulbGroups = 8, kContiguity = 16, kPhaseRules = 32, kPhaseBulbs = 64, kRelated = 128 };

struct Defect {
  const char* name;
  unsigned seen_by;
};
const std::vector<Defect> kGeometry{
    {"none", 0},
    {"l1 is off its neighbours", kInvariants | kContiguity},
    {"l1 turns away", kInvariants | kContiguity},
    {"l1 has no branch point at its end", kHierarchy},
    {"m has no branch point at its start", kHierarchy},
    {"empty junction", kHierarchy},
    {"empty segment", kHierarchy},
    {"empty branch point", kInvariants | kHierarchy},
    {"wrong lane index", kInvariants},
    {"lane claims another segment", kInvariants | kHierarchy},
    {"segment claims another junction", kInvariants | kHierarchy},
    {"junction claims another road geometry", kInvariants | kHierarchy},
    {"branch point claims another road geometry", kInvariants | kHierarchy},
    {"lane not indexed", kHierarchy | kContiguity},
    {"segment not indexed", kHierarchy},
    {"junction not indexed", kHierarchy},
    {"branch point not indexed", kHierarchy},
};

std::unique_ptr<LRoadGeometry> MakeGeometry(int defect) {
  static const LRoadGeometry other(api::RoadGeometryId("other"), kLin, kAng, 1., math::Vector3(5., 6., 7.));
  auto rg = std::make_unique<LRoadGeometry>(api::RoadGeometryId("rg"), kLin, kAng, 1., math::Vector3(5., 6., 7.));
  std::map<std::string, LLane*> lanes;
  std::vector<LSegment*> segments;
  std::vector<LJunction*> junctions;
  auto road = [&](const std::string& n, const std::vector<world::LaneSpec>& specs) {
    auto* j = rg->AddJunction(std::make_unique<LJunction>(api::JunctionId("j" + n)));
    j->claim = rg.get();
    auto* s = j->AddSegment(std::make_unique<LSegment>(api::SegmentId("s" + n)));
    s->claim = j;
    int k = 0;
    for (const auto& spec : specs) {
      auto* l = s->AddLane(std::make_unique<LLane>(spec));
      l->claim = s;
      l->claim_index = k++;
      lanes[spec.id] = l;
    }
    segments.push_back(s);
    junctions.push_back(j);
  };
  const double off = defect == 1 ? 4. * kLin : 0., turn = defect == 2 ? 4. * kAng : 0.;
  world::LaneSpec l0{"l0", {{0., 0., 0.}}, 10.}, m{"m", {{0., 4., 0.}}, 10.}, l1{"l1", {{10., off, 0.}, turn}, 10.}, l2{"l2", {{20., 0., 0.}}, 10.};
  if (defect == 2) l2.pose.origin = math::Vector3(10. + 10. * std::cos(turn), 10. * std::sin(turn), 0.), l2.pose.yaw = 0.;
  road("0", {l0, m});
  road("1", {l1});
  road("2", {l2});
  if (defect == 5) rg->AddJunction(std::make_unique<LJunction>(api::JunctionId("jx")))->claim = rg.get();
  if (defect == 6) junctions[1]->AddSegment(std::make_unique<LSegment>(api::SegmentId("sx")))->claim = junctions[1];
  std::map<std::string, LBranchPoint*> bps;
  auto bp = [&](const std::string& n, const std::vector<world::EndRef>& a, const std::vector<world::EndRef>& b) {
    auto* x = rg->AddBranchPoint(std::make_unique<LBranchPoint>(api::BranchPointId(n)));
    x->claim = rg.get();
    for (const auto& e : a) x->AddABranch(lanes.at(e.lane), e.end);
    for (const auto& e : b) x->AddBBranch(lanes.at(e.lane), e.end);
    bps[n] = x;
  };
  bp("b0", {}, {{"l0", kStart}});
  bp("b1", {{"l0", kFinish}}, {{"l1", kStart}});
  if (defect == 3) {
    bp("b2", {}, {{"l2", kStart}});
  } else {
    bp("b2", {{"l1", kFinish}}, {{"l2", kStart}});
  }
  bp("b3", {{"l2", kFinish}}, {});
  if (defect != 4) bp("b4", {{"m", kStart}}, {});
  bp("b5", {}, {{"m", kFinish}});
  if (defect == 7) bp("bx", {}, {});
  if (defect == 8) lanes["m"]->claim_index = 0;
  if (defect == 9) lanes["m"]->claim = segments[1];
  if (defect == 10) segments[2]->claim = junctions[0];
  if (defect == 11) junctions[2]->claim = &other;
  if (defect == 12) bps["b3"]->claim = &other;
  rg->index.all.WalkAndAddAll(rg.get());
  if (defect == 13) rg->index.hidden = "m";
  if (defect == 14) rg->index.hidden = "s2";
  if (defect == 15) rg->index.hidden = "j2";
  if (defect == 16) rg->index.hidden = "b3";
  return rg;
}

const std::vector<Defect> kRules{
    {"none", 0},
    {"l0 has no direction usage", kCoverage},
    {"m has no direction usage", kCoverage},
    {"l2 has no direction usage", kCoverage},
    {"right of way rule with an unknown traffic light", kBulbGroups},
    {"right of way rule whose second bulb group is unknown", kBulbGroups},
    {"right of way rule with the group of another traffic light", kBulbGroups},
    {"discrete rule over disconnected lanes", kContiguity},
    {"discrete rule whose last lanes are disconnected", kContiguity},
    {"range rule with a gap", kContiguity},
    {"range rule in the wrong order", kContiguity},
    {"discrete value related to an unknown rule", kRelated},
    {"second id of the last discrete value is unknown", kRelated},
    {"range related to an unknown rule", kRelated},
    {"second group of the last range has an unknown rule", kRelated},
};

DiscreteValueRule::DiscreteValue DV(int severity, const std::string& v, const Rule::RelatedRules& r = {}) { return {severity, r, {}, v}; }

std::unique_ptr<ManualRulebook> MakeRulebook(int defect) {
  auto book = std::make_unique<ManualRulebook>();
  int n = 0;
  for (const char* lane : {"l0", "l1", "l2", "m"}) {
    if ((defect == 1 && std::string(lane) == "l0") || (defect == 2 && std::string(lane) == "m") || (defect == 3 && std::string(lane) == "l2")) continue;
    // Covers a part of the lane only.
    book->AddRule(DirectionUsageRule(DirectionUsageRule::Id("du" + std::to_string(n++)), LaneSRange(LaneId(lane), SRange(2., 3.)),
                                     {DirectionUsageRule::State(DirectionUsageRule::State::Id("s"), DirectionUsageRule::State::Type::kWithS, DirectionUsageRule::State::Severity::kStrict)}));
  }
  auto R = [](const char* l, double a, double b) { return LaneSRange(LaneId(l), SRange(a, b)); };
  RightOfWayRule::RelatedBulbGroups groups{{TrafficLight::Id("t1"), {BulbGroup::Id("g1"), BulbGroup::Id(defect == 5 ? "nope" : "g2")}}};
  if (defect == 4) groups[TrafficLight::Id("nope")] = {BulbGroup::Id("g1")};
  groups[TrafficLight::Id("t2")] = {BulbGroup::Id(defect == 6 ? "g1" : "h1")};
  book->AddRule(RightOfWayRule(RightOfWayRule::Id("row"), LaneSRoute({R("l0", 0., 10.)}), RightOfWayRule::ZoneType::kStopAllowed,
                               {RightOfWayRule::State(RightOfWayRule::State::Id("go"), RightOfWayRule::State::Type::kGo, {})}, groups));
  Rule::RelatedRules ok{{"a", {Rule::Id("T/r")}}, {"b", {Rule::Id("T/d"), Rule::Id("T/d2")}}};
  Rule::RelatedRules first = ok, last = ok, rfirst = ok, rlast = ok;
  if (defect == 11) first["a"][0] = Rule::Id("nope");
  if (defect == 12) last["b"][1] = Rule::Id("nope");
  if (defect == 13) rfirst["a"][0] = Rule::Id("nope");
  if (defect == 14) rlast["b"][0] = Rule::Id("nope");
  const LaneSRoute dzone = defect == 7 ? LaneSRoute({R("l0", 5., 10.), R("l2", 0., 5.)})
                           : defect == 8 ? LaneSRoute({R("l0", 5., 10.), R("l1", 0., 10.), R("l2", 5., 6.)})
                                         : LaneSRoute({R("l0", 5., 10.), R("l1", 0., 10.)});
  const LaneSRoute rzone = defect == 9 ? LaneSRoute({R("m", 0., 4.), R("m", 5., 10.)})
                           : defect == 10 ? LaneSRoute({R("m", 4., 10.), R("m", 0., 4.)})
                                          : LaneSRoute({R("m", 0., 4.), R("m", 4., 10.)});
  book->AddRule(DiscreteValueRule(Rule::Id("T/d"), Rule::TypeId("T"), dzone, {DV(0, "go", first), DV(0, "stop", last)}));
  book->AddRule(DiscreteValueRule(Rule::Id("T/d2"), Rule::TypeId("T"), LaneSRoute({R("m", 0., 1.)}), {DV(0, "go"), DV(0, "stop")}));
  book->AddRule(RangeValueRule(Rule::Id("T/r"), Rule::TypeId("T"), rzone, {RangeValueRule::Range(0, rfirst, {}, "x", 0., 1.), RangeValueRule::Range(0, rlast, {}, "y", 0., 1.)}));
  return book;
}

const std::vector<Defect> kPhases{
    {"none", 0},
    {"phase with an unknown rule", kPhaseRules},
    {"second phase with an unknown value", kPhaseRules},
    {"first phase with another severity", kPhaseRules},
    {"phases with an unknown traffic light", kPhaseBulbs},
    {"phases with an unknown bulb group", kPhaseBulbs},
    {"phases with an unknown bulb", kPhaseBulbs},
    {"second phase with a state that the bulb does not have", kPhaseBulbs},
    {"second ring with an unknown rule", kPhaseRules},
    {"second ring with an unknown bulb", kPhaseBulbs},
};

std::unique_ptr<ManualPhaseRingBook> MakeRings(int defect) {
  auto book = std::make_unique<ManualPhaseRingBook>();
  auto ub = [](const char* t, const char* g, const char* b) { return UniqueBulbId(TrafficLight::Id(t), BulbGroup::Id(g), Bulb::Id(b)); };
  std::vector<Phase> phases;
  for (int k = 0; k < 2; ++k) {
    DiscreteValueRuleStates ds{{Rule::Id("T/d2"), DV(defect == 3 && k == 0 ? 1 : 0, defect == 2 && k == 1 ? "wait" : k ? "go" : "stop")}};
    if (defect == 1) ds.emplace(Rule::Id("T/nope"), DV(0, "go"));
    BulbStates bs{{ub(defect == 4 ? "nope" : "t1", defect == 5 ? "h1" : "g1", defect == 6 ? "nope" : "b1"), defect == 7 && k == 1 ? BulbState::kBlinking : BulbState::kOn},
                  {ub("t2", "h1", "b1"), BulbState::kBlinking}};
    phases.emplace_back(Phase::Id("p" + std::to_string(k)), RuleStates{}, ds, bs);
  }
  book->AddPhaseRing(PhaseRing(PhaseRing::Id("ring"), phases));
  DiscreteValueRuleStates ds{{Rule::Id(defect == 8 ? "T/r" : "T/d"), DV(0, "nothing")}};
  if (defect != 8) ds.clear();
  std::optional<BulbStates> bs;
  if (defect == 9) bs = BulbStates{{ub("t1", "g2", "b9"), BulbState::kOn}};
  book->AddPhaseRing(PhaseRing(PhaseRing::Id("ring2"), {Phase(Phase::Id("p0"), RuleStates{}, ds, bs)}));
  return book;
}

std::unique_ptr<maliput::TrafficLightBook> MakeLights() {
  auto book = std::make_unique<maliput::TrafficLightBook>();
  auto group = [](const char* id, const std::vector<BulbState>& states) {
    std::vector<std::unique_ptr<Bulb>> bulbs;
    for (const char* b : {"b0", "b1"})
      bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(b), api::InertialPosition(0., 0., 0.), api::Rotation(), BulbColor::kRed, BulbType::kRound, std::nullopt, states));
    return std::make_unique<BulbGroup>(BulbGroup::Id(id), api::InertialPosition(0., 0., 0.), api::Rotation(), std::move(bulbs));
  };
  std::vector<std::unique_ptr<BulbGroup>> g1, g2;
  g1.push_back(group("g1", {BulbState::kOff, BulbState::kOn}));
  g1.push_back(group("g2", {BulbState::kOn}));
  g2.push_back(group("h1", {BulbState::kOff, BulbState::kOn, BulbState::kBlinking}));
  book->AddTrafficLight(std::make_unique<TrafficLight>(TrafficLight::Id("t1"), api::InertialPosition(0., 0., 0.), api::Rotation(), std::move(g1)));
  book->AddTrafficLight(std::make_unique<TrafficLight>(TrafficLight::Id("t2"), api::InertialPosition(0., 0., 0.), api::Rotation(), std::move(g2)));
  return book;
}

api::RoadNetworkValidatorOptions Options(unsigned mask) {
  api::RoadNetworkValidatorOptions o;
  o.check_direction_usage_rule_coverage = mask & kCoverage;
  o.check_road_geometry_invariants = mask & kInvariants;
  o.check_road_geometry_hierarchy = mask & kHierarchy;
  o.check_related_bulb_groups = mask & kBulbGroups;
  o.check_contiguity_rule_zones = mask & kContiguity;
  o.check_phase_discrete_value_rule_states = mask & kPhaseRules;
  o.check_phase_bulb_states = mask & kPhaseBulbs;
  o.check_related_rules = mask & kRelated;
  return o;
}

void Validation(mc::Ctx& c) {
  const int g = c.choose(kGeometry.size()), r = c.choose(kRules.size()), p = c.choose(kPhases.size());
  static const ManualRulebook none;
  auto rg = MakeGeometry(g);
  const auto* geometry = rg.get();
  auto ib = std::make_unique<maliput::IntersectionBook>(rg.get());
  const api::RoadNetwork rn(std::move(rg), MakeRulebook(r), MakeLights(), std::move(ib), MakeRings(p), std::make_unique<ManualPhaseProvider>(),
                            std::make_unique<api::rules::RuleRegistry>(), std::make_unique<ManualDiscreteValueRuleStateProvider>(&none),
                            std::make_unique<ManualRangeValueRuleStateProvider>(&none));
  const std::string hist = std::string("geometry: ") + kGeometry[g].name + "; rules: " + kRules[r].name + "; phases: " + kPhases[p].name;
  c.state(hist);
  c.trace([&] { return hist; });
  const unsigned seen = kGeometry[g].seen_by | kRules[r].seen_by | kPhases[p].seen_by;
  c.op();
  c.expect(geometry->CheckInvariants().empty() == !(kGeometry[g].seen_by & kInvariants), "invariants", [&] { return hist; });
  for (unsigned mask = 0; mask < 256; ++mask) {
    c.op();
    const bool bad = (mask & seen) != 0;
    if (bad) c.nontrivial();
    std::string what;
    const bool threw = mc::Try([&] { api::ValidateRoadNetwork(rn, Options(mask)); }, &what) != mc::Outcome::kOk;
    c.expect(threw == bad, "validate", [&] { return hist + " options " + std::to_string(mask) + (threw ? " rejected: " + what : " accepted"); });
  }
}

// ---- A road network holds what it was made of and nothing is optional.
void Network(mc::Ctx& c) {
  const int missing = c.choose(11) - 1;
  const bool legacy = c.flip();
  if (missing == 9 && !legacy) c.prune();
  static const ManualRulebook rules;
  auto rg = MakeGeometry(0);
  auto* rgp = rg.get();
  auto rb = std::make_unique<ManualRulebook>();
  auto* rbp = rb.get();
  auto tl = std::make_unique<maliput::TrafficLightBook>();
  auto* tlp = tl.get();
  auto ib = std::make_unique<maliput::IntersectionBook>(rgp);
  auto* ibp = ib.get();
  auto pb = std::make_unique<ManualPhaseRingBook>();
  auto* pbp = pb.get();
  auto pp = std::make_unique<ManualPhaseProvider>();
  auto* ppp = pp.get();
  auto rr = std::make_unique<api::rules::RuleRegistry>();
  auto* rrp = rr.get();
  auto dp = std::make_unique<ManualDiscreteValueRuleStateProvider>(&rules);
  auto* dpp = dp.get();
  auto vp = std::make_unique<ManualRangeValueRuleStateProvider>(&rules);
  auto* vpp = vp.get();
  auto wp = std::make_unique<ManualRightOfWayRuleStateProvider>();
  auto* wpp = wp.get();
  if (missing == 0) rg.reset();
  if (missing == 1) rb.reset();
  if (missing == 2) tl.reset();
  if (missing == 3) ib.reset();
  if (missing == 4) pb.reset();
  if (missing == 5) pp.reset();
  if (missing == 6) rr.reset();
  if (missing == 7) dp.reset();
  if (missing == 8) vp.reset();
  if (missing == 9) wp.reset();
  c.state(mc::H() << missing << legacy);
  c.op();
  std::unique_ptr<api::RoadNetwork> rn;
  const bool threw = mc::Throws([&] {
    rn = legacy ? std::make_unique<api::RoadNetwork>(std::move(rg), std::move(rb), std::move(tl), std::move(ib), std::move(pb), std::move(wp), std::move(pp), std::move(rr), std::move(dp), std::move(vp))
                : std::make_unique<api::RoadNetwork>(std::move(rg), std::move(rb), std::move(tl), std::move(ib), std::move(pb), std::move(pp), std::move(rr), std::move(dp), std::move(vp));
  });
  c.expect(threw == (missing >= 0), "network-complete", [&] { return "without part " + std::to_string(missing); });
  if (threw) return;
  c.nontrivial();
  c.op(12);
  c.expect(rn->road_geometry() == rgp && rn->rulebook() == rbp && rn->traffic_light_book() == tlp && rn->intersection_book() == ibp && rn->phase_ring_book() == pbp &&
               rn->phase_provider() == ppp && rn->rule_registry() == rrp && rn->discrete_value_rule_state_provider() == dpp && rn->range_value_rule_state_provider() == vpp &&
               rn->right_of_way_rule_state_provider() == (legacy ? wpp : nullptr),
           "network-parts", "another part");
  for (const char* l : {"l0", "l1", "l2", "m"}) {
    c.expect(rn->Contains(LaneId(l)), "contains-lane", l);
    // Positions: within tolerance of the lane's segment.
    const auto* lane = rgp->ById().GetLane(LaneId(l));
    for (const double s : {-2. * kLin, -0.5 * kLin, 0., 5., 10., 10. + 0.5 * kLin, 10. + 2 * kLin})
      for (const double r : {-2. - 2. * kLin, -2. - 0.5 * kLin, -1., 2., 2. + 0.5 * kLin, 2. + 2. * kLin})
        for (const double h : {-2. * kLin, -0.5 * kLin, 3., 5. + 0.5 * kLin, 5. + 2. * kLin}) {
          const bool in = s > -kLin && s < 10. + kLin && std::fabs(r) < 2. + kLin && h > -kLin && h < 5. + kLin;
          c.op(2);
          c.expect(lane->Contains({s, r, h}) == in && rn->Contains(api::RoadPosition(lane, {s, r, h})) == in, "contains-position",
                   [&] { return std::string(l) + " " + std::to_string(s) + "," + std::to_string(r) + "," + std::to_string(h); });
        }
  }
  c.expect(!rn->Contains(LaneId("s0")) && !rn->Contains(LaneId("zz")), "contains-lane", "unknown");
}

// ---- A lane end that is off among many, at a branch point of many.
void Fan(mc::Ctx& c) {
  const int most = mc::Thorough() ? 8 : 6;
  const int na = c.choose(most + 1), nb = c.choose(most + 1);
  if (na + nb < 2) c.prune();
  const int which = c.choose(na + nb);
  static const std::vector<double> kAmounts{0., -.25, .99, -1.01, 1.01, 3., -40.};
  const int what = c.choose(5);  // Of the end: x, y, z, yaw, or the other way round.
  const double factor = what == 4 ? 1. : c.pick(kAmounts);
  // The distance of two rotations is not their angle: amounts close to the tolerance say nothing.
  if (what == 3 && std::fabs(std::fabs(factor) - 1.) < .1) c.prune();
  const bool off = std::fabs(factor) > 1. || what == 4;
  world::World w(kLin, kAng, 1., {10., 20., 30.});
  std::vector<world::EndRef> a, b;
  for (int i = 0; i < na + nb; ++i) {
    const bool start = i % 3 == 1;
    const bool reversed = (i < na) == start;
    world::LaneSpec spec;
    spec.id = "<" + std::to_string(i) + ">";
    spec.length = 5. + i;
    spec.pose.yaw = (reversed ? M_PI : 0.) + (i == which ? what == 3 ? factor * kAng : what == 4 ? M_PI : 0. : 0.);
    const world::StraightLane probe(spec);
    spec.pose.origin = math::Vector3(3., -2., 1.) - (start ? 0. : spec.length) * probe.s_hat;
    if (i == which && what < 3) spec.pose.origin[what] += factor * kLin;
    w.Road(std::to_string(i), {spec});
    (i < na ? a : b).push_back({spec.id, start ? kStart : kFinish});
  }
  w.Branch("meet", a, b);
  w.CloseEnds();
  const std::string hist = std::to_string(na) + "+" + std::to_string(nb) + " ends, end " + std::to_string(which) + " is off in " + std::to_string(what) + " by " + std::to_string(factor);
  c.state(hist);
  c.trace([&] { return hist; });
  c.op();
  if (off) c.nontrivial();
  const auto failures = w.rg->CheckInvariants();
  c.expect(failures.empty() != off, "continuity", [&] { return hist + (failures.empty() ? ": not reported" : ": " + failures[0]); });
}

// ---- Up to two defects among many elements: each is reported.
void ManyElements(mc::Ctx& c) {
  static const std::vector<std::array<int, 3>> kShapes{{1, 1, 1}, {12, 1, 1}, {1, 12, 1}, {1, 1, 12}, {3, 2, 2}, {2, 3, 4}};
  const auto shape = c.pick(kShapes);
  const int lanes = shape[0] * shape[1] * shape[2];
  // By kind: the lane, segment, junction or branch point at fault. 8: none.
  static const std::vector<unsigned> kSeen{kInvariants, kInvariants | kHierarchy, kInvariants | kHierarchy, kInvariants | kHierarchy, kInvariants | kHierarchy, kInvariants, kInvariants | kHierarchy, kInvariants, 0,
                                           kHierarchy, kHierarchy, kHierarchy, kHierarchy, kHierarchy, kHierarchy};
  const int first = c.choose(15), second = first < 8 ? c.choose(9) : 8;
  if (first > second && first < 8) c.prune();
  if (lanes == 1 && (first == 5 || first == 7 || second == 5 || second == 7)) c.prune();  // Off what?
  const auto sites = [&](int kind) {
    return kind == 8 ? 1 : kind == 2 || kind == 12 ? shape[0] * shape[1] : kind == 3 || kind == 13 ? shape[0] : kind == 6 || kind == 4 || kind == 14 ? lanes + 1 : lanes;
  };
  static const std::vector<int> kFew{0, 1, 2, 5, 11};
  const int at = c.choose(sites(first));
  const int at2 = second == 8 ? 0 : mc::Thorough() ? c.choose(sites(second)) : c.pick(kFew);
  if (at2 >= sites(second)) c.prune();
  std::set<std::string> named;  // What is to be named.
  std::string hist = "shape " + std::to_string(shape[0]) + "," + std::to_string(shape[1]) + "," + std::to_string(shape[2]);
  static const LRoadGeometry other(api::RoadGeometryId("other"), kLin, kAng, 1., math::Vector3(5., 6., 7.));
  auto rg = std::make_unique<LRoadGeometry>(api::RoadGeometryId("rg"), kLin, kAng, 1., math::Vector3(5., 6., 7.));
  const std::vector<std::pair<int, int>> defects{{first, at}, {second, at2}};
  // A chain of lanes.
  std::vector<LLane*> chain;
  std::vector<LSegment*> segments;
  std::vector<LJunction*> junctions;
  const auto hit = [&](int kind, int i) { return std::find(defects.begin(), defects.end(), std::make_pair(kind, i)) != defects.end(); };
  for (int j = 0; j < shape[0]; ++j) {
    junctions.push_back(rg->AddJunction(std::make_unique<LJunction>(api::JunctionId("<j" + std::to_string(j) + ">"))));
    for (int s = 0; s < shape[1]; ++s) {
      segments.push_back(junctions.back()->AddSegment(std::make_unique<LSegment>(api::SegmentId("<s" + std::to_string(segments.size()) + ">"))));
      for (int l = 0; l < shape[2]; ++l) {
        const int i = chain.size();
        world::LaneSpec spec{"<l" + std::to_string(i) + ">", {{10. * i, hit(5, i) ? 2. * kLin : 0., 0.}}, 10.};
        if (hit(7, i)) {
          // It turns about its middle, by less than what moves its ends too far.
          spec.pose.yaw = 2. * kAng;
          spec.pose.origin += math::Vector3(5. - 5. * std::cos(spec.pose.yaw), -5. * std::sin(spec.pose.yaw), 0.);
        }
        auto lane = std::make_unique<LLane>(spec);
        lane->claim_index = l;
        chain.push_back(segments.back()->AddLane(std::move(lane)));
        chain.back()->claim = segments.back();
      }
      segments.back()->claim = junctions.back();
    }
    junctions.back()->claim = rg.get();
  }
  std::vector<LBranchPoint*> bps;
  for (int b = 0; b <= lanes; ++b) {
    if (hit(6, b)) {
      auto* none = rg->AddBranchPoint(std::make_unique<LBranchPoint>(api::BranchPointId("<none" + std::to_string(b) + ">")));
      none->claim = rg.get();
    }
    bps.push_back(rg->AddBranchPoint(std::make_unique<LBranchPoint>(api::BranchPointId("<b" + std::to_string(b) + ">"))));
    bps.back()->claim = rg.get();
    if (b > 0 && !hit(9, b - 1)) bps.back()->AddABranch(chain[b - 1], kFinish);
    if (b < lanes && !hit(10, b)) bps.back()->AddBBranch(chain[b], kStart);
  }
  for (const auto& d : defects) {
    const int i = d.second;
    if (d.first == 0) {  // A lane says that it has another index.
      chain[i]->claim_index = i % shape[2] + (i % 2 ? 1 : -1);
      named.insert(chain[i]->id().string());
    } else if (d.first == 1) {  // A lane says that it is in another segment.
      if (segments.size() == 1) c.prune();
      chain[i]->claim = segments[(i / shape[2] + 1) % segments.size()];
      named.insert(chain[i]->id().string());
    } else if (d.first == 2) {
      if (junctions.size() == 1) c.prune();
      segments[i]->claim = junctions[(i / shape[1] + 1) % junctions.size()];
      named.insert(segments[i]->id().string());
    } else if (d.first == 3) {
      junctions[i]->claim = &other;
      named.insert(junctions[i]->id().string());
    } else if (d.first == 4) {
      bps[i]->claim = &other;
      named.insert(bps[i]->id().string());
    } else if (d.first == 5 || d.first == 7) {
      if (hit(12 - d.first, i) || hit(d.first, i - 1) || hit(d.first, i + 1)) c.prune();  // Both at once.
      named.insert(chain[i]->id().string());
    } else if (d.first == 6) {
      named.insert("<none" + std::to_string(i) + ">");
    } else if ((d.first == 9 && i == lanes - 1) || (d.first == 10 && i == 0)) {
      named.insert(bps[d.first == 9 ? lanes : 0]->id().string());  // It is empty.
    } else if (d.first == 11) {
      rg->index.hidden = chain[i]->id().string();
    } else if (d.first == 12) {
      rg->index.hidden = segments[i]->id().string();
    } else if (d.first == 13) {
      rg->index.hidden = junctions[i]->id().string();
    } else if (d.first == 14) {
      rg->index.hidden = bps[i]->id().string();
    }
    if (d.first != 8) hist += "; defect " + std::to_string(d.first) + " at " + std::to_string(i);
  }
  rg->index.all.WalkAndAddAll(rg.get());
  c.state(hist);
  c.trace([&] { return hist; });
  c.op();
  if (!named.empty()) c.nontrivial();
  const auto failures = rg->CheckInvariants();
  c.expect(failures.empty() == named.empty(), "invariants", [&] { return hist + (failures.empty() ? ": not reported" : ": " + failures[0]); });
  for (const auto& n : named) {
    c.expect(std::any_of(failures.begin(), failures.end(), [&](const std::string& f) { return f.find(n) != std::string::npos; }), "invariants", [&] { return hist + ": nothing about " + n; });
  }
  // The validator.
  const unsigned seen = (named.empty() ? 0 : kInvariants) | ((kSeen[first] | kSeen[second]) & kHierarchy);
  auto ib = std::make_unique<maliput::IntersectionBook>(rg.get());
  static const ManualRulebook none;
  const api::RoadNetwork rn(std::move(rg), std::make_unique<ManualRulebook>(), std::make_unique<maliput::TrafficLightBook>(), std::move(ib), std::make_unique<ManualPhaseRingBook>(), std::make_unique<ManualPhaseProvider>(),
                            std::make_unique<api::rules::RuleRegistry>(), std::make_unique<ManualDiscreteValueRuleStateProvider>(&none), std::make_unique<ManualRangeValueRuleStateProvider>(&none));
  for (const unsigned mask : {0u, static_cast<unsigned>(kInvariants), static_cast<unsigned>(kHierarchy)}) {
    c.op();
    std::string what;
    const bool threw = mc::Try([&] { api::ValidateRoadNetwork(rn, Options(mask)); }, &what) != mc::Outcome::kOk;
    c.expect(threw == ((mask & seen) != 0), "validate", [&] { return hist + " options " + std::to_string(mask) + (threw ? " rejected: " + what : " accepted"); });
  }
}

// ---- A defect among many rules, states, related ids, phases or bulbs, at any place.
void ManyParts(mc::Ctx& c) {
  constexpr int kN = 4;
  enum { kNone, kUsage, kDiscreteZone, kRangeZone, kPhaseRule, kPhaseValue, kPhaseBulb, kPhaseState, kDiscreteRelated, kRangeRelated, kLight, kGroup, kCount };
  static const std::vector<unsigned> kSeen{0, kCoverage, kContiguity, kContiguity, kPhaseRules, kPhaseRules, kPhaseBulbs, kPhaseBulbs, kRelated, kRelated, kBulbGroups, kBulbGroups};
  const int kind = c.choose(kCount);
  const int depth = kind == kNone ? 0 : kind == kUsage ? 1 : kind == kDiscreteZone || kind == kRangeZone || kind == kLight ? 2 : kind == kDiscreteRelated || kind == kRangeRelated ? 4 : 3;
  std::array<int, 4> at{-1, -1, -1, -1};
  for (int i = 0; i < depth; ++i) at[i] = c.choose(kN);
  const auto hit = [&](int k, int a, int b = -1, int d = -1, int e = -1) { return kind == k && at == std::array<int, 4>{a, b, d, e}; };
  std::string hist = "kind " + std::to_string(kind) + " at";
  for (int i = 0; i < depth; ++i) hist += " " + std::to_string(at[i]);
  c.state(hist);
  c.trace([&] { return hist; });
  auto N = [](const std::string& what, int i) { return what + std::to_string(i); };
  world::World w(kLin, kAng, 1., {10., 20., 30.});
  const int kLanes = kN + 1;
  for (int i = 0; i < kLanes; ++i) w.Road(std::to_string(i), {world::LaneSpec{N("l", i), {{10. * i, 0., 0.}}, 10.}});
  w.AutoBranch();
  auto book = std::make_unique<ManualRulebook>();
  for (int i = 0; i < kLanes; ++i) {
    if (hit(kUsage, i)) continue;
    book->AddRule(DirectionUsageRule(DirectionUsageRule::Id(N("du", i)), LaneSRange(LaneId(N("l", i)), SRange(2., 3.)),
                                     {DirectionUsageRule::State(DirectionUsageRule::State::Id("s"), DirectionUsageRule::State::Type::kWithS, DirectionUsageRule::State::Severity::kStrict)}));
  }
  const auto zone = [&](int k, int rule) {
    std::vector<LaneSRange> r;
    for (int i = 0; i < kLanes; ++i) r.emplace_back(LaneId(N("l", i)), SRange(0., i < kN && hit(k, rule, i) ? 9. : 10.));
    return LaneSRoute(r);
  };
  const auto related = [&](int k, int rule, int value) {
    Rule::RelatedRules r;
    for (int g = 0; g < kN; ++g) {
      for (int i = 0; i < kN; ++i) r[N("group", g)].push_back(hit(k, rule, value, g, i) ? Rule::Id("nope") : Rule::Id((i % 2 ? "T/r" : "T/d") + std::to_string((rule + value + g + i) % kN)));
      // No id twice.
      std::set<Rule::Id> once(r[N("group", g)].begin(), r[N("group", g)].end());
      r[N("group", g)].assign(once.begin(), once.end());
    }
    return r;
  };
  for (int rule = 0; rule < kN; ++rule) {
    std::vector<DiscreteValueRule::DiscreteValue> values;
    std::vector<RangeValueRule::Range> ranges;
    for (int v = 0; v < kN; ++v) {
      values.push_back(DV(0, N("v", v), related(kDiscreteRelated, rule, v)));
      ranges.push_back(RangeValueRule::Range(0, related(kRangeRelated, rule, v), {}, N("x", v), v, v + 1.));
    }
    book->AddRule(DiscreteValueRule(Rule::Id(N("T/d", rule)), Rule::TypeId("T"), zone(kDiscreteZone, rule), values));
    book->AddRule(RangeValueRule(Rule::Id(N("T/r", rule)), Rule::TypeId("T"), zone(kRangeZone, rule), ranges));
    RightOfWayRule::RelatedBulbGroups groups;
    for (int t = 0; t < kN; ++t) {
      const TrafficLight::Id light(hit(kLight, rule, t) ? "nope" : N("t", t));
      for (int g = 0; g < kN; ++g) groups[light].push_back(BulbGroup::Id(hit(kGroup, rule, t, g) ? "nope" : N("g", g)));
    }
    book->AddRule(RightOfWayRule(RightOfWayRule::Id(N("row", rule)), LaneSRoute({LaneSRange(LaneId("l0"), SRange(0., 10.))}), RightOfWayRule::ZoneType::kStopAllowed,
                                 {RightOfWayRule::State(RightOfWayRule::State::Id("go"), RightOfWayRule::State::Type::kGo, {})}, groups));
  }
  for (int i = 0; i < kN * kN; ++i) {
    book->AddRule(DiscreteValueRule(Rule::Id(N("T/p", i)), Rule::TypeId("T"), LaneSRoute({LaneSRange(LaneId("l0"), SRange(0., 10.))}), {DV(0, "v0"), DV(0, "v1"), DV(0, "v2"), DV(0, "v3")}));
  }
  auto lights = std::make_unique<maliput::TrafficLightBook>();
  for (int t = 0; t < kN; ++t) {
    std::vector<std::unique_ptr<BulbGroup>> groups;
    for (int g = 0; g < kN; ++g) {
      std::vector<std::unique_ptr<Bulb>> bulbs;
      for (int b = 0; b < kN; ++b)
        bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(N("b", b)), api::InertialPosition(0., 0., 0.), api::Rotation(), BulbColor::kRed, BulbType::kRound, std::nullopt, std::vector<BulbState>{BulbState::kOff, BulbState::kOn}));
      groups.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(N("g", g)), api::InertialPosition(0., 0., 0.), api::Rotation(), std::move(bulbs)));
    }
    lights->AddTrafficLight(std::make_unique<TrafficLight>(TrafficLight::Id(N("t", t)), api::InertialPosition(0., 0., 0.), api::Rotation(), std::move(groups)));
  }
  auto rings = std::make_unique<ManualPhaseRingBook>();
  for (int r = 0; r < kN; ++r) {
    std::vector<Phase> phases;
    for (int p = 0; p < kN; ++p) {
      DiscreteValueRuleStates ds;
      BulbStates bs;
      for (int i = 0; i < kN; ++i) {
        ds.emplace(Rule::Id(N("T/p", kN * r + i)), DV(0, N("v", (p + i) % kN)));
        // The phases of a ring are about the same bulbs.
        const bool unknown = kind == kPhaseBulb && at[0] == r && at[2] == i;
        bs.emplace(UniqueBulbId(TrafficLight::Id(N("t", i)), BulbGroup::Id(N("g", (r + i) % kN)), Bulb::Id(unknown ? "nope" : N("b", r))), hit(kPhaseState, r, p, i) ? BulbState::kBlinking : (p + i) % 2 ? BulbState::kOn : BulbState::kOff);
      }
      if (kind == kPhaseValue && at[0] == r && at[1] == p) ds.at(Rule::Id(N("T/p", kN * r + at[2]))) = DV(0, "nope");
      if (kind == kPhaseRule && at[0] == r) {
        ds.erase(Rule::Id(N("T/p", kN * r + at[2])));
        ds.emplace(Rule::Id(N("T/e", at[2])), DV(0, "v0"));
      }
      phases.emplace_back(Phase::Id(N("p", p)), RuleStates{}, ds, r == 2 && kind != kPhaseBulb && kind != kPhaseState ? std::nullopt : std::optional<BulbStates>(bs));
    }
    rings->AddPhaseRing(PhaseRing(PhaseRing::Id(N("ring", r)), phases));
  }
  static const ManualRulebook none;
  auto ib = std::make_unique<maliput::IntersectionBook>(w.rg.get());
  const api::RoadNetwork rn(std::move(w.rg), std::move(book), std::move(lights), std::move(ib), std::move(rings), std::make_unique<ManualPhaseProvider>(), std::make_unique<api::rules::RuleRegistry>(),
                            std::make_unique<ManualDiscreteValueRuleStateProvider>(&none), std::make_unique<ManualRangeValueRuleStateProvider>(&none));
  const unsigned seen = kSeen[kind];
  if (seen) c.nontrivial();
  for (const unsigned mask : {255u, seen, 255u & ~seen}) {
    c.op();
    std::string what;
    const bool threw = mc::Try([&] { api::ValidateRoadNetwork(rn, Options(mask)); }, &what) != mc::Outcome::kOk;
    c.expect(threw == ((mask & seen) != 0), "validate", [&] { return hist + " options " + std::to_string(mask) + (threw ? " rejected: " + what : " accepted"); });
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"continuity", "all branch points of up to 2+2 lane ends, one of them off by a quarter or three tolerances in x, y, z, yaw, pitch or roll", Continuity},
                               {"fan", "branch points of up to 6+6 lane ends (thorough: 8+8), any of them off by less or by more than the tolerance, or the other way round", Fan},
                               {"many", "chains of 1, 12 or 24 lanes in 1 to 12 junctions and segments, with up to two defects of 14 kinds at any place", ManyElements},
                               {"many-parts", "networks of 4 rules of each kind, of 4 states, of 4 groups, and of 4 rings of 4 phases, with a defect at any place", ManyParts},
                               {"validation", "all combinations of 17 geometry, 15 rule and 10 phase defects (or none) x all 256 sets of validator options", Validation},
                               {"network", "road networks without one part; contained lanes and positions over a grid around each bound", Network}});
}
