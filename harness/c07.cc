// Intersections and the intersection book: histories of additions and phase changes, then every lookup.
#include <map>
#include <memory>
#include <set>

#include "maliput/base/intersection.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_phase_provider.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using namespace maliput::api::rules;
using api::LaneId;
using api::LaneSRange;
using api::SRange;

namespace {

constexpr double kTol = 1. / 16.;

const world::World& TheWorld() {
  static const auto w = [] {
    auto x = std::make_unique<world::World>(kTol, 1. / 32., 1., math::Vector3(100., -50., 8.));
    x->Road("0", {{"l", {{0., 0., 0.}, 0.}, 10.}, {"m", {{0., 4., 0.}, 0.}, 10.}});
    x->Road("1", {{"n", {{10., 0., 0.}, 0.}, 10.}});
    x->Road("2", {{"x", {{4., -5., 0.}, M_PI / 2.}, 10.}});  // Crosses l.
    x->AutoBranch();
    x->CloseEnds();
    return x;
  }();
  return *w;
}

// Ring r: phase -> {discrete rule -> value}, {right of way rule -> state}, {traffic light/group/bulb -> state}.
struct RefPhase {
  std::map<std::string, std::string> discrete, row;
  std::optional<std::map<std::string, int>> bulbs;  // "t/g/b"
};
using RefRing = std::map<std::string, RefPhase>;
const std::map<std::string, RefRing>& Rings() {
  static const std::map<std::string, RefRing> r{
      {"R1",
       {{"p", {{{"d1", "Go"}, {"d2", "Stop"}}, {{"w1", "Go"}}, {{{"t1/g/b", 0}, {"t1/g/c", 1}}}}},
        {"q", {{{"d1", "Stop"}, {"d2", "Go"}}, {{"w1", "Stop"}}, {{{"t1/g/b", 1}, {"t1/g/c", 2}}}}}}},
      {"R2", {{"p", {{{"d3", "Go"}}, {{"w3", "Go"}}, {}}}, {"s", {{{"d3", "Stop"}}, {{"w3", "Stop"}}, {}}}}},
      {"R3", {{"p", {{}, {}, {{{"t3/g/b", 0}, {"t4/h/b", 0}}}}}, {"q", {{}, {}, {{{"t3/g/b", 2}, {"t4/h/b", 1}}}}}}},
  };
  return r;
}
UniqueBulbId MakeBulb(const std::string& s) {
  const auto a = s.find('/'), b = s.rfind('/');
  return {TrafficLight::Id(s.substr(0, a)), BulbGroup::Id(s.substr(a + 1, b - a - 1)), Bulb::Id(s.substr(b + 1))};
}
Rule::Id RId(const std::string& s) { return Rule::Id(s); }
DiscreteValueRule::DiscreteValue DV(const std::string& s) { return {0, {}, {}, s}; }
std::map<std::string, PhaseRing> MakeRings() {
  std::map<std::string, PhaseRing> out;
  for (const auto& kv : Rings()) {
    std::vector<Phase> phases;
    for (const auto& ph : kv.second) {
      RuleStates rs;
      DiscreteValueRuleStates ds;
      std::optional<BulbStates> bs;
      for (const auto& x : ph.second.row) rs.emplace(RightOfWayRule::Id(x.first), RightOfWayRule::State::Id(x.second));
      for (const auto& x : ph.second.discrete) ds.emplace(RId(x.first), DV(x.second));
      if (ph.second.bulbs) {
        bs = BulbStates();
        for (const auto& x : *ph.second.bulbs) bs->emplace(MakeBulb(x.first), static_cast<BulbState>(x.second));
      }
      phases.emplace_back(Phase::Id(ph.first), rs, ds, bs);
    }
    out.emplace(kv.first, PhaseRing(PhaseRing::Id(kv.first), phases));
  }
  return out;
}

struct Def {
  std::string id, ring;
  std::vector<LaneSRange> region;
};
const std::vector<Def>& Defs() {
  static const std::vector<Def> d{
      {"A", "R1", {{LaneId("l"), SRange(0., 4.)}, {LaneId("m"), SRange(9., 5.)}, {LaneId("l"), SRange(8., 9.)}}},
      {"B", "R2", {{LaneId("n"), SRange(0., 10.)}}},
      {"A", "R3", {{LaneId("x"), SRange(1., 2.)}}},  // Duplicate id.
      {"C", "R3", {{LaneId("x"), SRange(3., 8.)}, {LaneId("l"), SRange(3., 6.)}}},
      {"D", "R1", {{LaneId("m"), SRange(2., 3.)}}},  // Shares a ring with A.
  };
  return d;
}

struct Live {
  const Def* def;
  api::Intersection* ptr;
};

bool RefRange(const LaneSRange& a, const LaneSRange& b, double tol) {
  if (a.lane_id() != b.lane_id()) return false;
  auto lo = [](const SRange& s) { return std::min(s.s0(), s.s1()); };
  auto hi = [](const SRange& s) { return std::max(s.s0(), s.s1()); };
  const double gap = std::max(lo(a.s_range()) - hi(b.s_range()), lo(b.s_range()) - hi(a.s_range()));
  return gap <= tol;
}

void CheckAll(mc::Ctx& c, IntersectionBook* book, const std::map<std::string, Live>& live,
              const std::map<std::string, std::optional<std::string>>& phase, const std::string& hist, bool geometry) {
  auto ctx = [&] { return hist; };
  auto names = [&](const std::vector<api::Intersection*>& v) {
    std::multiset<std::string> s;
    for (auto* i : v) {
      const auto it = i ? live.find(i->id().string()) : live.end();
      s.insert(it != live.end() && it->second.ptr == i ? it->first : "?");
    }
    return s;
  };
  auto one = [&](api::Intersection* i) {
    if (!i) return std::string();
    const auto it = live.find(i->id().string());
    return it != live.end() && it->second.ptr == i ? it->first : std::string("?");
  };
  std::multiset<std::string> all;
  for (const auto& kv : live) all.insert(kv.first);
  c.op(2);
  c.expect(names(book->GetIntersections()) == all, "all-intersections", ctx);
  for (const char* id : {"A", "B", "C", "D", "Z"}) {
    c.op();
    c.expect(one(book->GetIntersection(api::Intersection::Id(id))) == (live.count(id) ? id : ""), "get-intersection", ctx);
  }
  if (!live.empty()) c.nontrivial();
  // What each intersection reports follows the current phase of its ring.
  std::map<std::string, std::set<std::string>> d_in, w_in, t_in;
  for (const auto& kv : live) {
    const auto* i = kv.second.ptr;
    const Def& def = *kv.second.def;
    const auto& ph = phase.at(def.ring);
    c.op(8);
    c.expect(i->ring_id() == PhaseRing::Id(def.ring) && i->id().string() == def.id, "intersection-ids", ctx);
    bool same = i->region().size() == def.region.size();
    for (size_t k = 0; same && k < def.region.size(); ++k)
      same = i->region()[k].lane_id() == def.region[k].lane_id() && i->region()[k].s_range().s0() == def.region[k].s_range().s0() &&
             i->region()[k].s_range().s1() == def.region[k].s_range().s1();
    c.expect(same, "intersection-region", ctx);
    const auto got = i->Phase();
    c.expect(got.has_value() == ph.has_value() && (!ph || got->state.string() == *ph), "intersection-phase", ctx);
    const auto bs = i->bulb_states();
    const auto ds = i->DiscreteValueRuleStates();
    const auto rs = i->RuleStates();
    const RefPhase* rp = ph ? &Rings().at(def.ring).at(*ph) : nullptr;
    c.expect(bs.has_value() == (rp && rp->bulbs), "bulb-states", ctx);
    c.expect(ds.has_value() == (rp != nullptr) && rs.has_value() == (rp != nullptr), "rule-states", ctx);
    if (rp) {
      if (rp->bulbs) {
        std::map<std::string, int> g;
        for (const auto& x : *bs) g[x.first.traffic_light_id().string() + "/" + x.first.bulb_group_id().string() + "/" + x.first.bulb_id().string()] = static_cast<int>(x.second);
        c.expect(g == *rp->bulbs, "bulb-states", ctx);
        for (const auto& x : *rp->bulbs) t_in[x.first.substr(0, 2)].insert(kv.first);
      }
      std::map<std::string, std::string> g;
      for (const auto& x : *ds) g[x.first.string()] = x.second.value;
      c.expect(g == rp->discrete, "discrete-states", ctx);
      g.clear();
      for (const auto& x : *rs) g[x.first.string()] = x.second.string();
      c.expect(g == rp->row, "right-of-way-states", ctx);
      for (const auto& x : rp->discrete) d_in[x.first].insert(kv.first);
      for (const auto& x : rp->row) w_in[x.first].insert(kv.first);
    }
  }
  auto lookup = [&](const char* key, const std::string& id, const std::set<std::string>& in, auto typed) {
    c.op(1 + live.size());
    const std::string got = one(book->FindIntersection(typed));
    if (!in.empty()) c.nontrivial();
    c.expect(in.empty() ? got.empty() : in.count(got) == 1, key, [&] { return hist + " lookup of " + id + " found '" + got + "'"; });
    for (const auto& kv : live) c.expect(kv.second.ptr->Includes(typed) == (in.count(kv.first) == 1), key, [&] { return hist + " " + kv.first + " includes " + id; });
  };
  for (const char* id : {"t1", "t3", "t4", "g", "zz"}) lookup("find-by-traffic-light", id, t_in[id], TrafficLight::Id(id));
  for (const char* id : {"d1", "d2", "d3", "w1", "zz"}) lookup("find-by-rule", id, d_in[id], DiscreteValueRule::Id(id));
  for (const char* id : {"w1", "w3", "d1", "zz"}) lookup("find-by-right-of-way", id, w_in[id], RightOfWayRule::Id(id));
  if (!geometry) return;
  // By region and by position.
  static const std::vector<LaneSRange> probes{{LaneId("l"), SRange(4.5, 5.)}, {LaneId("l"), SRange(6.5, 7.)}, {LaneId("l"), SRange(10., 8.5)},
                                              {LaneId("m"), SRange(3.25, 4.)}, {LaneId("m"), SRange(5., 0.)}, {LaneId("n"), SRange(10., 10.)},
                                              {LaneId("x"), SRange(2., 3.)}, {LaneId("nope"), SRange(0., 10.)}};
  for (size_t a = 0; a < probes.size(); ++a)
    for (int b = -2; b < static_cast<int>(probes.size()); ++b) {
      std::vector<LaneSRange> region;
      if (b != -2) region.push_back(probes[a]);
      if (b >= 0) region.push_back(probes[b]);
      if (b == -2 && a > 0) continue;
      for (const double tol : {0., 0.25, 1.}) {
        std::multiset<std::string> want;
        for (const auto& kv : live) {
          bool in = false;
          for (const auto& x : kv.second.def->region)
            for (const auto& y : region) in = in || RefRange(x, y, tol);
          if (in) want.insert(kv.first);
        }
        c.op();
        c.expect(names(book->FindIntersections(region, tol)) == want, "find-by-region", [&] { return hist + " region " + std::to_string(a) + "," + std::to_string(b) + " tolerance " + std::to_string(tol); });
      }
    }
  const auto& w = TheWorld();
  for (const double x : {-0.03125, 2., 3.5, 4., 5.5, 7., 9.0625, 9.5, 10.5, 19.})
    for (const double y : {-4.5, -3.5, 0., 1., 2.5, 4.})
      for (const double z : {0., 5.03125, 7.}) {
        const auto p = api::InertialPosition(x + 100., y - 50., z + 8.);
        std::set<std::string> in;
        for (const auto& kv : live) {
          bool is = false;
          for (const auto& r : kv.second.def->region) {
            const auto* lane = w[r.lane_id().string()];
            const auto lp = lane->ToLanePosition(p);
            const double lo = std::min(r.s_range().s0(), r.s_range().s1()), hi = std::max(r.s_range().s0(), r.s_range().s1());
            is = is || (lp.distance <= kTol && lp.lane_position.s() >= lo - kTol && lp.lane_position.s() <= hi + kTol);
          }
          if (is) in.insert(kv.first);
          c.op();
          c.expect(kv.second.ptr->Includes(p, w.rg.get()) == is, "includes-position", [&] { return hist + " " + kv.first + " at " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z); });
        }
        c.op();
        const auto got = one(book->FindIntersection(p));
        c.expect(in.empty() ? got.empty() : in.count(got) == 1, "find-by-position", [&] { return hist + " at " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + " found '" + got + "'"; });
      }
}

void Histories(mc::Ctx& c) {
  static const auto rings = MakeRings();
  ManualPhaseProvider provider;
  IntersectionBook book(TheWorld().rg.get());
  std::map<std::string, Live> live;
  std::map<std::string, std::optional<std::string>> phase{{"R1", {}}, {"R2", {}}, {"R3", {}}};
  std::string hist;
  const int n = c.choose(mc::Thorough() ? 7 : 6);
  for (int k = 0; k < n; ++k) {
    const int op = c.choose(12);
    c.op();
    if (op < 5) {
      const Def& d = Defs()[op];
      hist += "add " + d.id + "(" + d.ring + "); ";
      auto i = std::make_unique<Intersection>(api::Intersection::Id(d.id), d.region, rings.at(d.ring), &provider);
      auto* raw = i.get();
      const bool ok = !live.count(d.id);
      const bool threw = mc::Throws([&] { book.AddIntersection(std::move(i)); });
      c.expect(threw == !ok, "add-intersection", [&] { return hist + (threw ? "rejected" : "accepted"); });
      if (ok) live[d.id] = {&d, raw};
    } else if (op == 5) {
      hist += "add null; ";
      c.expect(mc::Throws([&] { book.AddIntersection(nullptr); }), "add-null", [&] { return hist; });
    } else if (op < 9) {
      const std::string r = op == 6 ? "R1" : op == 7 ? "R2" : "R3";
      hist += "start " + r + "; ";
      const bool ok = !phase[r];
      const bool threw = mc::Throws([&] { provider.AddPhaseRing(PhaseRing::Id(r), Phase::Id("p")); });
      c.expect(threw == !ok, "start-ring", [&] { return hist; });
      if (ok) phase[r] = "p";
    } else {
      // Phase change through an intersection.
      if (live.empty()) c.prune();
      const std::string id = op == 9 ? "A" : op == 10 ? "B" : "C";
      if (!live.count(id)) c.prune();
      const Live& l = live.at(id);
      const int how = c.choose(3);
      const std::string to = how == 0 ? std::string("p") : l.def->ring == "R2" ? "s" : "q";
      hist += id + " to " + to + (how == 2 ? " (rejected)" : "") + "; ";
      std::optional<Phase::Id> next;
      std::optional<double> dur;
      if (how == 0) next = Phase::Id("p"), dur = 3.;
      if (how == 2) dur = 3.;
      const bool ok = phase[l.def->ring].has_value() && how != 2;
      const bool threw = mc::Throws([&] { l.ptr->SetPhase(Phase::Id(to), next, dur); });
      c.expect(threw == !ok, "set-phase", [&] { return hist; });
      if (ok) {
        phase[l.def->ring] = to;
        const auto got = l.ptr->Phase();
        c.expect(got && got->next.has_value() == next.has_value() && (!next || (got->next->state == *next && got->next->duration_until == dur)), "set-phase-next", [&] { return hist; });
      }
    }
    std::string st;
    for (const auto& kv : live) st += kv.first + kv.second.def->ring;
    for (const auto& kv : phase) st += kv.second.value_or("-");
    c.state(st);
  }
  CheckAll(c, &book, live, phase, hist, false);
}

void Geometry(mc::Ctx& c) {
  static const auto rings = MakeRings();
  ManualPhaseProvider provider;
  IntersectionBook book(TheWorld().rg.get());
  std::map<std::string, Live> live;
  std::map<std::string, std::optional<std::string>> phase{{"R1", {}}, {"R2", {}}, {"R3", {}}};
  std::string hist;
  std::set<size_t> used;
  const int n = c.choose(5);
  for (int k = 0; k < n; ++k) {
    const size_t d = c.choose(5);
    if (!used.insert(d).second || live.count(Defs()[d].id)) c.prune();
    auto i = std::make_unique<Intersection>(api::Intersection::Id(Defs()[d].id), Defs()[d].region, rings.at(Defs()[d].ring), &provider);
    hist += "add " + Defs()[d].id + "(" + Defs()[d].ring + "); ";
    live[Defs()[d].id] = {&Defs()[d], i.get()};
    book.AddIntersection(std::move(i));
  }
  c.state(hist);
  CheckAll(c, &book, live, phase, hist, true);
}

void Construction(mc::Ctx& c) {
  static const auto rings = MakeRings();
  ManualPhaseProvider provider;
  c.op(3);
  c.state(1);
  c.nontrivial();
  c.expect(mc::Throws([&] { Intersection(api::Intersection::Id("A"), Defs()[0].region, rings.at("R1"), nullptr); }), "null-provider");
  c.expect(mc::Throws([&] { IntersectionBook(nullptr); }), "null-road-geometry");
  const Intersection i(api::Intersection::Id("A"), Defs()[0].region, rings.at("R1"), &provider);
  c.expect(mc::Throws([&] { i.Includes(api::InertialPosition(0., 0., 0.), nullptr); }), "includes-null");
}

// Books of several intersections whose rings control any number of rules of each kind and lights.
void Shapes(mc::Ctx& c) {
  const int max = mc::Thorough() ? 4 : 3;
  const int n = 1 + c.choose(mc::Thorough() ? 6 : 4);
  const int nd = c.choose(max + 1), nw = c.choose(max + 1), nt = c.choose(max + 2) - 1;
  const int at = c.choose(n);    // The intersection with that ring; the others have one of each.
  const int np = 1 + c.choose(2), current = c.choose(np + 1) - 1;  // Phase of that ring; the others are in their first one.
  const int idle = c.choose(2);  // Whether the other rings have no phase.
  const std::string str = std::to_string(n) + " intersections, the " + std::to_string(at) + "-th with " + std::to_string(nd) + " rules, " + std::to_string(nw) + " right-of-way rules and " +
                          std::to_string(nt) + " lights in phase " + std::to_string(current) + " of " + std::to_string(np) + (idle ? ", the others idle" : "");
  auto ctx = [&] { return str; };
  c.state(str);
  c.trace(ctx);
  auto name = [](const char* what, int ring, int i) { return what + std::to_string(ring) + "." + std::to_string(i); };
  ManualPhaseProvider provider;
  IntersectionBook book(TheWorld().rg.get());
  std::vector<api::Intersection*> is;
  for (int k = 0; k < n; ++k) {
    const int d = k == at ? nd : 1, w = k == at ? nw : 1, t = k == at ? nt : 1;
    std::vector<Phase> phases;
    for (int p = 0; p < np; ++p) {
      RuleStates rs;
      DiscreteValueRuleStates ds;
      std::optional<BulbStates> bs;
      for (int i = 0; i < w; ++i) rs.emplace(RightOfWayRule::Id(name("w", k, i)), RightOfWayRule::State::Id("s" + std::to_string(p)));
      for (int i = 0; i < d; ++i) ds.emplace(RId(name("d", k, i)), DV("v" + std::to_string(p)));
      if (t >= 0) bs = BulbStates();
      for (int i = 0; i < t; ++i) bs->emplace(MakeBulb(name("t", k, i) + "/g/b"), p ? BulbState::kOn : BulbState::kOff);
      phases.emplace_back(Phase::Id("p" + std::to_string(p)), rs, ds, bs);
    }
    const PhaseRing ring(PhaseRing::Id("R" + std::to_string(k)), phases);
    auto i = std::make_unique<Intersection>(api::Intersection::Id("i" + std::to_string(k)), std::vector<LaneSRange>{{LaneId("l"), SRange(k, k + .5)}}, ring, &provider);
    is.push_back(i.get());
    book.AddIntersection(std::move(i));
    const int p = k == at ? current : idle ? -1 : 0;
    if (p >= 0) provider.AddPhaseRing(ring.id(), Phase::Id("p" + std::to_string(p)));
  }
  c.nontrivial();
  for (int k = 0; k < n; ++k) {
    const int p = k == at ? current : idle ? -1 : 0;
    const int d = k == at ? nd : 1, w = k == at ? nw : 1, t = k == at ? nt : 1;
    c.op(4);
    const auto phase = is[k]->Phase();
    c.expect(phase.has_value() == (p >= 0) && (p < 0 || phase->state == Phase::Id("p" + std::to_string(p))), "intersection-phase", ctx);
    const auto bs = is[k]->bulb_states();
    const auto ds = is[k]->DiscreteValueRuleStates();
    const auto rs = is[k]->RuleStates();
    c.expect(ds.has_value() == (p >= 0) && rs.has_value() == (p >= 0), "rule-states", ctx);
    c.expect(bs.has_value() == (p >= 0 && t >= 0), "bulb-states", ctx);
    if (p >= 0) {
      c.expect(static_cast<int>(ds->size()) == d && static_cast<int>(rs->size()) == w && (t < 0 || static_cast<int>(bs->size()) == t), "states", ctx);
      for (const auto& x : *ds) c.expect(x.second.value == "v" + std::to_string(p), "discrete-states", ctx);
      for (const auto& x : *rs) c.expect(x.second.string() == "s" + std::to_string(p), "right-of-way-states", ctx);
      if (t >= 0) {
        for (const auto& x : *bs) c.expect(x.second == (p ? BulbState::kOn : BulbState::kOff), "bulb-states", ctx);
      }
    }
    auto lookup = [&](const char* key, int count, auto make) {
      for (int i = 0; i <= count; ++i) {
        const auto id = make(i);
        const bool in = p >= 0 && i < count;
        c.op(2);
        c.expect(book.FindIntersection(id) == (in ? is[k] : nullptr), key, [&] { return str + ", item " + std::to_string(i) + " of intersection " + std::to_string(k); });
        for (int j = 0; j < n; ++j) c.expect(is[j]->Includes(id) == (in && j == k), key, [&] { return str + ", item " + std::to_string(i) + " of intersection " + std::to_string(k) + " in " + std::to_string(j); });
      }
    };
    lookup("find-by-rule", d, [&](int i) { return DiscreteValueRule::Id(name("d", k, i)); });
    lookup("find-by-right-of-way", w, [&](int i) { return RightOfWayRule::Id(name("w", k, i)); });
    lookup("find-by-traffic-light", std::max(t, 0), [&](int i) { return TrafficLight::Id(name("t", k, i)); });
    c.expect(book.GetIntersection(api::Intersection::Id("i" + std::to_string(k))) == is[k], "get-intersection", ctx);
  }
  auto all = book.GetIntersections();
  std::sort(all.begin(), all.end());
  std::sort(is.begin(), is.end());
  c.expect(all == is, "all-intersections", ctx);
}

// Intersections with many ranges, and queries of many ranges, of which at most one of each meets the other.
void ManyRanges(mc::Ctx& c) {
  static const auto rings = MakeRings();
  const int max = mc::Thorough() ? 8 : 5;
  const int n = 1 + c.choose(3), na = c.choose(max + 1), nb = c.choose(max + 1);
  const int at_a = na == 0 ? -1 : c.choose(na + 1) - 1, at_b = nb == 0 ? -1 : c.choose(nb + 1) - 1;
  const int special = c.choose(n);
  const bool same_lane = c.flip();
  ManualPhaseProvider provider;
  IntersectionBook book(TheWorld().rg.get());
  auto make = [&](int count, int at, double base) {
    std::vector<LaneSRange> v;
    for (int i = 0; i < count; ++i) {
      const double s = base + 10. * i;
      v.push_back(i == at ? LaneSRange(LaneId("l"), SRange(1000., 1001.)) : LaneSRange(LaneId(same_lane ? "l" : "z" + std::to_string(i)), i % 2 ? SRange(s + 1., s) : SRange(s, s + 1.)));
    }
    return v;
  };
  api::Intersection* it = nullptr;
  for (int k = 0; k < n; ++k) {
    auto i = std::make_unique<Intersection>(api::Intersection::Id("i" + std::to_string(k)), k == special ? make(na, at_a, 0.) : std::vector<LaneSRange>{{LaneId("other"), SRange(0., 1.)}}, rings.at("R1"), &provider);
    if (k == special) it = i.get();
    book.AddIntersection(std::move(i));
  }
  const std::string str = std::to_string(n) + " intersections, the " + std::to_string(special) + "-th of " + std::to_string(na) + " ranges; query of " + std::to_string(nb) + " ranges; " + std::to_string(at_a) +
                          " and " + std::to_string(at_b) + " meet" + (same_lane ? ", in one lane" : "");
  c.state(str);
  c.trace([&] { return str; });
  const bool in = at_a >= 0 && at_b >= 0;
  c.nontrivial(in);
  for (double tol : {0., .25, 1.}) {
    c.op();
    const auto got = book.FindIntersections(make(nb, at_b, 5.), tol);
    c.expect(in ? got == std::vector<api::Intersection*>{it} : got.empty(), "find-by-region", [&] { return str + ", tolerance " + std::to_string(tol); });
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"histories", "all histories of up to 5 (thorough 6) additions (duplicates, null), ring starts and phase changes (3 rings, 5 intersections), then all lookups by id", Histories},
                   {"geometry", "all books of up to 4 intersections in every order x all lookups by region (pairs of ranges x tolerances) and over a grid of positions", Geometry},
                   {"shapes", "books of up to 4 (6) intersections, one of whose rings controls 0..3 (4) rules of each kind and 0..3 (4) lights or none at all, in any phase", Shapes},
                   {"many-ranges", "intersections and queries of up to 5 (8) ranges, of which at most one of each meets", ManyRanges},
                   {"construction", "null arguments", Construction}});
}
