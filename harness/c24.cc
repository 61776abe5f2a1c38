// Traffic lights, bulb groups and bulbs: what is accepted, who belongs to whom, and the book of traffic lights.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "maliput/api/rules/traffic_light_book.h"
#include "maliput/api/rules/traffic_lights.h"
#include "maliput/base/traffic_light_book.h"
#include "mc.h"

using namespace maliput::api::rules;
using maliput::api::InertialPosition;
using maliput::api::Rotation;

namespace {

const BulbColor kColors[] = {BulbColor::kRed, BulbColor::kYellow, BulbColor::kGreen};
const BulbState kStates[] = {BulbState::kOff, BulbState::kOn, BulbState::kBlinking};

bool Same(const InertialPosition& a, double x) { return a.xyz() == maliput::math::Vector3(x, 2 * x, -x); }
InertialPosition At(double x) { return {x, 2 * x, -x}; }
Rotation Turn(double x) { return Rotation::FromRpy(0., 0., x); }
bool SameTurn(const Rotation& r, double x) { return r.quat() == Turn(x).quat(); }

// Every bulb.
void Bulbs(mc::Ctx& c) {
  const BulbColor color = kColors[c.choose(3)];
  const BulbType type = c.flip() ? BulbType::kArrow : BulbType::kRound;
  std::optional<double> arrow;
  const int angle = c.choose(4);
  if (angle) arrow = (angle - 1) * 1.5;
  // No states, or every list of up to three different ones.
  std::optional<std::vector<BulbState>> states;
  const bool given = c.flip();
  if (given) {
    states.emplace();
    const int n = c.choose(4);
    for (int i = 0; i < n; ++i) {
      const BulbState s = kStates[c.choose(3)];
      if (std::count(states->begin(), states->end(), s)) c.prune();
      states->push_back(s);
    }
  }
  const bool box = c.flip();
  std::string text = std::to_string(static_cast<int>(color)) + (type == BulbType::kArrow ? " arrow" : " round") + (arrow ? " at " + std::to_string(*arrow) : "") + (box ? " box" : "");
  if (given) text += " states";
  if (given) {
    for (const auto s : *states) text += " " + std::to_string(static_cast<int>(s));
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  Bulb::BoundingBox b;
  b.p_BMin = {-1., -2., -3.};
  b.p_BMax = {3., 2., 1.};
  std::unique_ptr<Bulb> bulb;
  const bool threw = mc::Throws([&] {
    bulb = box ? std::make_unique<Bulb>(Bulb::Id("b"), At(1.), Turn(.5), color, type, arrow, states, b)
               : std::make_unique<Bulb>(Bulb::Id("b"), At(1.), Turn(.5), color, type, arrow, states);
  });
  c.expect(threw == ((type == BulbType::kArrow) != arrow.has_value()), "bulb accepted", text);
  c.nontrivial(!threw);
  if (threw) return;
  c.expect(bulb->id() == Bulb::Id("b") && Same(bulb->position_bulb_group(), 1.) && SameTurn(bulb->orientation_bulb_group(), .5) && bulb->color() == color &&
               bulb->type() == type && bulb->arrow_orientation_rad() == arrow,
           "bulb contents", text);
  std::vector<BulbState> want{BulbState::kOff, BulbState::kOn};
  if (given && !states->empty()) want = *states;
  c.expect(bulb->states() == want, "states", text);
  const auto has = [&](BulbState s) { return std::count(want.begin(), want.end(), s) > 0; };
  for (const auto s : kStates) c.expect(bulb->IsValidState(s) == has(s), "valid state", text);
  const BulbState first = has(BulbState::kOff) ? BulbState::kOff : has(BulbState::kBlinking) ? BulbState::kBlinking : BulbState::kOn;
  c.expect(bulb->GetDefaultState() == first, "default state", text);
  const maliput::math::Vector3 lo = box ? b.p_BMin : maliput::math::Vector3(-.0889, -.1778, -.1778), hi = box ? b.p_BMax : maliput::math::Vector3(.0889, .1778, .1778);
  c.expect(bulb->bounding_box().p_BMin == lo && bulb->bounding_box().p_BMax == hi, "bounding box", text);
  c.expect(bulb->bulb_group() == nullptr && mc::Throws([&] { bulb->unique_id(); }), "bulb without a group", text);
}

// Every traffic light of up to 2 groups of up to 3 bulbs, possibly with repeated identifiers or nulls.
struct Light {
  // Per group: identifier (-1: null) and identifiers of the bulbs (-1: null).
  std::vector<std::pair<int, std::vector<int>>> groups;
  std::string text;
  bool Valid(int group) const {
    const auto& b = groups[group].second;
    return !b.empty() && std::count(b.begin(), b.end(), -1) == 0 && std::set<int>(b.begin(), b.end()).size() == b.size();
  }
};

Light Choose(mc::Ctx& c, int groups, int bulbs) {
  Light l;
  const int n = c.choose(groups + 1);
  for (int g = 0; g < n; ++g) {
    std::pair<int, std::vector<int>> group{c.choose(3) - 1, {}};
    l.text += "[" + std::to_string(group.first) + ":";
    if (group.first >= 0) {
      const int m = c.choose(bulbs + 1);
      for (int b = 0; b < m; ++b) {
        group.second.push_back(c.choose(4) - 1);
        l.text += " " + std::to_string(group.second.back());
      }
    }
    l.text += "]";
    l.groups.push_back(group);
  }
  return l;
}

std::string GroupName(int g) { return "g" + std::to_string(g); }
std::string BulbName(int b) { return "b" + std::to_string(b); }

std::unique_ptr<BulbGroup> MakeGroup(const std::pair<int, std::vector<int>>& group) {
  if (group.first < 0) return nullptr;
  std::vector<std::unique_ptr<Bulb>> bulbs;
  for (int b : group.second) {
    bulbs.push_back(b < 0 ? nullptr : std::make_unique<Bulb>(Bulb::Id(BulbName(b)), At(b), Turn(b), kColors[b % 3], BulbType::kRound));
  }
  return std::make_unique<BulbGroup>(BulbGroup::Id(GroupName(group.first)), At(10. + group.first), Turn(.25), std::move(bulbs));
}

void Check(mc::Ctx& c, const Light& l, const TrafficLight& t, const std::string& name) {
  c.expect(t.id().string() == name && Same(t.position_road_network(), 7.) && SameTurn(t.orientation_road_network(), .125), "light contents", l.text);
  const auto groups = t.bulb_groups();
  c.expect(groups.size() == l.groups.size(), "groups", l.text);
  for (size_t g = 0; g < groups.size(); ++g) {
    const auto& want = l.groups[g];
    const BulbGroup& group = *groups[g];
    c.expect(group.id().string() == GroupName(want.first) && Same(group.position_traffic_light(), 10. + want.first) && SameTurn(group.orientation_traffic_light(), .25),
             "group contents", l.text);
    c.expect(group.traffic_light() == &t, "light of a group", l.text);
    const auto id = group.unique_id();
    c.expect(id.traffic_light_id() == t.id() && id.bulb_group_id() == group.id(), "unique id of a group", l.text);
    c.expect(t.GetBulbGroup(group.id()) == &group, "group by identifier", l.text);
    const auto bulbs = group.bulbs();
    c.expect(bulbs.size() == want.second.size(), "bulbs", l.text);
    for (size_t b = 0; b < bulbs.size(); ++b) {
      const Bulb& bulb = *bulbs[b];
      c.expect(bulb.id().string() == BulbName(want.second[b]) && Same(bulb.position_bulb_group(), want.second[b]) && bulb.color() == kColors[want.second[b] % 3],
               "bulb contents", l.text);
      c.expect(bulb.bulb_group() == &group, "group of a bulb", l.text);
      const auto u = bulb.unique_id();
      c.expect(u.traffic_light_id() == t.id() && u.bulb_group_id() == group.id() && u.bulb_id() == bulb.id(), "unique id of a bulb", l.text);
    }
    for (int b = 0; b < 9; ++b) {
      const auto at = std::find(want.second.begin(), want.second.end(), b) - want.second.begin();
      const Bulb* expected = at == static_cast<long>(bulbs.size()) ? nullptr : bulbs[at];
      c.expect(group.GetBulb(Bulb::Id(BulbName(b))) == expected, "bulb by identifier", l.text);
    }
  }
  for (int g = 0; g < 9; ++g) {
    const bool known = std::any_of(l.groups.begin(), l.groups.end(), [&](const auto& x) { return x.first == g; });
    c.expect((t.GetBulbGroup(BulbGroup::Id(GroupName(g))) != nullptr) == known, "group by identifier", l.text);
  }
}

void CheckLight(mc::Ctx& c, const Light& l);

void Lights(mc::Ctx& c) { CheckLight(c, Choose(c, 2, mc::Thorough() ? 3 : 2)); }

// Lights with many groups of many bulbs, of which at most one group and one bulb are null or repeat another one.
void ManyLights(mc::Ctx& c) {
  const int max = mc::Thorough() ? 8 : 6;
  Light l;
  auto odd = [&](std::vector<int>* ids, int n) {
    for (int i = 0; i < n; ++i) ids->push_back(i);
    // 0: nothing, 1: a null, 2: a repetition.
    const int what = n == 0 ? 0 : c.choose(3);
    if (what == 0) return;
    const int at = c.choose(n);
    if (what == 1) {
      (*ids)[at] = -1;
    } else {
      const int other = c.choose(n);
      if (other == at) c.prune();
      (*ids)[at] = other;
    }
  };
  std::vector<int> group_ids;
  odd(&group_ids, c.choose(max + 1));
  const int special = group_ids.empty() ? 0 : c.choose(group_ids.size());
  for (size_t g = 0; g < group_ids.size(); ++g) {
    std::pair<int, std::vector<int>> group{group_ids[g], {}};
    if (group.first >= 0) {
      if (static_cast<int>(g) == special) {
        odd(&group.second, 1 + c.choose(max));
      } else {
        for (int b = 0; b < 1 + static_cast<int>(g) % 3; ++b) group.second.push_back(b);
      }
    }
    l.text += "[" + std::to_string(group.first) + ":";
    for (int b : group.second) l.text += " " + std::to_string(b);
    l.text += "]";
    l.groups.push_back(group);
  }
  CheckLight(c, l);
}

void CheckLight(mc::Ctx& c, const Light& l) {
  c.trace([&] { return l.text; });
  c.state(l.text);
  c.op();
  std::vector<std::unique_ptr<BulbGroup>> groups;
  bool valid = true;
  std::set<int> ids;
  for (size_t g = 0; g < l.groups.size(); ++g) {
    const auto& group = l.groups[g];
    std::unique_ptr<BulbGroup> made;
    const bool threw = mc::Throws([&] { made = MakeGroup(group); });
    c.expect(threw == (group.first >= 0 && !l.Valid(g)), "group accepted", l.text);
    if (threw) return;
    if (made) {
      c.expect(made->traffic_light() == nullptr && mc::Throws([&] { made->unique_id(); }), "group without a light", l.text);
      for (const auto* b : made->bulbs()) {
        c.expect(b->bulb_group() == made.get() && mc::Throws([&] { b->unique_id(); }), "bulb without a light", l.text);
      }
    }
    valid = valid && made && ids.insert(group.first).second;
    groups.push_back(std::move(made));
  }
  std::unique_ptr<TrafficLight> t;
  const bool threw = mc::Throws([&] { t = std::make_unique<TrafficLight>(TrafficLight::Id("t"), At(7.), Turn(.125), std::move(groups)); });
  c.expect(threw == !valid, "light accepted", l.text);
  c.nontrivial(!threw && l.groups.size() > 1);
  if (!threw) Check(c, l, *t, "t");
}

// Every history of additions to a book.
void Book(mc::Ctx& c) {
  maliput::TrafficLightBook dut;
  const TrafficLightBook& book = dut;
  std::map<int, const TrafficLight*> want;
  std::map<int, Light> lights;
  std::string text;
  const int length = mc::Thorough() ? 5 : 4;
  for (int step = 0; step < length; ++step) {
    const int op = c.choose(5);  // 3: null, 4: end.
    if (op == 4) break;
    c.op();
    text += " " + std::to_string(op);
    Light l;
    std::unique_ptr<const TrafficLight> t;
    if (op < 3) {
      for (int g = 0; g <= step % 2; ++g) l.groups.push_back({g, {g, g + 1}});
      std::vector<std::unique_ptr<BulbGroup>> groups;
      for (const auto& g : l.groups) groups.push_back(MakeGroup(g));
      t = std::make_unique<const TrafficLight>(TrafficLight::Id("t" + std::to_string(op)), At(7.), Turn(.125), std::move(groups));
    }
    const TrafficLight* p = t.get();
    const bool threw = mc::Throws([&] { dut.AddTrafficLight(std::move(t)); });
    c.expect(threw == (op == 3 || want.count(op)), "added", text);
    if (!threw) {
      want[op] = p;
      lights[op] = l;
    }
    for (int i = 0; i < 4; ++i) {
      const auto it = want.find(i);
      c.expect(book.GetTrafficLight(TrafficLight::Id("t" + std::to_string(i))) == (it == want.end() ? nullptr : it->second), "light by identifier", text);
    }
    const auto all = book.TrafficLights();
    std::set<const TrafficLight*> got(all.begin(), all.end()), expected;
    for (const auto& x : want) expected.insert(x.second);
    c.expect(all.size() == want.size() && got == expected, "lights", text);
    for (const auto& x : want) Check(c, lights[x.first], *x.second, "t" + std::to_string(x.first));
    c.state(text);
  }
  c.trace([&] { return text; });
  c.nontrivial(want.size() > 1);
}

// Books of many lights, some of them added twice.
void Many(mc::Ctx& c) {
  const int n = 1 + c.choose(mc::Thorough() ? 300 : 80);
  const int again = c.choose(3);
  maliput::TrafficLightBook dut;
  const TrafficLightBook& book = dut;
  std::vector<const TrafficLight*> want;
  const std::string text = std::to_string(n) + " lights, repeated " + std::to_string(again);
  c.trace([&] { return text; });
  c.state(text);
  auto make = [](int i) {
    std::vector<std::unique_ptr<BulbGroup>> groups;
    groups.push_back(MakeGroup({i % 5, {i % 7, 8}}));
    return std::make_unique<const TrafficLight>(TrafficLight::Id("t" + std::to_string(i)), At(7.), Turn(.125), std::move(groups));
  };
  for (int i = 0; i < n; ++i) {
    auto t = make(i);
    want.push_back(t.get());
    c.op();
    dut.AddTrafficLight(std::move(t));
    if (again == 1) c.expect(mc::Throws([&] { dut.AddTrafficLight(make(i)); }), "added", text);
  }
  if (again == 2) {
    for (int i = 0; i < n; ++i) c.expect(mc::Throws([&] { dut.AddTrafficLight(make(i)); }), "added", text);
  }
  for (int i = 0; i < n; ++i) c.expect(book.GetTrafficLight(TrafficLight::Id("t" + std::to_string(i))) == want[i], "light by identifier", text);
  c.expect(book.GetTrafficLight(TrafficLight::Id("t" + std::to_string(n))) == nullptr, "light by identifier", text);
  auto all = book.TrafficLights();
  std::sort(all.begin(), all.end());
  std::sort(want.begin(), want.end());
  c.expect(all == want, "lights", text);
  c.nontrivial(n > 1);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"bulbs", "colors x types x arrows x lists of states", Bulbs},
                   {"lights", "lights of up to 2 groups of up to 2 (thorough: 3) bulbs, with nulls and repetitions", Lights},
                   {"many-lights", "lights of up to 6 (8) groups, one of them of up to 6 (8) bulbs, with at most one null or repetition in the groups and in those bulbs", ManyLights},
                   {"many", "books of 1..80 (300) lights, with and without repeated additions", Many},
                   {"book", "every history of up to 4 additions", Book}});
}
