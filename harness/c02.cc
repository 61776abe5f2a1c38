// ManualRulebook: every bounded history of additions and removals against a reference book.
#include <memory>
#include <set>

#include "maliput/base/manual_rulebook.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;

namespace {

std::string Fp(const LaneSRange& r) {
  std::ostringstream o;
  o << r.lane_id().string() << "[" << r.s_range().s0() << ">" << r.s_range().s1() << "]";
  return o.str();
}
std::string Fp(const LaneSRoute& z) {
  std::string s;
  for (const auto& r : z.ranges()) s += Fp(r);
  return s;
}
std::string Fp(const RightOfWayRule& r) {
  std::set<std::string> st;
  for (const auto& kv : r.states()) {
    std::string y;
    for (const auto& i : kv.second.yield_to()) y += i.string() + ",";
    st.insert(kv.first.string() + ":" + kv.second.id().string() + ":" + std::to_string((int)kv.second.type()) + ":" + y);
  }
  std::string s = "row " + r.id().string() + Fp(r.zone()) + std::to_string((int)r.zone_type());
  for (const auto& x : st) s += x + ";";
  std::set<std::string> g;
  for (const auto& kv : r.related_bulb_groups())
    for (const auto& b : kv.second) g.insert(kv.first.string() + "/" + b.string());
  for (const auto& x : g) s += x + ";";
  return s;
}
std::string Fp(const SpeedLimitRule& r) {
  std::ostringstream o;
  o << "sl " << r.id().string() << Fp(r.zone()) << (int)r.severity() << "," << r.min() << "," << r.max();
  return o.str();
}
std::string Fp(const DirectionUsageRule& r) {
  std::set<std::string> st;
  for (const auto& kv : r.states()) st.insert(kv.first.string() + std::to_string((int)kv.second.type()) + std::to_string((int)kv.second.severity()));
  std::string s = "du " + r.id().string() + Fp(r.zone());
  for (const auto& x : st) s += x + ";";
  return s;
}
std::string Fp(const Rule::State& st) {
  std::string s = std::to_string(st.severity);
  for (const auto& kv : st.related_rules)
    for (const auto& i : kv.second) s += "|" + kv.first + "=" + i.string();
  for (const auto& kv : st.related_unique_ids)
    for (const auto& i : kv.second) s += "|" + kv.first + "~" + i.string();
  return s;
}
std::string Fp(const DiscreteValueRule& r) {
  std::string s = "dv " + r.id().string() + "/" + r.type_id().string() + Fp(r.zone());
  for (const auto& v : r.states()) s += v.value + Fp(static_cast<const Rule::State&>(v)) + ";";
  return s;
}
std::string Fp(const RangeValueRule& r) {
  std::ostringstream o;
  o << "rv " << r.id().string() << "/" << r.type_id().string() << Fp(r.zone());
  for (const auto& v : r.states()) o << v.description << v.min << ":" << v.max << Fp(static_cast<const Rule::State&>(v)) << ";";
  return o.str();
}

enum Kind { kRow, kSl, kDu, kDv, kRv };

// One addable rule.
struct Item {
  Kind kind;
  std::string id;
  std::vector<LaneSRange> zone;
  std::string fp;
  std::shared_ptr<RightOfWayRule> row;
  std::shared_ptr<SpeedLimitRule> sl;
  std::shared_ptr<DirectionUsageRule> du;
  std::shared_ptr<DiscreteValueRule> dv;
  std::shared_ptr<RangeValueRule> rv;
};

LaneSRange R(const char* lane, double s0, double s1) { return {LaneId(lane), SRange(s0, s1)}; }

Item Row(const char* id, const std::vector<LaneSRange>& z) {
  using S = RightOfWayRule::State;
  Item i{kRow, id, z};
  i.row = std::make_shared<RightOfWayRule>(
      RightOfWayRule::Id(id), LaneSRoute(z), RightOfWayRule::ZoneType::kStopExcluded,
      std::vector<S>{S(S::Id("go"), S::Type::kGo, {}), S(S::Id("stop"), S::Type::kStop, {RightOfWayRule::Id("other")})},
      RightOfWayRule::RelatedBulbGroups{{TrafficLight::Id("tl"), {BulbGroup::Id("g1"), BulbGroup::Id("g2")}}});
  i.fp = Fp(*i.row);
  return i;
}
Item Sl(const char* id, const LaneSRange& z, double max) {
  Item i{kSl, id, {z}};
  i.sl = std::make_shared<SpeedLimitRule>(SpeedLimitRule::Id(id), z, SpeedLimitRule::Severity::kAdvisory, 1., max);
  i.fp = Fp(*i.sl);
  return i;
}
Item Du(const char* id, const LaneSRange& z) {
  using S = DirectionUsageRule::State;
  Item i{kDu, id, {z}};
  i.du = std::make_shared<DirectionUsageRule>(DirectionUsageRule::Id(id), z,
                                              std::vector<S>{S(S::Id("st"), S::Type::kAgainstS, S::Severity::kPreferred)});
  i.fp = Fp(*i.du);
  return i;
}
Item Dv(const char* id, const std::vector<LaneSRange>& z, const char* value) {
  Item i{kDv, id, z};
  i.dv = std::make_shared<DiscreteValueRule>(
      Rule::Id(id), Rule::TypeId("dtype"), LaneSRoute(z),
      std::vector<DiscreteValueRule::DiscreteValue>{
          {1, Rule::RelatedRules{{"yield", {Rule::Id("q"), Rule::Id("p")}}}, Rule::RelatedUniqueIds{{"u", {UniqueId("x")}}}, value},
          {0, {}, {}, "second"}});
  i.fp = Fp(*i.dv);
  return i;
}
Item Rv(const char* id, const std::vector<LaneSRange>& z) {
  Item i{kRv, id, z};
  i.rv = std::make_shared<RangeValueRule>(Rule::Id(id), Rule::TypeId("rtype"), LaneSRoute(z),
                                          std::vector<RangeValueRule::Range>{{0, {}, {}, "fast", 1., 2.}, {2, {}, {}, "slow", 0., 1.}});
  i.fp = Fp(*i.rv);
  return i;
}

const std::vector<Item>& Pool() {
  static const std::vector<Item> p{
      Row("A", {R("a", 0., 2.), R("b", 0., 1.), R("a", 6., 4.)}),
      Sl("A", R("a", 0., 2.), 9.),
      Du("A", R("a", 3., 2.5)),
      Dv("A", {R("a", 0., 1.), R("b", 3., 4.)}, "v"),
      Rv("A", {R("b", 0., 9.)}),
      Dv("A", {R("c", 1., 2.)}, "w"),
      Dv("B", {R("a", 1., 2.), R("a", 4., 5.)}, "v"),
      Rv("C", {R("a", 3., 4.), R("a", 8., 9.), R("c", 4., 3.)}),
      Row("B", {R("a", 1., 3.)}),
      Sl("B", R("b", 3., 1.), 5.),
      Du("B", R("c", 0., 5.)),
  };
  return p;
}

struct RefBook {
  std::map<std::pair<Kind, std::string>, const Item*> items;
  bool Has(Kind k, const std::string& id) const { return items.count({k, id}) > 0; }
  bool Add(const Item& i) {
    if (Has(i.kind, i.id)) return false;
    if (i.kind == kDv && Has(kRv, i.id)) return false;
    if (i.kind == kRv && Has(kDv, i.id)) return false;
    items[{i.kind, i.id}] = &i;
    return true;
  }
  bool Remove(Kind k, const std::string& id) {
    if (k == kDv || k == kRv) return items.erase({kDv, id}) + items.erase({kRv, id}) > 0;
    return items.erase({k, id}) > 0;
  }
};

void AddTo(ManualRulebook* b, const Item& i) {
  switch (i.kind) {
    case kRow:
      return b->AddRule(*i.row);
    case kSl:
      return b->AddRule(*i.sl);
    case kDu:
      return b->AddRule(*i.du);
    case kDv:
      return b->AddRule(*i.dv);
    case kRv:
      return b->AddRule(*i.rv);
  }
}
void RemoveFrom(ManualRulebook* b, Kind k, const std::string& id) {
  switch (k) {
    case kRow:
      return b->RemoveRule(RightOfWayRule::Id(id));
    case kSl:
      return b->RemoveRule(SpeedLimitRule::Id(id));
    case kDu:
      return b->RemoveRule(DirectionUsageRule::Id(id));
    default:
      return b->RemoveRule(Rule::Id(id));
  }
}

std::set<std::string> Flatten(const RoadRulebook::QueryResults& q) {
  std::set<std::string> s;
  auto all = [&](const auto& m) {
    for (const auto& kv : m) s.insert(Fp(kv.second) + (kv.first == kv.second.id() ? "" : " under another id"));
  };
  all(q.right_of_way);
  all(q.speed_limit);
  all(q.direction_usage);
  all(q.discrete_value_rules);
  all(q.range_value_rules);
  return s;
}
std::string Join(const std::set<std::string>& s) {
  std::string r = "{";
  for (const auto& x : s) r += x + " ";
  return r + "}";
}

// All observations of `b` agree with `ref`.
void Check(mc::Ctx& c, const ManualRulebook& b, const RefBook& ref, const std::string& hist) {
  std::set<std::string> want;
  for (const auto& kv : ref.items) want.insert(kv.second->fp);
  c.op();
  const auto all = Flatten(b.Rules());
  c.expect(all == want, "rules", [&] { return hist + " Rules() is " + Join(all) + " expected " + Join(want); });
  for (const char* id : {"A", "B", "C"}) {
    auto get = [&](Kind k, auto f) {
      const auto it = ref.items.find({k, id});
      std::string got = "throws";
      bool out_of_range = true;
      c.op();
      try {
        got = Fp(f());
      } catch (const std::out_of_range&) {
      } catch (const std::exception&) {
        out_of_range = false;
      }
      const std::string w = it == ref.items.end() ? "throws" : it->second->fp;
      c.expect(got == w && out_of_range, "get-rule", [&] { return hist + " Get " + id + " kind " + std::to_string(k) + ": " + got + " expected " + w; });
    };
    get(kRow, [&] { return b.GetRule(RightOfWayRule::Id(id)); });
    get(kSl, [&] { return b.GetRule(SpeedLimitRule::Id(id)); });
    get(kDu, [&] { return b.GetRule(DirectionUsageRule::Id(id)); });
    get(kDv, [&] { return b.GetDiscreteValueRule(Rule::Id(id)); });
    get(kRv, [&] { return b.GetRangeValueRule(Rule::Id(id)); });
  }
  static const std::vector<std::pair<std::vector<LaneSRange>, double>> queries{
      {{R("a", 0., 10.)}, 0.},
      {{R("a", 2.25, 2.25)}, 0.},
      {{R("a", 2.25, 2.25)}, 0.25},
      {{R("a", 9.5, 9.25), R("b", 2., 2.), R("zz", 0., 100.)}, 0.},
      {{R("a", 7., 6.5)}, 0.5},
      {{R("a", 3.5, 3.5)}, 0.},
      {{R("b", 2.5, 2.)}, 0.5},
      {{R("c", 2., 2.), R("c", 2.5, 2.75)}, 0.},
      {{R("b", 20., 10.), R("c", 0., 0.5)}, 0.25},
      {{}, 1.},
      {{R("b", 0., 10.)}, 0.},
      {{R("b", 0.5, 0.5)}, 0.},
      {{R("c", 0., 10.)}, 0.},
      {{R("a", 8.5, 8.5), R("a", 0.5, 0.5)}, 0.},
  };
  for (const auto& q : queries) {
    std::set<std::string> w;
    for (const auto& kv : ref.items) {
      bool hit = false;
      for (const auto& z : kv.second->zone)
        for (const auto& r : q.first) {
          const auto zs = z.s_range(), rs = r.s_range();
          hit = hit || (z.lane_id() == r.lane_id() &&
                        !(std::max(rs.s0(), rs.s1()) < std::min(zs.s0(), zs.s1()) - q.second ||
                          std::min(rs.s0(), rs.s1()) > std::max(zs.s0(), zs.s1()) + q.second));
        }
      if (hit) w.insert(kv.second->fp);
    }
    if (!w.empty()) c.nontrivial();
    c.op();
    const auto got = Flatten(b.FindRules(q.first, q.second));
    c.expect(got == w, "find-rules", [&] {
      std::string s;
      for (const auto& r : q.first) s += Fp(r);
      return hist + " FindRules(" + s + ", " + std::to_string(q.second) + ") is " + Join(got) + " expected " + Join(w);
    });
  }
  c.expect(mc::Throws([&] { b.FindRules({R("a", 0., 1.)}, -1e-9); }), "find-rules-negative-tolerance");
}

// Steps of a history: an addition, a removal or RemoveAll.
struct Step {
  int what;  // 0 add, 1 remove, 2 clear
  int item;
  Kind kind;
  std::string id;
  std::string str;
};

std::vector<Step> Steps(const std::vector<int>& pool, const std::vector<std::pair<Kind, std::string>>& removals) {
  std::vector<Step> v;
  static const char* kinds[] = {"right-of-way", "speed-limit", "direction-usage", "discrete", "range"};
  for (int i : pool) v.push_back({0, i, Pool()[i].kind, Pool()[i].id, "add " + std::string(kinds[Pool()[i].kind]) + " " + Pool()[i].id + "#" + std::to_string(i)});
  for (const auto& r : removals) v.push_back({1, 0, r.first, r.second, "remove " + std::string(kinds[r.first]) + " " + r.second});
  v.push_back({2, 0, kRow, "", "clear"});
  return v;
}

void History(mc::Ctx& c, const std::vector<Step>& steps, int depth) {
  const int n = 1 + c.choose(depth);
  ManualRulebook book;
  RefBook ref;
  std::string hist;
  for (int k = 0; k < n; ++k) {
    const Step& s = c.pick(steps);
    hist += s.str + "; ";
    c.op();
    bool ok = true;
    if (s.what == 0) {
      ok = ref.Add(Pool()[s.item]);
    } else if (s.what == 1) {
      ok = ref.Remove(s.kind, s.id);
    } else {
      ref.items.clear();
    }
    // Operations known to fail are only explored as the last or before-last step: they must change nothing.
    if (!ok && k + 2 < n) c.prune();
    const bool threw = mc::Throws([&] {
      if (s.what == 0) {
        AddTo(&book, Pool()[s.item]);
      } else if (s.what == 1) {
        RemoveFrom(&book, s.kind, s.id);
      } else {
        book.RemoveAll();
      }
    });
    c.expect(threw == !ok, "step-outcome", [&] { return hist + (threw ? "threw" : "did not throw"); });
  }
  c.trace([&] { return hist; });
  mc::H h;
  for (const auto& kv : ref.items) h << (uint64_t)(kv.second - Pool().data());
  c.state(h);
  Check(c, book, ref, hist);
}

void Wide(mc::Ctx& c) {
  static const auto steps =
      Steps({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, {{kRow, "A"}, {kRow, "B"}, {kSl, "A"}, {kSl, "B"}, {kDu, "A"}, {kDu, "B"}, {kDv, "A"}, {kDv, "B"}, {kDv, "C"}, {kRow, "never"}});
  History(c, steps, mc::Thorough() ? 6 : 5);
}
void Deep(mc::Ctx& c) {
  static const auto steps = Steps({3, 4, 5, 6}, {{kDv, "A"}, {kDv, "B"}});
  History(c, steps, mc::Thorough() ? 9 : 7);
}
void DeepLegacy(mc::Ctx& c) {
  static const auto steps = Steps({0, 1, 2, 3}, {{kRow, "A"}, {kSl, "A"}, {kDu, "A"}, {kDv, "A"}});
  History(c, steps, mc::Thorough() ? 8 : 6);
}

// Zones of every shape: all sequences of ranges, several of them in one lane, some repeated.
void Zones(mc::Ctx& c) {
  static const std::vector<LaneSRange> pool{R("a", 0., 1.), R("a", 3., 2.), R("a", 8., 9.), R("b", 0., 4.), R("a", 4., 4.), R("c", 2., 2.), R("a", 2., 9.)};
  const int n = 1 + c.choose(mc::Thorough() ? 5 : 4);
  std::vector<LaneSRange> zone;
  for (int i = 0; i < n; ++i) zone.push_back(c.pick(pool));
  const int kind = c.choose(3);
  auto make = [&](const char* id) { return kind == 0 ? Row(id, zone) : kind == 1 ? Dv(id, zone, "v") : Rv(id, zone); };
  const Item item = make("A"), twin = make("B");
  const Item other = kind == 0 ? Dv("A", zone, "w") : Row("A", zone);
  auto fp = [&] {
    std::string s = "a rule of kind " + std::to_string(kind) + " over ";
    for (const auto& z : zone) s += Fp(z);
    return s + ": ";
  };
  c.trace(fp);
  mc::H h;
  h << (uint64_t)std::hash<std::string>()(fp());
  c.state(h);
  ManualRulebook book;
  RefBook ref;
  std::string hist = fp();
  auto step = [&](const char* what, auto f, bool ok) {
    hist += what;
    c.op();
    const bool threw = mc::Throws(f);
    c.expect(threw == !ok, "step-outcome", [&] { return hist + (threw ? " threw" : " did not throw"); });
    Check(c, book, ref, hist);
  };
  ref.Add(item);
  step("add A", [&] { AddTo(&book, item); }, true);
  ref.Add(twin);
  step(", add B", [&] { AddTo(&book, twin); }, true);
  ref.Add(other);
  step(", add the other A", [&] { AddTo(&book, other); }, true);
  ref.Remove(item.kind, "A");
  step(", remove A", [&] { RemoveFrom(&book, item.kind, "A"); }, true);
  step(", remove A again", [&] { RemoveFrom(&book, item.kind, "A"); }, false);
  ref.Add(item);
  step(", add A anew", [&] { AddTo(&book, item); }, true);
  ref.items.clear();
  step(", clear", [&] { book.RemoveAll(); }, true);
}

// Books of many rules, of which every other one is removed again.
void Many(mc::Ctx& c) {
  const int n = 1 + c.choose(mc::Thorough() ? 200 : 70);
  const int kind = c.choose(5);
  const int stride = 1 + c.choose(3);
  std::vector<Item> items;
  ManualRulebook book;
  auto check = [&](const std::vector<int>& in, const std::string& hist) {
    std::set<std::string> all;
    for (int i : in) all.insert(items[i].fp);
    c.op();
    c.expect(Flatten(book.Rules()) == all, "rules", [&] { return hist + " Rules() is " + Join(Flatten(book.Rules())); });
    for (double s : {0., 1.5, n / 2., n - 0.5}) {
      std::set<std::string> w;
      for (int i : in)
        if (i <= s && s <= i + 1) w.insert(items[i].fp);
      c.op();
      c.expect(Flatten(book.FindRules({R("a", s, s)}, 0.)) == w, "find-rules", [&] { return hist + " at " + std::to_string(s) + " finds " + Join(Flatten(book.FindRules({R("a", s, s)}, 0.))) + " expected " + Join(w); });
    }
    c.op();
    c.expect(Flatten(book.FindRules({R("a", 0., n + 1.)}, 0.)) == all, "find-rules", hist);
    c.expect(Flatten(book.FindRules({R("b", 0., n + 1.)}, 0.)).empty(), "find-rules", hist);
  };
  std::vector<int> in;
  for (int i = 0; i < n; ++i) {
    const std::string id = "r" + std::to_string(i);
    const auto z = R("a", i, i + 1.);
    const int k = kind;
    items.push_back(k == kRow ? Row(id.c_str(), {z}) : k == kSl ? Sl(id.c_str(), z, 5.) : k == kDu ? Du(id.c_str(), z) : k == kDv ? Dv(id.c_str(), {z}, "v") : Rv(id.c_str(), {z}));
    AddTo(&book, items.back());
    in.push_back(i);
  }
  const std::string hist = std::to_string(n) + " rules of kind " + std::to_string(kind);
  c.trace([&] { return hist + " stride " + std::to_string(stride); });
  mc::H h;
  h << (uint64_t)n << (uint64_t)kind << (uint64_t)stride;
  c.state(h);
  check(in, hist);
  std::vector<int> left;
  for (int i = 0; i < n; ++i) {
    if (i % stride == 0) {
      RemoveFrom(&book, items[i].kind, items[i].id);
    } else {
      left.push_back(i);
    }
  }
  check(left, hist + ", every " + std::to_string(stride) + "th removed");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"wide", "all histories of up to 5 (thorough 6) operations over 11 rules of 5 kinds, 10 removals and clear", Wide},
                   {"deep", "all histories of up to 7 (9) operations over discrete/range rules that share ids", Deep},
                   {"zones", "rules whose zone is any sequence of up to 4 (5) of 7 ranges, five of them in one lane, added, removed and added anew beside others of the same zone", Zones},
                   {"many", "books of 1..70 (200) rules of each kind, of which every one, every second or every third is removed", Many},
                   {"deep-legacy", "all histories of up to 6 (8) operations over one rule of each kind with the same id", DeepLegacy}});
}
