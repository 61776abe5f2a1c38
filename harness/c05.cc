// C05: rule states, rules and the rule registry: what is accepted, what is equal and what is reported.
#include <memory>
#include <set>

#include "maliput/api/rules/direction_usage_rule.h"
#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/discrete_value_rule_state_provider.h"
#include "maliput/api/rules/range_value_rule.h"
#include "maliput/api/rules/right_of_way_rule.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/api/rules/speed_limit_rule.h"
#include "maliput/base/rule_filter.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/rule_tools.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::api;
using namespace maliput::api::rules;

namespace {

// Reference attributes of a state.
using Groups = std::map<std::string, std::vector<std::string>>;
struct Ref {
  int severity{0};
  Groups rules, uids;
  std::string text;
  double min{0}, max{0};
};

std::string Str(const Groups& g) {
  std::string s;
  for (const auto& kv : g) {
    s += "<" + kv.first + ":";
    for (const auto& v : kv.second) s += v + ",";
    s += ">";
  }
  return s;
}
std::string Str(const Ref& r) {
  std::ostringstream o;
  o << "(" << r.severity << " " << r.text << " " << Str(r.rules) << " " << Str(r.uids) << " " << r.min << ".." << r.max << ")";
  return o.str();
}

Rule::RelatedRules Rules(const Groups& g) {
  Rule::RelatedRules r;
  for (const auto& kv : g) {
    r[kv.first];
    for (const auto& v : kv.second) r[kv.first].push_back(Rule::Id(v));
  }
  return r;
}
Rule::RelatedUniqueIds Uids(const Groups& g) {
  Rule::RelatedUniqueIds r;
  for (const auto& kv : g) {
    r[kv.first];
    for (const auto& v : kv.second) r[kv.first].push_back(UniqueId(v));
  }
  return r;
}
DiscreteValueRule::DiscreteValue D(const Ref& r) { return {r.severity, Rules(r.rules), Uids(r.uids), r.text}; }
RangeValueRule::Range G(const Ref& r) { return {r.severity, Rules(r.rules), Uids(r.uids), r.text, r.min, r.max}; }

bool Same(const Groups& a, const Groups& b) {
  if (a.size() != b.size()) return false;
  for (const auto& kv : a) {
    const auto it = b.find(kv.first);
    if (it == b.end()) return false;
    if (std::multiset<std::string>(kv.second.begin(), kv.second.end()) !=
        std::multiset<std::string>(it->second.begin(), it->second.end()))
      return false;
  }
  return true;
}
bool Same(const Ref& a, const Ref& b, bool range) {
  return a.severity == b.severity && a.text == b.text && Same(a.rules, b.rules) && Same(a.uids, b.uids) &&
         (!range || (a.min == b.min && a.max == b.max));
}
bool ValidGroups(const Groups& g) {
  for (const auto& kv : g) {
    if (kv.first.empty()) return false;
    if (std::set<std::string>(kv.second.begin(), kv.second.end()).size() != kv.second.size()) return false;
  }
  return true;
}
bool Valid(const Ref& r, bool range) {
  return r.severity >= 0 && ValidGroups(r.rules) && ValidGroups(r.uids) && (!range || r.min <= r.max);
}

const std::vector<Groups>& AllGroups() {
  static const std::vector<Groups> g{
      {},
      {{"k", {}}},
      {{"k", {"x"}}},
      {{"k", {"y"}}},
      {{"k", {"x", "y"}}},
      {{"k", {"y", "x"}}},
      {{"k", {"x", "x"}}},
      {{"j", {"x"}}},
      {{"j", {"x"}}, {"k", {"x"}}},
      {{"j", {}}, {"k", {"x"}}},
      {{"", {"x"}}},
      {{"", {}}},
      {{"k", {"x", "y", "z"}}},
      {{"k", {"x", "x", "y"}}},
      {{"k", {"x", "y", "y"}}},
  };
  return g;
}

// ---- Equality is that of the contents, in both directions.
void Equality(mc::Ctx& c) {
  Ref a, b;
  a.severity = c.choose(2);
  b.severity = c.choose(2);
  const int which = c.choose(2);
  (which ? a.rules : a.uids) = c.pick(AllGroups());
  (which ? b.rules : b.uids) = c.pick(AllGroups());
  a.text = c.flip() ? "v" : "w";
  b.text = "v";
  a.max = b.max = 5;
  const int bounds = c.choose(3);
  if (bounds == 1) a.min = 1;
  if (bounds == 2) a.max = 6;
  c.op(6);
  const auto ctx = [&] { return Str(a) + " vs " + Str(b); };
  c.state(mc::Ctx::Hash(ctx()));
  const bool eq = Same(a, b, false), eqr = Same(a, b, true);
  if (eq) c.nontrivial();
  Ref sa = a, sb = b;
  sa.text = sb.text = "";
  const Rule::State &da = D(a), &db = D(b);
  c.expect((da == db) == Same(sa, sb, false) && (db == da) == (da == db) && (da != db) == !(da == db), "state-equality", ctx);
  c.expect((D(a) == D(b)) == eq && (D(b) == D(a)) == eq && (D(a) != D(b)) == !eq, "discrete-value-equality", ctx);
  c.expect((G(a) == G(b)) == eqr && (G(b) == G(a)) == eqr && (G(a) != G(b)) == !eqr, "range-equality", ctx);
}

// Range::operator< orders by severity, description, min, max.
void Ordering(mc::Ctx& c) {
  auto one = [&]() {
    Ref r;
    r.severity = c.choose(2);
    r.text = c.flip() ? "a" : "b";
    r.min = c.choose(3) - 1;
    r.max = r.min + c.choose(4);
    return r;
  };
  const Ref a = one(), b = one();
  const auto ctx = [&] { return Str(a) + " < " + Str(b); };
  c.state(mc::Ctx::Hash(ctx()));
  c.op(2);
  const auto key = [](const Ref& r) { return std::make_tuple(r.severity, r.text, r.min, r.max); };
  if (key(a) != key(b)) c.nontrivial();
  c.expect((G(a) < G(b)) == (key(a) < key(b)), "range-order", ctx);
}

const LaneSRoute& Zone() {
  static const LaneSRoute z({LaneSRange(LaneId("l"), SRange(0., 1.)), LaneSRange(LaneId("m"), SRange(3., 2.))});
  return z;
}

std::vector<Ref> Pool(bool range) {
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  auto r = [](int sev, const Groups& ru, const Groups& u, const std::string& t, double lo = 0., double hi = 1.) {
    Ref x;
    x.severity = sev, x.rules = ru, x.uids = u, x.text = t, x.min = lo, x.max = hi;
    return x;
  };
  std::vector<Ref> v{
      r(0, {}, {}, "v"),
      r(0, {}, {}, "w"),
      r(0, {}, {}, ""),
      r(1, {}, {}, "v"),
      r(-1, {}, {}, "v"),
      r(0, {{"k", {"x", "y"}}}, {}, "v"),
      r(0, {{"k", {"y", "x"}}}, {}, "v"),
      r(0, {{"k", {"x"}}}, {}, "v"),
      r(0, {{"k", {"x", "x"}}}, {}, "v"),
      r(0, {{"", {"x"}}}, {}, "v"),
      r(0, {}, {{"k", {"x", "y"}}}, "v"),
      r(0, {}, {{"k", {"y", "x"}}}, "v"),
      r(0, {}, {{"k", {"x"}}}, "v"),
      r(0, {}, {{"j", {"x"}}, {"k", {"x", "x"}}}, "v"),
      r(0, {}, {{"", {}}}, "v"),
  };
  if (range) {
    v.push_back(r(0, {}, {}, "v", 1., 1.));
    v.push_back(r(0, {}, {}, "v", 1., 0.5));
    v.push_back(r(0, {}, {}, "v", -inf, inf));
    v.push_back(r(0, {}, {}, "v", nan, 1.));
    v.push_back(r(0, {}, {}, "v", 0., nan));
    v.push_back(r(0, {}, {}, "v", 0., 2.));
    v.push_back(r(0, {}, {}, "v", -1., 1.));
  }
  return v;
}

template <bool kRange>
bool Acceptable(const std::vector<Ref>& states) {
  bool ok = !states.empty();
  for (size_t i = 0; i < states.size(); ++i) {
    ok = ok && Valid(states[i], kRange);
    for (size_t j = 0; j < i; ++j) ok = ok && !Same(states[i], states[j], kRange);
  }
  return ok;
}

template <bool kRange>
auto Make(const Ref& r) {
  if constexpr (kRange) {
    return G(r);
  } else {
    return D(r);
  }
}

// ---- Construction of a rule out of every list of up to 3 states.
template <bool kRange>
void Construction(mc::Ctx& c) {
  using R = std::conditional_t<kRange, RangeValueRule, DiscreteValueRule>;
  using S = std::conditional_t<kRange, RangeValueRule::Range, DiscreteValueRule::DiscreteValue>;
  static const std::vector<Ref> pool = Pool(kRange);
  const int n = c.choose(4);
  std::vector<Ref> refs;
  std::vector<S> states;
  std::string str;
  for (int i = 0; i < n; ++i) {
    refs.push_back(c.pick(pool));
    states.push_back(Make<kRange>(refs.back()));
    str += Str(refs.back());
  }
  c.state(mc::Ctx::Hash(str));
  c.op();
  const bool ok = Acceptable<kRange>(refs);
  std::unique_ptr<R> rule;
  const bool threw = mc::Throws([&] { rule = std::make_unique<R>(Rule::Id("id"), Rule::TypeId("type"), Zone(), states); });
  c.expect(threw == !ok, "rule-accepts", [&] { return str + (threw ? " rejected" : " accepted"); });
  if (threw) return;
  c.nontrivial();
  c.op(5);
  c.expect(rule->id() == Rule::Id("id") && rule->type_id() == Rule::TypeId("type"), "rule-ids", str.c_str());
  c.expect(rule->zone().ranges().size() == 2 && rule->zone().ranges()[1].s_range().s0() == 3., "rule-zone", str.c_str());
  c.expect(rule->states() == states, "rule-states", [&] { return str; });
}

// ---- States with many related rules and all the bounds, alone or next to another state.
template <bool kRange>
void States(mc::Ctx& c) {
  using R = std::conditional_t<kRange, RangeValueRule, DiscreteValueRule>;
  using S = std::conditional_t<kRange, RangeValueRule::Range, DiscreteValueRule::DiscreteValue>;
  static const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  static const std::vector<double> bounds{-inf, -2., -1., -.5, -0., .5, 1., 2., inf, nan};
  Ref x;
  x.text = "v";
  x.max = 1.;
  const int what = c.choose(kRange ? 3 : 2);
  if (what < 2) {
    Groups& g = what ? x.uids : x.rules;
    const int keys = 1 + c.choose(3), at = c.choose(keys), n = c.choose(mc::Thorough() ? 6 : 5);
    static const std::vector<std::string> names{"j", "k", "l"};
    for (int k = 0; k < keys; ++k) {
      auto& list = g[names[k]];
      if (k != at) {
        list = {"x", "y", "z", "w"};
        continue;
      }
      for (int i = 0; i < n; ++i) list.push_back(std::string(1, "xyzw"[c.choose(4)]));
    }
  } else {
    x.min = c.pick(bounds);
    x.max = c.pick(bounds);
  }
  x.severity = c.choose(3) - 1;
  std::vector<Ref> refs{x};
  const int others = c.choose(4);  // 0: none, 1: before, 2: after, 3: both.
  Ref y;
  y.text = "other";
  y.max = 1.;
  if (others & 1) refs.insert(refs.begin(), y);
  y.text = "another";
  if (others & 2) refs.push_back(y);
  std::vector<S> states;
  std::string str;
  for (const Ref& r : refs) {
    states.push_back(Make<kRange>(r));
    str += Str(r);
  }
  c.state(mc::Ctx::Hash(str));
  c.trace([&] { return str; });
  c.op();
  const bool ok = Acceptable<kRange>(refs);
  c.nontrivial(ok);
  std::unique_ptr<R> rule;
  const bool threw = mc::Throws([&] { rule = std::make_unique<R>(Rule::Id("id"), Rule::TypeId("type"), Zone(), states); });
  c.expect(threw == !ok, "rule-accepts", [&] { return str + (threw ? " rejected" : " accepted"); });
  if (!threw) c.expect(rule->states() == states, "rule-states", [&] { return str; });
}

// ---- Registry histories.
void Registry(mc::Ctx& c) {
  static const std::vector<Ref> vals{[] {
                                       Ref r;
                                       r.text = "go";
                                       r.max = 1;
                                       return r;
                                     }(),
                                     [] {
                                       Ref r;
                                       r.text = "stop";
                                       r.max = 1;
                                       return r;
                                     }(),
                                     [] {
                                       Ref r;
                                       r.text = "go";
                                       r.severity = 1;
                                       r.max = 1;
                                       return r;
                                     }(),
                                     [] {
                                       Ref r;
                                       r.text = "go";
                                       r.rules = {{"k", {"x"}}};
                                       r.max = 1;
                                       return r;
                                     }(),
                                     [] {
                                       Ref r;
                                       r.text = "go";
                                       r.max = 2;
                                       return r;
                                     }()};
  static const std::vector<std::vector<int>> lists{{}, {0}, {0, 1}, {0, 0}, {2}, {3, 1}, {4}};
  RuleRegistry reg;
  struct Entry {
    bool range;
    std::vector<int> list;
  };
  std::map<std::string, Entry> ref;
  std::string hist;
  const int n = c.choose(mc::Thorough() ? 5 : 4);
  for (int k = 0; k < n; ++k) {
    const std::string type = c.flip() ? "T" : "U";
    const bool range = c.flip();
    const auto& list = c.pick(lists);
    hist += std::string("register ") + (range ? "range " : "discrete ") + type + ":";
    std::vector<DiscreteValueRule::DiscreteValue> d;
    std::vector<RangeValueRule::Range> g;
    bool ok = !list.empty() && !ref.count(type);
    for (size_t i = 0; i < list.size(); ++i) {
      d.push_back(D(vals[list[i]]));
      g.push_back(G(vals[list[i]]));
      for (size_t j = 0; j < i; ++j) ok = ok && !Same(vals[list[i]], vals[list[j]], range);
      hist += std::to_string(list[i]);
    }
    hist += "; ";
    c.op();
    const bool threw = mc::Throws([&] {
      range ? reg.RegisterRangeValueRule(Rule::TypeId(type), g) : reg.RegisterDiscreteValueRule(Rule::TypeId(type), d);
    });
    c.expect(threw == !ok, "register", [&] { return hist + (threw ? "rejected" : "accepted"); });
    if (ok) ref[type] = {range, list};
  }
  c.state(mc::Ctx::Hash(hist));
  if (!ref.empty()) c.nontrivial();
  // Listings.
  size_t nd = 0, nr = 0;
  for (const auto& kv : ref) (kv.second.range ? nr : nd) += 1;
  c.op(2);
  c.expect(reg.DiscreteValueRuleTypes().size() == nd && reg.RangeValueRuleTypes().size() == nr, "registry-listing", [&] { return hist; });
  for (const char* type : {"T", "U", "V"}) {
    const auto it = ref.find(type);
    c.op();
    const auto got = reg.GetPossibleStatesOfRuleType(Rule::TypeId(type));
    c.expect(got.has_value() == (it != ref.end()), "registry-states", [&] { return hist + type; });
    std::vector<DiscreteValueRule::DiscreteValue> d;
    std::vector<RangeValueRule::Range> g;
    if (it != ref.end()) {
      for (int i : it->second.list) d.push_back(D(vals[i])), g.push_back(G(vals[i]));
      c.expect(got->type_id == Rule::TypeId(type), "registry-type-id", [&] { return hist; });
      if (it->second.range) {
        const auto* v = std::get_if<RuleRegistry::QueryResult::Ranges>(&got->rule_values);
        c.expect(v && *v == g && reg.RangeValueRuleTypes().at(Rule::TypeId(type)) == g, "registry-ranges", [&] { return hist + type; });
      } else {
        const auto* v = std::get_if<RuleRegistry::QueryResult::DiscreteValues>(&got->rule_values);
        c.expect(v && *v == d && reg.DiscreteValueRuleTypes().at(Rule::TypeId(type)) == d, "registry-values", [&] { return hist + type; });
      }
    }
    // Every build out of up to two states.
    for (int a = -1; a < static_cast<int>(vals.size()); ++a) {
      for (int b = -1; b < static_cast<int>(vals.size()); ++b) {
        if (a < 0 && b >= 0) continue;
        std::vector<Ref> refs;
        if (a >= 0) refs.push_back(vals[a]);
        if (b >= 0) refs.push_back(vals[b]);
        for (const bool range : {false, true}) {
          bool ok = it != ref.end() && it->second.range == range;
          // Related rules and ids are left to the backend: the registry matches the rest.
          for (const Ref& r : refs) {
            bool has = false;
            if (ok) {
              for (int i : it->second.list)
                has = has || (vals[i].severity == r.severity && vals[i].text == r.text &&
                              (!range || (vals[i].min == r.min && vals[i].max == r.max)));
            }
            ok = ok && has;
          }
          ok = ok && (range ? Acceptable<true>(refs) : Acceptable<false>(refs));
          std::vector<DiscreteValueRule::DiscreteValue> dd;
          std::vector<RangeValueRule::Range> gg;
          for (const Ref& r : refs) dd.push_back(D(r)), gg.push_back(G(r));
          c.op();
          bool same = true;
          const bool threw = mc::Throws([&] {
            if (range) {
              const auto r = reg.BuildRangeValueRule(Rule::Id("i"), Rule::TypeId(type), Zone(), gg);
              same = r.states() == gg && r.id() == Rule::Id("i") && r.type_id() == Rule::TypeId(type) && r.zone().ranges().size() == 2;
            } else {
              const auto r = reg.BuildDiscreteValueRule(Rule::Id("i"), Rule::TypeId(type), Zone(), dd);
              same = r.states() == dd && r.id() == Rule::Id("i") && r.type_id() == Rule::TypeId(type) && r.zone().ranges().size() == 2;
            }
          });
          c.expect(threw == !ok && same, "registry-build", [&] {
            std::string s = hist + " build " + (range ? "range " : "discrete ") + type;
            for (const Ref& r : refs) s += Str(r);
            return s + (threw ? " rejected" : " accepted");
          });
        }
      }
    }
  }
}

// ---- Right-of-way, direction usage and speed limit rules.
void Legacy(mc::Ctx& c) {
  static const std::vector<std::string> ids{"a", "b", "c"};
  const int what = c.choose(3);
  c.op();
  if (what == 2) {
    static const std::vector<double> v{-std::numeric_limits<double>::infinity(), -1e-12, 0., 1., 2., std::numeric_limits<double>::infinity(),
                                       std::numeric_limits<double>::quiet_NaN()};
    const double lo = c.pick(v), hi = c.pick(v);
    const bool strict = c.flip();
    const bool ok = lo >= 0 && hi >= 0 && lo <= hi;
    const auto sev = strict ? SpeedLimitRule::Severity::kStrict : SpeedLimitRule::Severity::kAdvisory;
    std::unique_ptr<SpeedLimitRule> r;
    const bool threw = mc::Throws([&] { r = std::make_unique<SpeedLimitRule>(SpeedLimitRule::Id("s"), LaneSRange(LaneId("l"), SRange(1., 2.)), sev, lo, hi); });
    c.expect(threw == !ok, "speed-limit-accepts", [&] { return std::to_string(lo) + ".." + std::to_string(hi); });
    c.state(mc::H() << 1u << (uint64_t)(lo * 10) << (uint64_t)(hi * 10));
    if (ok) {
      c.nontrivial();
      c.expect(r->min() == lo && r->max() == hi && r->severity() == sev && r->zone().s_range().s1() == 2., "speed-limit", "values");
    }
    return;
  }
  const int n = c.choose(4);
  std::vector<std::string> st;
  for (int i = 0; i < n; ++i) st.push_back(c.pick(ids));
  const bool ok_states = n > 0 && std::set<std::string>(st.begin(), st.end()).size() == st.size();
  std::string str;
  for (const auto& s : st) str += s;
  c.state(mc::Ctx::Hash(str + std::to_string(what)));
  if (what == 1) {
    using S = DirectionUsageRule::State;
    std::vector<S> states;
    for (size_t i = 0; i < st.size(); ++i) states.push_back(S(S::Id(st[i]), static_cast<S::Type>(i), S::Severity::kPreferred));
    std::unique_ptr<DirectionUsageRule> r;
    const bool threw = mc::Throws([&] { r = std::make_unique<DirectionUsageRule>(DirectionUsageRule::Id("d"), LaneSRange(LaneId("l"), SRange(1., 2.)), states); });
    c.expect(threw == !ok_states, "direction-usage-accepts", [&] { return str; });
    if (threw) return;
    c.nontrivial();
    c.expect(r->states().size() == st.size() && r->is_static() == (n == 1), "direction-usage-states", [&] { return str; });
    for (size_t i = 0; i < st.size(); ++i) c.expect(r->states().at(S::Id(st[i])).type() == static_cast<S::Type>(i), "direction-usage-state", [&] { return str; });
    const bool static_threw = mc::Throws([&] { c.expect(r->static_state().id() == S::Id(st[0]), "direction-usage-static", "id"); });
    c.expect(static_threw == (n != 1), "direction-usage-static", [&] { return str; });
    return;
  }
  using S = RightOfWayRule::State;
  std::vector<S> states;
  for (size_t i = 0; i < st.size(); ++i) states.push_back(S(S::Id(st[i]), static_cast<S::Type>(i), {RightOfWayRule::Id("y" + st[i])}));
  static const std::vector<std::vector<std::string>> groups{{}, {"g"}, {"g", "h"}, {"g", "g"}, {"g", "h", "g"}};
  RightOfWayRule::RelatedBulbGroups bulbs;
  bool ok = ok_states;
  for (const char* tl : {"t", "u"}) {
    const int k = c.choose(static_cast<int>(groups.size()) + 1);
    if (k == 0) continue;
    const auto& g = groups[k - 1];
    ok = ok && std::set<std::string>(g.begin(), g.end()).size() == g.size();
    bulbs[TrafficLight::Id(tl)];
    for (const auto& x : g) bulbs[TrafficLight::Id(tl)].push_back(BulbGroup::Id(x));
  }
  std::unique_ptr<RightOfWayRule> r;
  const bool threw = mc::Throws([&] { r = std::make_unique<RightOfWayRule>(RightOfWayRule::Id("d"), Zone(), RightOfWayRule::ZoneType::kStopAllowed, states, bulbs); });
  c.expect(threw == !ok, "right-of-way-accepts", [&] { return str; });
  if (threw) return;
  c.nontrivial();
  c.expect(r->states().size() == st.size() && r->is_static() == (n == 1) && r->related_bulb_groups() == bulbs, "right-of-way-states", [&] { return str; });
  for (size_t i = 0; i < st.size(); ++i) {
    const auto& s = r->states().at(S::Id(st[i]));
    c.expect(s.type() == static_cast<S::Type>(i) && s.yield_to() == std::vector<RightOfWayRule::Id>{RightOfWayRule::Id("y" + st[i])}, "right-of-way-state", [&] { return str; });
  }
  const bool static_threw = mc::Throws([&] { c.expect(r->static_state().id() == S::Id(st[0]), "right-of-way-static", "id"); });
  c.expect(static_threw == (n != 1), "right-of-way-static", [&] { return str; });
}

// ---- FilterRules() keeps exactly what every filter accepts.
void Filter(mc::Ctx& c) {
  RoadRulebook::QueryResults rules;
  std::vector<DiscreteValueRule> ds;
  std::vector<RangeValueRule> gs;
  const std::vector<std::string> types{"S", "T"};
  Ref v;
  v.text = "v";
  v.max = 1;
  const int nd = c.choose(4), ng = c.choose(3);
  for (int i = 0; i < nd; ++i) {
    Ref x = v;
    x.severity = c.choose(2);
    const DiscreteValueRule d(Rule::Id("d" + std::to_string(i)), Rule::TypeId(c.pick(types)), Zone(), {D(x)});
    rules.discrete_value_rules.emplace(d.id(), d);
    ds.push_back(d);
  }
  for (int i = 0; i < ng; ++i) {
    Ref x = v;
    x.severity = c.choose(2);
    const RangeValueRule g(Rule::Id("g" + std::to_string(i)), Rule::TypeId(c.pick(types)), Zone(), {G(x)});
    rules.range_value_rules.emplace(g.id(), g);
    gs.push_back(g);
  }
  rules.speed_limit.emplace(SpeedLimitRule::Id("s"), SpeedLimitRule(SpeedLimitRule::Id("s"), Zone().ranges()[0], SpeedLimitRule::Severity::kStrict, 0., 1.));
  const int fd = c.choose(4), fg = c.choose(4);  // Bit 0: by type T, bit 1: by severity 0.
  std::vector<DiscreteValueRuleFilter> dfs;
  std::vector<RangeValueRuleFilter> gfs;
  if (fd & 1) dfs.push_back(RuleTypeFilter(Rule::TypeId("T")));
  if (fd & 2) dfs.push_back([](const DiscreteValueRule& r) { return r.states()[0].severity == 0; });
  if (fg & 1) gfs.push_back(RuleTypeFilter(Rule::TypeId("T")));
  if (fg & 2) gfs.push_back([](const RangeValueRule& r) { return r.states()[0].severity == 0; });
  c.op();
  const auto got = FilterRules(rules, dfs, gfs);
  std::set<std::string> want, have;
  auto keep = [&](const auto& r, int f) {
    return (!(f & 1) || r.type_id() == Rule::TypeId("T")) && (!(f & 2) || r.states()[0].severity == 0);
  };
  for (const auto& d : ds)
    if (keep(d, fd)) want.insert(d.id().string());
  for (const auto& g : gs)
    if (keep(g, fg)) want.insert(g.id().string());
  for (const auto& kv : got.discrete_value_rules) have.insert(kv.first == kv.second.id() ? kv.first.string() : "?");
  for (const auto& kv : got.range_value_rules) have.insert(kv.first == kv.second.id() ? kv.first.string() : "?");
  std::string str;
  for (const auto& x : want) str += x + " ";
  c.state(mc::H() << nd << ng << fd << fg << mc::Ctx::Hash(str));
  if (!want.empty()) c.nontrivial();
  c.expect(have == want, "filter-rules", [&] { return "expected " + str; });
  c.expect(got.speed_limit.size() == 1, "filter-rules-others", "other rules are kept");
}

// ---- Many rules, many filters, each of which rejects one rule.
void ManyFilters(mc::Ctx& c) {
  const int n = c.choose(mc::Thorough() ? 12 : 9);
  const bool range = c.flip();
  const int m = c.choose(mc::Thorough() ? 5 : 4);
  std::set<int> rejected;
  RoadRulebook::QueryResults rules;
  Ref v;
  v.text = "v";
  v.max = 1;
  for (int i = 0; i < n; ++i) {
    const Rule::Id id("r" + std::to_string(i));
    if (range) {
      rules.range_value_rules.emplace(id, RangeValueRule(id, Rule::TypeId("T"), Zone(), {G(v)}));
    } else {
      rules.discrete_value_rules.emplace(id, DiscreteValueRule(id, Rule::TypeId("T"), Zone(), {D(v)}));
    }
  }
  std::vector<DiscreteValueRuleFilter> dfs;
  std::vector<RangeValueRuleFilter> gfs;
  std::string str = std::to_string(n) + (range ? " range" : " discrete") + " rules without";
  for (int k = 0; k < m; ++k) {
    const int x = c.choose(n + 1);
    rejected.insert(x);
    str += " " + std::to_string(x);
    const Rule::Id id("r" + std::to_string(x));
    if (range) {
      gfs.push_back([id](const RangeValueRule& r) { return r.id() != id; });
      if (k == 0) dfs.push_back([](const DiscreteValueRule&) { return false; });
    } else {
      dfs.push_back([id](const DiscreteValueRule& r) { return r.id() != id; });
      if (k == 0) gfs.push_back([](const RangeValueRule&) { return false; });
    }
  }
  c.state(mc::Ctx::Hash(str));
  c.trace([&] { return str; });
  c.op();
  const auto got = FilterRules(rules, dfs, gfs);
  std::set<std::string> want, have;
  for (int i = 0; i < n; ++i)
    if (!rejected.count(i)) want.insert("r" + std::to_string(i));
  c.nontrivial(!want.empty());
  for (const auto& kv : got.discrete_value_rules) have.insert(kv.first.string() + (range ? "?" : ""));
  for (const auto& kv : got.range_value_rules) have.insert(kv.first.string() + (range ? "" : "?"));
  c.expect(have == want, "filter-rules", [&] { return str; });
}

// ---- A registry of many types with many states.
void ManyTypes(mc::Ctx& c) {
  const int n = 1 + c.choose(mc::Thorough() ? 12 : 8), m = 1 + c.choose(mc::Thorough() ? 10 : 7);
  const int twice = c.choose(n + 1) - 1;  // The type that is registered again in the end.
  const int bad = c.choose(m + 1) - 1;    // The state that repeats the first one or is unknown to the type.
  const std::string str = std::to_string(n) + " types of " + std::to_string(m) + " states, type " + std::to_string(twice) + " again, state " + std::to_string(bad);
  c.state(mc::Ctx::Hash(str));
  c.trace([&] { return str; });
  RuleRegistry reg;
  auto ref = [&](int t, int i) {
    Ref r;
    r.severity = i % 3;
    r.text = "t" + std::to_string(t) + "s" + std::to_string(i / 3);
    r.min = -i;
    r.max = i;
    return r;
  };
  auto id = [](int t) { return Rule::TypeId("T" + std::to_string(t)); };
  std::vector<std::vector<DiscreteValueRule::DiscreteValue>> d(n);
  std::vector<std::vector<RangeValueRule::Range>> g(n);
  for (int t = 0; t < n; ++t) {
    for (int i = 0; i < m; ++i) d[t].push_back(D(ref(t, i))), g[t].push_back(G(ref(t, i)));
    auto register_it = [&](const Rule::TypeId& type, const auto& dd, const auto& gg) { t % 2 ? reg.RegisterRangeValueRule(type, gg) : reg.RegisterDiscreteValueRule(type, dd); };
    c.op();
    if (bad > 0) {
      auto dd = d[t];
      auto gg = g[t];
      dd[bad] = dd[0];
      gg[bad] = gg[0];
      c.expect(mc::Throws([&] { register_it(id(t), dd, gg); }), "register", str);
    }
    register_it(id(t), d[t], g[t]);
  }
  if (twice >= 0) {
    c.expect(mc::Throws([&] { reg.RegisterRangeValueRule(id(twice), g[twice]); }), "register", str);
    c.expect(mc::Throws([&] { reg.RegisterDiscreteValueRule(id(twice), d[twice]); }), "register", str);
  }
  c.nontrivial();
  for (int t = 0; t < n; ++t) {
    const auto got = reg.GetPossibleStatesOfRuleType(id(t));
    c.op();
    c.expect(got && got->type_id == id(t), "registry-states", str);
    if (t % 2) {
      const auto* v = std::get_if<RuleRegistry::QueryResult::Ranges>(&got->rule_values);
      c.expect(v && *v == g[t] && reg.RangeValueRuleTypes().at(id(t)) == g[t] && !reg.DiscreteValueRuleTypes().count(id(t)), "registry-ranges", str);
    } else {
      const auto* v = std::get_if<RuleRegistry::QueryResult::DiscreteValues>(&got->rule_values);
      c.expect(v && *v == d[t] && reg.DiscreteValueRuleTypes().at(id(t)) == d[t] && !reg.RangeValueRuleTypes().count(id(t)), "registry-values", str);
    }
    // Builds, out of the states in another order and with a wrong one.
    auto dd = d[t];
    auto gg = g[t];
    std::reverse(dd.begin(), dd.end());
    std::reverse(gg.begin(), gg.end());
    bool ok = true;
    if (bad >= 0) {
      ok = false;
      dd[bad] = D(ref(t + 100, bad));
      gg[bad] = G(ref(t + 100, bad));
    }
    bool same = true;
    const bool threw = mc::Throws([&] {
      if (t % 2) {
        same = reg.BuildRangeValueRule(Rule::Id("r"), id(t), Zone(), gg).states() == gg;
      } else {
        same = reg.BuildDiscreteValueRule(Rule::Id("r"), id(t), Zone(), dd).states() == dd;
      }
    });
    c.expect(threw == !ok && same, "registry-build", str);
  }
}

// ---- Yield and bulb groups of states, and of the current state.
class Provider final : public DiscreteValueRuleStateProvider {
 public:
  std::optional<StateResult> r;

 private:
  std::optional<StateResult> DoGetState(const Rule::Id& id) const final { return id == Rule::Id("r") ? r : std::nullopt; }
  std::optional<StateResult> DoGetState(const RoadPosition&, const Rule::TypeId&, double) const final { return {}; }
};

void Tools(mc::Ctx& c) {
  static const std::vector<Groups> ru{{}, {{"Yield Group", {}}}, {{"Yield Group", {"a", "b"}}}, {{"other", {"z"}}}, {{"other", {"z"}}, {"Yield Group", {"c"}}}};
  static const std::vector<Groups> un{{}, {{"Bulb Group", {}}}, {{"Bulb Group", {"p", "q"}}}, {{"other", {"z"}}}, {{"Yield Group", {"z"}}}};
  Ref r;
  r.text = "Go";
  r.rules = c.pick(ru);
  r.uids = c.pick(un);
  Ref first;
  first.text = "Stop";
  const bool row_type = c.flip();
  const std::string id = c.flip() ? "r" : "other";
  const int provider = c.choose(3);  // none, empty, with state
  const DiscreteValueRule rule(Rule::Id(id), row_type ? RightOfWayRuleTypeId() : Rule::TypeId("X"), Zone(), {D(first), D(r)});
  Provider p;
  if (provider == 2) p.r = DiscreteValueRuleStateProvider::StateResult{D(r), std::nullopt};
  const auto ctx = [&] { return Str(r) + " " + std::to_string(row_type) + id + std::to_string(provider); };
  c.state(mc::Ctx::Hash(ctx()));
  const bool has_y = r.rules.count("Yield Group"), has_b = r.uids.count("Bulb Group");
  const bool current = row_type && provider == 2 && id == "r";
  std::vector<Rule::Id> y;
  std::vector<UniqueId> b;
  if (has_y)
    for (const auto& x : r.rules.at("Yield Group")) y.push_back(Rule::Id(x));
  if (has_b)
    for (const auto& x : r.uids.at("Bulb Group")) b.push_back(UniqueId(x));
  auto check = [&](const char* key, bool ok, auto f, const auto& want) {
    c.op();
    bool same = true;
    const bool threw = mc::Throws([&] { same = f() == want; });
    if (ok) c.nontrivial();
    c.expect(threw == !ok && same, key, ctx);
  };
  check("yield-group", has_y, [&] { return GetYieldGroup(D(r)); }, y);
  check("bulb-group", has_b, [&] { return GetBulbGroup(D(r)); }, b);
  check("current-yield-group", has_y && current, [&] { return GetCurrentYieldGroup(rule, provider ? &p : nullptr); }, y);
  check("current-bulb-group", has_b && current, [&] { return GetCurrentBulbGroup(rule, provider ? &p : nullptr); }, b);
}

// ---- The predefined rule types can be registered and offer what they document.
void Predefined(mc::Ctx& c) {
  static const std::vector<std::string> du{"WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Undefined", "Parking"};
  RuleRegistry reg;
  const int order = c.choose(6);
  static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k : perms[order]) {
    const auto t = k == 0 ? BuildDirectionUsageRuleType() : k == 1 ? BuildRightOfWayRuleType() : BuildVehicleStopInZoneBehaviorRuleType();
    c.op();
    reg.RegisterDiscreteValueRule(t.first, t.second);
    c.expect(mc::Throws([&] { reg.RegisterDiscreteValueRule(t.first, t.second); }), "predefined-twice", "registered twice");
    std::set<std::string> have;
    for (const auto& v : t.second) {
      have.insert(v.value + "/" + std::to_string(v.severity));
      c.expect(v.related_rules.empty() && v.related_unique_ids.empty(), "predefined-related", "not empty");
    }
    c.expect(have.size() == t.second.size(), "predefined-unique", "duplicated");
    if (k == 0) {
      std::set<std::string> want;
      for (const auto& x : du) want.insert(x + "/0");
      c.expect(have == want && t.first == DirectionUsageRuleTypeId(), "predefined-direction-usage", "values");
    } else if (k == 1) {
      c.expect(have.size() == 6 && have.count("Go/0") && have.count("Go/1") && have.count("Stop/0") && have.count("Stop/1") && t.first == RightOfWayRuleTypeId(),
               "predefined-right-of-way", "values");
    } else {
      c.expect(have.count("DoNotStop/0") && have.size() == 8 && t.first == VehicleStopInZoneBehaviorRuleTypeId(), "predefined-vehicle-stop", "values");
    }
  }
  c.state(order);
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"equality", "all pairs of rule states over severities, texts, bounds and 15 groupings of related rules / ids", Equality},
                   {"ordering", "all pairs of ranges over severity, text, bounds", Ordering},
                   {"discrete-construction", "all lists of 0..3 discrete values from a pool of 15 valid and invalid ones", Construction<false>},
                   {"range-construction", "all lists of 0..3 ranges from a pool of 22 valid and invalid ones", Construction<true>},
                   {"discrete-states", "states with all lists of up to 4 (5) related rules or ids in any of up to 3 groups, all severities, next to others", States<false>},
                   {"range-states", "the same for ranges, and all bounds of a grid with negatives, infinities and NaN", States<true>},
                   {"many-types", "registries of up to 8 (12) types of up to 7 (10) states, with repeated registrations and states, and builds with unknown states", ManyTypes},
                   {"many-filters", "up to 8 (11) rules and up to 3 (4) filters that reject one each", ManyFilters},
                   {"registry", "all histories of 0..3 (thorough 4) registrations over 2 types, both kinds, 7 lists of states; then every build of up to 2 states", Registry},
                   {"legacy", "all lists of 0..3 state ids, bulb group lists and speed bounds", Legacy},
                   {"filter", "all sets of up to 3 discrete and 2 range rules by type and severity x all filter combinations", Filter},
                   {"tools", "all states with/without yield and bulb groups x rule type, id, provider", Tools},
                   {"predefined", "the predefined rule types, registered in every order", Predefined}});
}
