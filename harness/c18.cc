// Loaders of documents: every document within the bounds, and each of them with one fault.
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <vector>

#include "maliput/base/intersection_book.h"
#include "maliput/base/intersection_book_loader.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_ring_book_loader.h"
#include "maliput/base/road_rulebook_loader.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/rule_registry_loader.h"
#include "maliput/base/traffic_light_book.h"
#include "maliput/base/traffic_light_book_loader.h"
#include "mc.h"
#include "world.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace maliput;
using namespace maliput::api::rules;

namespace {

// A document, as a tree. Each node tells which faults make the document invalid.
struct Doc {
  char kind{'s'};  // s: scalar, l: list, m: map.
  std::string text;
  std::vector<std::string> keys;
  std::vector<Doc> items;
  bool optional{false};    // May be left out.
  bool free{false};        // A scalar that may have any value.
  bool nonempty{false};    // A list that must have elements.
  bool fixed{false};       // A list of a fixed size.
  std::string lenient{};   // Kinds (of scalar s, list l, map m) it may be replaced by.

  Doc Opt() && {
    optional = true;
    return std::move(*this);
  }
  Doc Lenient(const std::string& k) && {
    lenient = k;
    return std::move(*this);
  }
  std::string Text() const {
    if (kind == 's') return text;
    std::string r = kind == 'l' ? "[" : "{";
    for (size_t i = 0; i < items.size(); ++i) {
      r += i ? ", " : "";
      if (kind == 'm') r += "\"" + keys[i] + "\": ";
      r += items[i].Text();
    }
    return r + (kind == 'l' ? "]" : "}");
  }
  int Nodes() const {
    int n = 1;
    for (const Doc& d : items) n += d.Nodes();
    return n;
  }
};
std::string Quote(const std::string& s) { return "\"" + s + "\""; }
Doc Any(const std::string& s) {  // Any value is allowed.
  Doc d;
  d.text = Quote(s);
  d.free = true;
  return d;
}
Doc Word(const std::string& s) {  // One of a set of values.
  Doc d;
  d.text = Quote(s);
  return d;
}
std::string Num(double v) {
  std::ostringstream os;
  os.precision(17);
  os << v;
  return os.str();
}
Doc Number(double v) {
  Doc d;
  d.text = Num(v);
  return d;
}
Doc List(const std::vector<Doc>& items, bool nonempty = false) {
  Doc d;
  d.kind = 'l';
  d.items = items;
  d.nonempty = nonempty;
  for (Doc& i : d.items) i.optional = true;  // Leaving out an element is undecided.
  return d;
}
Doc Numbers(const std::vector<double>& v) {  // Of a fixed size.
  Doc d;
  d.kind = 'l';
  d.nonempty = true;
  d.fixed = true;
  for (double x : v) d.items.push_back(Number(x));
  return d;
}
Doc Words(const std::vector<std::string>& v) {
  std::vector<Doc> r;
  for (const auto& s : v) r.push_back(Any(s));
  return List(r);
}
struct KV {
  std::string k;
  Doc d;
};
Doc Map(const std::vector<KV>& kv) {
  Doc d;
  d.kind = 'm';
  for (const auto& x : kv) {
    d.keys.push_back(x.k);
    d.items.push_back(x.d);
  }
  return d;
}

enum class Verdict { kValid, kInvalid, kUndecided };

// Applies a fault (0..4: leave out, scalar, empty list, empty map, an element more than the fixed size) to the n-th node.
bool Fault(Doc* d, int* n, int fault, Verdict* v, std::string* where) {
  if ((*n)-- == 0) {
    *where = d->Text() + (fault == 1 ? " becomes zzz" : fault == 2 ? " becomes []" : fault == 3 ? " becomes {}" : " has one more");
    bool bad = true;
    if (fault == 1) {
      bad = !(d->kind == 's' && d->free) && d->lenient.find('s') == std::string::npos;
      *d = Word("zzz");
    } else if (fault == 2) {
      bad = d->kind == 'l' ? d->nonempty : d->lenient.find('l') == std::string::npos;
      *d = List({});
    } else if (fault == 4) {
      if (!d->fixed) return false;
      d->items.push_back(d->items.back());
    } else {
      bool required = false;
      for (const Doc& i : d->items) required = required || !i.optional;
      bad = d->kind == 'm' ? required : d->lenient.find('m') == std::string::npos;
      *d = Map({});
    }
    *v = bad ? Verdict::kInvalid : Verdict::kUndecided;
    return true;
  }
  for (size_t i = 0; i < d->items.size(); ++i) {
    if (*n == 0 && fault == 0) {
      *where = (d->kind == 'm' ? d->keys[i] : d->items[i].Text()) + " is missing";
      *v = d->items[i].optional ? Verdict::kUndecided : Verdict::kInvalid;
      d->items.erase(d->items.begin() + i);
      if (d->kind == 'm') d->keys.erase(d->keys.begin() + i);
      return true;
    }
    if (Fault(&d->items[i], n, fault, v, where)) return true;
  }
  return false;
}

// Runs the loader on a document (with up to one fault) and compares what was loaded.
// `want`: the contents, or nullopt when the document is not valid.
void Check(mc::Ctx& c, const Doc& doc, const std::optional<std::string>& want,
           const std::function<std::string(const std::string& text, bool file)>& load, bool faults) {
  Doc d = doc;
  Verdict verdict = want ? Verdict::kValid : Verdict::kInvalid;
  std::string where;
  const bool with_fault = faults && want && c.flip();
  if (with_fault) {
    int n = c.choose(d.Nodes());
    const int fault = c.choose(5);
    c.assume(n > 0 || fault > 0);
    c.assume(Fault(&d, &n, fault, &verdict, &where));
  }
  const std::string text = d.Text();
  c.trace([&] { return text + (where.empty() ? "" : "   <- " + where); });
  c.op();
  c.state(text);
  std::string got, error;
  bool ok = true;
  try {
    got = load(text, false);
  } catch (const std::exception& e) {
    ok = false;
    error = e.what();
  }
  auto what = [&] { return text + (where.empty() ? "" : " <- " + where) + (ok ? " gives " + got : " fails: " + error); };
  if (verdict == Verdict::kUndecided) return;
  if (verdict == Verdict::kInvalid) {
    c.expect(!ok, "an invalid document is accepted", what);
    return;
  }
  c.nontrivial();
  c.expect(ok, "a valid document is rejected", what);
  c.expect(got == *want, "contents", [&] { return what() + " instead of " + *want; });
  if (c.transitions % 64 == 1) {
    const std::string file = mc::Scratch() + "/" + std::to_string(getpid()) + ".yaml";
    std::ofstream(file) << text;
    std::string from_file;
    try {
      from_file = load(file, true);
    } catch (const std::exception& e) {
      from_file = e.what();
    }
    std::remove(file.c_str());
    c.expect(from_file == *want, "contents of the file", [&] { return what() + " from file: " + from_file; });
  }
}

std::string Join(std::vector<std::string> v, bool sort = false) {
  if (sort) std::sort(v.begin(), v.end());
  std::string r;
  for (const auto& s : v) r += (r.empty() ? "" : ",") + s;
  return "<" + r + ">";
}

// --- Dumps.
template <typename T>
std::string Related(const std::map<std::string, std::vector<T>>& m) {
  std::vector<std::string> r;
  for (const auto& kv : m) {
    std::vector<std::string> v;
    for (const auto& x : kv.second) v.push_back(x.string());
    r.push_back(kv.first + ":" + Join(v));
  }
  return Join(r);
}
std::string Dump(const Rule::State& s) { return std::to_string(s.severity) + Related(s.related_rules) + Related(s.related_unique_ids); }
std::string Dump(const DiscreteValueRule::DiscreteValue& v) { return v.value + Dump(static_cast<const Rule::State&>(v)); }
std::string Dump(const RangeValueRule::Range& v) { return Num(v.min) + ".." + Num(v.max) + v.description + Dump(static_cast<const Rule::State&>(v)); }
template <typename T>
std::string DumpAll(const std::vector<T>& v) {
  std::vector<std::string> r;
  for (const auto& x : v) r.push_back(Dump(x));
  return Join(r);
}
std::string Dump(const api::LaneSRange& r) { return r.lane_id().string() + "[" + Num(r.s_range().s0()) + "," + Num(r.s_range().s1()) + "]"; }

// --- Rule registry.
struct State {
  std::optional<int> severity;
  std::vector<std::string> rules, ids;  // Keys.
  bool has_rules{}, has_ids{};
};
std::string DumpKeys(const std::vector<std::string>& keys) {
  std::set<std::string> s(keys.begin(), keys.end());
  std::vector<std::string> r;
  for (const auto& k : s) r.push_back(k + ":<>");
  return Join(r);
}
std::string Dump(const State& s) { return std::to_string(s.severity.value_or(Rule::State::kStrict)) + DumpKeys(s.rules) + DumpKeys(s.ids); }

State ChooseState(mc::Ctx& c, bool full) {
  State s;
  const int sev = c.choose(full ? 5 : 2);
  if (sev) s.severity = sev == 1 ? 1 : sev == 2 ? 0 : sev == 3 ? 4 : -1;
  if (!full) return s;
  const int r = c.choose(4);
  s.has_rules = r != 0;
  if (r == 2) s.rules = {"Yield Group"};
  if (r == 3) s.rules = {"k2", "k1"};
  s.has_ids = c.flip();
  if (s.has_ids) s.ids = {"Bulb Group"};
  return s;
}
void AddState(const State& s, std::vector<KV>* kv) {
  if (s.severity) kv->push_back({"severity", Number(*s.severity).Opt()});
  if (s.has_rules) kv->push_back({"related_rules", Words(s.rules).Opt()});
  if (s.has_ids) kv->push_back({"related_unique_ids", Words(s.ids).Opt()});
}

void Registry(mc::Ctx& c) {
  const int types = 1 + c.choose(2);
  std::vector<KV> kv;
  std::map<std::string, std::string> discrete, range;
  bool valid = true;
  std::set<std::string> names;
  for (int i = 0; i < types; ++i) {
    const std::string name = i == 0 ? "Type A" : c.flip() ? "Type B" : "Type A";
    valid = valid && names.insert(name).second;
    const int n = c.choose(3);
    const int mixed = n == 2 ? c.choose(3) : c.choose(2);  // 0: values, 1: ranges, 2: one of each.
    std::vector<Doc> items;
    std::vector<std::string> dumps;
    valid = valid && n > 0 && mixed < 2;
    for (int k = 0; k < n; ++k) {
      const State s = ChooseState(c, i == 0 && k == 0);
      valid = valid && s.severity.value_or(0) >= 0;
      std::vector<KV> m;
      if (mixed == 0 || (mixed == 2 && k == 1)) {
        const std::string v = k && c.flip() ? "Y" : "X";
        m.push_back({"value", Any(v)});
        dumps.push_back(v + Dump(s));
      } else {
        const int r = c.choose(k ? 2 : 4);
        const double min = r == 2 ? 3. : 1.5, max = r == 1 ? 2.5 : 1.5;
        valid = valid && r < 2;
        m.push_back({"description", Any("d")});
        if (r == 3) {
          Doc list = Numbers({1.});
          m.push_back({"range", list});
        } else {
          m.push_back({"range", Numbers({min, max})});
        }
        dumps.push_back(Num(min) + ".." + Num(max) + "d" + Dump(s));
      }
      AddState(s, &m);
      items.push_back(Map(m));
    }
    valid = valid && std::set<std::string>(dumps.begin(), dumps.end()).size() == dumps.size();
    kv.push_back({name, List(items, true).Opt()});
    (mixed == 0 ? discrete : range)[name] = Join(dumps);
  }
  const Doc doc = Map({{"RuleRegistry", Map(kv)}});
  auto text = [](const std::map<std::string, std::string>& m) {
    std::string r;
    for (const auto& x : m) r += x.first + x.second + ";";
    return r;
  };
  const auto want = valid ? std::optional<std::string>(text(discrete) + "|" + text(range)) : std::nullopt;
  Check(c, doc, want, [&](const std::string& input, bool file) {
    const auto r = file ? LoadRuleRegistryFromFile(input) : LoadRuleRegistry(input);
    std::map<std::string, std::string> d, g;
    for (const auto& x : r->DiscreteValueRuleTypes()) d[x.first.string()] = DumpAll(x.second);
    for (const auto& x : r->RangeValueRuleTypes()) g[x.first.string()] = DumpAll(x.second);
    return text(d) + "|" + text(g);
  }, types == 1 || mc::Thorough());
}

// --- Rulebooks.
const world::World& Road() {
  static world::World* w = [] {
    auto* r = new world::World();
    world::LaneSpec a, b;
    a.id = "lane a";
    a.length = 10.;
    b.id = "b/1";
    b.length = 20.;
    b.pose.origin = math::Vector3(10., 0., 0.);
    r->Road("0", {a});
    r->Road("1", {b});
    r->AutoBranch();
    r->CloseEnds();
    return r;
  }();
  return *w;
}

struct ZoneItem {
  Doc doc;
  std::string dump;
  bool valid{true};
};
// `lane` and `range`: names of the keys.
ZoneItem ChooseZoneItem(mc::Ctx& c, const std::string& lane_key, const std::string& range_key, bool full) {
  ZoneItem z;
  const int l = c.choose(full ? 3 : 2);
  const std::string lane = l == 0 ? "lane a" : l == 1 ? "b/1" : "nowhere";
  const double length = l == 1 ? 20. : 10.;
  std::vector<KV> kv{{lane_key, Word(lane)}};
  z.valid = l < 2;
  static const std::vector<std::vector<double>> ranges{{}, {2., 5.}, {5., 2.}, {0., 11.}, {11., 0.}, {-1., 2.}, {2., -1.}, {1.}, {0., 10.}, {20., 20.}};
  const int r = full ? c.choose(ranges.size()) : c.choose(2);
  if (r == 0) {
    z.dump = lane + "[0," + Num(length) + "]";
  } else {
    const auto& v = ranges[r];
    kv.push_back({range_key, Numbers(v).Opt()});
    z.valid = z.valid && v.size() == 2 && *std::min_element(v.begin(), v.end()) >= 0. && *std::max_element(v.begin(), v.end()) <= length;
    if (v.size() == 2) z.dump = lane + "[" + Num(v[0]) + "," + Num(v[1]) + "]";
  }
  z.doc = Map(kv);
  return z;
}

std::string Dump(const DirectionUsageRule& r) {
  std::vector<std::string> s;
  for (const auto& x : r.states()) {
    s.push_back(x.first.string() + "/" + std::to_string(static_cast<int>(x.second.type())) + "/" + std::to_string(static_cast<int>(x.second.severity())));
  }
  return r.id().string() + Dump(r.zone()) + Join(s, true);
}
std::string Dump(const RightOfWayRule& r) {
  std::vector<std::string> s, b, z;
  for (const auto& x : r.states()) {
    std::vector<std::string> y;
    for (const auto& id : x.second.yield_to()) y.push_back(id.string());
    s.push_back(x.first.string() + "/" + std::to_string(static_cast<int>(x.second.type())) + Join(y));
  }
  for (const auto& x : r.related_bulb_groups()) {
    std::vector<std::string> g;
    for (const auto& id : x.second) g.push_back(id.string());
    b.push_back(x.first.string() + Join(g));
  }
  for (const auto& x : r.zone().ranges()) z.push_back(Dump(x));
  return r.id().string() + Join(z) + std::to_string(static_cast<int>(r.zone_type())) + Join(s, true) + Join(b, true);
}
template <typename R>
std::string DumpNew(const R& r, const std::string& states) {
  std::vector<std::string> z;
  for (const auto& x : r.zone().ranges()) z.push_back(Dump(x));
  return r.id().string() + "(" + r.type_id().string() + ")" + Join(z) + states;
}
// `sort`: the order of the states of discrete rules comes from an unordered map.
std::string Dump(const RoadRulebook& b, bool sort) {
  const auto q = b.Rules();
  std::string t;
  for (const auto& x : q.right_of_way) t += Dump(x.second) + "; ";
  t += "| ";
  for (const auto& x : q.direction_usage) t += Dump(x.second) + "; ";
  t += "| ";
  for (const auto& x : q.discrete_value_rules) {
    // Ids of bulb groups come from an unordered map.
    std::vector<std::string> s;
    for (const auto& v : x.second.states()) {
      auto sorted = v;
      for (auto& ids : sorted.related_unique_ids) {
        std::sort(ids.second.begin(), ids.second.end(), [](const auto& i, const auto& k) { return i.string() < k.string(); });
      }
      s.push_back(Dump(sorted));
    }
    t += DumpNew(x.second, Join(s, sort)) + "; ";
  }
  t += "| ";
  for (const auto& x : q.range_value_rules) t += DumpNew(x.second, DumpAll(x.second.states())) + "; ";
  t += "| " + std::to_string(q.speed_limit.size());
  return t;
}

void Rulebook(mc::Ctx& c) {
  static const RuleRegistry* registry = [] {
    auto* r = new RuleRegistry();
    r->RegisterDiscreteValueRule(Rule::TypeId("D"), {{0, {}, {}, "A"}, {1, {}, {}, "A"}, {0, {}, {}, "B"}});
    r->RegisterRangeValueRule(Rule::TypeId("R"), {{0, {}, {}, "d1", 1., 2.}, {1, {}, {}, "d2", 3., 4.}});
    return r;
  }();
  struct Value {
    std::string v;
    int severity;
  };
  static const std::vector<Value> values{{"A", -1}, {"A", 0}, {"A", 1}, {"B", -1}, {"B", 1}, {"C", 0}, {"A", -2}};
  struct Interval {
    double min, max;
    std::string d;
    int severity;
  };
  static const std::vector<Interval> intervals{{1., 2., "d1", -1}, {3., 4., "d2", 1}, {3., 4., "d2", 0}, {1., 2., "d2", 0}, {1., 3., "d1", 0}, {2., 1., "d1", 0}};
  bool valid = true;
  std::vector<Doc> rules;
  std::map<std::string, std::string> discrete, range;
  const int n = c.choose(3);
  // What is varied in full: 0: zones, 1: states, 2: the relation of two rules.
  const int focus = n == 2 ? 2 : c.choose(2);
  for (int i = 0; i < n; ++i) {
    const std::string id = i == 1 && c.flip() ? "D/1" : i == 1 ? "other" : "D/1";
    const bool is_discrete = c.flip();
    const int t = focus == 2 ? 0 : c.choose(3);
    const std::string type = t == 0 ? (is_discrete ? "D" : "R") : t == 1 ? (is_discrete ? "R" : "D") : "unknown";
    valid = valid && t == 0;
    const int nz = focus == 0 ? 1 + c.choose(2) : 1;
    std::vector<Doc> zone;
    std::vector<std::string> zd;
    for (int k = 0; k < nz; ++k) {
      const ZoneItem z = ChooseZoneItem(c, "lane_id", "s_range", focus == 0);
      zone.push_back(z.doc);
      zd.push_back(z.dump);
      valid = valid && z.valid;
    }
    const int ns = focus == 1 ? c.choose(3) : 1;
    valid = valid && ns > 0;
    std::vector<Doc> states;
    std::vector<std::string> sd;
    for (int k = 0; k < ns; ++k) {
      std::vector<KV> m;
      int severity;
      std::string d;
      bool known;
      if (is_discrete) {
        const Value v = focus == 1 ? c.pick(values) : values[0];
        severity = v.severity;
        m.push_back({"value", Word(v.v)});
        d = v.v;
        known = severity != -2 && (v.v == "A" || (v.v == "B" && severity <= 0));
      } else {
        const Interval v = focus == 1 ? c.pick(intervals) : intervals[0];
        severity = v.severity;
        m.push_back({"range", Numbers({v.min, v.max})});
        m.push_back({"description", Word(v.d)});
        d = Num(v.min) + ".." + Num(v.max) + v.d;
        known = (v.d == "d1" && v.min == 1. && v.max == 2. && severity <= 0) || (v.d == "d2" && v.min == 3. && severity == 1);
      }
      valid = valid && known;
      if (severity != -1) m.push_back({"severity", Number(severity == -2 ? -1 : severity).Opt()});
      d += std::to_string(severity < 0 ? 0 : severity);
      // Related rules and ids.
      const int rel = focus == 1 && k == 0 ? c.choose(3) : 0;
      if (rel == 0) {
        m.push_back({"related_rules", List({})});
        m.push_back({"related_unique_ids", List({})});
        d += "<><>";
      } else if (rel == 1) {
        m.push_back({"related_rules", List({Map({{"Yield Group", Words({"r2", "r1"}).Opt().Lenient("sm")}}).Lenient("sl"), Map({{"x", Words({"r3"}).Opt().Lenient("sm")}}).Lenient("sl")})});
        m.push_back({"related_unique_ids", List({})});
        d += "<Yield Group:<r2,r1>,x:<r3>><>";
      } else {
        m.push_back({"related_rules", List({})});
        m.push_back({"related_unique_ids", List({Map({{"Bulb Group", Words({"u1", "u2"}).Opt().Lenient("sm")}, {"Other", Words({"u1"}).Opt().Lenient("sm")}}).Lenient("sl")})});
        d += "<><Bulb Group:<u1,u2>,Other:<u1>>";
      }
      states.push_back(Map(m));
      sd.push_back(d);
    }
    // The states of a rule are unique.
    valid = valid && std::set<std::string>(sd.begin(), sd.end()).size() == sd.size();
    rules.push_back(Map({{"id", Any(id)}, {"type", Word(type)}, {"zone", List(zone)}, {is_discrete ? "values" : "ranges", List(states, true)}}));
    auto& m = is_discrete ? discrete : range;
    valid = valid && !discrete.count(id) && !range.count(id);
    m[id] = id + "(" + type + ")" + Join(zd) + Join(sd);
  }
  std::string want = "| | ";
  for (const auto& x : discrete) want += x.second + "; ";
  want += "| ";
  for (const auto& x : range) want += x.second + "; ";
  want += "| 0";
  Check(c, Map({{"RoadRulebook", List(rules)}}), valid ? std::optional<std::string>(want) : std::nullopt, [&](const std::string& input, bool file) {
    return Dump(*(file ? LoadRoadRulebookFromFile(Road().rg.get(), input, *registry) : LoadRoadRulebook(Road().rg.get(), input, *registry)), false);
  }, true);
}

void OldRulebook(mc::Ctx& c) {
  bool valid = true;
  std::vector<Doc> row, dir;
  std::map<std::string, std::string> row_dump, dir_dump, discrete;
  const int focus = c.choose(3);  // 0: zones, 1: states, 2: direction usage.
  const int n = focus == 2 ? c.choose(2) : 1 + (focus == 1 ? c.choose(2) : 0);
  for (int i = 0; i < n; ++i) {
    const std::string id = i == 1 && c.flip() ? "r2" : "r1";
    valid = valid && !row_dump.count(id);
    std::vector<Doc> zone;
    std::vector<std::string> zd;
    const int nz = focus == 0 ? 1 + c.choose(2) : 1;
    for (int k = 0; k < nz; ++k) {
      const ZoneItem z = focus == 2 ? ZoneItem{Map({{"Lane", Word("b/1")}}), "b/1[0,20]"} : ChooseZoneItem(c, "Lane", "SRange", focus == 0);
      zone.push_back(z.doc);
      zd.push_back(z.dump);
      valid = valid && z.valid;
    }
    std::vector<KV> states;
    std::vector<std::string> sd, dd;
    static const std::vector<std::string> names{"Go", "Stop", "StopThenGo"};
    const int set = focus == 1 ? (i == 0 ? c.choose(9) : 1 + c.choose(2)) : 3;  // Subset of the names; 8: an unknown name.
    valid = valid && set != 0 && set != 8;
    const int groups = focus == 1 && i == 0 ? c.choose(5) : 0;
    std::vector<std::string> ids;  // Related bulb groups.
    if (groups == 2 || groups == 3) ids = {"t1-g1", "t1-g2"};
    if (groups == 3) ids.push_back("t2-g1");
    for (int k = 0; k < 3; ++k) {
      if (!(set & (1 << k))) continue;
      std::vector<std::string> yield;
      if (focus == 1 && k == 0 && i == 0 && c.flip()) yield = {"y1", "y2"};
      states.push_back({names[k], Words(yield).Opt()});
      sd.push_back(names[k] + "/" + std::to_string(static_cast<int>(k == 0 ? RightOfWayRule::State::Type::kGo : k == 1 ? RightOfWayRule::State::Type::kStop : RightOfWayRule::State::Type::kStopThenGo)) + Join(yield));
      std::vector<std::string> y;
      for (const auto& s : yield) y.push_back("Right-Of-Way Rule Type/" + s);
      dd.push_back(names[k] + "0" + Join({"Vehicle-Stop-In-Zone-Behavior Rule Type:<Vehicle-Stop-In-Zone-Behavior Rule Type/" + id + ">", "Yield Group:" + Join(y)}) + "<Bulb Group:" + Join(ids) + ">");
    }
    if (set == 8) states = {{"Go", Words({})}, {"Yield", Words({})}};
    std::vector<KV> kv{{"ID", Any(id)}};
    Doc st = Map(states);
    kv.push_back({"Zone", List(zone)});
    const int zone_type = focus == 0 ? c.choose(4) : 0;
    if (zone_type) kv.push_back({"ZoneType", Word(zone_type == 1 ? "StopExcluded" : zone_type == 2 ? "StopAllowed" : "Stop").Opt()});
    valid = valid && zone_type != 3;
    const bool excluded = zone_type < 2;
    std::string groups_dump = "<>";
    if (groups == 1) kv.push_back({"RelatedBulbGroups", Map({}).Opt()});
    if (groups == 2) kv.push_back({"RelatedBulbGroups", Map({{"t1", Words({"g1", "g2"}).Opt().Lenient("sm")}}).Opt()}), groups_dump = "<t1<g1,g2>>";
    if (groups == 3) kv.push_back({"RelatedBulbGroups", Map({{"t1", Words({"g1", "g2"}).Opt().Lenient("sm")}, {"t2", Words({"g1"}).Opt().Lenient("sm")}}).Opt()}), groups_dump = "<t1<g1,g2>,t2<g1>>";
    if (groups == 4) kv.push_back({"RelatedBulbGroups", Map({{"t1", Words({"g1", "g1"}).Opt().Lenient("sm")}}).Opt()});
    valid = valid && groups != 4;
    kv.push_back({"States", st});
    row.push_back(Map(kv));
    const std::string z = Join(zd);
    std::sort(sd.begin(), sd.end());
    row_dump[id] = id + z + std::to_string(static_cast<int>(excluded ? RightOfWayRule::ZoneType::kStopExcluded : RightOfWayRule::ZoneType::kStopAllowed)) + Join(sd) + groups_dump;
    const std::string v = "Vehicle-Stop-In-Zone-Behavior Rule Type", w = "Right-Of-Way Rule Type";
    discrete[v + "/" + id] = v + "/" + id + "(" + v + ")" + z + "<" + (excluded ? "DoNotStop" : "UnconstrainedParking") + "0<><>>";
    discrete[w + "/" + id] = w + "/" + id + "(" + w + ")" + z + Join(dd, true);
  }
  const int nd = focus == 2 ? 1 + c.choose(2) : 0;
  static const std::map<std::string, int> types{{"WithS", static_cast<int>(DirectionUsageRule::State::Type::kWithS)}, {"AgainstS", static_cast<int>(DirectionUsageRule::State::Type::kAgainstS)}, {"Bidirectional", static_cast<int>(DirectionUsageRule::State::Type::kBidirectional)}, {"BidirectionalTurnOnly", static_cast<int>(DirectionUsageRule::State::Type::kBidirectionalTurnOnly)}, {"NoUse", static_cast<int>(DirectionUsageRule::State::Type::kNoUse)}, {"Parking", static_cast<int>(DirectionUsageRule::State::Type::kParking)}};
  static const std::vector<std::string> words{"WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking", "Sideways"};
  for (int i = 0; i < nd; ++i) {
    const std::string id = i == 1 && c.flip() ? "d2" : "d1";
    valid = valid && !dir_dump.count(id);
    const ZoneItem z = ChooseZoneItem(c, "Lane", "SRange", i == 0);
    valid = valid && z.valid;
    const int ns = i == 0 ? c.choose(3) : 1;
    valid = valid && ns > 0;
    std::vector<Doc> states;
    std::vector<std::string> sd;
    std::set<std::string> ids;
    for (int k = 0; k < ns; ++k) {
      const std::string sid = k == 1 && c.flip() ? "s2" : "s1";
      valid = valid && ids.insert(sid).second;
      const std::string type = i == 0 && k == 0 ? c.pick(words) : "AgainstS";
      const int sev = i == 0 && k == 0 ? c.choose(3) : 1;
      valid = valid && types.count(type) && sev < 2;
      states.push_back(Map({{"ID", Any(sid)}, {"Type", Word(type)}, {"Severity", Word(sev == 0 ? "Strict" : sev == 1 ? "Preferred" : "Optional")}}));
      if (valid) sd.push_back(sid + "/" + std::to_string(types.at(type)) + "/" + std::to_string(static_cast<int>(sev == 0 ? DirectionUsageRule::State::Severity::kStrict : DirectionUsageRule::State::Severity::kPreferred)));
    }
    dir.push_back(Map({{"ID", Any(id)}, {"Zone", z.doc}, {"States", List(states, true)}}));
    dir_dump[id] = id + z.dump + Join(sd, true);
  }
  std::string want;
  for (const auto& x : row_dump) want += x.second + "; ";
  want += "| ";
  for (const auto& x : dir_dump) want += x.second + "; ";
  want += "| ";
  for (const auto& x : discrete) want += x.second + "; ";
  want += "| | 0";
  Check(c, Map({{"RoadRulebook", Map({{"RightOfWayRules", List(row)}, {"DirectionUsageRules", List(dir)}})}}), valid ? std::optional<std::string>(want) : std::nullopt, [&](const std::string& input, bool file) {
    return Dump(*(file ? LoadRoadRulebookFromFile(Road().rg.get(), input) : LoadRoadRulebook(Road().rg.get(), input)), true);
  }, true);
}

// --- Traffic lights.
std::string Dump(const math::Vector3& v) { return Num(v.x()) + "," + Num(v.y()) + "," + Num(v.z()); }
// The rotation may be normalized: up to rounding.
std::string DumpRotation(double w, double x, double y, double z) {
  std::ostringstream os;
  os.precision(12);
  os << w << "," << x << "," << y << "," << z;
  return os.str();
}
std::string Dump(const api::Rotation& r) { return DumpRotation(r.quat().w(), r.quat().x(), r.quat().y(), r.quat().z()); }
template <typename P>
std::string Pose(const P& p, const api::Rotation& r) { return "(" + Dump(p.xyz()) + ";" + Dump(r) + ")"; }

std::string DefaultBox() { return Num(-.0889) + "," + Num(-.1778) + "," + Num(-.1778) + "," + Num(.0889) + "," + Num(.1778) + "," + Num(.1778); }
std::string LoadLights(const std::string& input, bool file) {
  const auto book = file ? LoadTrafficLightBookFromFile(input) : LoadTrafficLightBook(input);
  std::map<std::string, std::string> r;
  for (const TrafficLight* l : book->TrafficLights()) {
    std::string t = l->id().string() + Pose(l->position_road_network(), l->orientation_road_network());
    if (book->GetTrafficLight(l->id()) != l) t += "!";
    for (const BulbGroup* g : l->bulb_groups()) {
      t += " {" + g->id().string() + Pose(g->position_traffic_light(), g->orientation_traffic_light());
      if (l->GetBulbGroup(g->id()) != g || g->traffic_light() != l) t += "!";
      for (const Bulb* b : g->bulbs()) {
        if (g->GetBulb(b->id()) != b || b->bulb_group() != g) t += "!";
        std::vector<std::string> s;
        for (BulbState x : b->states()) s.push_back(std::to_string(static_cast<int>(x)));
        t += " " + b->id().string() + Pose(b->position_bulb_group(), b->orientation_bulb_group()) + std::to_string(static_cast<int>(b->color())) +
             (b->type() == BulbType::kArrow ? "Arrow" : "Round") + (b->arrow_orientation_rad() ? Num(*b->arrow_orientation_rad()) : "") + Join(s, true) +
             Dump(b->bounding_box().p_BMin) + "," + Dump(b->bounding_box().p_BMax) + " " + b->unique_id().string();
      }
      t += "}";
    }
    r[l->id().string()] = t;
  }
  std::string t;
  for (const auto& x : r) t += x.second + "; ";
  return t;
}

void Lights(mc::Ctx& c) {
  bool valid = true;
  // Of each light, group or bulb: a different pose, with an exact unit quaternion.
  int count = 0;
  auto pose = [&](const std::string& frame, std::string* dump) {
    static const std::vector<std::vector<double>> q{{1., 0., 0., 0.}, {.5, .5, -.5, .5}, {0., 0., 1., 0.}, {.6, 0., 0., -.8}, {0., .8, .6, 0.}};
    const auto& r = q[count % q.size()];
    const std::vector<double> p{count + .5, -2. * count, 3.};
    ++count;
    *dump = "(" + Num(p[0]) + "," + Num(p[1]) + "," + Num(p[2]) + ";" + DumpRotation(r[0], r[1], r[2], r[3]) + ")";
    return Map({{"position_" + frame, Numbers(p)}, {"orientation_" + frame, Numbers(r)}});
  };
  auto name = [&](const std::string& prefix, int i, std::set<std::string>* names, bool repeat) {
    const std::string r = prefix + (i > 0 && !(repeat && c.flip()) ? std::to_string(i) : "");
    valid = valid && names->insert(r).second;
    return r;
  };
  std::vector<Doc> lights;
  std::map<std::string, std::string> dumps;
  std::set<std::string> light_names;
  const int nl = c.choose(3);
  for (int i = 0; i < nl; ++i) {
    std::string text, p;
    const std::string id = name("light", i, &light_names, true);
    const Doc light_pose = pose("road_network", &p);
    text = id + p;
    std::vector<Doc> groups;
    std::set<std::string> group_names;
    const int ng = i == 0 ? c.choose(3) : 0;
    for (int g = 0; g < ng; ++g) {
      const std::string gid = name("group", g, &group_names, true);
      const Doc group_pose = pose("traffic_light", &p);
      text += " {" + gid + p;
      std::vector<Doc> bulbs;
      std::set<std::string> bulb_names;
      const int nb = nl == 1 && (g == 0 || mc::Thorough()) ? c.choose(3) : 1;
      valid = valid && nb > 0;
      for (int b = 0; b < nb; ++b) {
        const bool full = nl == 1 && ng == 1 && b + 1 == nb;
        const std::string bid = name("bulb", b, &bulb_names, true);
        const Doc bulb_pose = pose("bulb_group", &p);
        static const std::vector<std::string> colors{"Red", "Yellow", "Green", "Blue"};
        static const std::map<std::string, BulbColor> color_of{{"Red", BulbColor::kRed}, {"Yellow", BulbColor::kYellow}, {"Green", BulbColor::kGreen}, {"Blue", BulbColor::kRed}};
        const std::string color = full ? c.pick(colors) : "Green";
        valid = valid && color != "Blue";
        const int arrow = full ? c.choose(4) : 0;  // 0: round, 1: arrow, 2: arrow without orientation, 3: other.
        valid = valid && arrow < 2;
        std::vector<KV> kv{{"ID", Any(bid)}, {"Pose", bulb_pose}, {"Color", Word(color)}, {"Type", Word(arrow == 0 ? "Round" : arrow == 3 ? "Square" : "Arrow")}};
        if (arrow == 1) kv.push_back({"ArrowOrientation", Number(.75)});
        static const std::vector<std::vector<std::string>> state_sets{{}, {"On"}, {"Off", "Blinking"}, {"Blinking", "On", "Off"}, {"On", "Dim"}};
        static const std::map<std::string, BulbState> state_of{{"On", BulbState::kOn}, {"Off", BulbState::kOff}, {"Blinking", BulbState::kBlinking}, {"Dim", BulbState::kOff}};
        const int states = full ? c.choose(state_sets.size()) : 0;
        valid = valid && states != 4;
        std::vector<std::string> sd{std::to_string(static_cast<int>(BulbState::kOff)), std::to_string(static_cast<int>(BulbState::kOn))};
        if (states) {
          std::vector<Doc> s;
          sd.clear();
          for (const auto& x : state_sets[states]) {
            s.push_back(Word(x));
            sd.push_back(std::to_string(static_cast<int>(state_of.at(x))));
          }
          kv.push_back({"States", List(s).Opt()});
        }
        std::string box = DefaultBox();
        if (full && c.flip()) {
          kv.push_back({"BoundingBox", Map({{"min", Numbers({-1., -2., -3.})}, {"max", Numbers({1.5, 2.5, 3.5})}}).Opt()});
          box = "-1,-2,-3,1.5,2.5,3.5";
        }
        bulbs.push_back(Map(kv));
        text += " " + bid + p + std::to_string(static_cast<int>(color_of.at(color))) + (arrow ? "Arrow0.75" : "Round") + Join(sd, true) + box + " " + id + "-" + gid + "-" + bid;
      }
      groups.push_back(Map({{"ID", Any(gid)}, {"Pose", group_pose}, {"Bulbs", List(bulbs, true)}}));
      text += "}";
    }
    lights.push_back(Map({{"ID", Any(id)}, {"Pose", light_pose}, {"BulbGroups", List(groups)}}));
    dumps[id] = text;
  }
  std::string want;
  for (const auto& x : dumps) want += x.second + "; ";
  Check(c, Map({{"TrafficLights", List(lights)}}), valid ? std::optional<std::string>(want) : std::nullopt, LoadLights, true);
}

// --- Larger documents. Sizes are enumerated; contents follow from the positions. `flaw` spoils the last element.
std::string W(const std::string& s, int i) { return s + std::to_string(i); }
// From `lo` to `hi`; quick: two small ones and the largest one.
int Size(mc::Ctx& c, int lo, int hi) {
  if (mc::Thorough()) return lo + c.choose(hi - lo + 1);
  const int k = c.choose(3);
  return k == 2 ? hi : lo + k;
}
std::vector<std::string> Many(const std::string& s, int n) {
  std::vector<std::string> r;
  for (int i = 0; i < n; ++i) r.push_back(W(s, (i * 3 + 1) % 7));
  return r;
}

void ManyRegistry(mc::Ctx& c) {
  const int types = Size(c, 1, 6), states = Size(c, 1, 6), words = Size(c, 0, 5), pattern = c.choose(3);
  const int flaw = c.choose(5);  // 1: a repeated state, 2: a state of the other kind, 3: a negative severity, 4: no value.
  c.assume(flaw != 1 || states > 1);
  c.assume(flaw != 2 || states > 1);
  std::vector<KV> kv;
  std::map<std::string, std::string> discrete, range;
  for (int i = 0; i < types; ++i) {
    const bool values = pattern == 0 || (pattern == 2 && i % 2 == 0);
    std::vector<Doc> items;
    std::vector<std::string> dumps;
    for (int k = 0; k < states; ++k) {
      const bool last = i + 1 == types && k + 1 == states;
      const int x = last && flaw == 1 ? 0 : k;
      State s;
      s.severity = last && flaw == 3 ? -1 : 3 * x + i;
      s.has_rules = s.has_ids = true;
      s.rules = Many("rule ", words);
      s.ids = Many("id ", words);
      std::vector<KV> m;
      if (values != (last && flaw == 2)) {
        if (!(last && flaw == 4)) m.push_back({"value", Any(W("v", x))});
        dumps.push_back(W("v", x) + Dump(s));
      } else {
        if (!(last && flaw == 4)) m.push_back({"description", Any(W("d", x))});
        m.push_back({"range", Numbers({-.1 * x, .1 + x})});
        dumps.push_back(Num(-.1 * x) + ".." + Num(.1 + x) + W("d", x) + Dump(s));
      }
      AddState(s, &m);
      items.push_back(Map(m));
    }
    const std::string name = W("type ", (i * 5) % 7);
    kv.push_back({name, List(items, true).Opt()});
    (values ? discrete : range)[name] = Join(dumps);
  }
  auto text = [](const std::map<std::string, std::string>& m) {
    std::string r;
    for (const auto& x : m) r += x.first + x.second + ";";
    return r;
  };
  Check(c, Map({{"RuleRegistry", Map(kv)}}), flaw ? std::nullopt : std::optional<std::string>(text(discrete) + "|" + text(range)), [&](const std::string& input, bool file) {
    const auto r = file ? LoadRuleRegistryFromFile(input) : LoadRuleRegistry(input);
    std::map<std::string, std::string> d, g;
    for (const auto& x : r->DiscreteValueRuleTypes()) d[x.first.string()] = DumpAll(x.second);
    for (const auto& x : r->RangeValueRuleTypes()) g[x.first.string()] = DumpAll(x.second);
    return text(d) + "|" + text(g);
  }, types == 2 && states == 2);
}

// The k-th range of a zone; the flawed one leaves the lane.
ZoneItem ManyZone(const std::string& lane_key, const std::string& range_key, int k, bool flawed) {
  ZoneItem z;
  const bool a = k % 2 == 0;
  const std::string lane = a ? "lane a" : "b/1";
  const double s0 = .1 * k, s1 = flawed ? (a ? 10.1 : 20.1) : k % 3 == 2 ? 0. : 9.9 - .1 * k;
  z.doc = Map({{lane_key, Word(lane)}, {range_key, Numbers({s0, s1}).Opt()}});
  z.dump = lane + "[" + Num(s0) + "," + Num(s1) + "]";
  return z;
}

void ManyRules(mc::Ctx& c) {
  static const RuleRegistry* registry = [] {
    auto* r = new RuleRegistry();
    std::vector<DiscreteValueRule::DiscreteValue> values;
    std::vector<RangeValueRule::Range> ranges;
    for (int k = 0; k < 6; ++k) {
      values.push_back({k % 4, {}, {}, W("v", k)});
      ranges.push_back({k % 4, {}, {}, W("d", k), -.1 * k, .1 + k});
    }
    r->RegisterDiscreteValueRule(Rule::TypeId("D"), values);
    r->RegisterRangeValueRule(Rule::TypeId("R"), ranges);
    return r;
  }();
  const int n = Size(c, 1, 5), zones = Size(c, 1, 5), states = Size(c, 1, 5), groups = Size(c, 0, 3), words = Size(c, 0, 4), pattern = c.choose(3);
  c.assume(groups || !words);
  const int flaw = c.choose(5);  // 1: an unknown state, 2: a zone out of its lane, 3: a repeated id, 4: a repeated state.
  c.assume(flaw != 3 || n > 1);
  c.assume(flaw != 4 || states > 1);
  std::vector<Doc> rules;
  std::map<std::string, std::string> discrete, range;
  for (int i = 0; i < n; ++i) {
    const bool values = pattern == 0 || (pattern == 2 && i % 2 == 0);
    const bool last_rule = i + 1 == n;
    const std::string id = W("rule ", last_rule && flaw == 3 ? 0 : (5 * i) % 7);
    std::vector<Doc> zone, list;
    std::vector<std::string> zd, sd;
    for (int k = 0; k < zones; ++k) {
      const ZoneItem z = ManyZone("lane_id", "s_range", k, last_rule && k + 1 == zones && flaw == 2);
      zone.push_back(z.doc);
      zd.push_back(z.dump);
    }
    for (int k = 0; k < states; ++k) {
      const bool last = last_rule && k + 1 == states;
      const int x = last && flaw == 4 ? 0 : k;
      std::vector<KV> m;
      std::string d;
      if (values) {
        d = W("v", last && flaw == 1 ? 9 : x);
        m.push_back({"value", Word(d)});
      } else {
        const std::string desc = W("d", last && flaw == 1 ? 9 : x);
        m.push_back({"range", Numbers({-.1 * x, .1 + x})});
        m.push_back({"description", Word(desc)});
        d = Num(-.1 * x) + ".." + Num(.1 + x) + desc;
      }
      m.push_back({"severity", Number(x % 4).Opt()});
      d += std::to_string(x % 4);
      std::vector<Doc> rel, ids;
      std::map<std::string, std::string> rel_dump, ids_dump;
      for (int g = 0; g < groups; ++g) {
        auto w = Many("x" + std::to_string(x), words);
        const std::string key = W("group ", (g * 3) % 5);
        rel.push_back(Map({{key, Words(w).Opt().Lenient("sm")}}).Lenient("sl"));
        ids.push_back(Map({{key, Words(w).Opt().Lenient("sm")}}).Lenient("sl"));
        if (words) rel_dump[key] = key + ":" + Join(w), ids_dump[key] = key + ":" + Join(w, values);
      }
      m.push_back({"related_rules", List(rel)});
      m.push_back({"related_unique_ids", List(ids)});
      for (const auto* dump : {&rel_dump, &ids_dump}) {
        std::vector<std::string> v;
        for (const auto& y : *dump) v.push_back(y.second);
        d += Join(v);
      }
      list.push_back(Map(m));
      sd.push_back(d);
    }
    rules.push_back(Map({{"id", Any(id)}, {"type", Word(values ? "D" : "R")}, {"zone", List(zone)}, {values ? "values" : "ranges", List(list, true)}}));
    (values ? discrete : range)[id] = id + "(" + (values ? "D" : "R") + ")" + Join(zd) + Join(sd);
  }
  std::string want = "| | ";
  for (const auto& x : discrete) want += x.second + "; ";
  want += "| ";
  for (const auto& x : range) want += x.second + "; ";
  want += "| 0";
  Check(c, Map({{"RoadRulebook", List(rules)}}), flaw ? std::nullopt : std::optional<std::string>(want), [&](const std::string& input, bool file) {
    return Dump(*(file ? LoadRoadRulebookFromFile(Road().rg.get(), input, *registry) : LoadRoadRulebook(Road().rg.get(), input, *registry)), false);
  }, n == 2 && zones == 2 && states == 2 && groups == 1 && words == 1);
}

void ManyOldRules(mc::Ctx& c) {
  const int n = Size(c, 0, 5), zones = Size(c, 1, 4), yields = Size(c, 0, 4), lights = Size(c, 0, 3), groups = Size(c, 1, 4), nd = Size(c, 0, 5), states = Size(c, 1, 5);
  c.assume(n || (zones == 1 && yields == 0 && lights == 0));
  c.assume(lights || groups == 1);
  c.assume(nd || states == 1);
  c.assume(mc::Thorough() || n == 0 || nd == 0 || nd == n);
  const int flaw = c.choose(4);  // 1: a zone out of its lane, 2: a repeated id of a right of way rule, 3: a repeated id of a direction usage rule.
  c.assume(flaw != 1 || n > 0);
  c.assume(flaw != 2 || n > 1);
  c.assume(flaw != 3 || nd > 1);
  std::vector<Doc> row, dir;
  std::map<std::string, std::string> row_dump, dir_dump, discrete;
  const std::string v = "Vehicle-Stop-In-Zone-Behavior Rule Type", w = "Right-Of-Way Rule Type";
  for (int i = 0; i < n; ++i) {
    const std::string id = W("r", i + 1 == n && flaw == 2 ? 0 : (5 * i) % 7);
    std::vector<Doc> zone;
    std::vector<std::string> zd, gd, ids;
    for (int k = 0; k < zones; ++k) {
      const ZoneItem z = ManyZone("Lane", "SRange", k, i + 1 == n && k + 1 == zones && flaw == 1);
      zone.push_back(z.doc);
      zd.push_back(z.dump);
    }
    const auto y = Many("y", yields);
    std::vector<std::string> yd;
    for (const auto& s : y) yd.push_back(w + "/" + s);
    std::vector<KV> g;
    for (int k = 0; k < lights; ++k) {
      const std::string t = W("t", (k * 3) % 5);
      g.push_back({t, Words(Many("g", groups)).Opt().Lenient("sm")});
      gd.push_back(t + Join(Many("g", groups)));
      for (const auto& s : Many("g", groups)) ids.push_back(t + "-" + s);
    }
    const bool stop = i % 2 == 0;
    const std::string z = Join(zd), state = stop ? "Stop" : "StopThenGo";
    const auto type = stop ? RightOfWayRule::State::Type::kStop : RightOfWayRule::State::Type::kStopThenGo;
    row.push_back(Map({{"ID", Any(id)}, {"Zone", List(zone)}, {"ZoneType", Word(stop ? "StopAllowed" : "StopExcluded").Opt()}, {"RelatedBulbGroups", Map(g).Opt()}, {"States", Map({{"Go", Words(y).Opt()}, {state, Words({}).Opt()}})}}));
    row_dump[id] = id + z + std::to_string(static_cast<int>(stop ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded)) +
                   Join({"Go/" + std::to_string(static_cast<int>(RightOfWayRule::State::Type::kGo)) + Join(y), state + "/" + std::to_string(static_cast<int>(type)) + "<>"}, true) + Join(gd, true);
    auto value = [&](const std::string& s, const std::vector<std::string>& yield) {
      return s + "0" + Join({v + ":<" + v + "/" + id + ">", "Yield Group:" + Join(yield)}) + "<Bulb Group:" + Join(ids, true) + ">";
    };
    discrete[v + "/" + id] = v + "/" + id + "(" + v + ")" + z + "<" + (stop ? "UnconstrainedParking" : "DoNotStop") + "0<><>>";
    discrete[w + "/" + id] = w + "/" + id + "(" + w + ")" + z + Join({value("Go", yd), value(state, {})}, true);
  }
  for (int i = 0; i < nd; ++i) {
    const std::string id = W("d", i + 1 == nd && flaw == 3 ? 0 : (5 * i) % 7);
    const ZoneItem z = ManyZone("Lane", "SRange", i, false);
    std::vector<Doc> s;
    std::vector<std::string> sd;
    static const std::vector<std::pair<std::string, DirectionUsageRule::State::Type>> types{{"WithS", DirectionUsageRule::State::Type::kWithS}, {"Parking", DirectionUsageRule::State::Type::kParking}, {"NoUse", DirectionUsageRule::State::Type::kNoUse}, {"AgainstS", DirectionUsageRule::State::Type::kAgainstS}, {"Bidirectional", DirectionUsageRule::State::Type::kBidirectional}};
    for (int k = 0; k < states; ++k) {
      const auto& t = types[(i + k) % types.size()];
      s.push_back(Map({{"ID", Any(W("s", k))}, {"Type", Word(t.first)}, {"Severity", Word(k % 2 ? "Strict" : "Preferred")}}));
      sd.push_back(W("s", k) + "/" + std::to_string(static_cast<int>(t.second)) + "/" + std::to_string(static_cast<int>(k % 2 ? DirectionUsageRule::State::Severity::kStrict : DirectionUsageRule::State::Severity::kPreferred)));
    }
    dir.push_back(Map({{"ID", Any(id)}, {"Zone", z.doc}, {"States", List(s, true)}}));
    dir_dump[id] = id + z.dump + Join(sd, true);
  }
  std::string want;
  for (const auto& x : row_dump) want += x.second + "; ";
  want += "| ";
  for (const auto& x : dir_dump) want += x.second + "; ";
  want += "| ";
  for (const auto& x : discrete) want += x.second + "; ";
  want += "| | 0";
  Check(c, Map({{"RoadRulebook", Map({{"RightOfWayRules", List(row)}, {"DirectionUsageRules", List(dir)}})}}), flaw ? std::nullopt : std::optional<std::string>(want), [&](const std::string& input, bool file) {
    return Dump(*(file ? LoadRoadRulebookFromFile(Road().rg.get(), input) : LoadRoadRulebook(Road().rg.get(), input)), true);
  }, false);
}

void ManyLights(mc::Ctx& c) {
  const int nl = Size(c, 1, 5), ng = Size(c, 0, 4), nb = Size(c, 1, 5), pattern = c.choose(3);
  const int flaw = c.choose(5);  // Of the last one, 1: the id of a light, 2: of a group, 3: of a bulb is repeated, 4: an unknown state.
  c.assume(ng || (nb == 1 && pattern == 0 && flaw < 2));
  c.assume((flaw != 1 || nl > 1) && (flaw != 2 || ng > 1) && (flaw != 3 || nb > 1));
  std::vector<Doc> lights;
  std::map<std::string, std::string> dumps;
  int count = 0;
  auto pose = [&](const std::string& frame, std::string* dump) {
    const std::vector<double> p{.1 * ++count, -.2 * count, 1. / count}, r{.1, -.7, .1, -.7};
    *dump = "(" + Num(p[0]) + "," + Num(p[1]) + "," + Num(p[2]) + ";" + DumpRotation(r[0], r[1], r[2], r[3]) + ")";
    return Map({{"position_" + frame, Numbers(p)}, {"orientation_" + frame, Numbers(r)}});
  };
  static const std::vector<std::pair<std::string, BulbColor>> colors{{"Green", BulbColor::kGreen}, {"Red", BulbColor::kRed}, {"Yellow", BulbColor::kYellow}};
  static const std::vector<std::pair<std::string, BulbState>> names{{"Blinking", BulbState::kBlinking}, {"On", BulbState::kOn}, {"Off", BulbState::kOff}};
  for (int i = 0; i < nl; ++i) {
    const std::string id = W("light", i + 1 == nl && flaw == 1 ? 0 : (5 * i) % 7);
    std::string p;
    const Doc light_pose = pose("road_network", &p);
    std::string text = id + p;
    std::vector<Doc> groups;
    for (int g = 0; g < ng; ++g) {
      const std::string gid = W("group", i + 1 == nl && g + 1 == ng && flaw == 2 ? 0 : (3 * g) % 7);
      const Doc group_pose = pose("traffic_light", &p);
      text += " {" + gid + p;
      std::vector<Doc> bulbs;
      for (int b = 0; b < nb; ++b) {
        const bool last = i + 1 == nl && g + 1 == ng && b + 1 == nb;
        const std::string bid = W("bulb", last && flaw == 3 ? 0 : (5 * b) % 7);
        const Doc bulb_pose = pose("bulb_group", &p);
        const auto& color = colors[(b + g) % 3];
        const bool arrow = (b + pattern) % 2;
        std::vector<KV> kv{{"ID", Any(bid)}, {"Pose", bulb_pose}, {"Color", Word(color.first)}, {"Type", Word(arrow ? "Arrow" : "Round")}};
        if (arrow) kv.push_back({"ArrowOrientation", Number(.1 * count)});
        std::vector<std::string> sd{std::to_string(static_cast<int>(BulbState::kOff)), std::to_string(static_cast<int>(BulbState::kOn))};
        const int ns = last && flaw == 4 ? 1 : (b + pattern) % 4;
        if (ns) {
          std::vector<Doc> s;
          sd.clear();
          for (int k = 0; k < ns; ++k) {
            const auto& x = names[(k + b) % 3];
            s.push_back(Word(last && flaw == 4 ? "Dim" : x.first));
            sd.push_back(std::to_string(static_cast<int>(x.second)));
          }
          kv.push_back({"States", List(s).Opt()});
        }
        std::string box = DefaultBox();
        if ((b + g + pattern) % 3 == 0) {
          const std::vector<double> lo{-.1 * count, -.3, -.7}, hi{.1, .2 * count, .7};
          kv.push_back({"BoundingBox", Map({{"min", Numbers(lo)}, {"max", Numbers(hi)}}).Opt()});
          box = Num(lo[0]) + "," + Num(lo[1]) + "," + Num(lo[2]) + "," + Num(hi[0]) + "," + Num(hi[1]) + "," + Num(hi[2]);
        }
        bulbs.push_back(Map(kv));
        text += " " + bid + p + std::to_string(static_cast<int>(color.second)) + (arrow ? "Arrow" + Num(.1 * count) : "Round") + Join(sd, true) + box + " " + id + "-" + gid + "-" + bid;
      }
      groups.push_back(Map({{"ID", Any(gid)}, {"Pose", group_pose}, {"Bulbs", List(bulbs, true)}}));
      text += "}";
    }
    lights.push_back(Map({{"ID", Any(id)}, {"Pose", light_pose}, {"BulbGroups", List(groups)}}));
    dumps[id] = text;
  }
  std::string want;
  for (const auto& x : dumps) want += x.second + "; ";
  Check(c, Map({{"TrafficLights", List(lights)}}), flaw ? std::nullopt : std::optional<std::string>(want), LoadLights, nl == 2 && ng == 1 && nb == 2);
}

// --- Phase rings.
constexpr int kGroups = 3, kBulbs = 4, kRulesOfRing = 4;
const std::vector<BulbState>& StatesOf(int bulb) {
  static const std::vector<std::vector<BulbState>> of{{BulbState::kOn, BulbState::kOff}, {BulbState::kBlinking, BulbState::kOn}, {BulbState::kOn}, {BulbState::kBlinking, BulbState::kOn, BulbState::kOff}};
  return of[bulb];
}
// Off, else blinking, else on.
BulbState DefaultOf(int bulb) {
  static const std::vector<BulbState> of{BulbState::kOff, BulbState::kBlinking, BulbState::kOn, BulbState::kOff};
  return of[bulb];
}
const maliput::TrafficLightBook& Book() {
  static const auto* book = [] {
    auto bulb = [](const std::string& id, const std::vector<BulbState>& states) {
      return std::make_unique<Bulb>(Bulb::Id(id), api::InertialPosition(0., 0., 0.), api::Rotation(), BulbColor::kRed, BulbType::kRound, std::nullopt, states);
    };
    std::vector<std::unique_ptr<Bulb>> b1, b2;
    b1.push_back(bulb("b1", {BulbState::kOn, BulbState::kOff}));
    b1.push_back(bulb("b2", {BulbState::kOn, BulbState::kBlinking}));
    b2.push_back(bulb("b3", {BulbState::kOn}));
    std::vector<std::unique_ptr<BulbGroup>> g;
    g.push_back(std::make_unique<BulbGroup>(BulbGroup::Id("g1"), api::InertialPosition(), api::Rotation(), std::move(b1)));
    g.push_back(std::make_unique<BulbGroup>(BulbGroup::Id("g2"), api::InertialPosition(), api::Rotation(), std::move(b2)));
    auto* r = new maliput::TrafficLightBook();
    for (int l = 0; l < 3; ++l) {
      std::vector<std::unique_ptr<BulbGroup>> more;
      for (int i = 0; i < kGroups; ++i) {
        std::vector<std::unique_ptr<Bulb>> bulbs;
        for (int b = 0; b < kBulbs; ++b) bulbs.push_back(bulb(W("b", b), StatesOf(b)));
        more.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(W("g", i)), api::InertialPosition(), api::Rotation(), std::move(bulbs)));
      }
      r->AddTrafficLight(std::make_unique<const TrafficLight>(TrafficLight::Id(W("m", l)), api::InertialPosition(), api::Rotation(), std::move(more)));
    }
    r->AddTrafficLight(std::make_unique<const TrafficLight>(TrafficLight::Id("t1"), api::InertialPosition(), api::Rotation(), std::move(g)));
    return r;
  }();
  return *book;
}

struct RuleInfo {
  std::string id;
  std::vector<std::string> states;
  std::string Default() const {
    for (const std::string s : {"Stop", "StopThenGo", "Go"}) {
      if (std::find(states.begin(), states.end(), s) != states.end()) return s;
    }
    return "";
  }
};

// Both APIs: rules with a state each.
const std::vector<RuleInfo>& Rules(bool old) {
  static const std::vector<RuleInfo> new_rules{{"Right-Of-Way Rule Type/r1", {"Go", "Stop"}}, {"r2", {"Go", "StopThenGo"}}, {"r3", {"Yield"}}};
  static const std::vector<RuleInfo> old_rules{{"r1", {"Go", "Stop"}}, {"r2", {"Go", "StopThenGo"}}};
  return old ? old_rules : new_rules;
}
// Rules of the larger documents.
const std::vector<RuleInfo>& MoreRules() {
  static const auto* rules = [] {
    auto* r = new std::vector<RuleInfo>();
    const std::vector<std::vector<std::string>> states{{"Go", "Stop"}, {"Go", "StopThenGo"}, {"Go"}, {"Go", "StopThenGo", "Stop"}, {"StopThenGo"}};
    for (int i = 0; i < 4 * kRulesOfRing; ++i) r->push_back({W("m", i), states[i % states.size()]});
    return r;
  }();
  return *rules;
}
std::vector<api::LaneSRange> MoreZone(int i) {
  return {api::LaneSRange(api::LaneId("b/1"), api::SRange(i, i + 1.)), api::LaneSRange(api::LaneId("lane a"), api::SRange(i / 2., i / 2. + 1.))};
}
const RoadRulebook& RuleBook(bool old) {
  static const RoadRulebook* new_book = [] {
    auto* b = new ManualRulebook();
    int k = 0;
    for (const auto& r : Rules(false)) {
      std::vector<DiscreteValueRule::DiscreteValue> v;
      for (const auto& s : r.states) v.push_back({++k, {}, {}, s});
      b->AddRule(DiscreteValueRule(Rule::Id(r.id), Rule::TypeId("T"), api::LaneSRoute({api::LaneSRange(api::LaneId("lane a"), api::SRange(k, k + 1.)), api::LaneSRange(api::LaneId("b/1"), api::SRange(0., k))}), v));
    }
    for (const auto& r : MoreRules()) {
      std::vector<DiscreteValueRule::DiscreteValue> v;
      for (const auto& s : r.states) v.push_back({++k, {}, {}, s});
      b->AddRule(DiscreteValueRule(Rule::Id(r.id), Rule::TypeId("T"), api::LaneSRoute(MoreZone(&r - MoreRules().data())), v));
    }
    return b;
  }();
  static const std::string more = [] {
    std::string t;
    for (const auto& r : MoreRules()) {
      const int i = &r - MoreRules().data();
      t += "  - {ID: " + r.id + ", Zone: [";
      for (const auto& z : MoreZone(i)) t += "{Lane: " + z.lane_id().string() + ", SRange: [" + Num(z.s_range().s0()) + ", " + Num(z.s_range().s1()) + "]}, ";
      t += "], States: {";
      for (const auto& s : r.states) {
        t += s + ": [";
        for (int k = 0; k < (s == "Go" ? i % 5 : 0); ++k) t += W("y", k) + ", ";
        t += "], ";
      }
      t += "}, RelatedBulbGroups: {";
      for (int k = 0; k < i % 4; ++k) t += W("m", k) + ": [g0, g1, g2], ";
      t += "}}\n";
    }
    return t;
  }();
  static const RoadRulebook* old_book = LoadRoadRulebook(Road().rg.get(), R"(
RoadRulebook:
  RightOfWayRules:
)" + more + R"(  - {ID: r1, Zone: [{Lane: lane a, SRange: [1, 2]}, {Lane: b/1}], States: {Go: [r2], Stop: []}, RelatedBulbGroups: {t1: [g1, g2]}}
  - {ID: r2, Zone: [{Lane: lane a, SRange: [3, 4]}], States: {Go: [], StopThenGo: [r1]}}
  DirectionUsageRules: []
)").release();
  return old ? *old_book : *new_book;
}

struct Ring {
  std::string id;
  Doc doc;
  bool valid{true};
  std::vector<std::string> phases;
  std::map<std::string, std::string> next;  // The first next phase, and its duration.
  std::vector<std::string> rules;
  std::string dump;
};

Ring ChooseRing(mc::Ctx& c, bool old, const std::string& id, int max_phases, bool full, int list_of_rules = 0) {
  Ring ring;
  ring.id = id;
  const auto& rules = Rules(old);
  static const std::vector<std::vector<int>> lists{{0}, {0, 1}, {}, {0, 9}, {2}, {1}};
  const int l = full ? c.choose(old ? 4 : 5) : list_of_rules;
  std::vector<Doc> list;
  std::vector<RuleInfo> used;
  for (int k : lists[l]) {
    list.push_back(Word(k == 9 ? "unknown" : rules[k].id));
    if (k != 9) used.push_back(rules[k]);
    ring.valid = ring.valid && k != 9 && !(k == 2);
  }
  for (const auto& r : used) ring.rules.push_back(r.id);
  const int np = full ? c.choose(max_phases + 1) : list_of_rules && !mc::Thorough() ? 1 : 1 + c.choose(2);
  ring.valid = ring.valid && np > 0;
  std::vector<Doc> phases;
  std::vector<std::set<std::string>> bulbs(np);
  std::vector<bool> has_bulbs(np);
  std::map<std::string, std::string> dumps;
  for (int i = 0; i < np; ++i) {
    const std::string pid = i == 1 && full && np == 2 && l == 0 && c.flip() ? "p0" : "p" + std::to_string(i);
    if (std::find(ring.phases.begin(), ring.phases.end(), pid) != ring.phases.end()) ring.valid = false;
    ring.phases.push_back(pid);
    std::vector<KV> kv{{"ID", Any(pid)}};
    // States of the rules.
    std::vector<KV> states;
    std::map<std::string, std::string> state_of;
    for (const auto& r : used) state_of[r.id] = r.Default();
    const bool omit = full && c.flip();
    if (!omit) {
      for (size_t k = 0; k < used.size(); ++k) {
        const int o = c.choose(full && i == 0 ? 4 : 3);
        if (o == 0) continue;
        if (o == 3) {
          states.push_back({used[k].id, Word("Never")});
          ring.valid = false;
          continue;
        }
        if (o - 1 >= static_cast<int>(used[k].states.size())) continue;
        states.push_back({used[k].id, Word(used[k].states[o - 1]).Opt()});
        state_of[used[k].id] = used[k].states[o - 1];
      }
      if (full && i == 0 && c.flip()) {
        states.push_back({rules[1].id, Word("Go").Opt()});
        ring.valid = ring.valid && l == 1 && !(states.size() > 1 && states[states.size() - 2].k == rules[1].id);
        c.assume(!(l == 1));
      }
      Doc m = Map(states);
      if (!old) m.optional = true;
      kv.push_back({"RightOfWayRuleStates", m});
    } else if (old) {
      ring.valid = false;  // Mandatory.
    }
    // States of the bulbs.
    const int lights = c.choose(full ? (i == 0 ? 7 : 4) : 2);
    has_bulbs[i] = lights != 0;
    std::map<std::string, BulbState> bulb_of;
    auto group = [](std::vector<KV> m) {
      for (auto& x : m) x.d.optional = true;
      return Map(m).Opt();
    };
    if (lights == 1) {
      kv.push_back({"TrafficLightStates", Map({{"t1", Map({{"g1", group({{"b1", Word("On")}})}}).Opt()}}).Opt()});
      bulb_of = {{"t1-g1-b1", BulbState::kOn}, {"t1-g1-b2", BulbState::kBlinking}};
    } else if (lights == 2) {
      kv.push_back({"TrafficLightStates", Map({{"t1", Map({{"g1", group({{"b1", Word("Off")}, {"b2", Word("On")}})}, {"g2", group({})}}).Opt()}}).Opt()});
      bulb_of = {{"t1-g1-b1", BulbState::kOff}, {"t1-g1-b2", BulbState::kOn}, {"t1-g2-b3", BulbState::kOn}};
    } else if (lights == 3) {
      kv.push_back({"TrafficLightStates", Map({{"t1", Map({{"g1", group({})}}).Opt()}}).Opt()});
      bulb_of = {{"t1-g1-b1", BulbState::kOff}, {"t1-g1-b2", BulbState::kBlinking}};
    } else if (lights > 3) {
      ring.valid = false;
      kv.push_back({"TrafficLightStates", Map({{lights == 4 ? "t9" : "t1", Map({{lights == 5 ? "g9" : "g1", group({{lights == 6 ? "b9" : "b1", Word("On")}})}})}})});
    }
    std::string bt = has_bulbs[i] ? "bulbs" : "";
    for (const auto& x : bulb_of) {
      bulbs[i].insert(x.first);
      bt += " " + x.first + "=" + std::to_string(static_cast<int>(x.second));
    }
    phases.push_back(Map(kv));
    std::string st;
    for (const auto& x : state_of) st += " " + x.first + "=" + x.second;
    dumps[pid] = pid + "{" + st + " " + bt;
    if (has_bulbs[i] != has_bulbs[0] || bulbs[i] != bulbs[0]) ring.valid = false;
  }
  std::vector<KV> kv{{"ID", Any(id)}, {"Rules", List(list)}, {"Phases", List(phases, true)}};
  // Transitions. 0: none, 1: a cycle, 2: to everywhere, 3: not to and from the last one, 4: to an unknown one, 5: from an unknown one.
  const int graph = c.choose(full ? 6 : 2);
  std::map<std::string, std::string> next;
  for (const auto& p : ring.phases) next[p] = "";
  if (graph) {
    std::vector<KV> g;
    for (int i = 0; i < np; ++i) {
      if (graph == 3 && i + 1 == np) {
        ring.valid = false;
        continue;
      }
      std::vector<Doc> to;
      std::string t;
      for (int k = 0; k < np; ++k) {
        if (graph != 2 && k != (i + 1) % np) continue;
        std::vector<KV> m{{"ID", Word(graph == 4 && i == 0 ? "nowhere" : ring.phases[k])}};
        const double duration = 10. + i;
        const bool timed = k % 2 == 0;
        if (timed) m.push_back({"duration_until", Number(duration).Opt()});
        to.push_back(Map(m));
        t += " " + ring.phases[k] + (timed ? "/" + Num(duration) : "");
      }
      next[ring.phases[i]] = t;
      g.push_back({ring.phases[i], List(to)});
    }
    if (graph == 4) ring.valid = false;
    if (graph == 5) {
      g.push_back({"nowhere", List({})});
      ring.valid = false;
    }
    kv.push_back({"PhaseTransitionGraph", Map(g).Opt()});
  }
  for (const auto& x : next) {
    ring.next[x.first] = x.second.substr(0, x.second.find(' ', 1));
    ring.dump += dumps[x.first] + " ->" + x.second + "} ";
  }
  ring.dump = id + ": " + ring.dump;
  ring.doc = Map(kv);
  return ring;
}

std::unique_ptr<PhaseRingBook> LoadRings(bool old, const std::string& input, bool file) {
  const RoadRulebook* rules = &RuleBook(old);
  if (old) return file ? LoadPhaseRingBookFromFileOldRules(rules, &Book(), input) : LoadPhaseRingBookOldRules(rules, &Book(), input);
  return file ? LoadPhaseRingBookFromFile(rules, &Book(), input) : LoadPhaseRingBook(rules, &Book(), input);
}

std::string Dump(const PhaseRingBook& book, bool old) {
  std::map<std::string, std::string> all;
  for (const auto& id : book.GetPhaseRings()) {
    const auto ring = book.GetPhaseRing(id);
    std::map<std::string, std::string> phases;
    for (const auto& kv : ring->phases()) {
      std::map<std::string, std::string> states, bulbs;
      std::string t = kv.first.string() + "{";
      for (const auto& s : kv.second.discrete_value_rule_states()) {
        const auto known = RuleBook(old).GetDiscreteValueRule(s.first).states();
        std::string rid = s.first.string();
        if (old) rid = rid.substr(rid.find('/') + 1);
        states[rid] = s.second.value + (std::find(known.begin(), known.end(), s.second) == known.end() ? "!" : "");
      }
      if (old) {
        std::map<std::string, std::string> old_states;
        for (const auto& s : kv.second.rule_states()) old_states[s.first.string()] = s.second.string();
        if (old_states != states) t += "!";
      }
      for (const auto& s : states) t += " " + s.first + "=" + s.second;
      t += " ";
      if (kv.second.bulb_states()) {
        t += "bulbs";
        for (const auto& b : *kv.second.bulb_states()) bulbs[b.first.string()] = std::to_string(static_cast<int>(b.second));
        for (const auto& b : bulbs) t += " " + b.first + "=" + b.second;
      }
      t += " ->";
      for (const auto& n : ring->next_phases().at(kv.first)) t += " " + n.id.string() + (n.duration_until ? "/" + Num(*n.duration_until) : "");
      phases[kv.first.string()] = t + "} ";
    }
    std::string t = id.string() + ": ";
    for (const auto& p : phases) t += p.second;
    all[id.string()] = t;
  }
  std::string t;
  for (const auto& x : all) t += x.second + "\n";
  return t;
}

void Rings(mc::Ctx& c, bool old) {
  bool valid = true;
  std::vector<Doc> docs;
  std::string want;
  const bool full = c.flip();
  const int n = full ? 1 : c.choose(3);
  std::map<std::string, std::string> dumps;
  for (int i = 0; i < n; ++i) {
    const std::string id = i == 1 && c.flip() ? "b" : "a";
    valid = valid && !dumps.count(id);
    const bool shared = i == 1 && c.flip();  // A rule belongs to one ring only.
    const Ring r = ChooseRing(c, old, id, 2 + mc::Thorough(), full, i == 0 || shared ? 0 : 5);
    valid = valid && !shared;
    valid = valid && r.valid;
    docs.push_back(r.doc);
    dumps[id] = r.dump;
  }
  for (const auto& x : dumps) want += x.second + "\n";
  Check(c, Map({{"PhaseRings", List(docs)}}), valid ? std::optional<std::string>(want) : std::nullopt,
        [&](const std::string& input, bool file) { return Dump(*LoadRings(old, input, file), old); }, true);
}

// --- Intersections.
std::string LoadIntersections(bool old, const PhaseRingBook& rings, const std::string& input, bool file) {
  ManualPhaseProvider provider;
  const auto book = file ? LoadIntersectionBookFromFile(input, RuleBook(old), rings, Road().rg.get(), &provider) : LoadIntersectionBook(input, RuleBook(old), rings, Road().rg.get(), &provider);
  std::map<std::string, std::string> r;
  for (api::Intersection* i : book->GetIntersections()) {
    std::string t = i->id().string() + ":" + i->ring_id().string() + " ";
    if (book->GetIntersection(i->id()) != i) t += "!";
    std::set<std::string> region;
    for (const auto& x : i->region()) region.insert(Dump(x));
    for (const auto& x : region) t += x + " ";
    const auto ph = i->Phase();
    t += ph ? ph->state.string() + " ->" : "none";
    const auto provided = provider.GetPhase(i->ring_id());
    if (!provided || !ph || provided->state != ph->state) t += "!";
    if (ph && ph->next) t += " " + ph->next->state.string() + (ph->next->duration_until ? "/" + Num(*ph->next->duration_until) : "");
    r[i->id().string()] = t;
  }
  std::string t;
  for (const auto& x : r) t += x.second + "; ";
  return t;
}
void Intersections(mc::Ctx& c, bool old) {
  const Ring a = ChooseRing(c, old, "a", 2, false), b = ChooseRing(c, old, "b", 2, false, 5);
  c.assume(a.valid && b.valid);
  const auto rings = LoadRings(old, Map({{"PhaseRings", List({a.doc, b.doc})}}).Text(), false);
  const int n = c.choose(3);
  std::vector<Doc> docs;
  bool valid = true;
  std::map<std::string, std::string> dumps, phase;
  std::vector<std::pair<std::string, const Ring*>> order;
  for (int i = 0; i < n; ++i) {
    const std::string id = i == 1 && c.flip() ? "i2" : "i1";
    valid = valid && !dumps.count(id);
    const int r = c.choose(3);
    const Ring& ring = r == 1 ? b : a;
    const int p = c.choose(3);
    valid = valid && r < 2 && p < static_cast<int>(ring.phases.size());
    const std::string pid = p < static_cast<int>(ring.phases.size()) ? ring.phases[p] : "nowhere";
    docs.push_back(Map({{"ID", Any(id)}, {"PhaseRing", Word(r == 2 ? "nowhere" : ring.id)}, {"InitialPhase", Word(pid)}}));
    std::string region;
    if (old) {
      region = &ring == &a ? "b/1[0,20] lane a[1,2] " : "lane a[3,4] ";
    } else {
      region = &ring == &a ? "b/1[0,2] lane a[2,3] " : "b/1[0,4] lane a[4,5] ";
    }
    dumps[id] = id + ":" + ring.id + " " + region;
    if (p < static_cast<int>(ring.phases.size())) phase[ring.id] = pid + " ->" + ring.next.at(pid);
  }
  std::string want;
  for (const auto& x : dumps) want += x.second + phase[x.second.substr(x.first.size() + 1, 1)] + "; ";
  Check(c, Map({{"Intersections", List(docs).Opt()}}), valid ? std::optional<std::string>(want) : std::nullopt, [&](const std::string& input, bool file) { return LoadIntersections(old, *rings, input, file); }, true);
}

// A ring of `np` phases of `nr` rules (those of its number), the bulbs of `nl` lights and `nt` transitions of each phase.
// `flaw`, at the last phase: 1: an unknown state of a rule, 2: of a bulb, 3: an unknown next phase, 4: its id is repeated, 5: a bulb group is left out; 6, which is valid: it has no transitions.
Ring ManyRing(bool old, int number, int np, int nr, int nl, int nt, int flaw) {
  Ring ring;
  ring.id = W("ring ", (3 * number) % 7);
  std::vector<Doc> list, phases;
  std::vector<RuleInfo> used;
  for (int k = 0; k < nr; ++k) {
    used.push_back(MoreRules()[number * kRulesOfRing + k]);
    list.push_back(Word(used.back().id));
    ring.rules.push_back(used.back().id);
  }
  std::map<std::string, std::string> dumps;
  for (int i = 0; i < np; ++i) ring.phases.push_back(W("p", i + 1 == np && flaw == 4 ? 0 : (5 * i) % 7));
  for (int i = 0; i < np; ++i) {
    const bool last = i + 1 == np;
    const std::string& pid = ring.phases[i];
    std::vector<KV> kv{{"ID", Any(pid)}}, states;
    std::map<std::string, std::string> state_of, bulb_of;
    for (int k = 0; k < nr; ++k) {
      const auto& r = used[k];
      state_of[r.id] = r.Default();
      const size_t o = (i + k) % (r.states.size() + 1);
      if (last && k + 1 == nr && flaw == 1) {
        states.push_back({r.id, Word("Never")});
      } else if (o) {
        states.push_back({r.id, Word(r.states[o - 1]).Opt()});
        state_of[r.id] = r.states[o - 1];
      }
    }
    kv.push_back({"RightOfWayRuleStates", Map(states)});
    kv.back().d.optional = !old;
    std::vector<KV> lights;
    for (int l = 0; l < nl; ++l) {
      std::vector<KV> groups;
      for (int g = 0; g < kGroups; ++g) {
        if (last && l + 1 == nl && g + 1 == kGroups && flaw == 5) continue;
        std::vector<KV> bulbs;
        for (int b = 0; b < kBulbs; ++b) {
          const std::string u = W("m", l) + "-" + W("g", g) + "-" + W("b", b);
          const auto& of = StatesOf(b);
          bulb_of[u] = std::to_string(static_cast<int>(DefaultOf(b)));
          const size_t o = (i + b + g) % (of.size() + 1);
          if (last && l + 1 == nl && g + 1 == kGroups && b + 1 == kBulbs && flaw == 2) {
            bulbs.push_back({W("b", b), Word("Dim")});
          } else if (o) {
            bulbs.push_back({W("b", b), Word(of[o - 1] == BulbState::kOn ? "On" : of[o - 1] == BulbState::kOff ? "Off" : "Blinking").Opt()});
            bulb_of[u] = std::to_string(static_cast<int>(of[o - 1]));
          }
        }
        groups.push_back({W("g", g), Map(bulbs).Opt()});
      }
      lights.push_back({W("m", l), Map(groups).Opt()});
    }
    if (nl) kv.push_back({"TrafficLightStates", Map(lights).Opt()});
    phases.push_back(Map(kv));
    std::string t;
    for (const auto& x : state_of) t += " " + x.first + "=" + x.second;
    t += nl ? " bulbs" : " ";
    for (const auto& x : bulb_of) t += " " + x.first + "=" + x.second;
    dumps[pid] = pid + "{" + t;
  }
  std::vector<KV> kv{{"ID", Any(ring.id)}, {"Rules", List(list)}, {"Phases", List(phases, true)}}, graph;
  std::map<std::string, std::string> next;
  for (int i = 0; i < np; ++i) {
    std::vector<Doc> to;
    std::string t;
    for (int k = 0; k < (flaw == 6 && i + 1 == np ? 0 : nt); ++k) {
      const std::string& n = ring.phases[(i + 1 + k) % np];
      const double duration = .1 + i + 10. * k;
      const bool unknown = flaw == 3 && i + 1 == np && k + 1 == nt;
      std::vector<KV> m{{"ID", Word(unknown ? "nowhere" : n)}};
      if ((i + k) % 3 != 2) m.push_back({"duration_until", Number(duration).Opt()});
      to.push_back(Map(m));
      t += " " + n + ((i + k) % 3 != 2 ? "/" + Num(duration) : "");
    }
    next[ring.phases[i]] = t;
    graph.push_back({ring.phases[i], List(to)});
  }
  if (nt) kv.push_back({"PhaseTransitionGraph", Map(graph).Opt()});
  for (const auto& x : next) {
    ring.next[x.first] = x.second.substr(0, x.second.find(' ', 1));
    ring.dump += dumps[x.first] + " ->" + x.second + "} ";
  }
  ring.dump = ring.id + ": " + ring.dump;
  ring.doc = Map(kv);
  return ring;
}

void ManyRings(mc::Ctx& c, bool old) {
  const int n = Size(c, 1, 4), np = Size(c, 1, 5), nr = Size(c, 0, kRulesOfRing), nl = Size(c, 0, 3), nt = Size(c, 0, 5);
  const int flaw = c.choose(7);
  c.assume((flaw != 1 || nr) && (flaw != 2 || nl) && (flaw != 3 || nt) && (flaw != 4 || np > 1) && (flaw != 5 || (nl && np > 1)) && (flaw != 6 || nt));
  std::vector<Doc> docs;
  std::map<std::string, std::string> dumps;
  for (int i = 0; i < n; ++i) {
    const Ring r = ManyRing(old, i, np, nr, nl, nt, i + 1 == n ? flaw : 0);
    docs.push_back(r.doc);
    dumps[r.id] = r.dump;
  }
  std::string want;
  for (const auto& x : dumps) want += x.second + "\n";
  Check(c, Map({{"PhaseRings", List(docs)}}), flaw && flaw != 6 ? std::nullopt : std::optional<std::string>(want), [&](const std::string& input, bool file) { return Dump(*LoadRings(old, input, file), old); }, n == 2 && np == 2 && nr == 1 && nl == 1 && nt == 1);
}

void ManyIntersections(mc::Ctx& c, bool old) {
  const int nrings = Size(c, 1, 4), np = Size(c, 1, 4), nr = Size(c, 1, kRulesOfRing), nt = Size(c, 0, 3), n = Size(c, 0, 6);
  c.assume(nt <= np);
  const int step = 1 + c.choose(2), flaw = c.choose(3);  // 1: an unknown ring, 2: an unknown phase at the last one.
  c.assume(!flaw || n);
  std::vector<Doc> ring_docs, docs;
  std::vector<Ring> rings;
  for (int i = 0; i < nrings; ++i) {
    rings.push_back(ManyRing(old, i, np, nr, 0, nt, 0));
    ring_docs.push_back(rings.back().doc);
  }
  static std::map<std::string, std::unique_ptr<PhaseRingBook>> books;
  auto& book = books[std::to_string(nrings) + "," + std::to_string(np) + "," + std::to_string(nr) + "," + std::to_string(nt) + (old ? "old" : "")];
  if (!book) book = LoadRings(old, Map({{"PhaseRings", List(ring_docs)}}).Text(), false);
  std::map<std::string, std::string> dumps, phase, ring_of;
  for (int i = 0; i < n; ++i) {
    const std::string id = W("i", (5 * i) % 7);
    const int number = (i * step) % nrings;
    const Ring& ring = rings[number];
    const std::string pid = ring.phases[(i * 3 + 1) % np];
    docs.push_back(Map({{"ID", Any(id)}, {"PhaseRing", Word(flaw == 1 && i + 1 == n ? "nowhere" : ring.id)}, {"InitialPhase", Word(flaw == 2 && i + 1 == n ? "nowhere" : pid)}}));
    std::set<std::string> region;
    for (int k = 0; k < nr; ++k) {
      for (const auto& r : MoreZone(number * kRulesOfRing + k)) region.insert(Dump(r));
    }
    dumps[id] = id + ":" + ring.id + " ";
    for (const auto& x : region) dumps[id] += x + " ";
    ring_of[id] = ring.id;
    phase[ring.id] = pid + " ->" + ring.next.at(pid);
  }
  std::string want;
  for (const auto& x : dumps) want += x.second + phase[ring_of[x.first]] + "; ";
  Check(c, Map({{"Intersections", List(docs).Opt()}}), flaw ? std::nullopt : std::optional<std::string>(want),
        [&](const std::string& input, bool file) { return LoadIntersections(old, *book, input, file); }, n == 1 && nrings == 2 && np == 2 && nr == 2);
}

}  // namespace

int main(int argc, char** argv) {
  const std::string faults = ", and each of them with every single fault (a node missing, or of another kind)";
  return mc::Main(argc, argv, {{"registry", "rule registries of up to 2 types of up to 2 states" + faults, Registry},
                               {"rulebook", "rulebooks of up to 2 rules, zones of up to 2 ranges, up to 2 states" + faults, Rulebook},
                               {"old rulebook", "rulebooks of right of way and direction usage rules" + faults, OldRulebook},
                               {"lights", "traffic light books of up to 2 lights, 2 groups, 2 bulbs" + faults, Lights},
                               {"rings", "phase ring books of up to 2 rings of up to 2 (thorough: 3) phases" + faults, [](mc::Ctx& c) { Rings(c, false); }},
                               {"old rings", "the same, with right of way rules", [](mc::Ctx& c) { Rings(c, true); }},
                               {"intersections", "intersection books of up to 2 intersections over 2 rings" + faults, [](mc::Ctx& c) { Intersections(c, false); }},
                               {"old intersections", "the same, with right of way rules", [](mc::Ctx& c) { Intersections(c, true); }},
                               {"many states", "registries of up to 6 types of up to 6 states of up to 5 names, and one flaw at the last one", ManyRegistry},
                               {"many rules", "rulebooks of up to 5 rules of up to 5 ranges and 5 states of up to 3 groups of up to 4 ids, and one flaw at the last one", ManyRules},
                               {"many old rules", "rulebooks of up to 5 rules of each kind, 4 ranges, 5 states, 4 ids and 3 lights, and one flaw at the last one", ManyOldRules},
                               {"many lights", "books of up to 5 lights of up to 4 groups of up to 5 bulbs, and one flaw at the last one", ManyLights},
                               {"many rings", "books of up to 4 rings of up to 5 phases of up to 4 rules, 3 lights and 5 transitions, and one flaw at the last one", [](mc::Ctx& c) { ManyRings(c, false); }},
                               {"many old rings", "the same, with right of way rules", [](mc::Ctx& c) { ManyRings(c, true); }},
                               {"many intersections", "books of up to 6 intersections on up to 4 rings of up to 4 phases of up to 4 rules, and one flaw at the last one", [](mc::Ctx& c) { ManyIntersections(c, false); }},
                               {"many old intersections", "the same, with right of way rules", [](mc::Ctx& c) { ManyIntersections(c, true); }}});
}
