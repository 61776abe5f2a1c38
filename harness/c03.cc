// Phase rings: which sets of phases form a ring, and histories of the phase ring book.
#include <map>
#include <memory>
#include <set>

#include "maliput/api/rules/phase_ring.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::api::rules;

namespace {

using NextMap = std::unordered_map<Phase::Id, std::vector<PhaseRing::NextPhase>>;
using DV = DiscreteValueRule::DiscreteValue;

DV Val(const std::string& v) { return DV(0, {}, {}, v); }
UniqueBulbId B(const std::string& b) { return UniqueBulbId(TrafficLight::Id("tl"), BulbGroup::Id("g"), Bulb::Id(b)); }

RuleStates RS(const std::string& ids, const std::string& st) {
  RuleStates r;
  for (char ch : ids) r.emplace(RightOfWayRule::Id(std::string(1, ch)), RightOfWayRule::State::Id(st));
  return r;
}
DiscreteValueRuleStates DS(const std::string& ids, const std::string& st) {
  DiscreteValueRuleStates r;
  for (char ch : ids) r.emplace(Rule::Id(std::string(1, ch)), Val(st));
  return r;
}
std::optional<BulbStates> BS(const std::string& ids, BulbState st) {
  if (ids == "-") return std::nullopt;
  BulbStates r;
  for (char ch : ids) r.emplace(B(std::string(1, ch)), st);
  return r;
}

struct PhaseSpec {
  std::string id, rules, values, bulbs;
};
std::string Str(const PhaseSpec& p) { return p.id + "(rules " + p.rules + " values " + p.values + " bulbs " + p.bulbs + ")"; }
Phase Make(const PhaseSpec& p, int n) {
  return Phase(Phase::Id(p.id), RS(p.rules, "s" + std::to_string(n)), DS(p.values, "v" + std::to_string(n)),
               BS(p.bulbs, n % 2 ? BulbState::kOn : BulbState::kBlinking));
}

// Content of a phase, read back through the public API.
std::string Read(const Phase& p) {
  std::set<std::string> s;
  for (const auto& kv : p.rule_states()) s.insert("r" + kv.first.string() + "=" + kv.second.string());
  for (const auto& kv : p.discrete_value_rule_states()) s.insert("v" + kv.first.string() + "=" + kv.second.value);
  if (p.bulb_states()) {
    s.insert("bulbs");
    for (const auto& kv : *p.bulb_states()) s.insert("b" + kv.first.string() + "=" + std::to_string((int)kv.second));
  }
  std::string r = p.id().string() + ":";
  for (const auto& x : s) r += x + ",";
  return r;
}

void Coverage(mc::Ctx& c) {
  static const std::vector<std::string> ids{"p", "q", "r"};
  static const std::vector<std::string> rules{"", "a", "b"}, rules_t{"", "a", "b", "ab"};
  static const std::vector<std::string> values{"", "x", "y", "xy"};
  static const std::vector<std::string> bulbs{"-", "", "1", "2", "12"};
  const int n = c.choose(4);
  std::vector<PhaseSpec> specs;
  for (int i = 0; i < n; ++i) {
    // Phases of a 3-phase ring vary in one dimension at a time from the first one.
    PhaseSpec s;
    s.id = ids[c.choose(i + 1 < 3 ? i + 1 : 3)];  // Canonical: first occurrence order.
    if (i < 2 || mc::Thorough()) {
      s.rules = c.pick(mc::Thorough() && n < 3 ? rules_t : rules);
      s.values = c.pick(values);
      s.bulbs = c.pick(bulbs);
    } else {
      s = PhaseSpec{s.id, specs[0].rules, specs[0].values, specs[0].bulbs};
      switch (c.choose(4)) {
        case 0:
          break;
        case 1:
          s.rules = c.pick(rules);
          break;
        case 2:
          s.values = c.pick(values);
          break;
        case 3:
          s.bulbs = c.pick(bulbs);
          break;
      }
    }
    specs.push_back(s);
  }
  bool valid = n > 0;
  std::set<std::string> seen;
  for (const auto& s : specs) {
    valid = valid && seen.insert(s.id).second && s.rules == specs[0].rules && s.values == specs[0].values && s.bulbs == specs[0].bulbs;
  }
  auto ctx = [&] {
    std::string r;
    for (const auto& s : specs) r += Str(s) + " ";
    return r;
  };
  c.state(ctx());
  c.trace(ctx);
  std::vector<Phase> phases;
  for (int i = 0; i < n; ++i) phases.push_back(Make(specs[i], i));
  std::unique_ptr<PhaseRing> ring;
  c.op();
  const bool threw = mc::Throws([&] { ring = std::make_unique<PhaseRing>(PhaseRing::Id("ring"), phases); });
  c.expect(threw == !valid, "phase-ring-accepts", [&] { return ctx() + (threw ? "rejected" : "accepted"); });
  if (threw) return;
  c.nontrivial();
  c.op(3 + 2 * n);
  c.expect(ring->id() == PhaseRing::Id("ring") && static_cast<int>(ring->phases().size()) == n && static_cast<int>(ring->next_phases().size()) == n,
           "phase-ring-size", ctx);
  for (int i = 0; i < n; ++i) {
    const auto p = ring->GetPhase(phases[i].id());
    c.expect(p.has_value() && Read(*p) == Read(phases[i]), "phase-ring-get-phase", ctx);
    c.expect(ring->GetNextPhases(phases[i].id()).empty(), "phase-ring-no-next", ctx);
  }
  c.expect(!ring->GetPhase(Phase::Id("nope")), "phase-ring-unknown", ctx);
  c.expect(mc::Throws([&] { ring->GetNextPhases(Phase::Id("nope")); }), "phase-ring-unknown-next", ctx);
}

void NextPhases(mc::Ctx& c) {
  static const std::vector<std::string> ids{"p", "q", "z"};
  const int n = 1 + c.choose(2);
  std::vector<Phase> phases;
  for (int i = 0; i < n; ++i) phases.push_back(Make({ids[i], "a", "x", "-"}, i));
  NextMap next;
  bool valid = true;
  std::string desc;
  std::map<std::string, std::vector<std::pair<std::string, int>>> want;
  for (int k = 0; k < 3; ++k) {
    const bool in = k < n;
    if (!c.flip()) {
      valid = valid && !in;
      continue;
    }
    valid = valid && in;
    std::vector<PhaseRing::NextPhase> v;
    const int m = c.choose(mc::Thorough() ? 4 : 3);
    desc += ids[k] + "->";
    for (int j = 0; j < m; ++j) {
      const int t = c.choose(3);
      const int d = c.choose(2);
      valid = valid && t < n;
      v.push_back({Phase::Id(ids[t]), d == 0 ? std::optional<double>() : std::optional<double>(10. * k + j)});
      want[ids[k]].push_back({ids[t], d == 0 ? -1 : 10 * k + j});
      desc += ids[t] + (d ? "!" : "") + ",";
    }
    desc += "; ";
    next.emplace(Phase::Id(ids[k]), v);
  }
  desc = std::to_string(n) + " phases " + desc;
  c.state(desc);
  c.trace([&] { return desc; });
  std::unique_ptr<PhaseRing> ring;
  c.op();
  const bool threw = mc::Throws([&] { ring = std::make_unique<PhaseRing>(PhaseRing::Id("ring"), phases, next); });
  c.expect(threw == !valid, "phase-ring-next-accepts", [&] { return desc + (threw ? "rejected" : "accepted"); });
  if (threw) return;
  c.nontrivial();
  for (int i = 0; i < n; ++i) {
    const auto& got = ring->GetNextPhases(phases[i].id());
    const auto& w = want[ids[i]];
    c.op();
    bool same = got.size() == w.size() && ring->next_phases().at(phases[i].id()).size() == w.size();
    for (size_t j = 0; same && j < w.size(); ++j) {
      same = got[j].id.string() == w[j].first && got[j].duration_until.has_value() == (w[j].second >= 0) &&
             (w[j].second < 0 || *got[j].duration_until == w[j].second);
    }
    c.expect(same, "phase-ring-next-content", [&] { return desc; });
  }
}

struct RingSpec {
  std::string id, rules, values;
  std::shared_ptr<PhaseRing> ring;
};
RingSpec Ring(const char* id, const char* rules, const char* values, int nphases) {
  std::vector<Phase> ph;
  for (int i = 0; i < nphases; ++i) ph.push_back(Make({std::string("p") + std::to_string(i), rules, values, "-"}, i));
  return {id, rules, values, std::make_shared<PhaseRing>(PhaseRing::Id(id), ph)};
}

void Book(mc::Ctx& c) {
  // Rings that share ids or rules with one another.
  static const std::vector<RingSpec> pool{Ring("A", "ab", "x", 2), Ring("B", "c", "xy", 1), Ring("C", "cb", "z", 2),
                                          Ring("A", "d", "w", 1),  Ring("D", "", "yw", 1),  Ring("E", "a", "", 3)};
  static const std::vector<std::string> ids{"A", "B", "C", "D", "E", "F"};
  ManualPhaseRingBook book;
  std::map<std::string, const RingSpec*> ref;
  const int n = 1 + c.choose(mc::Thorough() ? 7 : 5);
  std::string hist;
  auto overlap = [](const std::string& a, const std::string& b) {
    for (char ch : a)
      if (b.find(ch) != std::string::npos) return true;
    return false;
  };
  for (int k = 0; k < n; ++k) {
    const int op = c.choose(pool.size() + ids.size());
    bool ok = true, threw;
    c.op();
    if (op < static_cast<int>(pool.size())) {
      const RingSpec& r = pool[op];
      hist += "add " + r.id + "(" + r.rules + "," + r.values + "); ";
      ok = ref.count(r.id) == 0;
      for (const auto& kv : ref) ok = ok && !overlap(kv.second->rules, r.rules) && !overlap(kv.second->values, r.values);
      if (ok) ref[r.id] = &r;
      threw = mc::Throws([&] { book.AddPhaseRing(*r.ring); });
    } else {
      const std::string id = ids[op - pool.size()];
      hist += "remove " + id + "; ";
      ok = ref.erase(id) > 0;
      threw = mc::Throws([&] { book.RemovePhaseRing(PhaseRing::Id(id)); });
    }
    c.expect(threw == !ok, "book-step-outcome", [&] { return hist + (threw ? "threw" : "did not throw"); });
  }
  c.trace([&] { return hist; });
  mc::H h;
  for (const auto& kv : ref) h << (uint64_t)(kv.second - pool.data());
  c.state(h);
  std::multiset<std::string> got, want;
  c.op();
  for (const auto& id : book.GetPhaseRings()) got.insert(id.string());
  for (const auto& kv : ref) want.insert(kv.first);
  c.expect(got == want, "book-ids", [&] { return hist; });
  auto same = [](const std::optional<PhaseRing>& r, const RingSpec* w) {
    if (!r || w == nullptr) return !r && w == nullptr;
    if (r->id().string() != w->id || r->phases().size() != w->ring->phases().size()) return false;
    for (const auto& kv : w->ring->phases()) {
      const auto p = r->GetPhase(kv.first);
      if (!p || Read(*p) != Read(kv.second)) return false;
    }
    return true;
  };
  for (const auto& id : ids) {
    c.op();
    c.expect(same(book.GetPhaseRing(PhaseRing::Id(id)), ref.count(id) ? ref[id] : nullptr), "book-get", [&] { return hist + " get " + id; });
  }
  if (!ref.empty()) c.nontrivial();
  for (char ch : std::string("abcdwxyz")) {
    const std::string s(1, ch);
    const RingSpec *wr = nullptr, *wv = nullptr;
    for (const auto& kv : ref) {
      if (overlap(kv.second->rules, s)) wr = kv.second;
      if (overlap(kv.second->values, s)) wv = kv.second;
    }
    c.op(2);
    c.expect(same(book.FindPhaseRing(RightOfWayRule::Id(s)), wr), "book-find-right-of-way", [&] { return hist + " find rule " + s; });
    c.expect(same(book.FindPhaseRing(Rule::Id(s)), wv), "book-find-rule", [&] { return hist + " find value rule " + s; });
  }
}

std::string Ids(char first, int n) {
  std::string r;
  for (int i = 0; i < n; ++i) r += static_cast<char>(first + i);
  return r;
}

// Rings of many phases that cover many rules, values and bulbs, where at most one phase covers something else.
void ManyPhases(mc::Ctx& c) {
  const int max = mc::Thorough() ? 6 : 4;
  const int n = 1 + c.choose(mc::Thorough() ? 7 : 5);
  const int nr = c.choose(max + 1), nv = c.choose(max + 1), nb = c.choose(max + 2) - 1;
  const PhaseSpec base{"", Ids('a', nr), Ids('m', nv), nb < 0 ? "-" : Ids('0', nb)};
  const int odd = c.choose(n + 1) - 1, what = odd < 0 ? 0 : c.choose(3), how = odd < 0 ? 0 : c.choose(3);
  auto spoil = [&](std::string* x) {
    if (how == 0) {
      if (x->empty() || *x == "-") c.prune();
      x->erase(c.choose(x->size()), 1);
    } else if (how == 1) {
      *x = *x == "-" ? "" : *x + "z";
    } else {
      if (x->empty() || *x == "-") c.prune();
      (*x)[c.choose(x->size())] = 'z';
    }
  };
  std::vector<PhaseSpec> specs;
  std::vector<Phase> phases;
  std::string str;
  for (int i = 0; i < n; ++i) {
    PhaseSpec s = base;
    s.id = "p" + std::to_string(i);
    if (i == odd) spoil(what == 0 ? &s.rules : what == 1 ? &s.values : &s.bulbs);
    specs.push_back(s);
    phases.push_back(Make(s, i));
    str += Str(s) + " ";
  }
  const bool valid = odd < 0 || n == 1 || (what == 0 && how == 1 && specs[odd].rules == base.rules);
  auto ctx = [&] { return str; };
  c.state(str);
  c.trace(ctx);
  std::unique_ptr<PhaseRing> ring;
  c.op();
  const bool threw = mc::Throws([&] { ring = std::make_unique<PhaseRing>(PhaseRing::Id("ring"), phases); });
  // `-` as the identifiers of rules and values is just another identifier.
  c.expect(threw == !valid, "phase-ring-accepts", [&] { return str + (threw ? "rejected" : "accepted"); });
  if (threw) return;
  c.nontrivial();
  c.expect(static_cast<int>(ring->phases().size()) == n && static_cast<int>(ring->next_phases().size()) == n, "phase-ring-size", ctx);
  for (const auto& p : phases) {
    const auto got = ring->GetPhase(p.id());
    c.expect(got && Read(*got) == Read(p) && ring->GetNextPhases(p.id()).empty(), "phase-ring-get-phase", ctx);
  }
}

// Next phases of many phases, with at most one that is missing, unknown or that leads to an unknown one.
void ManyNext(mc::Ctx& c) {
  const int n = 1 + c.choose(mc::Thorough() ? 7 : 5), m = c.choose(mc::Thorough() ? 7 : 5);
  const int what = c.choose(5);  // 0: right, 1: a phase is missing, 2: an unknown phase, 3: an unknown target, 4: one phase is replaced by an unknown one.
  const int at = what == 1 || what >= 3 ? c.choose(n) : 0;
  if (what == 3 && m == 0) c.prune();
  const int j_bad = what == 3 ? c.choose(m) : -1;
  std::vector<Phase> phases;
  NextMap next;
  auto id = [](int i) { return Phase::Id("p" + std::to_string(i)); };
  for (int i = 0; i < n; ++i) {
    phases.push_back(Make({"p" + std::to_string(i), "a", "x", "-"}, i));
    std::vector<PhaseRing::NextPhase> v;
    for (int j = 0; j < m; ++j) v.push_back({id(what == 3 && i == at && j == j_bad ? 99 : (i + j) % n), j % 2 ? std::optional<double>() : std::optional<double>(1. + j)});
    if (what == 1 && i == at) continue;
    next.emplace(what == 4 && i == at ? id(77) : id(i), v);
  }
  if (what == 2) next.emplace(id(55), std::vector<PhaseRing::NextPhase>{{id(0), std::nullopt}});
  const std::string str = std::to_string(n) + " phases with " + std::to_string(m) + " next ones, fault " + std::to_string(what) + " at " + std::to_string(at) + "," + std::to_string(j_bad);
  c.state(str);
  c.trace([&] { return str; });
  c.op();
  std::unique_ptr<PhaseRing> ring;
  const bool threw = mc::Throws([&] { ring = std::make_unique<PhaseRing>(PhaseRing::Id("ring"), phases, next); });
  c.expect(threw == (what != 0), "phase-ring-next-accepts", [&] { return str + (threw ? " rejected" : " accepted"); });
  if (threw) return;
  c.nontrivial();
  for (int i = 0; i < n; ++i) {
    const auto& got = ring->GetNextPhases(id(i));
    bool same = static_cast<int>(got.size()) == m;
    for (int j = 0; same && j < m; ++j) {
      same = got[j].id == id((i + j) % n) && got[j].duration_until.has_value() == (j % 2 == 0) && (j % 2 || *got[j].duration_until == 1. + j);
    }
    c.expect(same, "phase-ring-next-content", [&] { return str; });
  }
}

// Books of many rings of many rules.
void ManyRings(mc::Ctx& c) {
  const int n = 1 + c.choose(mc::Thorough() ? 20 : 9), nr = c.choose(mc::Thorough() ? 6 : 5), nv = c.choose(mc::Thorough() ? 6 : 5), np = 1 + c.choose(3);
  const int gone = c.choose(n + 1) - 1;
  // A ring that shares one rule with another one.
  const int clash = c.choose(3), clash_with = clash ? c.choose(n) : 0, clash_at = clash == 0 ? 0 : c.choose(std::max(1, clash == 1 ? nr : nv));
  if ((clash == 1 && nr == 0) || (clash == 2 && nv == 0)) c.prune();
  auto r_id = [](int ring, int i) { return RightOfWayRule::Id("r" + std::to_string(ring) + "." + std::to_string(i)); };
  auto v_id = [](int ring, int i) { return Rule::Id("v" + std::to_string(ring) + "." + std::to_string(i)); };
  auto p_id = [](int ring) { return PhaseRing::Id("R" + std::to_string(ring)); };
  auto make = [&](int ring, bool with_clash) {
    std::vector<Phase> phases;
    for (int p = 0; p < np; ++p) {
      RuleStates rs;
      DiscreteValueRuleStates ds;
      for (int i = 0; i < nr; ++i) rs.emplace(with_clash && clash == 1 && i == clash_at ? r_id(clash_with, i) : r_id(ring, i), RightOfWayRule::State::Id("s" + std::to_string(p)));
      for (int i = 0; i < nv; ++i) ds.emplace(with_clash && clash == 2 && i == clash_at ? v_id(clash_with, i) : v_id(ring, i), Val("v" + std::to_string(p)));
      phases.emplace_back(Phase::Id("p" + std::to_string(p)), rs, ds, std::nullopt);
    }
    return PhaseRing(p_id(ring), phases);
  };
  const std::string str = std::to_string(n) + " rings of " + std::to_string(np) + " phases over " + std::to_string(nr) + " rules and " + std::to_string(nv) + " values, without " +
                          std::to_string(gone) + ", one that shares " + (clash == 0 ? "nothing" : clash == 1 ? "a rule" : "a value") + " with " + std::to_string(clash_with);
  c.state(str + std::to_string(clash_at));
  c.trace([&] { return str; });
  ManualPhaseRingBook book;
  std::set<int> in;
  std::string stage;
  auto check = [&](const char* s) {
    stage = s;
    auto ctx = [&] { return str + ": " + stage; };
    std::multiset<std::string> got, want;
    for (const auto& id : book.GetPhaseRings()) got.insert(id.string());
    for (int i : in) want.insert(p_id(i).string());
    c.expect(got == want, "book-ids", ctx);
    for (int i = 0; i <= n; ++i) {
      const bool has = in.count(i);
      auto right = [&](const std::optional<PhaseRing>& r) { return r.has_value() == has && (!has || (r->id() == p_id(i) && static_cast<int>(r->phases().size()) == np)); };
      c.op(1 + nr + nv);
      c.expect(right(book.GetPhaseRing(p_id(i))), "book-get", ctx);
      for (int k = 0; k < nr; ++k) c.expect(right(book.FindPhaseRing(r_id(i, k))), "book-find-right-of-way", ctx);
      for (int k = 0; k < nv; ++k) c.expect(right(book.FindPhaseRing(v_id(i, k))), "book-find-rule", ctx);
    }
  };
  for (int i = 0; i < n; ++i) {
    book.AddPhaseRing(make(i, false));
    in.insert(i);
  }
  check("all");
  if (clash) {
    c.expect(mc::Throws([&] { book.AddPhaseRing(make(n, true)); }), "book-step-outcome", [&] { return str; });
    check("a clash");
  }
  if (gone >= 0) {
    book.RemovePhaseRing(p_id(gone));
    in.erase(gone);
    check("one gone");
    c.expect(mc::Throws([&] { book.RemovePhaseRing(p_id(gone)); }), "book-step-outcome", [&] { return str; });
    book.AddPhaseRing(make(gone, false));
    in.insert(gone);
    check("and back");
  }
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"coverage", "all lists of 0..3 phases over ids (with duplicates), covered rules, values and bulbs", Coverage},
                   {"next-phases", "all next-phase tables over 3 phase ids (missing, extra, unknown targets, up to 2-3 targets each)", NextPhases},
                   {"many-phases", "rings of up to 5 (7) phases over up to 4 (6) rules, values and bulbs, at most one of which differs in one of them", ManyPhases},
                   {"many-next", "next-phase tables of up to 5 (7) phases with up to 4 (6) targets, with at most one fault", ManyNext},
                   {"many-rings", "books of up to 9 (20) rings of up to 3 phases over up to 4 (5) rules and values; a ring that shares one of them; one ring removed and added again", ManyRings},
                   {"book", "all histories of up to 5 (thorough 7) additions/removals of 6 rings sharing ids and rules", Book}});
}
