// Lane sequences and lane s-routes: for every topology of a few lanes, exactly the simple paths within the length bound.
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <vector>

#include "maliput/api/regions.h"
#include "maliput/routing/derive_lane_s_routes.h"
#include "maliput/routing/find_lane_sequences.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using world::kFinish;
using world::kStart;
using Seq = std::vector<int>;

namespace {

struct Connection {
  int exit, entry;  // 0: start, 1: finish.
};

struct Topology {
  int n;
  // block[2 * lane + end], side[2 * lane + end].
  std::vector<int> block, side;
  std::vector<double> length;
  std::string text;

  std::vector<Connection> Connections(int a, int b) const {
    std::vector<Connection> r;
    for (int x = 0; x < 2; ++x) {
      for (int y = 0; y < 2; ++y) {
        if (block[2 * a + x] == block[2 * b + y] && side[2 * a + x] != side[2 * b + y]) r.push_back({x, y});
      }
    }
    return r;
  }
  // All simple paths, without length bound.
  void Paths(Seq* path, int end, std::vector<Seq>* out) const {
    for (int next = 0; next < n; ++next) {
      if (std::find(path->begin(), path->end(), next) != path->end()) continue;
      if (Connections(path->back(), next).empty()) continue;
      path->push_back(next);
      if (next == end) {
        out->push_back(*path);
      } else {
        Paths(path, end, out);
      }
      path->pop_back();
    }
  }
  double Intermediate(const Seq& s) const {
    double l = 0.;
    for (size_t i = 1; i + 1 < s.size(); ++i) l += length[s[i]];
    return l;
  }
  bool Unique(const Seq& s) const {
    for (size_t i = 0; i + 1 < s.size(); ++i) {
      if (Connections(s[i], s[i + 1]).size() != 1) return false;
    }
    return true;
  }
  bool UTurn(const Seq& s) const {  // Only for unique connections.
    for (size_t i = 1; i + 1 < s.size(); ++i) {
      if (Connections(s[i - 1], s[i])[0].entry == Connections(s[i], s[i + 1])[0].exit) return true;
    }
    return false;
  }
};

std::string Name(int i) { return std::string(1, static_cast<char>('a' + i)); }

std::string Str(const Seq& s) {
  std::string r;
  for (int i : s) r += Name(i);
  return r;
}

Topology Choose(mc::Ctx& c, int n, world::World* w) {
  Topology t;
  t.n = n;
  for (int i = 0; i < n; ++i) {
    t.length.push_back(std::pow(2., i + 1));
    world::LaneSpec s;
    s.id = Name(i);
    s.length = t.length.back();
    w->Road(s.id, {s});
  }
  int blocks = 0;
  for (int e = 0; e < 2 * n; ++e) {
    const int k = c.choose(2 * blocks + 1);
    if (k == 2 * blocks) {
      t.block.push_back(blocks++);
      t.side.push_back(0);
    } else {
      t.block.push_back(k / 2);
      t.side.push_back(k % 2);
    }
  }
  for (int b = 0; b < blocks; ++b) {
    std::vector<world::EndRef> sides[2];
    t.text += b ? " " : "";
    for (int sd = 0; sd < 2; ++sd) {
      for (int e = 0; e < 2 * n; ++e) {
        if (t.block[e] != b || t.side[e] != sd) continue;
        sides[sd].push_back({Name(e / 2), e % 2 ? kFinish : kStart});
        t.text += Name(e / 2) + (e % 2 ? "f" : "s");
      }
      t.text += sd ? "" : "|";
    }
    w->Branch("bp" + std::to_string(b), sides[0], sides[1]);
  }
  return t;
}

std::vector<Seq> Convert(mc::Ctx& c, const world::World& w, const std::vector<std::vector<const api::Lane*>>& r) {
  std::vector<Seq> out;
  for (const auto& s : r) {
    Seq q;
    for (const auto* l : s) {
      const auto it = std::find(w.order.begin(), w.order.end(), l);
      c.expect(it != w.order.end(), "unknown lane");
      q.push_back(it - w.order.begin());
    }
    out.push_back(q);
  }
  std::sort(out.begin(), out.end());
  return out;
}

// The routes from a position of a lane to a position of another one: as the sequences, and continuous.
template <typename What>
void Routes(mc::Ctx& c, const world::World& w, const Topology& t, int a, int b, double s0, double s1, double bound, const std::vector<Seq>& want, bool unique, const What& what) {
  const api::Lane* la = w.order[a];
  const api::Lane* lb = w.order[b];
  c.op();
  const auto routes = routing::DeriveLaneSRoutes(api::RoadPosition(la, {s0, .5, 0.}), api::RoadPosition(lb, {s1, 0., .5}), bound);
  std::vector<Seq> seqs;
  for (const auto& r : routes) {
    Seq q;
    for (const auto& range : r.ranges()) {
      int k = 0;
      while (k < t.n && w.order[k]->id() != range.lane_id()) ++k;
      c.expect(k < t.n, "unknown lane", what);
      q.push_back(k);
    }
    seqs.push_back(q);
    const auto& rs = r.ranges();
    auto msg = [&] {
      std::string m = what() + ":";
      for (const auto& range : rs) {
        m += " " + range.lane_id().string() + "[" + std::to_string(range.s_range().s0()) + "," + std::to_string(range.s_range().s1()) + "]";
      }
      return m;
    };
    c.expect(rs.front().s_range().s0() == s0 && rs.back().s_range().s1() == s1, "route extremes", msg);
    for (size_t i = 0; i + 1 < q.size(); ++i) {
      bool joined = false;
      for (const auto& x : t.Connections(q[i], q[i + 1])) {
        joined = joined || (rs[i].s_range().s1() == (x.exit ? t.length[q[i]] : 0.) &&
                            rs[i + 1].s_range().s0() == (x.entry ? t.length[q[i + 1]] : 0.));
      }
      c.expect(joined, "route discontinuous", msg);
    }
  }
  std::sort(seqs.begin(), seqs.end());
  if (!unique) seqs.erase(std::unique(seqs.begin(), seqs.end()), seqs.end());
  c.expect(seqs == want, "routes", what);
}

void Check(mc::Ctx& c, int n) {
  world::World w;
  const Topology t = Choose(c, n, &w);
  c.trace([&] { return t.text; });
  c.state(t.text);
  std::vector<double> bounds{0., 2., std::numeric_limits<double>::infinity()};
  for (int i = 4; i <= (1 << (n + 1)); i += 2) bounds.push_back(i - (i % 4 ? .5 : 0.));
  for (int a = 0; a < n; ++a) {
    for (int b = 0; b < n; ++b) {
      const api::Lane* la = w.order[a];
      const api::Lane* lb = w.order[b];
      const auto cs = t.Connections(a, b);
      if (a != b) {
        c.op();
        const auto edge = routing::DetermineEdgeS(*la, *lb);
        bool ok = edge.has_value() == !cs.empty();
        if (ok && edge) {
          ok = false;
          for (const auto& x : cs) ok = ok || *edge == (x.exit ? t.length[a] : 0.);
        }
        c.expect(ok, "edge s", [&] { return t.text + ": " + Name(a) + " to " + Name(b); });
      }
      std::vector<Seq> paths;
      Seq path{a};
      if (a == b) {
        paths.push_back(path);
      } else {
        t.Paths(&path, b, &paths);
      }
      for (double bound : bounds) {
        auto what = [&] { return t.text + ": " + Name(a) + " to " + Name(b) + " within " + std::to_string(bound); };
        std::vector<Seq> want;
        bool unique = true;
        for (const auto& p : paths) {
          if (p.size() > 1 && t.Intermediate(p) > bound) continue;
          want.push_back(p);
          unique = unique && t.Unique(p);
        }
        std::sort(want.begin(), want.end());
        c.op();
        const auto raw = routing::FindLaneSequences(la, lb, bound);
        auto got = Convert(c, w, raw);
        if (!unique) got.erase(std::unique(got.begin(), got.end()), got.end());
        c.nontrivial(!want.empty() && want[0].size() > 2);
        c.expect(got == want, "sequences", [&] {
          std::string m = what() + ": got";
          for (const auto& s : got) m += " " + Str(s);
          m += ", want";
          for (const auto& s : want) m += " " + Str(s);
          return m;
        });
        c.op(2);
        c.expect(routing::FindLaneSequences(la, lb, bound, false) == raw, "u-turns allowed", what);
        auto filtered = Convert(c, w, routing::FindLaneSequences(la, lb, bound, true));
        filtered.erase(std::unique(filtered.begin(), filtered.end()), filtered.end());
        for (const auto& s : filtered) {
          c.expect(std::binary_search(want.begin(), want.end(), s), "filtered sequences", what);
        }
        for (const auto& s : want) {
          if (s.size() > 2 && !t.Unique(s)) continue;  // Precedence between two connections is not decided.
          const bool u_turn = s.size() > 2 && t.UTurn(s);
          c.expect(std::binary_search(filtered.begin(), filtered.end(), s) == !u_turn, u_turn ? "u-turn kept" : "not a u-turn",
                   [&] { return what() + ": " + Str(s); });
        }
        // Routes.
        Routes(c, w, t, a, b, .25, t.length[b] - .5, bound, want, unique, what);
        if (a == b) {
          Routes(c, w, t, a, b, t.length[b] - .5, .25, bound, want, unique, what);
          Routes(c, w, t, a, b, .5, .5, bound, want, unique, what);
        }
      }
    }
  }
}

void Small(mc::Ctx& c) { Check(c, 1 + c.choose(3)); }
void Four(mc::Ctx& c) { Check(c, 4); }

// Longer chains and rings: choose which consecutive lanes are reversed and which shortcuts exist.
void Ring(mc::Ctx& c) {
  const int n = 5 + (mc::Thorough() ? c.choose(3) : c.choose(2));
  world::World w;
  Topology t;
  t.n = n;
  t.block.assign(2 * n, 0);
  t.side.assign(2 * n, 0);
  const bool open = c.flip();
  for (int i = 0; i < n; ++i) {
    t.length.push_back(std::pow(2., i % 4 + 1));
    world::LaneSpec s;
    s.id = Name(i);
    s.length = t.length.back();
    w.Road(s.id, {s});
    const bool reversed = c.flip();
    // Lane i goes from node i to node i + 1 (or closes the ring); one of them may be a U-turn: attached to the wrong side.
    const int from = 2 * i + (reversed ? 1 : 0), to = 2 * i + (reversed ? 0 : 1);
    t.block[from] = i;
    t.side[from] = c.choose(3) == 2 ? 0 : 1;
    t.block[to] = open ? i + 1 : (i + 1) % n;
    t.side[to] = 0;
  }
  for (int b = 0; b <= n; ++b) {
    std::vector<world::EndRef> sides[2];
    for (int e = 0; e < 2 * n; ++e) {
      if (t.block[e] != b) continue;
      sides[t.side[e]].push_back({Name(e / 2), e % 2 ? kFinish : kStart});
    }
    t.text += "|";
    for (int sd = 0; sd < 2; ++sd) {
      for (const auto& e : sides[sd]) t.text += e.lane + (e.end == kStart ? "s" : "f");
      t.text += sd ? "" : "/";
    }
    if (!sides[0].empty() || !sides[1].empty()) w.Branch("bp" + std::to_string(b), sides[0], sides[1]);
  }
  c.trace([&] { return t.text; });
  c.state(t.text);
  for (int b = 0; b < n; ++b) {
    std::vector<Seq> want;
    Seq path{0};
    if (b == 0) {
      want.push_back(path);
    } else {
      t.Paths(&path, b, &want);
    }
    std::sort(want.begin(), want.end());
    c.op(2);
    c.nontrivial(!want.empty());
    c.expect(Convert(c, w, routing::FindLaneSequences(w.order[0], w.order[b], 1e3)) == want, "sequences", [&] { return t.text + " to " + Name(b); });
    std::vector<Seq> kept;
    for (const auto& s : want) {
      if (s.size() < 3 || !t.UTurn(s)) kept.push_back(s);
    }
    c.expect(Convert(c, w, routing::FindLaneSequences(w.order[0], w.order[b], 1e3, true)) == kept, "u-turns", [&] { return t.text + " to " + Name(b); });
    Routes(c, w, t, 0, b, .75, .5, 1e3, want, true, [&] { return t.text + " to " + Name(b); });
  }
}

// Long chains: all lanes with or against the chain, or in turns, with up to one U-turn at any place.
void Long(mc::Ctx& c) {
  const int n = 7 + c.choose(mc::Thorough() ? 8 : 5);
  const int orientation = c.choose(3);
  const int turn = c.choose(n + 1) - 1;
  world::World w;
  Topology t;
  t.n = n;
  t.block.assign(2 * n, 0);
  t.side.assign(2 * n, 0);
  for (int i = 0; i < n; ++i) {
    t.length.push_back(i % 3 + 1.);
    world::LaneSpec s;
    s.id = Name(i);
    s.length = t.length.back();
    w.Road(s.id, {s});
    const bool reversed = orientation == 1 || (orientation == 2 && i % 2);
    const int from = 2 * i + (reversed ? 1 : 0), to = 2 * i + (reversed ? 0 : 1);
    t.block[from] = i;
    t.side[from] = 1;
    t.block[to] = i + 1;
    t.side[to] = 0;
  }
  if (turn > 0) {
    // Lane `turn` and its previous one are at the other end of the latter: it goes back.
    const bool reversed = orientation == 1 || (orientation == 2 && (turn - 1) % 2);
    const int entry = 2 * (turn - 1) + (reversed ? 1 : 0);
    for (int e = 2 * turn; e < 2 * turn + 2; ++e) {
      if (t.block[e] == turn) {
        t.block[e] = t.block[entry];
        t.side[e] = 1 - t.side[entry];
      }
    }
  }
  t.text = std::to_string(n) + " lanes, orientation " + std::to_string(orientation) + ", turn " + std::to_string(turn);
  for (int b = 0; b <= n; ++b) {
    std::vector<world::EndRef> sides[2];
    for (int e = 0; e < 2 * n; ++e) {
      if (t.block[e] == b) sides[t.side[e]].push_back({Name(e / 2), e % 2 ? kFinish : kStart});
    }
    if (!sides[0].empty() || !sides[1].empty()) w.Branch("bp" + std::to_string(b), sides[0], sides[1]);
  }
  c.trace([&] { return t.text; });
  c.state(t.text);
  for (int a = 0; a < n; ++a) {
    for (int b = 0; b < n; ++b) {
      std::vector<Seq> want, kept;
      Seq path{a};
      if (a == b) {
        want.push_back(path);
      } else {
        t.Paths(&path, b, &want);
      }
      std::sort(want.begin(), want.end());
      auto what = [&] { return t.text + ": " + Name(a) + " to " + Name(b); };
      bool unique = true;
      for (const auto& s : want) unique = unique && t.Unique(s);
      c.assume(unique);
      for (const auto& s : want) {
        if (s.size() < 3 || !t.UTurn(s)) kept.push_back(s);
      }
      c.op(2);
      c.nontrivial(!want.empty() && want[0].size() > 6);
      c.expect(Convert(c, w, routing::FindLaneSequences(w.order[a], w.order[b], 1e3)) == want, "sequences", what);
      c.expect(Convert(c, w, routing::FindLaneSequences(w.order[a], w.order[b], 1e3, true)) == kept, "u-turns", what);
      Routes(c, w, t, a, b, .75, .5, 1e3, want, true, what);
      for (const auto& s : want) {
        const double l = t.Intermediate(s);
        c.op(2);
        c.expect(Convert(c, w, routing::FindLaneSequences(w.order[a], w.order[b], l)) == want || want.size() > 1, "sequences", what);
        if (l > 0.) c.expect(Convert(c, w, routing::FindLaneSequences(w.order[a], w.order[b], l - .25)).size() < want.size(), "sequences", what);
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"small", "all topologies (partitions of the lane ends into two-sided branch points) of up to 3 lanes x all pairs x length bounds", Small},
                   {"four", "all topologies of 4 lanes x all pairs x length bounds", Four},
                   {"rings", "chains and rings of 5 to 6 (thorough: 7) lanes x orientations x attachment sides", Ring},
                   {"long", "chains of 7 to 11 (thorough: 14) lanes x 3 orientations x a U-turn at any place, from every lane to every lane", Long}});
}
