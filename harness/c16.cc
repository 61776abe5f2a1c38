// The distance router: routes between every two places of every topology of a few segments.
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <vector>

#include "maliput/base/distance_router.h"
#include "maliput/routing/routing_constraints.h"
#include "mc.h"
#include "topo.h"

using namespace maliput;
using topo::Topology;

namespace {

constexpr double kTol = 1. / 64.;

struct Hop {
  int segment, entry, exit;  // -1: the start or end position.
  bool operator<(const Hop& o) const { return std::tie(segment, entry, exit) < std::tie(o.segment, o.entry, o.exit); }
  bool operator==(const Hop& o) const { return std::tie(segment, entry, exit) == std::tie(o.segment, o.entry, o.exit); }
};
using Path = std::vector<Hop>;

std::string Str(const Path& p) {
  std::string r;
  for (const auto& h : p) r += " s" + std::to_string(h.segment) + (h.exit == -1 ? "" : h.exit ? "+" : "-");
  return r;
}

struct Search {
  const Topology& t;
  const topo::Nodes& nodes;
  int a, b;  // Segments.
  std::vector<Path> paths;
  void Done(Path p) {
    // The path joins the nodes; the segments with the start and the end are part of the route.
    if (p.front().segment != a) {
      if (topo::Meet(t, a, 0, p.front().segment, p.front().entry) != 1) return;
      p.insert(p.begin(), Hop{a, -1, 0});
    } else {
      p.front().entry = -1;
    }
    if (p.back().segment != b) {
      if (topo::Meet(t, b, 1, p.back().segment, p.back().exit) != 1) return;
      p.push_back(Hop{b, 1, -1});
    } else {
      p.back().exit = -1;
    }
    paths.push_back(p);
  }
  void Run(int node, int to, std::set<int>* visited, Path* path) {
    for (int s = 0; s < static_cast<int>(t.widths.size()); ++s) {
      for (int end = 0; end < 2; ++end) {
        if (nodes.Of(t, s, end) != node) continue;
        const int next = nodes.Of(t, s, 1 - end);
        if (visited->count(next)) continue;
        if (!path->empty() && topo::Meet(t, path->back().segment, path->back().exit, s, end) != 1) continue;
        path->push_back({s, end, 1 - end});
        if (next == to) {
          Done(*path);
        } else {
          visited->insert(next);
          Run(next, to, visited, path);
          visited->erase(next);
        }
        path->pop_back();
      }
    }
  }
};

struct Checker {
  mc::Ctx& c;
  const Topology& t;
  const topo::Nodes& nodes;
  const world::World& w;
  const api::RoadNetwork* rn;
  const std::vector<double>& length;

  int LaneIndex(const api::Lane* l) const {
    const auto it = std::find(w.order.begin(), w.order.end(), l);
    return it == w.order.end() ? -1 : it - w.order.begin();
  }
  int LaneIndex(const api::LaneId& id) const {
    for (size_t i = 0; i < w.order.size(); ++i) {
      if (w.order[i]->id() == id) return i;
    }
    return -1;
  }
  bool Equivalent(double got, double ref_s, int ref, int lane) const {
    return std::fabs(got - ref_s / length[ref] * length[lane]) <= kTol + 1e-9 && got >= 0. && got <= length[lane];
  }
  // The path of a route, after checking each of its phases.
  Path Read(const routing::Route& r, int la, double s0, int lb, double s1, const std::function<std::string()>& what) {
    Path p;
    for (int i = 0; i < r.size(); ++i) {
      const routing::Phase& ph = r.Get(i);
      c.expect(ph.index() == i && ph.lane_s_range_tolerance() == kTol, "phase index", what);
      c.expect(!ph.lane_s_ranges().empty(), "phase without ranges", what);
      const int first = LaneIndex(ph.lane_s_ranges().front().lane_id());
      c.expect(first >= 0, "unknown lane", what);
      const int seg = t.segment[first];
      const auto& ls = t.lanes_of[seg];
      c.expect(ph.lane_s_ranges().size() == ls.size(), "lanes of the phase", what);
      Hop hop{seg, -1, -1};
      // Positions of the interfaces.
      auto end_of = [&](const std::vector<api::RoadPosition>& ps) {
        int end = -1;
        for (const auto& x : ps) {
          const int l = LaneIndex(x.lane);
          c.expect(l >= 0 && t.segment[l] == seg, "position in another segment", what);
          const int e = x.pos.s() == 0. ? 0 : x.pos.s() == length[l] ? 1 : -2;
          c.expect(e >= 0 && x.pos.r() == 0. && x.pos.h() == 0. && (end == -1 || end == e), "position is not at the end of the segment", what);
          end = e;
        }
        return end;
      };
      if (i == 0) {
        c.expect(ph.start_positions().size() == 1 && ph.start_positions()[0].lane == w.order[la] && ph.start_positions()[0].pos.s() == s0, "start", what);
      } else {
        hop.entry = end_of(ph.start_positions());
      }
      if (i + 1 == r.size()) {
        c.expect(ph.end_positions().size() == 1 && ph.end_positions()[0].lane == w.order[lb] && ph.end_positions()[0].pos.s() == s1, "end", what);
      } else {
        hop.exit = end_of(ph.end_positions());
      }
      for (size_t k = 0; k < ls.size(); ++k) {
        const auto& range = ph.lane_s_ranges()[k];
        c.expect(range.lane_id() == w.order[ls[k]]->id(), "order of the lanes of the phase", what);
        const double from = range.s_range().s0(), to = range.s_range().s1();
        const bool ok0 = i == 0 ? Equivalent(from, s0, la, ls[k]) : from == (hop.entry ? length[ls[k]] : 0.);
        const bool ok1 = i + 1 == r.size() ? Equivalent(to, s1, lb, ls[k]) : to == (hop.exit ? length[ls[k]] : 0.);
        c.expect(ok0 && ok1, "range of the phase", [&] { return what() + " phase " + std::to_string(i) + " lane " + Topology::Name(ls[k]); });
      }
      p.push_back(hop);
    }
    // Interfaces: exactly the lanes that connect.
    for (int i = 0; i + 1 < r.size(); ++i) {
      std::set<int> out, in, want_out, want_in;
      for (const auto& x : r.Get(i).end_positions()) out.insert(LaneIndex(x.lane));
      for (const auto& x : r.Get(i + 1).start_positions()) in.insert(LaneIndex(x.lane));
      for (int l : t.lanes_of[p[i].segment]) {
        for (int m : t.lanes_of[p[i + 1].segment]) {
          if (!t.Opposite(2 * l + p[i].exit, 2 * m + p[i + 1].entry)) continue;
          want_out.insert(l);
          want_in.insert(m);
        }
      }
      c.expect(!want_out.empty() && out == want_out && in == want_in, "interface", [&] { return what() + Str(p) + " after phase " + std::to_string(i); });
      c.expect(out.size() == r.Get(i).end_positions().size() && in.size() == r.Get(i + 1).start_positions().size(), "repeated positions", what);
    }
    c.expect(r.ValidateEndToEndConnectivity().empty(), "end to end connectivity", what);
    return p;
  }
  // Whether there is no way to follow the path in the lanes that continue one another.
  bool Switch(const Path& p, int la, int lb) const {
    int l = la;
    for (size_t i = 0; i + 1 < p.size(); ++i) {
      int next = -1;
      for (int m : t.lanes_of[p[i + 1].segment]) {
        if (t.Opposite(2 * l + p[i].exit, 2 * m + p[i + 1].entry)) next = m;
      }
      if (next < 0) return true;
      l = next;
    }
    return l != lb;
  }
};

void Check(mc::Ctx& c, const std::vector<int>& widths) {
  Topology t = topo::Choose(c, widths, true);
  const topo::Nodes nodes(t);
  const int n = widths.size();
  // Two segments either continue one another or they are side by side.
  for (int s = 0; s < n; ++s) {
    for (int q = 0; q < n; ++q) {
      if (s == q) continue;
      for (int x = 0; x < 2; ++x) {
        for (int y = 0; y < 2; ++y) c.assume(topo::Meet(t, s, x, q, y) != 3);
      }
    }
  }
  if (t.lanes < 3) topo::Join(c, &t);
  c.trace([&] { return t.text; });
  c.state(t.text);
  auto w = topo::Build(t, true, kTol);
  const auto rn = topo::Network(std::move(w->rg));
  std::vector<double> length;
  for (const auto* l : w->order) length.push_back(l->length());
  const DistanceRouter router(*rn, kTol);
  Checker k{c, t, nodes, *w, rn.get(), length};
  static const std::vector<std::pair<double, double>> all{{.25, .75}, {.75, .25}, {0., 1.}, {1., 0.}, {.5, .5}};
  const auto places = mc::Thorough() || t.lanes < 4 ? all : std::vector<std::pair<double, double>>{{.25, .625}, {1., .25}};
  for (int la = 0; la < t.lanes; ++la) {
    for (int lb = 0; lb < t.lanes; ++lb) {
      const int a = t.segment[la], b = t.segment[lb];
      const int from = nodes.Of(t, a, 0), to = nodes.Of(t, b, 1);
      Search search{t, nodes, a, b, {}};
      const bool ring = nodes.Of(t, a, 0) == nodes.Of(t, a, 1) || nodes.Of(t, b, 0) == nodes.Of(t, b, 1);
      const bool decided = from != to && !ring;
      if (decided) {
        std::set<int> visited{from};
        Path path;
        search.Run(from, to, &visited, &path);
        std::sort(search.paths.begin(), search.paths.end());
      }
      for (const auto& place : places) {
        const double s0 = place.first * length[la], s1 = place.second * length[lb];
        const api::RoadPosition start(w->order[la], {s0, .5, .25}), end(w->order[lb], {s1, -.5, 0.});
        auto what = [&] {
          return t.text + ": " + Topology::Name(la) + "@" + std::to_string(place.first) + " to " + Topology::Name(lb) + "@" + std::to_string(place.second);
        };
        std::vector<routing::Route> routes;
        std::string error;
        c.op();
        c.expect(mc::Try([&] { routes = router.ComputeRoutes(start, end, {}); }, &error) == mc::Outcome::kOk, "throws", [&] { return what() + ": " + error; });
        std::vector<Path> got;
        std::vector<double> max_phase, total;
        std::vector<bool> switches;
        for (const auto& r : routes) {
          got.push_back(k.Read(r, la, s0, lb, s1, what));
          c.expect(got.back().front().segment == a && got.back().back().segment == b, "extremes", what);
          double mp = 0., sum = 0.;
          for (int i = 0; i < r.size(); ++i) {
            double m = std::numeric_limits<double>::max();
            for (const auto& range : r.Get(i).lane_s_ranges()) m = std::min(m, std::fabs(range.s_range().s1() - range.s_range().s0()));
            mp = std::max(mp, m);
            sum += m;
          }
          max_phase.push_back(mp);
          total.push_back(sum);
          switches.push_back(k.Switch(got.back(), la, lb));
        }
        auto sorted = got;
        std::sort(sorted.begin(), sorted.end());
        if (decided) {
          c.nontrivial(!sorted.empty() && sorted.front().size() > 1);
          c.expect(sorted == search.paths, "routes", [&] {
            std::string m = what() + " got";
            for (const auto& p : sorted) m += " [" + Str(p) + " ]";
            m += ", want";
            for (const auto& p : search.paths) m += " [" + Str(p) + " ]";
            return m;
          });
        }
        if (routes.empty()) continue;
        // Constraints.
        std::vector<std::optional<double>> mps{std::nullopt, 0.}, mrs{std::nullopt};
        for (double v : max_phase) {
          mps.push_back(v);
          mps.push_back(v - .25);
        }
        for (double v : total) {
          mrs.push_back(v + 1e-6);
          mrs.push_back(v - .25);
        }
        if (mps.size() > 5) mps.resize(5);
        if (mrs.size() > 5) mrs.resize(5);
        for (bool allow : {true, false}) {
          for (const auto& mp : mps) {
            for (const auto& mr : mrs) {
              routing::RoutingConstraints rc;
              rc.allow_lane_switch = allow;
              rc.max_phase_cost = mp;
              rc.max_route_cost = mr;
              const bool valid = (!mp || *mp >= 0.) && (!mr || *mr >= 0.) && (!mp || !mr || *mr >= *mp);
              std::vector<routing::Route> kept;
              c.op();
              const bool threw = mc::Throws([&] { kept = router.ComputeRoutes(start, end, rc); });
              auto why = [&] {
                return what() + (allow ? "" : " no switches") + (mp ? " phase " + std::to_string(*mp) : "") + (mr ? " route " + std::to_string(*mr) : "");
              };
              c.expect(threw == !valid, threw ? "valid constraints rejected" : "invalid constraints accepted", why);
              if (threw) continue;
              std::vector<Path> want, have;
              for (size_t i = 0; i < routes.size(); ++i) {
                if ((!mp || max_phase[i] <= *mp) && (!mr || total[i] <= *mr) && (allow || !switches[i])) want.push_back(got[i]);
              }
              for (const auto& r : kept) have.push_back(k.Read(r, la, s0, lb, s1, why));
              std::sort(want.begin(), want.end());
              std::sort(have.begin(), have.end());
              c.expect(want == have, "constrained routes", [&] {
                std::string m = why() + " got";
                for (const auto& p : have) m += " [" + Str(p) + " ]";
                m += ", want";
                for (const auto& p : want) m += " [" + Str(p) + " ]";
                return m;
              });
            }
          }
        }
      }
    }
  }
}

void Narrow(mc::Ctx& c) {
  static const std::vector<std::vector<int>> w{{1}, {1, 1}, {1, 1, 1}, {1, 1, 1, 1}};
  Check(c, c.pick(w));
}
void Wide(mc::Ctx& c) {
  static const std::vector<std::vector<int>> w{{2}, {3}, {2, 1}, {1, 2}, {2, 2}, {1, 3}, {2, 1, 1}};
  static const std::vector<std::vector<int>> more{{2}, {3}, {2, 1}, {1, 2}, {2, 2}, {1, 3}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {3, 2}, {1, 1, 1, 1}};
  Check(c, c.pick(mc::Thorough() ? more : w));
}

// Roads of several lanes joined in a chain, each one in either orientation, with lanes shifted or missing.
void Chain(mc::Ctx& c) {
  const int n = 2 + c.choose(2);
  Topology t;
  std::vector<std::vector<int>> at(n + 1, std::vector<int>(5, -1));  // Branch point of each slot of each interface.
  std::vector<bool> reversed;
  for (int s = 0; s < n; ++s) {
    const int width = 1 + c.choose(3), shift = s == 0 ? 1 : c.choose(3);
    reversed.push_back(c.flip());
    t.widths.push_back(width);
    t.lanes_of.emplace_back();
    for (int q = 0; q < width; ++q) {
      // Lanes are numbered from right to left of their own direction.
      const int slot = shift + (reversed[s] ? width - 1 - q : q);
      t.lanes_of.back().push_back(t.lanes++);
      t.segment.push_back(s);
      for (int end = 0; end < 2; ++end) {
        const int interface = s + (reversed[s] ? 1 - end : end);
        int& b = at[interface][slot];
        if (b < 0) b = t.blocks++;
        t.block.push_back(b);
        t.side.push_back(interface == s ? 1 : 0);
      }
    }
  }
  if (t.blocks > 12) c.prune();
  for (int w : t.widths) t.text += std::to_string(w);
  for (bool r : reversed) t.text += r ? "-" : "+";
  for (int b : t.block) t.text += "," + std::to_string(b);
  c.trace([&] { return t.text; });
  c.state(t.text);
  const topo::Nodes nodes(t);
  auto w = topo::Build(t, true, kTol);
  const auto rn = topo::Network(std::move(w->rg));
  std::vector<double> length;
  for (const auto* l : w->order) length.push_back(l->length());
  const DistanceRouter router(*rn, kTol);
  Checker k{c, t, nodes, *w, rn.get(), length};
  for (int la = 0; la < t.lanes; ++la) {
    for (int lb = 0; lb < t.lanes; ++lb) {
      const int a = t.segment[la], b = t.segment[lb];
      const int from = nodes.Of(t, a, 0), to = nodes.Of(t, b, 1);
      if (from == to) continue;
      Search search{t, nodes, a, b, {}};
      std::set<int> visited{from};
      Path path;
      search.Run(from, to, &visited, &path);
      for (bool allow : {true, false}) {
        const double s0 = .25 * length[la], s1 = .5 * length[lb];
        auto what = [&] { return t.text + ": " + Topology::Name(la) + " to " + Topology::Name(lb) + (allow ? "" : " no switches"); };
        std::vector<routing::Route> routes;
        std::string error;
        routing::RoutingConstraints rc;
        rc.allow_lane_switch = allow;
        c.op();
        c.expect(mc::Try([&] { routes = router.ComputeRoutes({w->order[la], {s0, 0., 0.}}, {w->order[lb], {s1, 0., 0.}}, rc); }, &error) == mc::Outcome::kOk,
                 "throws", [&] { return what() + ": " + error; });
        std::vector<Path> got, want;
        for (const auto& r : routes) got.push_back(k.Read(r, la, s0, lb, s1, what));
        for (const auto& p : search.paths) {
          if (allow || !k.Switch(p, la, lb)) want.push_back(p);
        }
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        c.nontrivial(!want.empty());
        c.expect(got == want, "routes", [&] {
          std::string m = what() + " got";
          for (const auto& p : got) m += " [" + Str(p) + " ]";
          m += ", want";
          for (const auto& p : want) m += " [" + Str(p) + " ]";
          return m;
        });
      }
    }
  }
}

void Invalid(mc::Ctx& c) {
  auto make = [](const char* id) {
    auto w = std::make_unique<world::World>(kTol);
    world::LaneSpec s;
    s.id = id;
    w->Road("r", {s});
    w->CloseEnds();
    return w;
  };
  auto w = make("a");
  const auto* lane = (*w)["a"];
  const auto rn = topo::Network(std::move(w->rg));
  const auto other = make(c.flip() ? "a" : "b");
  const DistanceRouter router(*rn, kTol);
  const std::vector<const api::Lane*> lanes{lane, nullptr, other->order[0]};
  const auto* from = c.pick(lanes);
  const auto* to = c.pick(lanes);
  const std::vector<std::optional<double>> values{std::nullopt, 0., 4., 5., -1e-9, -1.};
  routing::RoutingConstraints rc;
  rc.max_phase_cost = c.pick(values);
  rc.max_route_cost = c.pick(values);
  rc.allow_lane_switch = c.flip();
  const auto &mp = rc.max_phase_cost, &mr = rc.max_route_cost;
  const bool valid_rc = (!mp || *mp >= 0.) && (!mr || *mr >= 0.) && (!mp || !mr || *mr >= *mp);
  const bool valid = valid_rc && from == lane && to == lane;
  c.state(mc::H() << (from == lane) << (to == lane) << (mp ? *mp * 2 + 10 : 99) << (mr ? *mr * 2 + 10 : 99) << rc.allow_lane_switch);
  c.op(2);
  c.expect(mc::Throws([&] { routing::ValidateRoutingConstraints(rc); }) == !valid_rc, "constraints validation");
  std::vector<routing::Route> r;
  const bool threw = mc::Throws([&] { r = router.ComputeRoutes({from, {2., 0., 0.}}, {to, {6., 0., 0.}}, rc); });
  c.expect(threw == !valid, threw ? "valid query rejected" : "invalid query accepted");
  if (!threw) {
    const bool fits = (!mp || *mp >= 4.) && (!mr || *mr >= 4.);
    c.expect(r.size() == (fits ? 1u : 0u), "one lane");
  }
  c.expect(mc::Throws([&] { DistanceRouter(*rn, -1e-9); }) && !mc::Throws([&] { DistanceRouter(*rn, 0.); }), "tolerance");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"narrow", "all topologies of up to 4 one-lane segments, all pairs of lanes x places x constraints", Narrow},
                               {"wide", "all topologies of up to 3 segments and 4 lanes (thorough: 5 lanes, all orders of segments), all pairs of lanes x places x constraints", Wide},
                               {"chain", "all chains of 2 to 3 segments of 1 to 3 lanes, shifted, in both orientations x all pairs of lanes", Chain},
                               {"invalid", "null and foreign lanes x constraints", Invalid}});
}
