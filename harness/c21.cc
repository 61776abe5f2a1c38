// Text views of roads and of routing graphs, and the components of segments that overlap at their branch points.
#include <algorithm>
#include <cmath>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <vector>

#include "maliput/geometry_base/segment.h"
#include "maliput/routing/graph/graph.h"
#include "maliput/routing/graph/graph_utils.h"
#include "maliput/routing/route.h"
#include "maliput/utility/generate_dot.h"
#include "maliput/utility/generate_string.h"
#include "maliput/utility/segment_analysis.h"
#include "maliput/utility/string_format.h"
#include "mc.h"
#include "topo.h"

using namespace maliput;
using namespace maliput::utility;
using topo::Topology;

namespace {

// Segments whose lanes leave a branch point on the same side, transitively.
void Components(mc::Ctx& c, const std::vector<int>& widths) {
  Topology t = topo::Choose(c, widths, false);
  topo::Join(c, &t);
  auto w = topo::Build(t, false);
  const int n = widths.size();
  const int empty = c.choose(n > 3 && !mc::Thorough() ? 2 : 3);  // A segment without lanes: nothing is connected to it.
  if (empty) {
    if (empty == 1) w->Junction("empty");
    w->Segment("empty");
  }
  c.trace([&] { return t.text; });
  c.state(t.text + (empty ? empty == 1 ? "+" : "++" : ""));
  c.op();
  const int all_segments = n + (empty ? 1 : 0);
  std::vector<std::set<int>> want(all_segments);
  for (int s = 0; s < all_segments; ++s) want[s].insert(s);
  for (bool more = true; more;) {
    more = false;
    for (int e = 0; e < 2 * t.lanes; ++e) {
      for (int f = 0; f < 2 * t.lanes; ++f) {
        if (t.block[e] != t.block[f] || t.side[e] != t.side[f]) continue;
        for (int s = 0; s < n; ++s) {
          if (want[s].count(t.segment[e / 2])) more = want[s].insert(t.segment[f / 2]).second || more;
        }
      }
    }
  }
  c.nontrivial(std::any_of(want.begin(), want.end(), [&](const auto& x) { return x.size() > 1; }));
  const auto segment = [&](int s) { return w->rg->ById().GetSegment(api::SegmentId(s < n ? t.SegName(s) : "empty")); };
  std::map<const api::Segment*, int> index;
  for (int s = 0; s < all_segments; ++s) index[segment(s)] = s;
  const auto of = [&](const std::unordered_set<const api::Segment*>& x) {
    std::set<int> r;
    for (const auto* s : x) {
      c.expect(index.count(s) == 1, "an unknown segment", t.text);
      r.insert(index[s]);
    }
    return r;
  };
  bool alone = true;  // Whether a segment without lanes is in its own component.
  for (int s = 0; s < all_segments; ++s) {
    auto got = of(FindConfluentSegments(segment(s)));
    if (s == n && got.empty()) {
      alone = false;
      got = want[s];
    }
    c.expect(got == want[s], "segments connected to a segment", [&] { return t.text + " " + std::to_string(s) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want[s].size()); });
  }
  std::set<std::set<int>> got;
  const auto all = AnalyzeConfluentSegments(w->rg.get());
  for (const auto& x : all) {
    got.insert(of(x));
    if (empty && got.erase(std::set<int>())) {
      alone = false;
      got.insert(want[n]);
    }
  }
  c.expect(got == std::set<std::set<int>>(want.begin(), want.end()) && got.size() == all.size(), "components", [&] { return t.text + ": " + std::to_string(all.size()); });
  c.expect(alone, "a segment without lanes is in no component, not even in its own", t.text);
}
void Narrow(mc::Ctx& c) {
  static const std::vector<std::vector<int>> w{{1}, {1, 1}, {1, 1, 1}};
  Components(c, c.pick(w));
}
void Four(mc::Ctx& c) {
  static const std::vector<std::vector<int>> quick{{1, 1, 1, 1}, {2, 1}, {1, 2}, {2, 2}, {1, 1, 2}, {2, 1, 1}, {1, 2, 1}, {3, 1}, {1, 3}};
  Components(c, c.pick(quick));
}

// Long chains of segments of many lanes, in any order, with any of the links missing.
void Many(mc::Ctx& c) {
  const int n = c.pick(mc::Thorough() ? std::vector<int>{4, 9, 10} : std::vector<int>{4, 9});
  const int width = c.pick(std::vector<int>{1, 4, 6}), linking = c.choose(width);  // Which of the lanes is linked to the next segment.
  const int order = c.choose(3);  // Of the segments: forwards, backwards, mixed.
  const int junctions = c.choose(2);
  unsigned links = 0;  // Bit i: segment i shares a side of a branch point with segment i + 1.
  for (int i = 0; i + 1 < n; ++i) links |= static_cast<unsigned>(c.choose(2)) << i;
  const std::string text = std::to_string(n) + " segments of " + std::to_string(width) + " lanes, linked by " + std::to_string(linking) + " " + std::to_string(links) + " order " + std::to_string(order) + (junctions ? " joined" : "");
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(links != 0);
  world::World w;
  const auto name = [](int s, int l) { return "l" + std::to_string(s) + "_" + std::to_string(l); };
  std::vector<const api::Segment*> segments(n);
  std::map<const api::Segment*, int> index;
  for (int k = 0; k < n; ++k) {
    const int s = order == 0 ? k : order == 1 ? n - 1 - k : k * 7 % n;
    if (!junctions || k == 0) w.Junction("j" + std::to_string(k));
    w.Segment("s" + std::to_string(s));
    for (int l = 0; l < width; ++l) {
      world::LaneSpec spec;
      spec.id = name(s, l);
      w.Lane(spec);
    }
    segments[s] = w[name(s, 0)]->segment();
    index[segments[s]] = s;
  }
  // Even links join the finishes of two segments, odd ones their starts. Other ends of the lanes are on the opposite side.
  for (int i = 0; i + 1 < n; ++i) {
    if (!(links >> i & 1)) continue;
    const auto end = i % 2 ? world::kStart : world::kFinish;
    w.Branch("b" + std::to_string(i), {{name(i, linking), end}, {name(i + 1, linking), end}}, {});
  }
  w.CloseEnds();
  std::vector<std::set<int>> want(n);
  std::set<std::set<int>> components;
  for (int s = 0, first = 0; s < n; ++s) {
    if (s + 1 < n && (links >> s & 1)) continue;
    std::set<int> x;
    for (int k = first; k <= s; ++k) x.insert(k);
    for (int k = first; k <= s; ++k) want[k] = x;
    components.insert(x);
    first = s + 1;
  }
  const auto of = [&](const std::unordered_set<const api::Segment*>& x) {
    std::set<int> r;
    for (const auto* s : x) {
      c.expect(index.count(s) == 1, "an unknown segment", text);
      r.insert(index[s]);
    }
    return r;
  };
  for (int s = 0; s < n; ++s) {
    const auto got = of(FindConfluentSegments(segments[s]));
    c.expect(got == want[s], "segments connected to a segment", [&] { return text + " " + std::to_string(s) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want[s].size()); });
  }
  std::set<std::set<int>> got;
  const auto all = AnalyzeConfluentSegments(w.rg.get());
  for (const auto& x : all) got.insert(of(x));
  c.expect(got == components && got.size() == all.size(), "components", [&] { return text + ": " + std::to_string(all.size()); });
}

struct DotEdge {
  std::string a, b;
  bool red;
  bool operator<(const DotEdge& o) const { return std::tie(a, b, red) < std::tie(o.a, o.b, o.red); }
  bool operator==(const DotEdge& o) const { return a == o.a && b == o.b && red == o.red; }
};
std::map<std::string, DotEdge> Parse(mc::Ctx& c, const std::string& text) {
  std::map<std::string, DotEdge> r;
  static const std::regex head(R"(^\s*graph\s*\{\s*([^]*?)\s*\}\s*$)"), edge(R"re(^\s*([^\s\[\]]+)\s*--\s*([^\s\[\]]+)\s*\[\s*(.*?)\s*\]\s*;\s*$)re");
  static const std::regex label(R"re(label\s*=\s*"([^"]*)")re"), color(R"re(color\s*=\s*"([^"]*)")re");
  std::smatch m;
  c.expect(std::regex_match(text, m, head), "not a graph", text);
  std::istringstream is(m[1].str());
  std::string line;
  while (std::getline(is, line)) {
    if (line.find_first_not_of(" \t") == std::string::npos) continue;
    std::smatch e, l, k;
    c.expect(std::regex_match(line, e, edge), "not an edge", text);
    const std::string attributes = e[3].str();
    c.expect(std::regex_search(attributes, l, label), "an edge without a label", text);
    DotEdge d{e[1].str(), e[2].str(), std::regex_search(attributes, k, color)};
    if (d.red) c.expect(k[1].str() == "red", "colour of an edge", text);
    c.expect(r.emplace(l[1].str(), d).second, "an edge twice", text);
  }
  return r;
}

void Dot(mc::Ctx& c) {
  static const std::vector<std::vector<int>> w{{1}, {2}, {1, 1}, {2, 1}, {1, 1, 1}};
  const std::vector<int> widths = c.pick(w);
  Topology t = topo::Choose(c, widths, true);
  if (t.lanes < 3) topo::Join(c, &t);
  auto world = topo::Build(t, true);
  const int n = widths.size();
  const auto lanes = world->order;
  const auto network = topo::Network(std::move(world->rg));
  const routing::graph::Graph g = routing::graph::BuildGraph(network->road_geometry());
  // The phases of the route: by lane.
  std::vector<int> phases;
  const int length = c.choose(4);
  std::string desc = t.text + " route";
  for (int i = 0; i < length; ++i) {
    phases.push_back(c.choose(t.lanes));
    desc += " " + std::to_string(phases.back());
  }
  c.trace([&] { return desc; });
  c.state(desc);
  c.op();
  c.nontrivial(length > 1);
  std::map<std::string, DotEdge> want;
  for (const auto& kv : g.edges) want[kv.second.segment->id().string()] = {kv.second.node_a.string(), kv.second.node_b.string(), false};
  c.expect(static_cast<int>(want.size()) == n, "edges of the graph", desc);
  std::ostringstream os;
  if (length == 0) {
    GenerateDotStream(g, &os);
    c.expect(Parse(c, os.str()) == want, "edges of the text", [&] { return desc + ": " + os.str(); });
    c.expect(mc::Throws([&] { GenerateDotStream(g, nullptr); }), "null accepted", desc);
    std::ostringstream none;
    GenerateDotStream(routing::graph::Graph{}, &none);
    c.expect(Parse(c, none.str()).empty(), "an empty graph", none.str());
    return;
  }
  std::vector<routing::Phase> p;
  for (int l : phases) {
    const auto* lane = lanes[l];
    const api::RoadPosition from(lane, {0., 0., 0.}), to(lane, {lane->length(), 0., 0.});
    p.emplace_back(p.size(), 1e-3, std::vector<api::RoadPosition>{from}, std::vector<api::RoadPosition>{to}, std::vector<api::LaneSRange>{{lane->id(), {0., lane->length()}}}, network.get());
    want[t.SegName(t.segment[l])].red = true;
  }
  const routing::Route route(p, network.get());
  GenerateDotStream(g, route, &os);
  c.expect(Parse(c, os.str()) == want, "edges of the text", [&] { return desc + ": " + os.str(); });
  c.expect(mc::Throws([&] { GenerateDotStream(g, route, nullptr); }), "null accepted", desc);
  // A graph that lacks a segment of the route.
  for (int s = 0; s < n; ++s) {
    routing::graph::Graph less = g;
    less.edges.erase(routing::graph::EdgeId(t.SegName(s)));
    const bool used = want[t.SegName(s)].red;
    std::ostringstream out;
    const bool threw = mc::Throws([&] { GenerateDotStream(less, route, &out); });
    c.expect(threw == used, "a segment of the route that is not in the graph", [&] { return desc + ": " + std::to_string(s); });
    if (!threw) {
      auto rest = want;
      rest.erase(t.SegName(s));
      c.expect(Parse(c, out.str()) == rest, "edges of the text", [&] { return desc + ": " + out.str(); });
    }
  }
}

// Every option of the text of a road.
void Text(mc::Ctx& c) {
  const int bits = c.choose(64);
  GenerateStringOptions o;
  o.include_type_labels = bits & 1;
  o.include_road_geometry_id = bits & 2;
  o.include_junction_ids = bits & 4;
  o.include_segment_ids = bits & 8;
  o.include_lane_ids = bits & 16;
  o.include_lane_details = bits & 32;
  world::World w(1. / 64., 1. / 64., 1., math::Vector3(0., 0., 0.), "the road");
  std::vector<std::vector<std::vector<std::string>>> shape;
  static const int many[4][3] = {{1, 1, 7}, {1, 6, 1}, {6, 1, 1}, {5, 5, 5}};  // Junctions, segments, lanes.
  const int shape_kind = c.choose(5);
  const int junctions = shape_kind ? many[shape_kind - 1][0] : c.choose(3);
  int n = 0;
  std::string desc = "options " + std::to_string(bits);
  for (int j = 0; j < junctions; ++j) {
    shape.emplace_back();
    w.Junction("j" + std::to_string(j));
    const int segments = shape_kind ? many[shape_kind - 1][1] : c.choose(3);
    desc += " j";
    for (int s = 0; s < segments; ++s) {
      shape.back().emplace_back();
      w.Segment("s" + std::to_string(j) + std::to_string(s));
      const int lanes = shape_kind ? many[shape_kind - 1][2] : c.choose(junctions == 2 && !mc::Thorough() ? 3 : 4);
      desc += std::to_string(lanes);
      for (int l = 0; l < lanes; ++l) {
        world::LaneSpec spec;
        spec.id = "l" + std::to_string(n);
        spec.length = 10. + n;
        spec.pose.origin = math::Vector3(1. + n, 5. * l, 2.);
        ++n;
        w.Lane(spec);
        shape.back().back().push_back(spec.id);
      }
    }
  }
  w.CloseEnds();
  c.trace([&] { return desc; });
  c.state(desc);
  c.op();
  c.nontrivial(n > 1);
  std::vector<std::string> want;
  const auto line = [&](int depth, const std::string& label, const std::string& id) { want.push_back(std::string(2 * depth, ' ') + (o.include_type_labels ? label + ": " : "") + id); };
  if (o.include_road_geometry_id) line(0, "geometry", "the road");
  const int dj = o.include_road_geometry_id, ds = dj + o.include_junction_ids, dl = ds + o.include_segment_ids;
  for (int j = 0; j < junctions; ++j) {
    if (o.include_junction_ids) line(dj, "junction", "j" + std::to_string(j));
    for (size_t s = 0; s < shape[j].size(); ++s) {
      if (o.include_segment_ids) line(ds, "segment", "s" + std::to_string(j) + std::to_string(s));
      if (!o.include_lane_ids) continue;
      const auto& ids = shape[j][s];
      for (size_t l = 0; l < ids.size(); ++l) {
        line(dl, "lane", ids[l]);
        if (!o.include_lane_details) continue;
        const auto* lane = w[ids[l]];
        const std::string p(2 * dl, ' ');
        std::ostringstream a, b, q;
        q << lane->length();
        a << lane->ToInertialPosition({0., 0., 0.});
        b << lane->ToInertialPosition({lane->length(), 0., 0.});
        want.push_back(p + "  length: " + q.str());
        want.push_back(p + "  geo positions:");
        want.push_back(p + "    s_min: " + a.str());
        want.push_back(p + "    s_max: " + b.str());
        want.push_back(p + "  to left: " + (l + 1 < ids.size() ? ids[l + 1] : ""));
        want.push_back(p + "  to right: " + (l > 0 ? ids[l - 1] : ""));
      }
    }
  }
  std::string text;
  for (const auto& x : want) text += (text.empty() && &x == &want[0] ? "" : "\n") + x;
  const std::string got = GenerateString(*w.rg, o);
  c.expect(got == text, "text of a road", [&] { return desc + ":\n" + got + "\ninstead of\n" + text; });
}

// Fixed point text of numbers.
void Numbers(mc::Ctx& c) {
  const int precision = c.choose(16) - 1;
  const double base = c.pick(std::vector<double>{0., 1., 1.5, 2.5, .1, .05, .125, 9.99999, 123456.789, 1e-7, 1e15, 1. / 3.});
  const double v = c.flip() ? -base : base;
  c.trace([&] { return std::to_string(v) + " " + std::to_string(precision); });
  c.state(std::to_string(v) + " " + std::to_string(precision));
  c.op();
  std::string got;
  const bool threw = mc::Throws([&] { got = to_str(v, precision); });
  c.expect(threw == (precision < 0), "precision accepted", got);
  if (threw) return;
  c.nontrivial();
  static const std::regex fixed(R"(-?\d+(\.(\d+))?)");
  std::smatch m;
  c.expect(std::regex_match(got, m, fixed), "not fixed point", got);
  c.expect(static_cast<int>(m[2].length()) == precision, "decimals", got);
  c.expect(std::fabs(std::stold(got) - static_cast<long double>(v)) <= .5L * std::pow(10.L, -precision) * (1 + 1e-9L) + std::fabs(v) * 1e-15L, "value", got);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"components", "all topologies of up to 3 segments of a lane, and a segment without lanes", Narrow},
                               {"wide components", "all topologies of up to 4 lanes in up to 4 segments of up to 3 lanes", Four},
                               {"many", "chains of 4 or 9 (thorough: 10) segments of up to 6 lanes, in 3 orders, any links missing", Many},
                               {"dot", "all topologies of up to 3 lanes x routes of up to 3 phases", Dot},
                               {"text", "roads of up to 2 junctions of up to 2 segments of up to 3 lanes, and 4 larger ones, x all options", Text},
                               {"numbers", "values x precisions", Numbers}});
}
