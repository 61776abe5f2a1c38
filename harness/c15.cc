// The routing graph: nodes, edges and edge sequences of every topology of a few segments.
#include <algorithm>
#include <map>
#include <set>
#include <vector>

#include "maliput/routing/graph/graph.h"
#include "maliput/routing/graph/graph_utils.h"
#include "mc.h"
#include "topo.h"

using namespace maliput;
using namespace maliput::routing::graph;
using topo::Topology;
using Seq = std::vector<int>;

namespace {

struct Search {
  const Topology& t;
  const topo::Nodes& nodes;
  std::vector<Seq> certain, possible;  // Mixed connections may or may not be drivable.
  void Run(int node, int to, std::set<int>* visited, Seq* seq, std::vector<int>* exits, bool mixed) {
    for (int s = 0; s < static_cast<int>(t.widths.size()); ++s) {
      for (int end = 0; end < 2; ++end) {
        if (nodes.Of(t, s, end) != node) continue;
        const int next = nodes.Of(t, s, 1 - end);
        if (visited->count(next)) continue;
        bool m = mixed;
        if (!seq->empty()) {
          const int how = topo::Meet(t, seq->back(), exits->back(), s, end);
          if (how == 0 || how == 2) continue;
          m = m || how == 3;
        }
        seq->push_back(s);
        exits->push_back(1 - end);
        if (next == to) {
          (m ? possible : certain).push_back(*seq);
        } else {
          visited->insert(next);
          Run(next, to, visited, seq, exits, m);
          visited->erase(next);
        }
        seq->pop_back();
        exits->pop_back();
      }
    }
  }
};

void Check(mc::Ctx& c, const std::vector<int>& widths) {
  Topology t = topo::Choose(c, widths, false);
  if (t.lanes < 4) topo::Join(c, &t);
  c.trace([&] { return t.text; });
  c.state(t.text);
  const auto w = topo::Build(t, false);
  const topo::Nodes nodes(t);
  c.op();
  const Graph g = BuildGraph(w->rg.get());
  const int n = widths.size();
  // Nodes.
  std::map<NodeId, int> node_of;
  std::map<int, NodeId> id_of;
  std::set<int> seen;
  auto what = [&] { return t.text; };
  std::map<const api::BranchPoint*, int> block_of;
  for (int b = 0; b < t.blocks; ++b) block_of[w->rg->branch_point(b)] = b;
  for (const auto& kv : g.nodes) {
    c.expect(kv.first == kv.second.id && !kv.second.branch_points.empty(), "node", what);
    for (const auto* bp : kv.second.branch_points) {
      c.expect(block_of.count(bp) == 1, "unknown branch point", what);
      const int b = block_of[bp];
      c.expect(seen.insert(b).second, "branch point in two nodes", what);
      if (bp == *kv.second.branch_points.begin()) {
        node_of[kv.first] = nodes.node[b];
        c.expect(id_of.emplace(nodes.node[b], kv.first).second, "nodes not merged", what);
      }
      c.expect(node_of[kv.first] == nodes.node[b], "branch points of different places in a node", what);
    }
  }
  c.expect(static_cast<int>(seen.size()) == t.blocks, "branch points without node", what);
  // Edges.
  c.expect(static_cast<int>(g.edges.size()) == n, "number of edges", what);
  std::vector<const Edge*> edge(n);
  for (int s = 0; s < n; ++s) {
    const auto it = g.edges.find(EdgeId(t.SegName(s)));
    c.expect(it != g.edges.end() && it->second.id == it->first && it->second.segment == w->rg->ById().GetSegment(api::SegmentId(t.SegName(s))), "edge", what);
    edge[s] = &it->second;
    c.expect(g.nodes.count(edge[s]->node_a) && g.nodes.count(edge[s]->node_b), "edge without node", what);
    c.expect(node_of[edge[s]->node_a] == nodes.Of(t, s, 0) && node_of[edge[s]->node_b] == nodes.Of(t, s, 1), "nodes of the edge", what);
  }
  for (const auto& kv : g.nodes) {
    std::set<EdgeId> want;
    for (int s = 0; s < n; ++s) {
      if (nodes.Of(t, s, 0) == node_of[kv.first] || nodes.Of(t, s, 1) == node_of[kv.first]) want.insert(EdgeId(t.SegName(s)));
    }
    c.expect(kv.second.edges == want, "edges of the node", what);
  }
  // Nodes of lane ends.
  for (int l = 0; l < t.lanes; ++l) {
    for (int end = 0; end < 2; ++end) {
      c.op();
      const auto r = FindNode(g, *w->order[l], end ? world::kFinish : world::kStart);
      c.expect(r.has_value() && g.nodes.count(r->id) && node_of[r->id] == nodes.node[t.block[2 * l + end]], "find node", what);
    }
  }
  {
    world::World other;
    world::LaneSpec s;
    s.id = "other";
    other.Road("other", {s});
    other.CloseEnds();
    c.op();
    c.expect(!FindNode(g, *other.order[0], world::kStart).has_value(), "find node of a foreign lane", what);
  }
  // Ends.
  for (int s = 0; s < n; ++s) {
    for (int q = 0; q < n; ++q) {
      bool at[2];
      for (int end = 0; end < 2; ++end) at[end] = nodes.Of(t, s, end) == nodes.Of(t, q, 0) || nodes.Of(t, s, end) == nodes.Of(t, q, 1);
      c.op();
      const auto r = DetermineEdgeEnd(g, *edge[s], *edge[q]);
      const bool ok = s == q || (!at[0] && !at[1]) ? !r.has_value() : r.has_value() && at[*r == world::kStart ? 0 : 1];
      c.expect(ok, "edge end", [&] { return t.text + ": " + t.SegName(s) + " to " + t.SegName(q); });
    }
  }
  // Sequences.
  for (const auto& a : id_of) {
    for (const auto& b : id_of) {
      Search search{t, nodes, {}, {}};
      if (a.first != b.first) {
        std::set<int> visited{a.first};
        Seq seq, exits;
        search.Run(a.first, b.first, &visited, &seq, &exits, false);
      }
      c.op();
      std::vector<Seq> got;
      for (const auto& es : FindAllEdgeSequences(g, g.nodes.at(a.second), g.nodes.at(b.second))) {
        Seq q;
        for (const auto& e : es) {
          int s = 0;
          while (s < n && edge[s]->id != e.id) ++s;
          c.expect(s < n && e.segment == edge[s]->segment && e.node_a == edge[s]->node_a && e.node_b == edge[s]->node_b, "unknown edge", what);
          q.push_back(s);
        }
        if (std::find(search.possible.begin(), search.possible.end(), q) == search.possible.end()) got.push_back(q);
      }
      std::sort(got.begin(), got.end());
      std::sort(search.certain.begin(), search.certain.end());
      c.nontrivial(!search.certain.empty() && search.certain[0].size() > 1);
      c.expect(got == search.certain, "sequences", [&] {
        std::string m = t.text + ": from " + std::to_string(a.first) + " to " + std::to_string(b.first) + " got";
        for (const auto& s : got) {
          m += " ";
          for (int i : s) m += std::to_string(i);
        }
        m += ", want";
        for (const auto& s : search.certain) {
          m += " ";
          for (int i : s) m += std::to_string(i);
        }
        return m;
      });
    }
  }
  const Node foreign{NodeId("foreign"), {}, {}};
  const Node& known = g.nodes.begin()->second;
  c.op(2);
  c.expect(mc::Throws([&] { FindAllEdgeSequences(g, foreign, known); }) && mc::Throws([&] { FindAllEdgeSequences(g, known, foreign); }),
           "unknown node accepted", what);
}

void Narrow(mc::Ctx& c) {
  static const std::vector<std::vector<int>> w{{1}, {1, 1}, {1, 1, 1}, {1, 1, 1, 1}};
  Check(c, c.pick(w));
}
void Wide(mc::Ctx& c) {
  static const std::vector<std::vector<int>> w{{2}, {3}, {2, 1}, {1, 2}, {2, 2}, {1, 3}, {3, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}};
  Check(c, c.pick(w));
}
void Wider(mc::Ctx& c) {
  if (!mc::Thorough()) {
    // The order in which segments are found decides which nodes are merged.
    static const std::vector<std::vector<int>> w{{2, 3}, {3, 2}};
    Check(c, c.pick(w));
    return;
  }
  static const std::vector<std::vector<int>> w{{2, 3}, {3, 2}, {2, 2, 1}, {2, 1, 2}, {1, 2, 2}, {1, 1, 1, 2}, {1, 1, 3}, {3, 1, 1}};
  Check(c, c.pick(w));
}

void Null(mc::Ctx& c) {
  c.op();
  c.state("null");
  c.expect(mc::Throws([&] { BuildGraph(nullptr); }), "null accepted");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"narrow", "all topologies of up to 4 one-lane segments, all pairs of nodes and edges", Narrow},
                               {"wide", "all topologies of up to 3 segments and 4 lanes, in all orders of segments", Wide},
                               {"wider", "all topologies of 2 and 3 lanes (thorough: 5 lanes in up to 4 segments)", Wider},
                               {"null", "null road geometry", Null}});
}
