// Road geometry assembly: every order of attaching the pieces yields the same, fully connected and indexed road.
#include <map>
#include <memory>
#include <set>

#include "maliput/api/basic_id_index.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using api::LaneEnd;
using world::kFinish;
using world::kStart;

namespace {

struct Shape {
  std::vector<int> seg_junction;  // Segment -> junction.
  std::vector<int> lane_segment;  // Lane -> segment.
  int junctions;
};

struct Pieces {
  std::unique_ptr<world::RoadGeometry> rg;
  std::vector<std::unique_ptr<geometry_base::Junction>> j;
  std::vector<std::unique_ptr<geometry_base::Segment>> s;
  std::vector<std::unique_ptr<world::StraightLane>> l;
  std::vector<geometry_base::Junction*> jr;
  std::vector<geometry_base::Segment*> sr;
  std::vector<world::StraightLane*> lr;
};

Pieces MakePieces(const Shape& shape) {
  Pieces p;
  p.rg = std::make_unique<world::RoadGeometry>(api::RoadGeometryId("rg"), 0.5, 0.25, 2., math::Vector3(1., 2., 3.));
  for (int i = 0; i < shape.junctions; ++i) p.j.push_back(std::make_unique<geometry_base::Junction>(api::JunctionId("j" + std::to_string(i)))), p.jr.push_back(p.j.back().get());
  for (size_t i = 0; i < shape.seg_junction.size(); ++i) p.s.push_back(std::make_unique<geometry_base::Segment>(api::SegmentId("s" + std::to_string(i)))), p.sr.push_back(p.s.back().get());
  for (size_t i = 0; i < shape.lane_segment.size(); ++i) {
    world::LaneSpec spec;
    spec.id = "l" + std::to_string(i);
    p.l.push_back(std::make_unique<world::StraightLane>(spec));
    p.lr.push_back(p.l.back().get());
  }
  return p;
}

void CheckTree(mc::Ctx& c, const Pieces& p, const Shape& shape, const std::vector<int>& jo, const std::map<int, std::vector<int>>& so,
               const std::map<int, std::vector<int>>& lo, const std::string& hist) {
  auto ctx = [&] { return hist; };
  const auto& rg = *p.rg;
  c.op(3);
  c.expect(rg.num_junctions() == static_cast<int>(jo.size()), "num-junctions", ctx);
  c.expect(rg.id().string() == "rg" && rg.linear_tolerance() == 0.5 && rg.angular_tolerance() == 0.25 && rg.scale_length() == 2. &&
               rg.inertial_to_backend_frame_translation() == math::Vector3(1., 2., 3.),
           "parameters", ctx);
  std::set<int> rj(jo.begin(), jo.end());
  for (size_t k = 0; k < jo.size(); ++k) c.expect(rg.junction(k) == p.jr[jo[k]] && p.jr[jo[k]]->road_geometry() == &rg, "junction", ctx);
  std::map<std::string, const api::Lane*> want_lanes;
  for (size_t i = 0; i < p.jr.size(); ++i) {
    c.op();
    const bool in = rj.count(i) == 1;
    c.expect(rg.ById().GetJunction(api::JunctionId("j" + std::to_string(i))) == (in ? p.jr[i] : nullptr), "index-junction", ctx);
    const auto it = so.find(i);
    const size_t n = it == so.end() ? 0 : it->second.size();
    c.expect(p.jr[i]->num_segments() == static_cast<int>(n) && p.jr[i]->id().string() == "j" + std::to_string(i), "num-segments", ctx);
    for (size_t k = 0; k < n; ++k) c.expect(p.jr[i]->segment(k) == p.sr[it->second[k]] && p.sr[it->second[k]]->junction() == p.jr[i], "segment", ctx);
  }
  for (size_t i = 0; i < p.sr.size(); ++i) {
    c.op();
    const int j = shape.seg_junction[i];
    const bool attached = p.s[i] == nullptr;
    const bool in = attached && rj.count(j);
    c.expect(rg.ById().GetSegment(api::SegmentId("s" + std::to_string(i))) == (in ? p.sr[i] : nullptr), "index-segment", ctx);
    const auto it = lo.find(i);
    const size_t n = it == lo.end() ? 0 : it->second.size();
    c.expect(p.sr[i]->num_lanes() == static_cast<int>(n) && p.sr[i]->id().string() == "s" + std::to_string(i), "num-lanes", ctx);
    for (size_t k = 0; k < n; ++k) {
      const auto* lane = p.lr[it->second[k]];
      c.op(4);
      c.expect(p.sr[i]->lane(k) == lane && lane->segment() == p.sr[i], "lane", ctx);
      c.expect(lane->index() == static_cast<int>(k), "lane-index", ctx);
      c.expect(lane->to_left() == (k + 1 < n ? p.lr[it->second[k + 1]] : nullptr), "to-left", ctx);
      c.expect(lane->to_right() == (k > 0 ? p.lr[it->second[k - 1]] : nullptr), "to-right", ctx);
      if (in) want_lanes[lane->id().string()] = lane;
    }
  }
  for (size_t i = 0; i < p.lr.size(); ++i) {
    c.op();
    const auto it = want_lanes.find("l" + std::to_string(i));
    c.expect(rg.ById().GetLane(api::LaneId("l" + std::to_string(i))) == (it == want_lanes.end() ? nullptr : it->second), "index-lane", ctx);
  }
  std::map<std::string, const api::Lane*> lanes;
  for (const auto& kv : rg.ById().GetLanes()) lanes[kv.first.string()] = kv.second;
  c.expect(lanes == want_lanes, "index-lanes", ctx);
  c.expect(!rg.ById().GetLane(api::LaneId("nope")) && !rg.ById().GetSegment(api::SegmentId("j0")) && !rg.ById().GetJunction(api::JunctionId("l0")) &&
               !rg.ById().GetBranchPoint(api::BranchPointId("l0")),
           "index-unknown", ctx);
  if (!want_lanes.empty()) c.nontrivial();
  // An index made afterwards agrees.
  api::BasicIdIndex walk;
  walk.WalkAndAddAll(&rg);
  lanes.clear();
  for (const auto& kv : walk.GetLanes()) lanes[kv.first.string()] = kv.second;
  c.expect(lanes == want_lanes, "walk-lanes", ctx);
  for (size_t i = 0; i < p.jr.size(); ++i) c.expect(walk.GetJunction(p.jr[i]->id()) == rg.ById().GetJunction(p.jr[i]->id()), "walk-junction", ctx);
  for (size_t i = 0; i < p.sr.size(); ++i) c.expect(walk.GetSegment(p.sr[i]->id()) == rg.ById().GetSegment(p.sr[i]->id()), "walk-segment", ctx);
}

void Assembly(mc::Ctx& c) {
  static const std::vector<Shape> quick{{{0, 1}, {0, 0, 0, 1}, 2}, {{0, 0}, {0, 1, 0, 1}, 2}};
  static const std::vector<Shape> thorough{{{0, 1}, {0, 0, 0, 1}, 2}, {{0, 0}, {0, 1, 0, 1}, 2}, {{0, 1, 1}, {0, 0, 1, 2}, 2}, {{0, 0, 1}, {0, 1, 1, 1}, 2}};
  const Shape& shape = c.pick(mc::Thorough() ? thorough : quick);
  Pieces p = MakePieces(shape);
  const int nj = shape.junctions, ns = shape.seg_junction.size(), nl = shape.lane_segment.size();
  std::vector<int> left;
  for (int i = 0; i < nj + ns + nl; ++i) left.push_back(i);
  std::vector<int> jo;
  std::map<int, std::vector<int>> so, lo;
  std::string hist;
  while (!left.empty()) {
    const int k = c.choose(left.size() + 1);
    if (k == static_cast<int>(left.size())) break;
    const int op = left[k];
    left.erase(left.begin() + k);
    c.op();
    if (op < nj) {
      hist += "attach j" + std::to_string(op) + "; ";
      c.expect(p.rg->AddJunction(std::move(p.j[op])) == p.jr[op], "add-junction", "another junction");
      jo.push_back(op);
    } else if (op < nj + ns) {
      const int s = op - nj, j = shape.seg_junction[s];
      hist += "attach s" + std::to_string(s) + " to j" + std::to_string(j) + "; ";
      c.expect(p.jr[j]->AddSegment(std::move(p.s[s])) == p.sr[s], "add-segment", "another segment");
      so[j].push_back(s);
    } else {
      const int l = op - nj - ns, s = shape.lane_segment[l];
      hist += "attach l" + std::to_string(l) + " to s" + std::to_string(s) + "; ";
      c.expect(p.sr[s]->AddLane(std::move(p.l[l])) == p.lr[l], "add-lane", "another lane");
      lo[s].push_back(l);
    }
  }
  c.state(hist);
  c.trace([&] { return hist; });
  CheckTree(c, p, shape, jo, so, lo, hist);
}

// Two elements of the same kind with the same identifier: attaching the second one to the same road is rejected, in any order.
void Duplicates(mc::Ctx& c) {
  const int kind = c.choose(4);
  const bool same = c.flip();
  auto rg = std::make_unique<world::RoadGeometry>(api::RoadGeometryId("rg"), 0.5, 0.25, 2., math::Vector3(1., 2., 3.));
  auto rg2 = std::make_unique<world::RoadGeometry>(api::RoadGeometryId("rg2"), 0.5, 0.25, 2., math::Vector3(1., 2., 3.));
  std::string hist = std::string(same ? "same" : "different") + " ids of kind " + std::to_string(kind) + ": ";
  bool threw = false;
  int last_reject = -1, steps = 0;
  auto step = [&](const std::string& what, auto f) {
    hist += what + "; ";
    c.op();
    ++steps;
    if (!threw && mc::Throws(f)) threw = true, last_reject = steps;
  };
  const std::string a = "x", b = same ? "x" : "y";
  if (kind == 3) {
    const bool two = c.flip();
    step("bp", [&] { rg->AddBranchPoint(std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(a))); });
    step("bp", [&] { (two ? rg2 : rg)->AddBranchPoint(std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(b))); });
    c.state(hist + std::to_string(two));
    c.nontrivial();
    c.expect(threw == (same && !two), "duplicate-id", [&] { return hist; });
    return;
  }
  if (kind == 0) {
    const bool two = c.flip();
    step("j", [&] { rg->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId(a))); });
    step("j", [&] { (two ? rg2 : rg)->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId(b))); });
    c.state(hist + std::to_string(two));
    c.nontrivial();
    c.expect(threw == (same && !two), "duplicate-id", [&] { return hist; });
    return;
  }
  // Attach orders of two chains: junction, segment, lane.
  struct Chain {
    std::unique_ptr<geometry_base::Junction> j;
    std::unique_ptr<geometry_base::Segment> s;
    std::unique_ptr<world::StraightLane> l;
    geometry_base::Junction* jr;
    geometry_base::Segment* sr;
    world::StraightLane* lr;
  } ch[2];
  for (int i = 0; i < 2; ++i) {
    const std::string n = i ? b : a, o = i ? "q" : "p";
    world::LaneSpec spec;
    spec.id = kind == 2 ? n : o;
    ch[i].j = std::make_unique<geometry_base::Junction>(api::JunctionId(o));
    ch[i].s = std::make_unique<geometry_base::Segment>(api::SegmentId(kind == 1 ? n : o));
    ch[i].l = std::make_unique<world::StraightLane>(spec);
    ch[i].jr = ch[i].j.get(), ch[i].sr = ch[i].s.get(), ch[i].lr = ch[i].l.get();
  }
  const int shared = c.choose(3);  // 0: separate junctions, 1: same junction, 2: same segment (lanes only), different road.
  if (shared == 2 && kind == 1) c.prune();
  bool done[2][3] = {};
  auto present = [&](int i) {
    if (kind == 1) return done[i][1] && done[shared >= 1 ? 0 : i][0];
    return done[i][2] && done[shared == 2 ? 0 : i][1] && done[shared >= 1 ? 0 : i][0];
  };
  for (int k = 0; k < 6 && !threw; ++k) {
    std::vector<std::pair<int, int>> opts;
    for (int i = 0; i < 2; ++i)
      for (int w = 0; w < 3; ++w) {
        if (done[i][w]) continue;
        if (i == 1 && w == 0 && shared >= 1) continue;
        if (i == 1 && w == 1 && shared == 2) continue;
        opts.push_back({i, w});
      }
    if (opts.empty()) break;
    const auto o = c.pick(opts);
    const int i = o.first;
    done[i][o.second] = true;
    const bool want = same && present(0) && present(1);
    if (o.second == 0) step("j" + std::to_string(i), [&] { rg->AddJunction(std::move(ch[i].j)); });
    if (o.second == 1) step("s" + std::to_string(i), [&] { ch[shared >= 1 ? 0 : i].jr->AddSegment(std::move(ch[i].s)); });
    if (o.second == 2) step("l" + std::to_string(i), [&] { ch[shared == 2 ? 0 : i].sr->AddLane(std::move(ch[i].l)); });
    c.expect(threw == want, "duplicate-id", [&] { return hist + (threw ? "rejected" : "accepted"); });
  }
  if (threw) c.nontrivial();
  c.state(hist + std::to_string(shared));
}

// ---- Branch points.
struct RefBp {
  std::vector<std::pair<int, world::Which>> side[2];
  std::map<std::pair<int, world::Which>, std::pair<int, world::Which>> defaults;
  bool attached{false};
};
using End = std::pair<int, world::Which>;

void Branches(mc::Ctx& c) {
  constexpr int kLanes = 2;
  world::World w(0.5, 0.25, 1.);
  w.Road("r", {{"l0"}, {"l1"}});
  std::vector<world::StraightLane*> lanes{w["l0"], w["l1"]};
  std::unique_ptr<geometry_base::BranchPoint> own[2];
  geometry_base::BranchPoint* bp[2];
  RefBp ref[2];
  for (int i = 0; i < 2; ++i) own[i] = std::make_unique<geometry_base::BranchPoint>(api::BranchPointId("bp" + std::to_string(i))), bp[i] = own[i].get();
  std::map<End, std::pair<int, int>> where;  // End -> (bp, side).
  std::string hist;
  std::vector<int> order;
  auto str = [](const End& e) { return "l" + std::to_string(e.first) + (e.second == kStart ? ".start" : ".finish"); };
  auto lane_end = [&](const End& e) { return LaneEnd(lanes[e.first], e.second); };
  auto check = [&] {
    auto ctx = [&] { return hist; };
    std::string st;
    for (int i = 0; i < 2; ++i) {
      c.op(3);
      st += "|";
      c.expect(bp[i]->id().string() == "bp" + std::to_string(i), "bp-id", ctx);
      c.expect((bp[i]->road_geometry() == w.rg.get()) == ref[i].attached, "bp-road-geometry", ctx);
      c.expect(w.rg->ById().GetBranchPoint(bp[i]->id()) == (ref[i].attached ? bp[i] : nullptr), "bp-index", ctx);
      for (int s = 0; s < 2; ++s) {
        const auto* set = s == 0 ? bp[i]->GetASide() : bp[i]->GetBSide();
        c.expect(set->size() == static_cast<int>(ref[i].side[s].size()), "bp-side-size", ctx);
        st += "/";
        for (int k = 0; k < set->size(); ++k) {
          const End& e = ref[i].side[s][k];
          st += str(e);
          c.expect(set->get(k).lane == lanes[e.first] && set->get(k).end == e.second, "bp-side", ctx);
        }
        c.expect(mc::Throws([&] { set->get(set->size()); }), "bp-side-range", ctx);
      }
    }
    c.state(st);
    for (int l = 0; l < kLanes; ++l)
      for (const auto e : {kStart, kFinish}) {
        const auto it = where.find({l, e});
        c.op();
        c.expect(lanes[l]->GetBranchPoint(e) == (it == where.end() ? nullptr : bp[it->second.first]), "lane-branch-point", ctx);
        for (int i = 0; i < 2; ++i) {
          if (it != where.end() && it->second.first == i) continue;
          c.op(2);
          c.expect(mc::Throws([&] { bp[i]->GetConfluentBranches({lanes[l], e}); }) && mc::Throws([&] { bp[i]->GetOngoingBranches({lanes[l], e}); }), "bp-foreign-end", ctx);
          c.expect(!bp[i]->GetDefaultBranch({lanes[l], e}).has_value(), "bp-foreign-default", ctx);
        }
        if (it == where.end()) continue;
        const int i = it->second.first, s = it->second.second;
        const auto* a = bp[i]->GetASide();
        const auto* b = bp[i]->GetBSide();
        c.op(6);
        c.nontrivial();
        c.expect(bp[i]->GetConfluentBranches({lanes[l], e}) == (s == 0 ? a : b) && lanes[l]->GetConfluentBranches(e) == (s == 0 ? a : b), "confluent", ctx);
        c.expect(bp[i]->GetOngoingBranches({lanes[l], e}) == (s == 0 ? b : a) && lanes[l]->GetOngoingBranches(e) == (s == 0 ? b : a), "ongoing", ctx);
        const auto d = ref[i].defaults.find({l, e});
        for (const auto& got : {bp[i]->GetDefaultBranch({lanes[l], e}), lanes[l]->GetDefaultBranch(e)}) {
          c.expect(got.has_value() == (d != ref[i].defaults.end()) && (!got || (got->lane == lanes[d->second.first] && got->end == d->second.second)), "default-branch", ctx);
        }
      }
    c.op();
    c.expect(w.rg->num_branch_points() == static_cast<int>(order.size()), "num-branch-points", ctx);
    for (size_t k = 0; k < order.size(); ++k) c.expect(w.rg->branch_point(k) == bp[order[k]], "branch-point", ctx);
  };
  auto attach = [&](int i) {
    hist += "attach bp" + std::to_string(i) + "; ";
    c.op();
    w.rg->AddBranchPoint(std::move(own[i]));
    ref[i].attached = true;
    order.push_back(i);
  };
  const int when = c.choose(mc::Thorough() ? 3 : 2);  // Attached before, after, or never.
  const int first = mc::Thorough() && when < 2 ? c.choose(2) : 1;
  if (when == 0) attach(first), attach(1 - first);
  const int n = c.choose(4);
  for (int k = 0; k < n; ++k) {
    const int i = c.choose(2), s = c.choose(2), l = c.choose(kLanes);
    const auto e = c.flip() ? kFinish : kStart;
    hist += "bp" + std::to_string(i) + (s ? ".b" : ".a") + " <- " + str({l, e}) + "; ";
    const bool ok = !where.count({l, e});
    c.op();
    const bool threw = mc::Throws([&] { s ? bp[i]->AddBBranch(lanes[l], e) : bp[i]->AddABranch(lanes[l], e); });
    c.expect(threw == !ok, "add-branch", [&] { return hist + (threw ? "rejected" : "accepted"); });
    if (ok) {
      where[{l, e}] = {i, s};
      ref[i].side[s].push_back({l, e});
    }
  }
  check();
  if (when == 1) attach(first), attach(1 - first);
  const int m = where.size() < 2 ? 0 : 2;
  for (int k = 0; k < m; ++k) {
    const int i = mc::Thorough() ? c.choose(2) : 0;
    if (ref[i].side[0].size() + ref[i].side[1].size() == 0 && k > 0) c.prune();
    const End from{c.choose(kLanes), c.flip() ? kFinish : kStart};
    const End to{c.choose(kLanes), c.flip() ? kFinish : kStart};
    hist += "bp" + std::to_string(i) + " default " + str(from) + " -> " + str(to) + "; ";
    const auto f = where.find(from), t = where.find(to);
    const bool ok = f != where.end() && t != where.end() && f->second.first == i && t->second.first == i && f->second.second != t->second.second;
    c.op();
    const bool threw = mc::Throws([&] { bp[i]->SetDefault(lane_end(from), lane_end(to)); });
    c.expect(threw == !ok, "set-default", [&] { return hist + (threw ? "rejected" : "accepted"); });
    if (ok) ref[i].defaults[from] = to;
  }
  check();
}

// Roads with many elements: the third junction, the tenth segment or the last lane are as connected and indexed as the first ones.
void Many(mc::Ctx& c) {
  Shape shape;
  const int nj = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 3, 4, 5, 7, 12, 33} : std::vector<int>{1, 2, 3, 6, 12});
  const int ns = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6, 9, 14} : std::vector<int>{1, 2, 4, 9});
  const int nl = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 11, 18} : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 11});
  shape.junctions = nj;
  const bool spread = c.flip();  // The elements of a parent are contiguous, or are spread.
  for (int i = 0; i < nj * ns; ++i) shape.seg_junction.push_back(spread ? i % nj : i / ns);
  for (int i = 0; i < nj * ns * nl; ++i) shape.lane_segment.push_back(spread ? i % (nj * ns) : i / nl);
  Pieces p = MakePieces(shape);
  static const std::vector<std::string> kinds{"jsl", "jls", "sjl", "slj", "ljs", "lsj"};
  const std::string order = c.pick(kinds);
  const int how = c.choose(3);      // Forwards, backwards, from the middle.
  const bool partial = c.flip();    // The last element of the last kind is left out.
  const std::string hist = std::to_string(nj) + " junctions of " + std::to_string(ns) + " segments of " + std::to_string(nl) + (spread ? " lanes, spread, " : " lanes, ") + order + (how == 0 ? " forwards" : how == 1 ? " backwards" : " from the middle") + (partial ? ", but one" : "");
  auto where = [&] { return hist; };
  std::vector<int> jo;
  std::map<int, std::vector<int>> so, lo;
  for (size_t k = 0; k < 3; ++k) {
    const int n = order[k] == 'j' ? nj : order[k] == 's' ? nj * ns : nj * ns * nl;
    for (int m = 0; m < n; ++m) {
      if (k == 2 && m + 1 == n && partial) break;
      const int i = how == 0 ? m : how == 1 ? n - 1 - m : (n / 2 + m) % n;
      c.op();
      if (order[k] == 'j') {
        c.expect(p.rg->AddJunction(std::move(p.j[i])) == p.jr[i], "add-junction", where);
        jo.push_back(i);
      } else if (order[k] == 's') {
        c.expect(p.jr[shape.seg_junction[i]]->AddSegment(std::move(p.s[i])) == p.sr[i], "add-segment", where);
        so[shape.seg_junction[i]].push_back(i);
      } else {
        c.expect(p.sr[shape.lane_segment[i]]->AddLane(std::move(p.l[i])) == p.lr[i], "add-lane", where);
        lo[shape.lane_segment[i]].push_back(i);
      }
    }
  }
  c.state(hist);
  CheckTree(c, p, shape, jo, so, lo, hist);
}

// Many branch points, with many ends at each side.
void ManyBranches(mc::Ctx& c) {
  const int max = mc::Thorough() ? 10 : 7;
  const int na = c.choose(max + 1), nb = c.choose(max + 1), count = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 5, 9, 16, 40} : std::vector<int>{1, 2, 9, 16});
  const int ends = c.choose(3);  // Starts, finishes, alternating.
  const bool attach_first = c.flip(), interleaved = c.flip();
  auto which = [&](int k) { return ends == 0 || (ends == 2 && k % 2) ? kStart : kFinish; };
  const std::string hist = std::to_string(count) + " branch points of " + std::to_string(na) + " and " + std::to_string(nb) + " ends " + std::to_string(ends) + std::to_string(attach_first) + std::to_string(interleaved);
  auto where = [&] { return hist; };
  c.state(hist);
  world::World w(0.5, 0.25, 1.);
  std::vector<world::LaneSpec> specs;
  for (int i = 0; i < count * (na + nb); ++i) {
    specs.push_back({});
    specs.back().id = "l" + std::to_string(i);
  }
  if (!specs.empty()) w.Road("r", specs);
  auto lane = [&](int b, int k) { return w["l" + std::to_string(b * (na + nb) + k)]; };  // First the ones at side A.
  std::vector<std::unique_ptr<geometry_base::BranchPoint>> own;
  std::vector<geometry_base::BranchPoint*> bp;
  for (int b = 0; b < count; ++b) own.push_back(std::make_unique<geometry_base::BranchPoint>(api::BranchPointId("bp" + std::to_string(b)))), bp.push_back(own.back().get());
  auto attach = [&] {
    for (int b = 0; b < count; ++b) c.op(), c.expect(w.rg->AddBranchPoint(std::move(own[b])) == bp[b], "add-branch-point", where);
  };
  if (attach_first) attach();
  auto add = [&](int b) {
    for (int k = 0; k < std::max(na, nb); ++k) {
      c.op(2);
      if (k < na) bp[b]->AddABranch(lane(b, k), which(k));
      if (k < nb) bp[b]->AddBBranch(lane(b, na + k), which(na + k));
    }
  };
  if (interleaved) {
    for (int b = count - 1; b >= 0; --b) add(b);
  } else {
    for (int b = 0; b < count; ++b) add(b);
  }
  if (!attach_first) attach();
  c.op();
  c.expect(w.rg->num_branch_points() == count, "num-branch-points", where);
  for (int b = 0; b < count; ++b) {
    c.op(4);
    c.expect(w.rg->branch_point(b) == bp[b] && bp[b]->road_geometry() == w.rg.get() && w.rg->ById().GetBranchPoint(bp[b]->id()) == bp[b], "branch-point", where);
    const auto *a = bp[b]->GetASide(), *bs = bp[b]->GetBSide();
    c.expect(a->size() == na && bs->size() == nb, "bp-side-size", where);
    for (int k = 0; k < na; ++k) c.expect(a->get(k).lane == lane(b, k) && a->get(k).end == which(k), "bp-side", where);
    for (int k = 0; k < nb; ++k) c.expect(bs->get(k).lane == lane(b, na + k) && bs->get(k).end == which(na + k), "bp-side", where);
    for (int k = 0; k < na + nb; ++k) {
      const auto e = which(k);
      c.op(6);
      c.nontrivial();
      const auto *con = k < na ? a : bs, *on = k < na ? bs : a;
      c.expect(lane(b, k)->GetBranchPoint(e) == bp[b] && lane(b, k)->GetBranchPoint(e == kStart ? kFinish : kStart) == nullptr, "lane-branch-point", where);
      c.expect(bp[b]->GetConfluentBranches({lane(b, k), e}) == con && lane(b, k)->GetConfluentBranches(e) == con, "confluent", where);
      c.expect(bp[b]->GetOngoingBranches({lane(b, k), e}) == on && lane(b, k)->GetOngoingBranches(e) == on, "ongoing", where);
    }
  }
  if (na + nb == 0) return;
  // Defaults of the first and the last branch point: from each end to each end.
  for (const int b : std::set<int>{0, count - 1}) {
    std::vector<int> def(na + nb, -1);
    for (int round = 0; round < 2; ++round) {
      for (int k = 0; k < na + nb; ++k)
        for (int m = 0; m < na + nb; ++m) {
          const int t = round ? na + nb - 1 - m : m;
          const bool ok = (k < na) != (t < na);
          c.op();
          const bool threw = mc::Throws([&] { bp[b]->SetDefault({lane(b, k), which(k)}, {lane(b, t), which(t)}); });
          c.expect(threw == !ok, "set-default", [&] { return hist + ": " + std::to_string(k) + " -> " + std::to_string(t) + (threw ? " rejected" : " accepted"); });
          if (ok) def[k] = t;
          const auto got = lane(b, k)->GetDefaultBranch(which(k));
          c.expect(got.has_value() == (def[k] != -1) && (!got || (got->lane == lane(b, def[k]) && got->end == which(def[k]))), "default-branch", where);
        }
      for (int k = 0; k < na + nb; ++k) {
        c.op();
        const auto got = bp[b]->GetDefaultBranch({lane(b, k), which(k)});
        c.expect(got.has_value() == (def[k] != -1) && (!got || (got->lane == lane(b, def[k]) && got->end == which(def[k]))), "default-branch", where);
      }
    }
  }
}

void Invalid(mc::Ctx& c) {
  c.state(1);
  c.nontrivial();
  world::RoadGeometry rg(api::RoadGeometryId("rg"), 0.5, 0.25, 2., math::Vector3(1., 2., 3.));
  c.op(10);
  c.expect(mc::Throws([&] { rg.AddJunction(std::unique_ptr<geometry_base::Junction>()); }), "null-junction");
  c.expect(mc::Throws([&] { rg.AddBranchPoint(std::unique_ptr<geometry_base::BranchPoint>()); }), "null-branch-point");
  geometry_base::Junction j(api::JunctionId("j"));
  c.expect(mc::Throws([&] { j.AddSegment(std::unique_ptr<geometry_base::Segment>()); }), "null-segment");
  geometry_base::Segment s(api::SegmentId("s"));
  c.expect(mc::Throws([&] { s.AddLane(std::unique_ptr<geometry_base::Lane>()); }), "null-lane");
  geometry_base::BranchPoint bp(api::BranchPointId("b"));
  c.expect(mc::Throws([&] { bp.AddABranch(nullptr, kStart); }) && mc::Throws([&] { bp.AddBBranch(nullptr, kFinish); }), "null-branch");
  for (const int i : {-1, 0, 7}) {
    c.expect(mc::Throws([&] { rg.junction(i); }) && mc::Throws([&] { rg.branch_point(i); }) && mc::Throws([&] { j.segment(i); }) && mc::Throws([&] { s.lane(i); }), "out-of-range");
  }
  for (const double v : {0., -1.}) {
    c.expect(mc::Throws([&] { world::RoadGeometry(api::RoadGeometryId("r"), v, 1., 1., {0., 0., 0.}); }), "linear-tolerance");
    c.expect(mc::Throws([&] { world::RoadGeometry(api::RoadGeometryId("r"), 1., v, 1., {0., 0., 0.}); }), "angular-tolerance");
    c.expect(mc::Throws([&] { world::RoadGeometry(api::RoadGeometryId("r"), 1., 1., v, {0., 0., 0.}); }), "scale-length");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"assembly", "all orders (and all prefixes of them) of attaching 2 junctions, 2 (thorough 3) segments and 4 lanes of 2 (thorough 4) road shapes", Assembly},
                   {"duplicates", "all attachment orders of two chains with equal or different ids, in the same or different parents", Duplicates},
                   {"branches", "all histories of up to 3 branch additions (2 branch points, both sides, 4 lane ends) and 2 defaults (thorough: on either branch point), attached before, after or (thorough) never", Branches},
                   {"many", "roads of up to 12 (thorough 33) junctions, 9 (14) segments per junction and 11 (18) lanes per segment: 6 orders of the kinds, 3 orders of the elements, with and without the last element", Many},
                   {"many-branches", "up to 16 (thorough 40) branch points of up to 7 (10) ends per side, attached before or after, and defaults between all pairs of ends", ManyBranches},
                   {"invalid", "null and out of range arguments", Invalid}});
}
