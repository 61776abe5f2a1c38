// Identifiers and other keys: equality, order and hash agree, and containers keyed by them hold exactly what was put in them.
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "maliput/api/lane_data.h"
#include "maliput/api/rules/traffic_lights.h"
#include "maliput/api/type_specific_identifier.h"
#include "maliput/api/unique_id.h"
#include "maliput/common/maliput_hash.h"
#include "maliput/utility/mesh.h"
#include "maliput/utility/mesh_simplification.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using api::rules::Bulb;
using api::rules::BulbGroup;
using api::rules::TrafficLight;
using api::rules::UniqueBulbGroupId;
using api::rules::UniqueBulbId;

namespace {

struct Tag {};
using Id = api::TypeSpecificIdentifier<Tag>;

// What a value feeds to a hash.
template <class T>
std::string Bytes(const T& value) {
  std::string r;
  maliput::common::DelegatingHasher hasher([&](const void* data, size_t length) { r.append(static_cast<const char*>(data), length); });
  using maliput::common::hash_append;
  hash_append(hasher, value);
  return r;
}

std::vector<std::string> Strings() {
  // Every text of up to three characters of an alphabet with the delimiter of identifiers.
  const std::string alphabet = mc::Thorough() ? std::string("a-B\0", 4) : std::string("a-\0", 3);
  std::vector<std::string> r{""};
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i].size() == 3) break;
    for (char x : alphabet) r.push_back(r[i] + x);
  }
  return r;
}

std::string Shown(const std::string& s) {
  std::string r = "\"";
  for (char x : s) r += x == '\0' ? std::string("\\0") : std::string(1, x);
  return r + "\"";
}

// Two or three values with the components that identify them.
template <class T, class K, class Less = std::less<T>, class Hash = std::hash<T>>
void Agree(mc::Ctx& c, const std::vector<T>& v, const std::vector<K>& k, const std::string& text) {
  const Less less{};
  const Hash hash{};
  for (size_t i = 0; i < v.size(); ++i) {
    for (size_t j = 0; j < v.size(); ++j) {
      const bool same = k[i] == k[j];
      c.expect((v[i] == v[j]) == same && (v[i] != v[j]) == !same, "equality", text);
      if (same) c.expect(hash(v[i]) == hash(v[j]), "hash of equals", text);
      c.expect((Bytes(v[i]) == Bytes(v[j])) == same, same ? "hashed bytes of equals" : "same hashed bytes", text);
      c.expect(!(less(v[i], v[j]) && less(v[j], v[i])), "order not antisymmetric", text);
      c.expect((less(v[i], v[j]) || less(v[j], v[i])) == !same, same ? "equals ordered" : "different values unordered", text);
      for (size_t l = 0; l < v.size(); ++l) {
        if (less(v[i], v[j]) && less(v[j], v[l])) c.expect(less(v[i], v[l]), "order not transitive", text);
      }
    }
  }
  std::unordered_map<T, int, Hash> u;
  std::map<T, int, Less> m;
  std::unordered_set<T, Hash> us;
  std::set<T, Less> s;
  std::map<K, int> want;
  for (size_t i = 0; i < v.size(); ++i) {
    const bool first = want.emplace(k[i], i).second;
    c.expect(u.emplace(v[i], i).second == first && m.emplace(v[i], i).second == first && us.insert(v[i]).second == first && s.insert(v[i]).second == first,
             "inserted", text);
  }
  for (size_t i = 0; i < v.size(); ++i) {
    c.expect(u.at(v[i]) == want.at(k[i]) && m.at(v[i]) == want.at(k[i]) && us.count(v[i]) == 1 && s.count(v[i]) == 1, "found", text);
  }
  c.expect(u.size() == want.size() && m.size() == want.size() && us.size() == want.size() && s.size() == want.size(), "sizes", text);
  for (size_t i = 0; i < v.size(); ++i) {
    const bool last = want.erase(k[i]) == 1;
    c.expect((u.erase(v[i]) == 1) == last && (m.erase(v[i]) == 1) == last, "erased", text);
  }
}

void Ids(mc::Ctx& c) {
  static const std::vector<std::string> all = Strings();
  const int count = mc::Thorough() ? 3 : 2;
  std::vector<std::string> k;
  std::string text;
  for (int i = 0; i < count; ++i) {
    k.push_back(all[c.choose(all.size())]);
    text += Shown(k.back());
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  bool bad = false;
  for (const auto& s : k) {
    c.expect(mc::Throws([&] { Id{s}; }) == s.empty() && mc::Throws([&] { api::UniqueId{s}; }) == s.empty(), "empty identifier", text);
    bad = bad || s.empty();
  }
  if (bad) return;
  c.nontrivial(k[0] != k[1]);
  std::vector<Id> ids;
  std::vector<api::UniqueId> uniques;
  for (const auto& s : k) {
    ids.emplace_back(s);
    uniques.emplace_back(s);
    c.expect(ids.back().string() == s && uniques.back().string() == s, "string", text);
    std::ostringstream os;
    using std::operator<<;
    os << ids.back();
    c.expect(os.str() == s, "streamed", text);
  }
  Agree(c, ids, k, text);
  Agree(c, uniques, k, text);
  Id copy(ids[0]);
  c.expect(copy == ids[0], "copy", text);
  copy = ids[1];
  c.expect(copy.string() == k[1], "assigned", text);
}

// Identifiers of bulbs and of bulb groups; the concatenations may coincide when the components do not.
void Bulbs(mc::Ctx& c) {
  static const std::vector<std::string> all{"a", "-", "a-", "-a", "a-a", "b"};
  const int values = mc::Thorough() ? 6 : 5;
  using K = std::vector<std::string>;
  std::vector<K> k;
  std::vector<K> g;
  std::vector<UniqueBulbId> ids;
  std::vector<UniqueBulbGroupId> groups;
  std::string text;
  for (int i = 0; i < 2; ++i) {
    K x;
    for (int j = 0; j < 3; ++j) {
      x.push_back(all[c.choose(values)]);
      text += Shown(x.back());
    }
    text += " ";
    k.push_back(x);
    g.push_back({x[0], x[1]});
    ids.emplace_back(TrafficLight::Id(x[0]), BulbGroup::Id(x[1]), Bulb::Id(x[2]));
    groups.emplace_back(TrafficLight::Id(x[0]), BulbGroup::Id(x[1]));
    c.expect(ids[i].traffic_light_id().string() == x[0] && ids[i].bulb_group_id().string() == x[1] && ids[i].bulb_id().string() == x[2] &&
                 groups[i].traffic_light_id().string() == x[0] && groups[i].bulb_group_id().string() == x[1],
             "components", text);
    c.expect(ids[i].string() == x[0] + "-" + x[1] + "-" + x[2] && groups[i].string() == x[0] + "-" + x[1], "string", text);
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(k[0] != k[1] && ids[0].string() == ids[1].string());
  Agree(c, ids, k, text);
  Agree(c, groups, g, text);
  c.expect(UniqueBulbId() == UniqueBulbId() && UniqueBulbGroupId() == UniqueBulbGroupId(), "default", text);
}

// Keys of meshes.
void Mesh(mc::Ctx& c) {
  static const double kValues[] = {0., -0., 1., -1., 1e-300};
  using K = std::vector<double>;
  using utility::mesh::GeoNormal;
  using utility::mesh::GeoVertex;
  std::vector<K> k;
  std::string text;
  const int values = mc::Thorough() ? 5 : 4;
  for (int i = 0; i < 2; ++i) {
    K x;
    for (int j = 0; j < 3; ++j) {
      x.push_back(kValues[c.choose(values)]);
      text += std::to_string(x.back()) + (std::signbit(x.back()) ? "- " : " ");
    }
    k.push_back(x);
  }
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  const bool same = k[0] == k[1];
  c.nontrivial(same);
  const api::InertialPosition p(k[0][0], k[0][1], k[0][2]), q(k[1][0], k[1][1], k[1][2]);
  const GeoVertex v(p), w(q);
  const GeoNormal n(p), m(q);
  c.expect(GeoVertex::Equiv()(v, w) == same && GeoNormal::Equiv()(n, m) == same && (p == q) == same, "equality", text);
  c.expect((Bytes(v) == Bytes(w)) == same && (Bytes(n) == Bytes(m)) == same, same ? "hashed bytes of equals" : "same hashed bytes", text);
  if (same) c.expect(GeoVertex::Hash()(v) == GeoVertex::Hash()(w) && GeoNormal::Hash()(n) == GeoNormal::Hash()(m), "hash of equals", text);
  // Indices.
  utility::mesh::UniqueIndexer<GeoVertex, GeoVertex::Hash, GeoVertex::Equiv> indexer;
  c.expect(indexer.push_back(v) == 0 && indexer.push_back(w) == (same ? 0 : 1) && indexer.push_back(v) == 0 && indexer.push_back(w) == (same ? 0 : 1), "index", text);
  c.expect(indexer.vector().size() == (same ? 1u : 2u) && GeoVertex::Equiv()(*indexer.vector()[0], v) && GeoVertex::Equiv()(*indexer.vector().back(), w), "indexed", text);
}

// Edges, ends of lanes and lane positions.
void Edges(mc::Ctx& c) {
  using utility::mesh::DirectedEdgeIndex;
  using utility::mesh::FaceEdgeIndex;
  const int a = c.choose(4) - 1, b = c.choose(4) - 1, x = c.choose(4) - 1, y = c.choose(4) - 1;
  const std::string text = std::to_string(a) + ">" + std::to_string(b) + " " + std::to_string(x) + ">" + std::to_string(y);
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  const bool same = a == x && b == y;
  c.nontrivial(same);
  const DirectedEdgeIndex e{a, b}, f{x, y};
  c.expect((e == f) == same && (e != f) == !same, "edges equal", text);
  c.expect((Bytes(e) == Bytes(f)) == same, "hashed bytes of edges", text);
  c.expect((e.reverse() == f) == (a == y && b == x) && e.reverse().reverse() == e, "reverse", text);
  const FaceEdgeIndex g{a, b}, h{x, y};
  c.expect((g == h) == same && (g != h) == !same, "face edges equal", text);
  // Lane ends: only addresses matter.
  world::World w;
  std::vector<const api::Lane*> lanes;
  w.Junction("j");
  w.Segment("s");
  for (int i = 0; i < 3; ++i) {
    world::LaneSpec spec;
    spec.id = "l" + std::to_string(i);
    lanes.push_back(w.Lane(spec));
  }
  const auto end = [&](int lane, int which) { return api::LaneEnd(lane < 0 ? nullptr : lanes[lane], which > 0 ? api::LaneEnd::kFinish : api::LaneEnd::kStart); };
  const api::LaneEnd i = end(a, b), j = end(x, y);
  const bool equal = a == x && (b > 0) == (y > 0);
  const api::LaneEnd::StrictOrder less{};
  c.expect((less(i, j) || less(j, i)) == !equal && !(less(i, j) && less(j, i)), "lane ends ordered", text);
  std::set<api::LaneEnd, api::LaneEnd::StrictOrder> set{i, j, i};
  c.expect(set.size() == (equal ? 1u : 2u), "set of lane ends", text);
}

// Values of a type of its own.
struct TwoOptionals {
  std::optional<int> a, b;
  bool operator==(const TwoOptionals& o) const { return a == o.a && b == o.b; }
  template <class HashAlgorithm>
  friend void hash_append(HashAlgorithm& hasher, const TwoOptionals& x) noexcept {
    using maliput::common::hash_append;
    hash_append(hasher, x.a);
    hash_append(hasher, x.b);
  }
};

// The basic values.
template <class T>
void Distinct(mc::Ctx& c, const std::vector<T>& all, const char* what) {
  for (size_t i = 0; i < all.size(); ++i) {
    for (size_t j = 0; j < all.size(); ++j) {
      const bool same = all[i] == all[j];
      const std::string text = std::string(what) + " " + std::to_string(i) + " " + std::to_string(j);
      c.expect((Bytes(all[i]) == Bytes(all[j])) == same, same ? "hashed bytes of equals" : "same hashed bytes", text);
      const maliput::common::DefaultHash hash{};
      if (same) c.expect(hash(all[i]) == hash(all[j]), "hash of equals", text);
      // The default hash is FNV-1a of the bytes.
      const std::string bytes = Bytes(all[i]);
      uint64_t h = 0xcbf29ce484222325u;
      for (unsigned char x : bytes) h = (h ^ x) * 1099511628211u;
      c.expect(hash(all[i]) == h, "hash of the bytes", text);
    }
  }
}

enum class Enum { kA, kB, kC = 300 };

void Values(mc::Ctx& c) {
  static const std::vector<std::string> all = Strings();
  c.op();
  c.nontrivial();
  using S = std::string;
  const int kind = c.choose(13);
  c.trace([&] { return std::to_string(kind); });
  c.state(std::to_string(kind));
  switch (kind) {
    case 0:
      return Distinct<int>(c, {0, 1, -1, 256, 1 << 30}, "int");
    case 1:
      return Distinct<bool>(c, {false, true}, "bool");
    case 2:
      return Distinct<double>(c, {0., -0., 1., -1., INFINITY, -INFINITY, 1e-320}, "double");
    case 3:
      return Distinct<float>(c, {0.f, -0.f, 1.f, -1.f, INFINITY}, "float");
    case 4:
      return Distinct<S>(c, all, "string");
    case 5: {
      std::vector<std::pair<S, S>> v;
      for (const auto& a : all) {
        for (const auto& b : all) {
          if (a.size() + b.size() <= 3) v.push_back({a, b});
        }
      }
      return Distinct(c, v, "pair");
    }
    case 6:
      return Distinct<std::optional<int>>(c, {std::nullopt, 0, 1, -1}, "optional");
    case 7:
      return Distinct<std::optional<S>>(c, {std::nullopt, S(), S("a"), S("\0", 1), S("\1", 1)}, "optional string");
    case 8:
      return Distinct<std::set<int>>(c, {{}, {0}, {1}, {0, 1}, {1, 2}, {0, 1, 2}}, "set");
    case 9:
      return Distinct<std::set<S>>(c, {{}, {""}, {"a"}, {"", "a"}, {"a", "aa"}, {"aaa"}, {"a", "b"}}, "set of strings");
    case 10:
      return Distinct<std::map<S, int>>(c, {{}, {{"", 0}}, {{"a", 0}}, {{"a", 1}}, {{"a", 0}, {"b", 0}}, {{"b", 0}}}, "map");
    case 11: {
      using O = std::optional<int>;
      return Distinct<TwoOptionals>(c, {{O(), O()}, {O(0), O()}, {O(), O(0)}, {O(0), O(0)}, {O(), O(1)}, {O(1), O()}}, "two optionals");
    }
    default:
      return Distinct<Enum>(c, {Enum::kA, Enum::kB, Enum::kC}, "enum");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"identifiers", "pairs (thorough: triples) of texts of up to 3 characters", Ids},
                   {"bulbs", "pairs of identifiers of bulbs with components of a few texts", Bulbs},
                   {"mesh", "pairs of points of a few coordinates", Mesh},
                   {"edges", "pairs of edges and of lane ends", Edges},
                   {"values", "pairs of basic values", Values}});
}
