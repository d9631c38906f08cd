// Scenes of closed solids, facet streams and tree operations shared by the
// checks that drive a BSPTree (C01-C05, C12, C14, C15).
#ifndef SIM_WORLD_H_
#define SIM_WORLD_H_

#include <algorithm>
#include <string>
#include <vector>

#include "glue.h"

namespace sim {

constexpr int kMaxIds = 5;

struct World {
  geom::Scene scene;
  geom::Mesh mesh[kMaxIds];          // facets as delivered (representation perturbed)
  bool present[kMaxIds] = {};
  bool inverted[kMaxIds] = {};
  int copies[kMaxIds] = {};
  bool overlaps[kMaxIds] = {};       // winding numbers beyond one
  struct Item { int id; size_t facet; };
  std::vector<Item> stream;
  bool streamed = false;
  size_t next = 0;
  size_t total() const { return stream.size(); }

  void SetScene(int64_t style, int64_t seed) {
    scene = geom::MakeScene(static_cast<uint64_t>(seed), static_cast<int>(static_cast<uint64_t>(style) % 4));
  }
  // Adds a solid; only before the stream is fixed.
  bool AddSolid(int64_t id64, int64_t kind, int64_t seed, int64_t flags, int64_t invert) {
    if (streamed) return false;
    int id = static_cast<int>(static_cast<uint64_t>(id64) % kMaxIds);
    if (copies[id] >= 2) return false;
    bool inv = invert & 1;
    if (present[id]) inv = inverted[id];
    geom::Mesh m = geom::MakeSolid(static_cast<int>(static_cast<uint64_t>(kind) % geom::kSolidKinds), static_cast<uint64_t>(seed), scene, inv);
    geom::Perturb(m, static_cast<uint64_t>(seed), static_cast<int>(flags & 31));
    if (mesh[id].size() + m.size() > 220) return false;
    mesh[id].insert(mesh[id].end(), m.begin(), m.end());
    present[id] = true;
    inverted[id] = inv;
    ++copies[id];
    if (copies[id] > 1 || static_cast<uint64_t>(kind) % geom::kSolidKinds == 12) overlaps[id] = true;
    return true;
  }
  void FixStream(int64_t mode, int64_t seed) {
    if (streamed) return;
    streamed = true;
    for (int i = 0; i < kMaxIds; ++i)
      for (size_t f = 0; f < mesh[i].size(); ++f) stream.push_back({i, f});
    Rng rng(static_cast<uint64_t>(seed));
    switch (static_cast<uint64_t>(mode) % 4) {
      case 0: break;
      case 1: std::reverse(stream.begin(), stream.end()); break;
      case 2:
        for (size_t i = stream.size(); i > 1; --i) std::swap(stream[i - 1], stream[rng.Below(i)]);
        break;
      case 3: {  // solid by solid in random order, shuffled inside
        int order[kMaxIds];
        for (int i = 0; i < kMaxIds; ++i) order[i] = i;
        for (int i = kMaxIds; i > 1; --i) std::swap(order[i - 1], order[rng.Below(i)]);
        for (size_t i = stream.size(); i > 1; --i) std::swap(stream[i - 1], stream[rng.Below(i)]);
        std::stable_sort(stream.begin(), stream.end(), [&](const Item& a, const Item& b) { return order[a.id] < order[b.id]; });
        break;
      }
    }
  }
  std::vector<const geom::Mesh*> Meshes() const {
    std::vector<const geom::Mesh*> r;
    for (const geom::Mesh& m : mesh) if (!m.empty()) r.push_back(&m);
    return r;
  }
  std::vector<int> Ids() const {
    std::vector<int> r;
    for (int i = 0; i < kMaxIds; ++i) if (present[i]) r.push_back(i);
    return r;
  }
  // Solids all of whose facets are among the first `n` stream entries.
  std::vector<int> Complete(size_t n) const {
    size_t left[kMaxIds] = {};
    for (size_t i = n; i < stream.size(); ++i) ++left[stream[i].id];
    std::vector<int> r;
    for (int i = 0; i < kMaxIds; ++i) if (present[i] && !left[i]) r.push_back(i);
    return r;
  }
  std::vector<bool> Inverted() const { return std::vector<bool>(inverted, inverted + kMaxIds); }
  geom::Mesh Delivered(int id, size_t n) const {
    geom::Mesh r;
    for (size_t i = 0; i < n; ++i) if (stream[i].id == id) r.push_back(mesh[id][stream[i].facet]);
    return r;
  }
};

// Random world definition ops: scene, solids, order.
inline void GenerateWorld(Rng& rng, Plan& plan, int op_scene, int op_solid, int op_order, int max_solids, bool small) {
  plan.Add(op_scene, {rng.Pick({0, 0, 1, 2, 3}), rng.Range(0, 1 << 30)});
  int n = static_cast<int>(rng.Range(1, max_solids));
  if (n == 1 && rng.Chance(2, 3)) n = 2;
  bool boxes = rng.Chance(1, 4);
  for (int i = 0; i < n; ++i) {
    int64_t kind = boxes ? rng.Pick({0, 0, 4, 11, 13, 10}) : rng.Range(0, geom::kSolidKinds - 1);
    if (kind == 16 && rng.Chance(1, 2)) kind = 2;
    if (kind > 16 && rng.Chance(3, 5)) kind = 1;
    if (small && (kind == 8 || kind == 3 || kind >= 13)) kind = rng.Pick({0, 1, 2, 10});
    int64_t flags = rng.Chance(1, 2) ? 0 : rng.Range(0, 31);
    int64_t id = rng.Chance(1, 12) ? rng.Range(0, kMaxIds - 1) : i;
    // A copy of an earlier solid now and then.
    int64_t seed = rng.Range(0, 1 << 30);
    if (i > 0 && rng.Chance(1, 10)) {
      const Op& prev = plan.ops.back();
      if (prev.code == op_solid) { kind = prev.arg(1); seed = prev.arg(2); }
    }
    plan.Add(op_solid, {id, kind, seed, flags, rng.Chance(1, 3)});
  }
  plan.Add(op_order, {rng.Range(0, 3), rng.Range(0, 1 << 30)});
}

using Tree = walnut::BSPTree<>;
using Node = Tree::BSPNodeRep;


// Delivers the next `count` facets. api: 0 copies one by one, 1 moves one by
// one, 2 AddContents per run of equal ids (copy), 3 the same with moves.
inline void Deliver(World& w, Tree& tree, size_t count, int api) {
  using Polygon = walnut::MutableConvexPolygon<>;
  size_t end = std::min(w.stream.size(), w.next + count);
  if (api < 2) {
    for (; w.next < end; ++w.next) {
      World::Item it = w.stream[w.next];
      Sut s;
      Polygon p = ToPolygon(w.mesh[it.id][it.facet]);
      if (api == 0) tree.AddContent(static_cast<walnut::BSPContentId>(it.id), p);
      else tree.AddContent(static_cast<walnut::BSPContentId>(it.id), std::move(p));
    }
    return;
  }
  while (w.next < end) {
    int id = w.stream[w.next].id;
    Sut s;
    std::vector<Polygon> v;
    while (w.next < end && w.stream[w.next].id == id) {
      v.push_back(ToPolygon(w.mesh[id][w.stream[w.next].facet]));
      ++w.next;
    }
    if (api == 2) tree.AddContents(static_cast<walnut::BSPContentId>(id), v);
    else tree.AddContents(static_cast<walnut::BSPContentId>(id), std::move(v));
  }
}

// Splits a random leaf by a random plane. Returns false if nothing was done.
template <typename NodeT>
bool SplitLeaf(NodeT& root, const std::vector<const geom::Mesh*>& meshes, int64_t path_seed, int64_t plane_seed, int64_t style, size_t max_depth = 10) {
  Rng path(static_cast<uint64_t>(path_seed));
  NodeT* n = &root;
  std::vector<uint64_t> keys;
  while (true) {
    if (n->IsLeaf()) break;
    keys.push_back(geom::PlaneKeyU(FromPlane(n->split())));
    n = path.Chance(1, 2) ? n->negative_child() : n->positive_child();
  }
  if (keys.size() > max_depth) return false;
  Rng pr(static_cast<uint64_t>(plane_seed));
  geom::Plane plane = geom::RandomPlane(meshes, pr, static_cast<int>(static_cast<uint64_t>(style) % 4));
  uint64_t k = geom::PlaneKeyU(plane);
  if (std::find(keys.begin(), keys.end(), k) != keys.end()) return false;
  Sut s;
  if (static_cast<uint64_t>(style) % 8 >= 4) { walnut::HalfSpace3 h = ToPlane(plane); n->Split(h); }
  else n->Split(ToPlane(plane));
  return true;
}

// Compares the surface `out` with the set expression on the given solids.
class Oracle {
 public:
  explicit Oracle(const World& w) : w_(w) {
    for (int i = 0; i < kMaxIds; ++i) solids_.emplace_back(w.mesh[i]);
  }
  bool Windings(const geom::Pt& q, std::vector<int>& v) const {
    v.assign(kMaxIds, 0);
    for (int i = 0; i < kMaxIds; ++i)
      if (w_.present[i] && !solids_[i].Winding(q, v[i])) return false;
    return true;
  }
  // Queries `n` points. `cls` prefix for violations. The repository never
  // reverses facets, so expressions that are not monotone in the winding
  // numbers (xor, parity) yield facets with their input orientation, and
  // coincident sheets where the sidedness toggles back and forth: there the
  // surface bounds the right points by crossing parity only.
  void CheckSurface(const geom::Mesh& out, const Expr& e, uint64_t seed, int n, const char* prefix, const char* what) const {
    std::string c = prefix;
    std::string bad = geom::CheckFacets(out, false);
    const bool oriented = e.Monotone();
    SIM_CHECK(bad.empty(), (c + ":facet").c_str(), "%s %s: %s", what, e.Str().c_str(), bad.c_str());
    if (oriented) SIM_CHECK(geom::BoundaryHash(out) == 0, (c + ":open").c_str(), "%s %s: the emitted surface (%zu facets) is not closed", what, e.Str().c_str(), out.size());
    geom::Solid s(out);
    Rng rng(seed);
    std::vector<const geom::Mesh*> ms = w_.Meshes();
    std::vector<int> none(kMaxIds, 0);
    bool outside = e.Eval(none);
    int decided = 0;
    for (int i = 0; i < n; ++i) {
      geom::Pt q;
      int r = static_cast<int>(rng.Below(8));
      int bits = static_cast<int>(rng.Pick({2, 5, 10, 20, 40, 70}));
      if (r == 0 || ms.empty()) q = geom::RandomPoint(ms, rng);
      else if (r < 3 && !out.empty()) q = geom::NearVertex(out, rng, bits);
      else if (r < 5 && !out.empty()) q = geom::NearFacet(out, rng, bits, false);
      else if (r < 7) q = geom::NearVertex(*ms[rng.Below(ms.size())], rng, bits);
      else q = geom::NearFacet(*ms[rng.Below(ms.size())], rng, bits, false);
      std::vector<int> w;
      if (!Windings(q, w)) continue;
      int got;
      bool expect = e.Eval(w);
      if (!s.Winding(q, got)) {
        // The point lies exactly on the output but on no input facet.
        SIM_CHECK(false, (c + ":stray-facet").c_str(), "%s %s: a facet passes through %s, which lies on no input facet", what, e.Str().c_str(), geom::ToString(q).c_str());
      }
      ++decided;
      SIM_CHECK(oriented ? got == static_cast<int>(expect) - static_cast<int>(outside) : (got & 1) == (expect != outside), (c + ":membership").c_str(),
                "%s %s: output winds %d times around %s, expected %d (winding numbers of the solids %d %d %d %d %d)", what, e.Str().c_str(), got,
                geom::ToString(q).c_str(), static_cast<int>(expect) - static_cast<int>(outside), w[0], w[1], w[2], w[3], w[4]);
    }
    Probe("membership-queries", static_cast<uint64_t>(decided));
  }
  const World& w_;
  std::vector<geom::Solid> solids_;
};

}  // namespace sim

#endif
