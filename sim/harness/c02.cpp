// C02: winding numbers and facet pieces of BSP cells under any history of
// adding and splitting.
// sim-mode: asan
#include <map>
#include <memory>

#include "world.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kAdd, kAddRaw, kPush, kSplit, kSplitAuto, kSplitTurn, kTraverse, kReset, kReadd, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "add", "add-root", "push", "split", "split-auto", "split-turn", "traverse", "reset", "add-leaf-pieces"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, thorough ? 5 : 3, false);
  int steps = static_cast<int>(rng.Range(2, thorough ? 40 : 16));
  int bias = static_cast<int>(rng.Below(4));
  for (int i = 0; i < steps; ++i) {
    int r = static_cast<int>(rng.Below(12));
    if (r < 3) plan.Add(kAdd, {rng.Chance(1, 3) ? 100000 : rng.Range(1, 20), rng.Range(0, 3)});
    else if (r == 3) plan.Add(kAddRaw, {rng.Range(1, 12)});
    else if (r == 4) plan.Add(kPush, {rng.Range(0, 2)});
    else if (r < 8 || bias == 0) plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)});
    else if (r == 8) plan.Add(kSplitAuto, {rng.Range(0, 1 << 20)});
    else if (r == 9) plan.Add(kSplitTurn, {rng.Range(0, 1 << 20), rng.Range(0, 1000)});
    else if (r == 10 && bias != 1) plan.Add(kTraverse, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5)});
    else if (r == 11 && rng.Chance(1, 3)) plan.Add(kReset, {});
    else if (r == 11 && rng.Chance(1, 3)) plan.Add(kReadd, {rng.Range(0, kMaxIds - 1), rng.Range(0, 1)});
    else plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)});
  }
  plan.Add(kAdd, {100000, rng.Range(0, 3)});
  if (rng.Chance(1, 2)) plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)});
}

struct Ancestor { geom::Plane plane; bool pos; };

struct Checker {
  const World& w;
  Tree& tree;
  const std::vector<int>& complete;
  std::vector<geom::Solid>& solids;
  std::map<int, geom::Mesh> pieces;
  uint64_t leaves = 0, hash = 0;
  bool pending = false;

  void Visit(const Node& n, std::vector<Ancestor>& path) {
    if (!n.IsLeaf() && (!n.contents().empty() || !n.border_contents().empty())) pending = true;
    Take(n, path, false);
    Take(n, path, true);
    if (n.IsLeaf()) {
      ++leaves;
      std::vector<size_t> in(kMaxIds, 0), on(kMaxIds, 0);
      for (const auto& p : n.contents()) if (p.id < kMaxIds) in[p.id]++;
      for (const auto& p : n.border_contents()) if (p.id < kMaxIds) on[p.id]++;
      for (int id = 0; id < kMaxIds; ++id) {
        BSPContentInfo info = n.GetContentInfoForId(static_cast<BSPContentId>(id));
        SIM_CHECK((info.has_interior_polygons != 0) == (in[id] != 0), "cell:interior-count", "leaf at depth %zu holds %zu interior facets of solid %d and reports %zu", path.size(), in[id], id, info.has_interior_polygons);
        SIM_CHECK((info.has_border_polygons != 0) == (on[id] != 0), "cell:border-count", "leaf at depth %zu holds %zu border facets of solid %d and reports %zu", path.size(), on[id], id, info.has_border_polygons);
        hash = Mix(hash ^ (in[id] * 31 + on[id] * 7 + static_cast<uint64_t>(info.pwn)));
      }
      return;
    }
    geom::Plane s = FromPlane(n.split());
    path.push_back({s, false});
    Visit(*n.negative_child(), path);
    path.back().pos = true;
    Visit(*n.positive_child(), path);
    path.pop_back();
  }
  void Take(const Node& n, const std::vector<Ancestor>& path, bool border) {
    for (const auto& p : border ? n.border_contents() : n.contents()) {
      SIM_CHECK(p.id < kMaxIds, "cell:id", "a facet has id %zu", static_cast<size_t>(p.id));
      geom::Facet f = FromPolygon(p);
      std::string bad = geom::CheckFacet(f, false);
      SIM_CHECK(bad.empty(), "cell:facet", "piece of solid %zu: %s", static_cast<size_t>(p.id), bad.c_str());
      bool on_any = false;
      for (size_t d = 0; d < path.size(); ++d) {
        bool off = false;
        for (const geom::Pt& v : f.pts) {
          int side = geom::PlaneSide(path[d].plane, v);
          if (side) off = true;
          SIM_CHECK(side == 0 || (side > 0) == path[d].pos, "cell:outside", "piece %s of solid %zu sticks out of its cell across the split at depth %zu", geom::ToString(f).c_str(), static_cast<size_t>(p.id), d);
        }
        if (!off) on_any = true;
      }
      if (border) {
        SIM_CHECK(on_any, "cell:border", "piece %s of solid %zu is listed as a border facet but lies on no split plane", geom::ToString(f).c_str(), static_cast<size_t>(p.id));
        SIM_CHECK(p.on_node_plane.split != nullptr && geom::PlaneKeyU(FromPlane(*p.on_node_plane.split)) == geom::PlaneKeyU(f.plane), "cell:border-plane", "border facet %s of solid %zu names another plane", geom::ToString(f).c_str(), static_cast<size_t>(p.id));
      } else {
        SIM_CHECK(!on_any, "cell:interior", "piece %s of solid %zu lies on a split plane but is listed as an interior facet", geom::ToString(f).c_str(), static_cast<size_t>(p.id));
      }
      pieces[static_cast<int>(p.id)].push_back(std::move(f));
    }
  }
  void Point(const geom::Pt& q, int& decided) {
    const Node* n = &tree.root;
    size_t depth = 0;
    while (!n->IsLeaf()) {
      int side = geom::PlaneSide(FromPlane(n->split()), q);
      if (!side) return;
      n = side < 0 ? n->negative_child() : n->positive_child();
      ++depth;
    }
    for (int id : complete) {
      if (n->GetContentInfoForId(static_cast<BSPContentId>(id)).has_interior_polygons) continue;
      int wind;
      if (!solids[id].Winding(q, wind)) continue;
      ++decided;
      int64_t pwn = n->GetPWNForId(static_cast<BSPContentId>(id));
      SIM_CHECK(pwn == wind, "cell:pwn", "the cell at depth %zu around %s reports winding number %lld for solid %d, which is %d there", depth, geom::ToString(q).c_str(), static_cast<long long>(pwn), id, wind);
    }
  }
};

template <typename NodeT>
NodeT* Leaf(NodeT* n, int64_t seed, std::vector<uint64_t>* keys) {
  Rng path(static_cast<uint64_t>(seed));
  while (!n->IsLeaf()) {
    if (keys) keys->push_back(geom::PlaneKeyU(FromPlane(n->split())));
    n = path.Chance(1, 2) ? n->negative_child() : n->positive_child();
  }
  return n;
}

void Execute(const Plan& plan) {
  World w;
  std::unique_ptr<Tree> tree;
  { Sut s; tree.reset(new Tree); }
  std::vector<geom::Solid> solids;
  // Facets that were added: stream position of every id, plus copies of leaf
  // pieces added again.
  std::vector<geom::Mesh> extra(kMaxIds);
  bool checked = false;
  // Contents may wait in interior nodes after facets were added to the root of
  // a split tree without a push, and after a push by one level only.
  bool waiting = false, loose = false;
  auto fix = [&]() {
    if (!w.streamed) w.FixStream(0, 0);
    if (solids.empty()) for (int i = 0; i < kMaxIds; ++i) solids.emplace_back(w.mesh[i]);
  };
  auto check = [&](uint64_t seed) {
    std::vector<int> complete;
    for (int id : w.Complete(w.next)) if (extra[id].empty()) complete.push_back(id);
    Checker c{w, *tree, complete, solids, {}, 0, 0, false};
    std::vector<Ancestor> path;
    c.Visit(tree->root, path);
    for (int id = 0; id < kMaxIds; ++id) {
      geom::Mesh want = w.Delivered(id, w.next);
      want.insert(want.end(), extra[id].begin(), extra[id].end());
      SIM_CHECK(geom::ChainHash(c.pieces[id]) == geom::ChainHash(want), "cell:cover", "the %zu pieces of solid %d do not cover its %zu facets exactly once", c.pieces[id].size(), id, want.size());
    }
    SIM_CHECK(!c.pending || waiting || loose, "cell:stuck", "facets are left in an interior node, although all contents were pushed to the leaves");
    if (!c.pending && !complete.empty()) {
      Rng rng(seed);
      std::vector<const geom::Mesh*> ms = w.Meshes();
      int decided = 0;
      for (int i = 0; i < 16; ++i) {
        int bits = static_cast<int>(rng.Pick({1, 3, 8, 20, 60}));
        const geom::Mesh& m = *ms[rng.Below(ms.size())];
        int r = static_cast<int>(rng.Below(4));
        c.Point(r == 0 || m.empty() ? geom::RandomPoint(ms, rng) : r == 1 ? geom::NearFacet(m, rng, bits, false) : geom::NearVertex(m, rng, bits), decided);
        // Next to a corner of a piece in the tree.
        geom::Mesh& pm = c.pieces[complete[rng.Below(complete.size())]];
        if (!pm.empty()) c.Point(rng.Chance(1, 2) ? geom::NearVertex(pm, rng, bits) : geom::NearFacet(pm, rng, bits, false), decided);
      }
      Probe("winding-queries", static_cast<uint64_t>(decided));
      if (decided) checked = true;
    }
    State(c.hash);
    Event(c.hash);
  };
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    bool did = false;
    switch (op.code) {
      case kScene: if (!w.streamed && w.Ids().empty()) w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid:
        if (w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2))));
        break;
      case kOrder: if (!w.streamed) w.FixStream(op.arg(0), op.arg(1)); Signature(Mix(op.arg(0) + op.arg(1))); break;
      case kAdd:
        fix();
        did = w.next < w.total();
        if (did && !tree->root.IsLeaf()) Probe("add-to-split-tree");
        if (did) waiting = false;
        Deliver(w, *tree, static_cast<size_t>(std::max<int64_t>(0, op.arg(0))), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        break;
      case kAddRaw: {
        fix();
        size_t end = std::min(w.stream.size(), w.next + static_cast<size_t>(std::max<int64_t>(0, op.arg(0))));
        if (w.next < end && !tree->root.IsLeaf()) waiting = true;
        for (; w.next < end; ++w.next) {
          World::Item it = w.stream[w.next];
          Sut s;
          tree->root.AddRootContent(static_cast<BSPContentId>(it.id), ToPolygon<AABBConvexPolygon<>>(w.mesh[it.id][it.facet]));
          did = true;
        }
        break;
      }
      case kPush: {
        fix();
        if (op.arg(0) != 0 && waiting) loose = true;
        waiting = false;
        Sut s;
        if (op.arg(0) == 0 || tree->root.IsLeaf()) tree->root.PushContentsToLeaves();
        else { tree->root.PushContentsToChildren(); if (op.arg(0) == 2) tree->root.PushContentsToLeaves(); }
        did = true;
        break;
      }
      case kSplit:
        fix();
        did = SplitLeaf(tree->root, w.Meshes(), op.arg(0), op.arg(1), op.arg(2));
        if (did) Probe("explicit-split");
        break;
      case kSplitAuto: {
        fix();
        Node* n = Leaf(&tree->root, op.arg(0), nullptr);
        if (n->contents().empty()) break;
        Sut s;
        n->Split();
        did = true;
        break;
      }
      case kSplitTurn: {
        fix();
        std::vector<uint64_t> keys;
        Node* n = Leaf(&tree->root, op.arg(0), &keys);
        if (n->contents().empty()) break;
        size_t i = static_cast<uint64_t>(op.arg(1)) % n->contents().size();
        size_t same = 0;
        for (const auto& p : n->contents()) if (p.id == n->contents()[i].id) ++same;
        if (same < 2) break;
        HalfSpace3 h;
        { Sut s; h = n->PickQuarterTurnSplitPlane(i); }
        SIM_CHECK(h.IsValid(), "split:plane", "PickQuarterTurnSplitPlane returned no plane");
        uint64_t k = geom::PlaneKeyU(FromPlane(h));
        Sut s;
        if (std::find(keys.begin(), keys.end(), k) != keys.end()) break;
        n->Split(std::move(h));
        Host ho;
        Probe("quarter-turn-split");
        did = true;
        break;
      }
      case kTraverse: {
        fix();
        Checker c{w, *tree, {}, solids, {}, 0, 0, false};
        std::vector<int> ids = w.Complete(w.next);
        for (size_t i = ids.size(); i-- > 0;) if (!extra[ids[i]].empty()) ids.erase(ids.begin() + static_cast<long>(i));
        if (ids.empty()) break;
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        static const size_t kd[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
        Sut s;
        tree->root.PushContentsToLeaves();
        waiting = false;
        AnyFilter f = e.Build();
        CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
        tree->Traverse(v, kd[static_cast<uint64_t>(op.arg(2)) % 6]);
        Host h;
        Probe("traversal");
        did = true;
        break;
      }
      case kReset: {
        fix();
        { Sut s; tree->Reset(); }
        waiting = loose = false;
        w.next = 0;
        for (auto& m : extra) m.clear();
        Probe("reset");
        did = true;
        break;
      }
      case kReadd: {
        // Facets taken out of a leaf are added to the root again, as output
        // of one tree is used as input of another.
        fix();
        int id = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % kMaxIds);
        Node* n = Leaf(&tree->root, op.arg(0), nullptr);
        std::vector<Tree::OutputPolygon> v;
        { Sut s; v = op.arg(1) ? n->contents() : n->border_contents(); }
        if (v.empty() || v.size() > 40 || w.Delivered(id, w.next).size() > 200) { Sut s; std::vector<Tree::OutputPolygon>().swap(v); break; }
        geom::Mesh m = FromPolygons(v);
        extra[id].insert(extra[id].end(), m.begin(), m.end());
        waiting = false;
        Sut s;
        tree->AddContents(static_cast<BSPContentId>(id), v);
        std::vector<Tree::OutputPolygon>().swap(v);
        Host h;
        Probe("add-leaf-pieces");
        did = true;
        break;
      }
    }
    if (did) {
      Signature(Mix(static_cast<uint64_t>(op.code) * 1000003 + static_cast<uint64_t>(op.arg(0)) * 31 + static_cast<uint64_t>(op.arg(1))));
      check(Mix(static_cast<uint64_t>(op.code) ^ static_cast<uint64_t>(op.arg(0)) ^ oi));
    }
  }
  if (checked) NonTrivial();
  Sut s;
  tree.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C02", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut BSPTree, BSPNode, BSPPolygon, BSPEdgeInfo, RTransformation, BSPTraverser splits, polygon event points, ConvexPolygon splitting, AABB, HalfSpace3, BigInt",
  "allocator replaced by the simulated heap; oracle: exact winding numbers and chain hashes in sim/core/geom.cpp (Boost cpp_int, a prime field)",
  "a run interleaves facet delivery (pushed and unpushed), explicit, automatic and quarter-turn leaf splits, traversals, re-adding of pieces and resets, and checks all cells after every operation; distinct by seeds of the executed operations",
  400000000ull, true, 14000, 200000};
