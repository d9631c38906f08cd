// C01: boolean results select exactly the right points under every schedule of
// loading, splitting and traversing.
// sim-mode: asan
#include <memory>

#include "world.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kAdd, kSplit, kTraverse, kIdentity, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "add", "split", "traverse", "identity"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, thorough ? 5 : 4, false);
  int style = static_cast<int>(rng.Below(4));
  int steps = static_cast<int>(rng.Range(1, thorough ? 14 : 7));
  auto add = [&](int64_t n) { plan.Add(kAdd, {n, rng.Range(0, 3)}); };
  auto split = [&]() { plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)}); };
  auto traverse = [&]() { plan.Add(kTraverse, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Chance(1, 5) ? 1 : rng.Range(0, 5), rng.Range(0, 3), rng.Chance(1, 6) ? rng.Range(1, kMaxIds) : 0, rng.Chance(1, 4)}); };
  if (style == 0) {
    add(100000);
  } else if (style == 1) {
    for (int i = 0; i < steps / 2; ++i) split();
    add(100000);
  } else {
    for (int i = 0; i < steps; ++i) {
      int r = static_cast<int>(rng.Below(style == 2 ? 2 : 3));
      if (r == 0) add(rng.Range(1, 20)); else if (r == 1) split(); else traverse();
    }
  }
  int t = static_cast<int>(rng.Range(1, thorough ? 5 : 3));
  for (int i = 0; i < t; ++i) { if (rng.Chance(1, 4)) split(); traverse(); }
  if (rng.Chance(1, 2)) plan.Add(kIdentity, {rng.Range(0, 1 << 30), rng.Range(0, 5)});
}

size_t Kd(int64_t v) {
  static const size_t k[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
  return k[static_cast<uint64_t>(v) % 6];
}

// Collects the selected surface; with `reuse`, once more with the same visitor.
geom::Mesh Collect(Tree& tree, const Expr& e, size_t kd, int take, int reuse = 0) {
  geom::Mesh out, first;
  Sut s;
  {
    AnyFilter f = e.Build();
    CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
    std::deque<HalfSpace3> planes;
    for (int i = 0; i <= reuse; ++i) {
      if (i) { Host h; first = std::move(out); }
      tree.Traverse(v, kd);
      if (take) {
        auto polys = v.TakePolygons(planes);
        Host h;
        out = FromPolygons(polys);
      } else {
        Host h;
        out = FromPolygons(v.polygons());
        if (i < reuse) { Sut g; v.polygons().clear(); }
      }
    }
  }
  Host h;
  if (reuse) {
    Probe("visitor-reuse");
    // Oracle checks look at the second result; the first covers the same points.
    SIM_CHECK(geom::AreaHash(first) == geom::AreaHash(out) && geom::VolumeHash(first) == geom::VolumeHash(out), "bool:visitor-reuse",
              "%s: using the collector again gives another surface (%zu facets, then %zu)", e.Str().c_str(), first.size(), out.size());
  }
  return out;
}

void Execute(const Plan& plan) {
  World w;
  std::unique_ptr<Tree> tree;
  std::unique_ptr<Oracle> oracle;
  int traversals = 0;
  { Sut s; tree.reset(new Tree); }
  auto fix = [&]() {
    if (!w.streamed) w.FixStream(0, 0);
    if (!oracle) oracle.reset(new Oracle(w));
  };
  // Surface of the same expression from a tree loaded in one go.
  auto baseline = [&](const Expr& e, size_t n) {
    std::unique_ptr<Tree> t;
    { Sut s; t.reset(new Tree); }
    for (int id = 0; id < kMaxIds; ++id) {
      geom::Mesh m = w.Delivered(id, n);
      if (m.empty()) continue;
      Sut s;
      std::vector<MutableConvexPolygon<>> v;
      for (const geom::Facet& f : m) v.push_back(ToPolygon(f));
      t->AddContents(static_cast<BSPContentId>(id), v);
    }
    geom::Mesh out = Collect(*t, e, 6, 0);
    Sut s;
    t.reset();
    return out;
  };
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!w.streamed && w.Ids().empty()) w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid:
        if (w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2))));
        break;
      case kOrder: if (!w.streamed) w.FixStream(op.arg(0), op.arg(1)); Signature(Mix(op.arg(0) + op.arg(1))); break;
      case kAdd:
        fix();
        Deliver(w, *tree, static_cast<size_t>(std::max<int64_t>(0, op.arg(0))), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        Signature(Mix(100 + w.next));
        break;
      case kSplit:
        fix();
        if (SplitLeaf(tree->root, w.Meshes(), op.arg(0), op.arg(1), op.arg(2))) { Probe("explicit-split"); Signature(Mix(200 + op.arg(1))); }
        break;
      case kTraverse: {
        fix();
        std::vector<int> ids = w.Complete(w.next);
        if (ids.empty()) break;
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        if (op.arg(4)) {  // an operand that is an empty solid
          int id = static_cast<int>(static_cast<uint64_t>(op.arg(4)) % kMaxIds);
          if (!w.present[id]) { ids.push_back(id); Probe("empty-operand"); }
        }
        Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        size_t kd = Kd(op.arg(2));
        Trace("traverse %s kd=%zd, %zu of %zu facets loaded", e.Str().c_str(), kd, w.next, w.total());
        geom::Mesh out = Collect(*tree, e, kd, op.arg(3) & 1, op.arg(5) & 1);
        if (Tracing()) for (const geom::Facet& f : out) Trace("  %s", geom::ToString(f).c_str());
        oracle->CheckSurface(out, e, Mix(op.arg(0)), 24, "bool", "traversal");
        if (e.kind == Expr::kPoly && !w.overlaps[e.id] && !w.inverted[e.id])
          SIM_CHECK(geom::ChainHashU(out) == geom::ChainHashU(w.mesh[e.id]), "bool:identity", "the surface of solid %d differs from its input", e.id);
        if (op.arg(3) & 2) {
          geom::Mesh base = baseline(e, w.next);
          // (other expressions: the same points, checked by the oracle)
          oracle->CheckSurface(base, e, Mix(op.arg(0)) + 1, 12, "bool", "baseline");
          bool same = !e.Monotone() || geom::ChainHash(out) == geom::ChainHash(base);
          SIM_CHECK(same, "bool:schedule",
                    "%s: this schedule gives another surface (%zu facets) than loading everything at once (%zu facets)", e.Str().c_str(), out.size(), base.size());
        }
        ++traversals;
        Probe(w.next < w.total() ? "traverse-partial-load" : traversals > 1 ? "re-traverse" : "first-traverse");
        Signature(Mix(op.arg(0) ^ kd));
        State(geom::ChainHash(out));
        Event(geom::ChainHash(out));
        break;
      }
      case kIdentity: {
        fix();
        std::vector<int> ids = w.Complete(w.next);
        if (ids.size() < 2) break;
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        Expr a = RandomExpr(rng, ids, w.Inverted(), 1, true), b = RandomExpr(rng, ids, w.Inverted(), 1, true);
        uint64_t h[4];
        for (int i = 0; i < 4; ++i) {
          Expr e;
          if (i == 0) e = a;
          else if (i == 1) e = b;
          else { e.kind = i == 2 ? Expr::kAnd : Expr::kOr; e.kids = {a, b}; }
          h[i] = geom::ChainHashU(Collect(*tree, e, Kd(op.arg(1)), 0));
        }
        SIM_CHECK(geom::FieldAdd(h[0], h[1]) == geom::FieldAdd(h[2], h[3]), "bool:inclusion-exclusion", "surfaces of A=%s, B=%s, A and B, A or B do not add up", a.Str().c_str(), b.Str().c_str());
        Probe("identity");
        ++traversals;
        Event(h[2]);
        break;
      }
    }
  }
  if (traversals) NonTrivial();
  Sut s;
  tree.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C01", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut BSPTree, BSPNode, BSPTraverser, PlanePartitioner, polygon event points, filters, CollectorVisitor, ConvexPolygon, HalfSpace3, BigInt",
  "allocator replaced by the simulated heap; oracle: exact winding numbers, boundary and chain hashes in sim/core/geom.cpp (Boost cpp_int, a prime field)",
  "a run builds 1-5 closed solids of 19 kinds (shared planes, edges, vertices; coordinates up to 2^200; rational and negative homogeneous weights) and interleaves facet delivery, explicit leaf splits and traversals of random set expressions with random kd bounds; distinct by seeds of the executed operations",
  400000000ull, true, 12000, 200000};
