// C04: damaged facet streams: lost, duplicated, flipped, stray and misfiled
// facets never break the links or memory, and open edges are reported.
// sim-mode: asan
#include <memory>

#include "connected.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kDrop, kDup, kFlip, kStray, kMisfile, kNudge, kAdd, kSplit, kConnect, kMove, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "drop", "duplicate", "flip", "stray", "misfile", "nudge", "add", "split", "connect", "move-output"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, thorough ? 4 : 3, false);
  int damage = static_cast<int>(rng.Chance(1, 3) ? 1 : rng.Range(1, thorough ? 30 : 12));
  int only = rng.Chance(1, 2) ? static_cast<int>(rng.Range(kDrop, kNudge)) : 0;
  for (int i = 0; i < damage; ++i) {
    int k = only ? only : static_cast<int>(rng.Range(kDrop, kNudge));
    plan.Add(k, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30)});
  }
  auto split = [&]() { plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)}); };
  auto connect = [&]() { plan.Add(kConnect, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5), rng.Range(0, 1)}); };
  int steps = rng.Chance(1, 2) ? 0 : static_cast<int>(rng.Range(1, thorough ? 10 : 6));
  for (int i = 0; i < steps; ++i) {
    if (rng.Chance(1, 2)) plan.Add(kAdd, {rng.Range(1, 20), rng.Range(0, 3)}); else split();
    if (rng.Chance(1, 4)) connect();
  }
  plan.Add(kAdd, {100000, rng.Range(0, 3)});
  int t = static_cast<int>(rng.Range(1, thorough ? 5 : 3));
  for (int i = 0; i < t; ++i) {
    connect();
    if (rng.Chance(1, 4)) plan.Add(kMove, {rng.Range(0, 1 << 30)});
    if (rng.Chance(1, 4)) split();
  }
}

size_t Kd(int64_t v) {
  static const size_t k[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
  return k[static_cast<uint64_t>(v) % 6];
}

// The stream after damage.
struct Facets {
  std::vector<std::pair<int, geom::Facet>> list;
  size_t next = 0;
};

void Execute(const Plan& plan) {
  World w;
  Facets fs;
  bool fixed = false;
  size_t damage = 0;
  std::unique_ptr<Tree> tree;
  std::vector<CPoly> out;
  { Sut s; tree.reset(new Tree); }
  auto fix = [&]() {
    if (fixed) return;
    fixed = true;
    if (!w.streamed) w.FixStream(0, 0);
    for (const World::Item& it : w.stream) fs.list.push_back({it.id, w.mesh[it.id][it.facet]});
  };
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!w.streamed && w.Ids().empty()) w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid:
        if (w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2))));
        break;
      case kOrder: if (!w.streamed) w.FixStream(op.arg(0), op.arg(1)); Signature(Mix(op.arg(0) + op.arg(1))); break;
      case kDrop: case kDup: case kFlip: case kStray: case kMisfile: case kNudge: {
        fix();
        size_t left = fs.list.size() - fs.next;
        if (!left) break;
        size_t at = fs.next + static_cast<uint64_t>(op.arg(0)) % left;
        Rng rng(static_cast<uint64_t>(op.arg(1)));
        if (op.code == kDrop) {
          fs.list.erase(fs.list.begin() + static_cast<long>(at));
          FaultFired("facet:lost");
        } else if (op.code == kDup) {
          auto c = fs.list[at];
          fs.list.insert(fs.list.begin() + static_cast<long>(fs.next + rng.Below(left + 1)), c);
          FaultFired("facet:duplicated");
        } else if (op.code == kFlip) {
          geom::Mesh m{fs.list[at].second};
          geom::InvertMesh(m);
          fs.list[at].second = m[0];
          FaultFired("facet:flipped");
        } else if (op.code == kStray) {
          // A facet of another solid of the same scene.
          geom::Mesh m = geom::MakeSolid(static_cast<int>(rng.Below(geom::kSolidKinds)), rng.Next(), w.scene, rng.Chance(1, 2));
          if (m.empty()) break;
          int id = fs.list[at].first;
          fs.list.insert(fs.list.begin() + static_cast<long>(at), {id, m[rng.Below(m.size())]});
          FaultFired("facet:stray");
        } else if (op.code == kMisfile) {
          fs.list[at].first = static_cast<int>(rng.Below(kMaxIds));
          FaultFired("facet:misfiled");
        } else {
          // Drops a part of a facet: replaces it with its first triangle.
          geom::Facet& f = fs.list[at].second;
          if (f.pts.size() < 4) break;
          geom::Facet t = f;
          t.pts = {f.pts[0], f.pts[1], f.pts[2]};
          if (geom::AreaHash({t}) == 0 || !geom::CheckFacet(t, false).empty()) break;
          f = t;
          FaultFired("facet:torn");
        }
        ++damage;
        Signature(Mix(static_cast<uint64_t>(op.code) * 7919 + op.arg(0)));
        break;
      }
      case kAdd: {
        fix();
        size_t end = std::min(fs.list.size(), fs.next + static_cast<size_t>(std::max<int64_t>(0, op.arg(0))));
        for (; fs.next < end; ++fs.next) {
          Sut s;
          tree->AddContent(static_cast<BSPContentId>(fs.list[fs.next].first), ToPolygon(fs.list[fs.next].second));
        }
        Signature(Mix(100 + fs.next));
        break;
      }
      case kSplit:
        fix();
        if (SplitLeaf(tree->root, w.Meshes(), op.arg(0), op.arg(1), op.arg(2))) { Probe("explicit-split"); Signature(Mix(200 + op.arg(1))); }
        break;
      case kConnect: {
        fix();
        if (!fs.next) break;
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        Expr e = RandomExpr(rng, w.Ids(), w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        size_t kd = Kd(op.arg(2));
        Trace("connect %s kd=%zd, %zu of %zu facets loaded", e.Str().c_str(), kd, fs.next, fs.list.size());
        int errors = 0;
        {
          Sut s;
          std::vector<CPoly>().swap(out);
          AnyFilter f = e.Build();
          ConnectingVisitor<AnyFilter> v(f, [&](const std::string& m) { Host h; ++errors; Trace("error: %s", m.c_str()); });
          tree->Traverse(v, kd);
          Host h;
          size_t before = CheckLinks(v.polygons(), true, "damaged").edges;
          Sut s2;
          v.FilterEmptyPolygons();
          out = v.TakePolygons();
          Host h2;
          LinkStats st = CheckLinks(out, true, "damaged");
          SIM_CHECK(st.edges == before, "damaged:filter", "%zu edges became %zu when empty facets were removed", before, st.edges);
          SIM_CHECK(st.unpartnered == 0 || errors > 0, "damaged:silent", "%s: %zu of %zu edges have no partner and no error was reported", e.Str().c_str(), st.unpartnered, st.edges);
          geom::Mesh m = FromPolygons(out);
          for (const CPoly& p : out) SIM_CHECK(p.vertex_count() >= 3, "damaged:facet", "a facet with %zu vertices was delivered", p.vertex_count());
          std::string bad = geom::CheckFacets(m, false);
          SIM_CHECK(bad.empty(), "damaged:facet", "%s", bad.c_str());
          for (const CPoly& p : out) { bad = CheckEdges(p); SIM_CHECK(bad.empty(), "damaged:edge-line", "%s", bad.c_str()); }
          if (st.unpartnered) Probe("open-output");
          Probe(errors ? "errors-reported" : "no-errors");
          if (damage && (errors || !out.empty())) NonTrivial();
          State(geom::ChainHash(m) ^ st.unpartnered);
          Event(geom::ChainHash(m) ^ m.size() ^ static_cast<uint64_t>(errors) << 32);
          Sut s3;
        }
        // The visitor is gone; the links are those of the output alone.
        CheckLinks(out, true, "damaged");
        Signature(Mix(op.arg(0) ^ kd));
        break;
      }
      case kMove: {
        if (out.empty()) break;
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        size_t edges = CheckLinks(out, true, "damaged").unpartnered;
        {
          Sut s;
          for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[rng.Below(i)]);
        }
        SIM_CHECK(CheckLinks(out, true, "damaged").unpartnered == edges, "damaged:move", "moving facets changed the number of open edges");
        Probe("move-output");
        break;
      }
    }
  }
  Sut s;
  std::vector<CPoly>().swap(out);
  tree.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C04", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut ConnectingVisitor, EdgeLineConnector, ConnectedPolygon, ConnectedEdge, Deed, ConvexPolygon merging and edge splitting, BSPTree, BSPTraverser, PlanePartitioner",
  "allocator replaced by the simulated heap; the facet stream between mesh and tree is the faulty channel: facets are lost, duplicated, flipped, torn, misfiled under another id, or stray",
  "a run builds 1-4 closed solids, damages their facet stream 1-30 times, interleaves delivery, splits and connecting traversals, and checks links, memory and error reports; distinct by seeds of the executed operations",
  600000000ull, true, 10000, 150000};
