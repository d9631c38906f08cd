// C03: connected output is watertight with reciprocal, opposite half-edges.
// sim-mode: asan
#include <memory>

#include "connected.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kAdd, kSplit, kConnect, kMove, kChain, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "add", "split", "connect", "move-output", "feed-output"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, thorough ? 5 : 3, false);
  auto split = [&]() { plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)}); };
  auto connect = [&]() { plan.Add(kConnect, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5), rng.Range(0, 15)}); };
  int steps = rng.Chance(1, 2) ? 0 : static_cast<int>(rng.Range(1, thorough ? 10 : 6));
  for (int i = 0; i < steps; ++i) {
    if (rng.Chance(1, 2)) plan.Add(kAdd, {rng.Range(1, 20), rng.Range(0, 3)}); else split();
    if (rng.Chance(1, 6)) connect();
  }
  plan.Add(kAdd, {100000, rng.Range(0, 3)});
  int t = static_cast<int>(rng.Range(1, thorough ? 4 : 2));
  for (int i = 0; i < t; ++i) {
    if (rng.Chance(1, 4)) split();
    connect();
    if (rng.Chance(1, 2)) plan.Add(kMove, {rng.Range(0, 4), rng.Range(0, 1 << 30)});
    if (rng.Chance(1, 3)) plan.Add(kChain, {rng.Range(0, 1 << 30), rng.Range(0, 5)});
  }
}

size_t Kd(int64_t v) {
  static const size_t k[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
  return k[static_cast<uint64_t>(v) % 6];
}

struct Out {
  std::vector<CPoly> polys;
  Expr e;
  bool valid = false;
};

void Check(const Out& out, const Oracle& oracle, uint64_t seed, const char* what) {
  LinkStats st = CheckLinks(out.polys, true, "connect");
  SIM_CHECK(st.unpartnered == 0, "connect:open", "%s %s: %zu of %zu edges have no partner", what, out.e.Str().c_str(), st.unpartnered, st.edges);
  for (size_t i = 0; i < out.polys.size(); ++i) {
    SIM_CHECK(out.polys[i].vertex_count() >= 3, "connect:empty", "%s: facet %zu has %zu vertices", what, i, out.polys[i].vertex_count());
    std::string bad = CheckEdges(out.polys[i]);
    SIM_CHECK(bad.empty(), "connect:edge-line", "%s: facet %zu: %s", what, i, bad.c_str());
  }
  CheckWedges(out.polys, "connect");
  oracle.CheckSurface(FromPolygons(out.polys), out.e, seed, 16, "connect", what);
}

void Connect(Tree& tree, const Expr& e, size_t kd, bool reuse, std::vector<CPoly>& result, const char* what) {
  Sut s;
  int errors = 0;
  std::string first;
  {
    AnyFilter f = e.Build();
    ConnectingVisitor<AnyFilter> v(f, [&](const std::string& m) { Host h; if (!errors++) first = m; });
    tree.Traverse(v, kd);
    v.FilterEmptyPolygons();
    result = v.TakePolygons();
    if (reuse) {
      // The same visitor once more, while the first result is still alive.
      Probe("visitor-reuse");
      std::vector<CPoly> before(std::move(result));
      result.clear();
      tree.Traverse(v, kd);
      v.FilterEmptyPolygons();
      result = v.TakePolygons();
      Host h;
      SIM_CHECK(geom::ChainHash(FromPolygons(before)) == geom::ChainHash(FromPolygons(result)), "connect:visitor-reuse",
                "%s %s: using the visitor again gives another surface (%zu facets, then %zu)", what, e.Str().c_str(), before.size(), result.size());
    }
  }
  Host h;
  SIM_CHECK(errors == 0, "connect:error", "%s %s: the error callback was called %d times: %s", what, e.Str().c_str(), errors, first.substr(0, 200).c_str());
}

void Execute(const Plan& plan) {
  World w;
  std::unique_ptr<Tree> tree;
  std::unique_ptr<Oracle> oracle;
  Out out;
  { Sut s; tree.reset(new Tree); }
  auto fix = [&]() {
    if (!w.streamed) w.FixStream(0, 0);
    if (!oracle) oracle.reset(new Oracle(w));
  };
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!w.streamed && w.Ids().empty()) w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid:
        if (w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2))));
        break;
      case kOrder: if (!w.streamed) w.FixStream(op.arg(0), op.arg(1)); Signature(Mix(op.arg(0) + op.arg(1))); break;
      case kAdd:
        fix();
        Deliver(w, *tree, static_cast<size_t>(std::max<int64_t>(0, op.arg(0))), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        Signature(Mix(100 + w.next));
        break;
      case kSplit:
        fix();
        if (SplitLeaf(tree->root, w.Meshes(), op.arg(0), op.arg(1), op.arg(2))) { Probe("explicit-split"); Signature(Mix(200 + op.arg(1))); }
        break;
      case kConnect: {
        fix();
        std::vector<int> ids = w.Complete(w.next);
        if (ids.empty()) break;
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4), true);
        size_t kd = Kd(op.arg(2));
        Trace("connect %s kd=%zd, %zu of %zu facets loaded", e.Str().c_str(), kd, w.next, w.total());
        { Sut s; std::vector<CPoly>().swap(out.polys); }
        out.e = e;
        out.valid = true;
        Connect(*tree, e, kd, (op.arg(3) & 12) == 12, out.polys, "traversal");
        if (Tracing()) for (const geom::Facet& f : FromPolygons(out.polys)) Trace("  %s", geom::ToString(f).c_str());
        Check(out, *oracle, Mix(op.arg(0)), "traversal");
        geom::Mesh m = FromPolygons(out.polys);
        // The unmerged surface of the same tree.
        if (op.arg(3) & 1) {
          geom::Mesh raw;
          {
            Sut s;
            AnyFilter f = e.Build();
            CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
            tree->Traverse(v, Kd(op.arg(2) + 1));
            Host h;
            raw = FromPolygons(v.polygons());
          }
          SIM_CHECK(geom::ChainHash(raw) == geom::ChainHash(m), "connect:surface", "%s: the connected facets (%zu) cover another surface than the emitted ones (%zu)", e.Str().c_str(), m.size(), raw.size());
          Probe(raw.size() > m.size() ? "merged" : "nothing-merged");
        }
        if (!m.empty()) NonTrivial();
        Signature(Mix(op.arg(0) ^ kd));
        State(geom::ChainHash(m));
        Event(geom::ChainHash(m) ^ m.size());
        break;
      }
      case kMove: {
        // Links must survive moving the facets around.
        if (!out.valid || out.polys.empty()) break;
        Rng rng(static_cast<uint64_t>(op.arg(1)));
        Sut s;
        switch (static_cast<uint64_t>(op.arg(0)) % 5) {
          case 0: for (size_t i = out.polys.size(); i > 1; --i) std::swap(out.polys[i - 1], out.polys[rng.Below(i)]); break;
          case 1: {
            std::vector<CPoly> v;  // grows by reallocation
            for (CPoly& p : out.polys) v.push_back(std::move(p));
            out.polys = std::move(v);
            break;
          }
          case 2: std::sort(out.polys.begin(), out.polys.end(), [](const CPoly& a, const CPoly& b) { return a.vertex_count() < b.vertex_count(); }); break;
          case 3: {
            CPoly tmp(std::move(out.polys[rng.Below(out.polys.size())]));
            auto it = out.polys.begin();
            while (it->vertex_count()) ++it;
            *it = std::move(tmp);
            break;
          }
          case 4: {
            // Copies are moved around and destroyed; the original keeps its links.
            std::vector<CPoly> copy;
            const std::vector<CPoly>& original = out.polys;
            for (const CPoly& p : original) copy.push_back(p);  // grows by reallocation
            // Reordering the edges of a copy is an edit of the copy only.
            for (CPoly& c : copy) {
              switch (rng.Below(3)) {
                case 0: c.SortVertices(); break;
                case 1: {
                  size_t e = rng.Below(c.vertex_count());
                  const HomoPoint3 &u = c.vertex(e), &v = c.vertex((e + 1) % c.vertex_count());
                  // The midpoint of u and v.
                  c.SplitEdge(e, HomoPoint3(u.x() * v.w() + v.x() * u.w(), u.y() * v.w() + v.y() * u.w(), u.z() * v.w() + v.z() * u.w(), u.w() * v.w() * BigInt(2)));
                  break;
                }
                default: break;
              }
            }
            CPoly tmp(std::move(copy[rng.Below(copy.size())]));
            break;
          }
        }
        Host h;
        Probe("move-output");
        Check(out, *oracle, Mix(op.arg(1)), "after moving facets");
        Signature(Mix(op.arg(1) ^ 77));
        break;
      }
      case kChain: {
        // The connected output is an input of a second boolean operation.
        if (!out.valid || out.polys.empty()) break;
        std::vector<int> none(kMaxIds, 0);
        if (out.e.Eval(none)) break;  // unbounded
        std::vector<int> ids = w.Complete(w.next);
        Rng rng(static_cast<uint64_t>(op.arg(0)));
        int other = ids[rng.Below(ids.size())];
        std::unique_ptr<Tree> t2;
        Out res;
        {
          Sut s;
          t2.reset(new Tree);
          if (rng.Chance(1, 2)) {
            t2->AddContents(0, out.polys);
          } else {
            std::vector<CPoly> copy(out.polys);
            t2->AddContents(0, std::move(copy));
          }
          std::vector<MutableConvexPolygon<>> v;
          for (const geom::Facet& f : w.mesh[other]) v.push_back(ToPolygon(f));
          t2->AddContents(1, std::move(v));
        }
        Expr second, expect;
        second.kind = expect.kind = w.inverted[other] ? Expr::kSub : rng.Chance(1, 2) ? Expr::kAnd : Expr::kOr;
        Expr a, b;
        a.kind = Expr::kPoly; a.id = 0;
        b.kind = w.inverted[other] ? Expr::kInv : Expr::kPoly; b.id = 1;
        second.kids = {a, b};
        b.id = other;
        expect.kids = {out.e, b};
        Connect(*t2, second, Kd(op.arg(1)), false, res.polys, "second operation");
        res.e = expect;
        Check(res, *oracle, Mix(op.arg(0)) + 3, "second operation");
        Probe("feed-output");
        // The first output is untouched.
        Check(out, *oracle, Mix(op.arg(0)) + 4, "input of the second operation");
        Signature(Mix(op.arg(0) ^ 78));
        Event(geom::ChainHash(FromPolygons(res.polys)));
        Sut s;
        t2.reset();
        std::vector<CPoly>().swap(res.polys);
        break;
      }
    }
  }
  Sut s;
  std::vector<CPoly>().swap(out.polys);
  tree.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C03", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut ConnectingVisitor, EdgeLineConnector, ConnectedPolygon, ConnectedEdge, Deed, ConvexPolygon merging, BSPTree, BSPTraverser, PlanePartitioner",
  "allocator replaced by the simulated heap (it decides the iteration order of containers hashed by address); oracle: exact winding numbers, half-edge links and chain hashes in sim/core",
  "a run builds 1-5 closed solids, interleaves delivery, splits and connecting traversals, moves the output facets and feeds them into a second operation; distinct by seeds of the executed operations",
  600000000ull, true, 12000, 150000};
