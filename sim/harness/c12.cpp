// C12: several tasks at a time, each with objects of its own and common constant
// inputs, under a schedule that can preempt at every memory access.
// sim-mode: race
#include <cmath>
#include <memory>
#include <sstream>

#include "world.h"
#include "race.h"
#include "connected.h"
#include "fan.h"
#include "walnut/aabb.h"
#include "walnut/connecting_visitor.h"
#include "walnut/convex_polygon_factory.h"
#include "walnut/extrude.h"
#include "walnut/m_log_n_estimator.h"
#include "walnut/mesh_plane_repairer.h"
#include "walnut/nudging_plane_builder.h"
#include "walnut/mesh.h"
#include "walnut/r_transformation.h"
#include "walnut/rational.h"
#include "walnut/vertex_double_point3_mapper.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kTask, kPreempt, kFail, kAloneFirst, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "task", "preempt", "fail_alloc", "alone_first"};

enum TaskKind { kBoolean, kDecompose, kRepair, kNumbers, kSplits, kQueries, kExport, kBorders, kCopies, kBuild, kTaskKinds };
const char* const kTaskNames[] = {"task:boolean", "task:decompose", "task:repair", "task:numbers", "task:splits", "task:queries", "task:export", "task:borders", "task:copies", "task:build"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, 2, true);
  int tasks = static_cast<int>(rng.Range(2, rng.Chance(1, 3) ? race::kMaxTasks : 3));
  int64_t kind = rng.Range(0, kTaskKinds - 1), seed = rng.Range(0, 1 << 30);
  // All of one kind now and then, and twins.
  bool same = rng.Chance(1, 2), twins = rng.Chance(1, 4);
  for (int i = 0; i < tasks; ++i) plan.Add(kTask, {same ? kind : rng.Range(0, kTaskKinds - 1), twins ? seed : rng.Range(0, 1 << 30), rng.Range(0, 255)});
  if (rng.Chance(1, 4)) plan.Add(kAloneFirst, {});
  if (rng.Chance(1, 4)) plan.Add(kFail, {rng.Range(0, tasks - 1), int64_t{1} << rng.Range(0, 12), rng.Pick({1, 1, 2, 1000000})});
  int steps = static_cast<int>(rng.Pick({0, 1, 2, 5, 12, 40, 100, thorough ? 400 : 200}));
  int span = static_cast<int>(rng.Range(1, 15));
  for (int i = 0; i < steps; ++i) {
    int64_t k = rng.Chance(1, 2) ? int{race::kAccess} : rng.Range(0, race::kStepKinds - 1);
    int bits = static_cast<int>(k == race::kAccess ? rng.Range(0, span + 3) : k == race::kSync ? rng.Range(0, 3) : rng.Range(0, span > 8 ? 8 : span));
    plan.Add(kPreempt, {k, rng.Range(0, (int64_t{1} << bits) - 1), rng.Range(0, 2), rng.Chance(1, 6)});
  }
}

using Poly = MutableConvexPolygon<>;
using Out = ConnectingVisitorOutputPolygon<>;

// What the tasks read together.
struct Shared {
  World w;
  std::vector<Poly> solids[kMaxIds];
  std::vector<AABBConvexPolygon<>> boxed[kMaxIds];  // the same
  std::vector<std::pair<int, size_t>> order;
  std::vector<HomoPoint3> points;
  std::vector<HalfSpace3> planes;
  std::vector<BigInt> numbers;
  std::vector<std::vector<HomoPoint3>> loops;  // simple, not convex
  std::vector<Out> connected;
  BSPContentId connected_id = 0;
  Fan fan;
  AABB box;
};

struct Result {
  uint64_t digest = 0;
  bool failed = false;
  uint64_t items = 0;
  void Add(uint64_t v) { digest = Mix(digest ^ v) + 0x9e37; ++items; }
};
// All of these are called in Sut mode and convert in Host mode.
void Add(Result& r, const BigInt& v) {
  Host h;
  geom::Num n = FromBig(v);
  r.Add(HashBytes(n.data(), n.size() * sizeof(n[0])));
}
void Add(Result& r, const HomoPoint3& p) { Add(r, p.x()); Add(r, p.y()); Add(r, p.z()); Add(r, p.w()); }
void Add(Result& r, const HalfSpace3& p) { Add(r, p.x()); Add(r, p.y()); Add(r, p.z()); Add(r, p.d()); }
template <typename C> void AddMesh(Result& r, const C& polys) {
  Host h;
  geom::Mesh m = FromPolygons(polys);
  r.Add(geom::ChainHash(m));
  r.Add(geom::VolumeHash(m));
}
template <typename C> void AddExact(Result& r, const C& polys) {
  for (const auto& p : polys) {
    r.Add(p.vertex_count());
    for (size_t i = 0; i < p.vertex_count(); ++i) Add(r, p.vertex(i));
    Add(r, p.plane());
  }
}
void Add(Result& r, double d) {
  uint64_t v;
  std::memcpy(&v, &d, sizeof(v));
  r.Add(v);
}
void Add(Result& r, const std::string& s) {
  Host h;
  r.Add(HashBytes(s.data(), s.size()));
}

void Boolean(const Shared& s, Rng& rng, Result& r) {
  Expr e;
  std::vector<std::pair<int, size_t>> order;
  {
    Host h;
    std::vector<int> ids = s.w.Ids();
    if (ids.empty()) return;
    e = RandomExpr(rng, ids, s.w.Inverted(), 2);
  }
  BSPTree<> tree;
  int api = static_cast<int>(rng.Below(4));
  if (api == 3 && !s.connected.empty()) {
    // A result of an earlier operation as input.
    for (const Out& p : s.connected) if (p.vertex_count()) tree.AddContent(s.connected_id, p);
    for (int i = 0; i < kMaxIds; ++i) if (static_cast<BSPContentId>(i) != s.connected_id) tree.AddContents(static_cast<BSPContentId>(i), s.boxed[i]);
  } else if (api == 2) {
    for (const auto& o : s.order) tree.AddContent(static_cast<BSPContentId>(o.first), s.boxed[o.first][o.second]);
  } else if (api == 0) {
    for (const auto& o : s.order) tree.AddContent(static_cast<BSPContentId>(o.first), s.solids[o.first][o.second]);
  } else {
    for (int i = 0; i < kMaxIds; ++i) tree.AddContents(static_cast<BSPContentId>(i), s.solids[i]);
  }
  int errors = 0;
  AnyFilter filter = e.Build();
  ConnectingVisitor<AnyFilter> v(filter, [&](const std::string&) { ++errors; });
  if (rng.Chance(1, 3)) tree.Traverse(v, static_cast<int>(rng.Below(20)));
  else tree.Traverse(v);
  v.FilterEmptyPolygons();
  // Surfaces that can not be oriented (exclusive or) report errors; how many
  // and which edges stay open depends on the order of addresses there.
  const bool oriented = e.Monotone();
  if (oriented) r.Add(static_cast<uint64_t>(errors));
  AddMesh(r, v.polygons());
  size_t open = 0;
  for (const Out& p : v.polygons()) for (const auto& edge : p.edges()) open += edge.partner() == nullptr;
  if (oriented) r.Add(open);
  if (Tracing()) { Host h; geom::Mesh m = FromPolygons(v.polygons()); Trace("boolean %s: %d errors, %zu facets, %zu open edges, chain %llx volume %llx", e.Str().c_str(), errors, m.size(), open, (unsigned long long)geom::ChainHash(m), (unsigned long long)geom::VolumeHash(m)); }
}

struct Factory : public ConvexPolygonFactory<HomoPoint3> {
  std::vector<ConvexPolygonRep> got;
  void Emit(ConvexPolygonRep&& p) override { got.push_back(std::move(p)); }
};
void Decompose(const Shared& s, Rng& rng, Result& r) {
  Factory f;
  int n = static_cast<int>(rng.Range(2, 8));
  for (int i = 0; i < n; ++i) {
    const std::vector<HomoPoint3>& loop = s.loops[rng.Below(s.loops.size())];
    f.Build(loop.begin(), loop.end());
    AddMesh(r, f.got);
    r.Add(f.got.size());
    f.got.clear();
  }
}

void Repair(const Shared& s, Rng& rng, Result& r) {
  MeshPlaneRepairer<> rep;
  int rounds = static_cast<int>(rng.Range(1, 2));
  for (int k = 0; k < rounds; ++k) {
    uint64_t nudge = rng.Next();
    int share = static_cast<int>(rng.Pick({0, 5, 30}));
    for (const auto& o : s.order) {
      const Poly& p = s.solids[o.first][o.second];
      for (size_t i = 0; i < p.vertex_count(); ++i) {
        const HomoPoint3& v = p.vertex(i);
        uint64_t h;
        { Host host; h = Mix(nudge ^ geom::PointKey(FromPoint(v))); }
        if (static_cast<int>(h % 100) < share) {
          BigInt d(static_cast<int>(h >> 32 & 7) - 3);
          rep.AddVertex(HomoPoint3(v.x() * BigInt(1000) + d * v.w(), v.y() * BigInt(1000) - d * v.w(), v.z() * BigInt(1000), v.w() * BigInt(1000)));
        } else {
          rep.AddVertex(v);
        }
      }
      rep.FinishFacet();
    }
    MeshPlaneRepairerProducer<> out = std::move(rep).FinalizeMesh();
    while (out.HasMorePolygons()) {
      MeshPlaneRepairerProducer<>::VertexIterator a, b;
      HalfSpace3 plane = out.GetNextPolygon(a, b);
      Add(r, plane);
      for (; a != b; ++a) Add(r, *a);
    }
    rep = MeshPlaneRepairer<>();
  }
}

void Numbers(const Shared& s, Rng& rng, Result& r) {
  const std::vector<BigInt>& n = s.numbers;
  auto pick = [&]() -> const BigInt& { return n[rng.Below(n.size())]; };
  BigInt acc(1);
  int steps = static_cast<int>(rng.Range(5, 40));
  for (int i = 0; i < steps; ++i) {
    const BigInt &a = pick(), &b = pick();
    switch (rng.Below(13)) {
      case 0: acc = acc * a; break;
      case 1: acc = a - acc; break;
      case 2: acc = acc + b; break;
      case 3: if (a.GetSign() != 0) { BigInt rem; acc = b.DivideRemainder(a, &rem) + rem; } break;
      case 4: acc = acc << rng.Below(130); break;
      case 5: acc = BigInt(static_cast<int>(rng.Below(130))) - b; break;
      case 6: acc = a.GetGreatestCommonDivisor(b); break;
      case 7: { BigInt c(a); c -= b; acc = c; break; }
      case 8: { BigInt c = a; BigInt d = std::move(c); d.Negate(); acc = d + a; r.Add(acc.GetSign() != 0); acc = d; break; }
      case 9: Add(r, static_cast<double>(a)); Add(r, static_cast<double>(acc)); break;
      case 10: { std::ostringstream o; o << a; Add(r, o.str()); break; }
      case 12: r.Add(GetSplitCost(rng.Below(1000) + 1, 0, rng.Below(1000) + 1, 0)); break;
      case 11: r.Add(static_cast<uint64_t>(a.Compare(b) + 2) * 2 + (a < b ? 1 : 0)); acc = a.abs(); break;
    }
    if (acc.used_words() > 40) acc = BigInt(7);
    Add(r, acc);
  }
}

void Splits(const Shared& s, Rng& rng, Result& r) {
  if (s.order.empty()) return;
  int n = static_cast<int>(rng.Range(2, 10));
  for (int i = 0; i < n; ++i) {
    const auto& o = s.order[rng.Below(s.order.size())];
    const Poly& p = s.solids[o.first][o.second];
    const HalfSpace3& h = s.planes[rng.Below(s.planes.size())];
    ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
    r.Add(info.ShouldEmitNegativeChild() * 2 + info.ShouldEmitPositiveChild());
    if (info.ShouldEmitNegativeChild() && info.ShouldEmitPositiveChild()) {
      auto kids = rng.Chance(1, 2) ? p.CreateSplitChildren(std::move(info)) : Poly(p).CreateSplitChildren(std::move(info));
      std::vector<Poly> v;
      v.push_back(std::move(kids.first));
      v.push_back(std::move(kids.second));
      AddExact(r, v);
      if (rng.Chance(1, 2)) {
        size_t a = v[0].vertex_count(), b = v[1].vertex_count();
        for (size_t k = 0; k < a * b; ++k) {
          size_t x = k / b, y = k % b;
          if (v[0].vertex(x) != v[1].vertex((y + 1) % b) || v[0].vertex((x + 1) % a) != v[1].vertex(y)) continue;
          int dim = v[0].edge(x).line().d().GetFirstNonzeroDimension();
          bool merged = v[0].TryMergePolygon(dim, x, v[1], y);
          r.Add(merged);
          AddExact(r, v);
          break;
        }
      }
    }
  }
}

void Queries(const Shared& s, Rng& rng, Result& r) {
  if (s.order.empty()) return;
  int n = static_cast<int>(rng.Range(5, 30));
  for (int i = 0; i < n; ++i) {
    const auto &o = s.order[rng.Below(s.order.size())], &o2 = s.order[rng.Below(s.order.size())];
    const Poly &p = s.solids[o.first][o.second], &q = s.solids[o2.first][o2.second];
    const HomoPoint3 &v = p.vertex(rng.Below(p.vertex_count())), &w = s.points[rng.Below(s.points.size())];
    const HalfSpace3& h = s.planes[rng.Below(s.planes.size())];
    switch (rng.Below(29)) {
      case 0: { DoublePoint3 d = v.GetDoublePoint3(); Add(r, d.x); Add(r, d.y); Add(r, d.z); break; }
      case 1: r.Add((v == w) * 4 + (v != w) * 2 + HomoPoint3::LexicographicallyLt(v, w)); break;
      case 2: r.Add(static_cast<uint64_t>(h.Compare(v) + 2)); r.Add(h.IsCoincident(w)); break;
      case 3: r.Add(p == q); break;
      case 4: Add(r, p.GetCentroid()); break;
      case 5: { auto a = p.GetProjectedArea(p.drop_dimension()); Add(r, a.first); Add(r, a.second); break; }
      case 6: Add(r, p.Approximate()); break;
      case 7: { std::ostringstream out; out << p; Add(r, out.str()); break; }
      case 8: r.Add(h == p.plane()); r.Add(h.IsSameOrOpposite(p.plane())); break;
      case 9: {
        const auto& l = p.edge(rng.Below(p.vertex_count())).line();
        r.Add(l.IsCoincident(w));
        HomoPoint3 x = l.Intersect(h);
        Add(r, x);
        break;
      }
      case 10: { PluckerLine l(p.plane(), h); Add(r, l.d().x()); Add(r, l.m().z()); r.Add(l.IsValid()); break; }
      case 11: r.Add(s.box.IsOnBorder(w)); break;
      case 12: { HomoPoint3 x = h.x().GetSign() ? w : v; Add(r, x); break; }
      case 14: {
        auto d = [&]() { return std::ldexp(static_cast<double>(rng.Range(-(1 << 30), 1 << 30)), static_cast<int>(rng.Range(-60, 20))); };
        double x = d(), y = d(), z = d();
        Add(r, rng.Chance(1, 2) ? HomoPoint3::FromDoubles(static_cast<int>(rng.Range(-40, 5)), x, y, z) : HomoPoint3::FromDoublesExact(x, y, z));
        break;
      }
      case 15: if (i < 6) AddExact(r, s.box.GetWalls()); break;
      case 16: if (i < 6) { auto c = s.box.IntersectPlane(h); r.Add(c.vertex_count()); for (size_t k = 0; k < c.vertex_count(); ++k) Add(r, c.vertex(k)); } break;
      case 17: r.Add(static_cast<uint64_t>(RXYCompareBivector(p.normal(), q.normal()) + 2)); Add(r, RTransform(v, BigInt(1000))); break;
      case 18: {
        HomoPoint2 a = v.DropDimension(p.drop_dimension()), b = w.DropDimension(p.drop_dimension());
        r.Add((a == b) * 2 + HomoPoint2::LexicographicallyLt(a, b));
        r.Add(v.x().GetHash() == w.x().GetHash()); Add(r, GetTopPoint(s.solids[o.first]));
        break;
      }
      case 19: if (i < 8) Add(r, GetCentroid(s.solids[o.first])); break;
      case 20: if (i < 8) { Add(r, GetFarthest(s.solids[o.first], h.normal())); break; }
        // Fall through.
      case 21: r.Add(p.GetExtremeIndexBisect(h.normal())); r.Add(p.GetExtremeIndexBisect(q.normal())); r.Add(p.GetMinimumIndex()); break;
      case 22: {
        const AABBConvexPolygon<> &bp = s.boxed[o.first][o.second], &bq = s.boxed[o2.first][o2.second];
        const AABB &a = bp.aabb(), &b = bq.aabb();
        { auto info = bp.GetSplitInfo(h); r.Add(info.neg_range().first * 64 + info.neg_range().second + info.pos_range().second * 4096); }
        if (rng.Chance(1, 2)) { AABBConvexPolygon<> c(bq); Add(r, c.aabb().max_point()); r.Add(c == bp); }
        r.Add(static_cast<uint64_t>(a.GetPlaneSide(h) + 2));
        r.Add(a.IsInside(w) * 8 + a.IsInside(v) * 4 + b.IsInside(v) * 2 + b.IsOnBorder(v));
        Add(r, a.GetSquaredDiagonalLengthNumerator());
        Add(r, b.GetDiagonalLength());
        Add(r, a.min_point());
        Add(r, b.max_point());
        for (size_t d = 0; d < 3; ++d) { Add(r, bp.max_vertex(d)); Add(r, bp.min_vertex(d)); }
        break;
      }
      case 23:
        for (size_t d = 0; d < 3; ++d) r.Add(static_cast<uint64_t>(v.CompareComponent(d, w) + 2) * 4 + v.IsLessThanComponent(d, w) * 2 + v.IsEquivalentComponent(d, w));
        r.Add(HomoPoint3::TopnessLt(v, w) * 2 + HomoPoint3::TopnessLt(w, v));
        Add(r, v.Approximate());
        break;
      case 24: {
        int d = p.drop_dimension();
        Vector2 a = p.normal().DropDimension((d + 1) % 3), b = h.normal().DropDimension((d + 1) % 3);
        r.Add(a.IsSameDir(b) * 8 + a.IsSameOrOppositeDir(b) * 4 + a.IsHalfRotationLessThan(b) * 2 + a.IsRotationLessThan(b));
        Add(r, a.Cross(b));
        r.Add(p.normal().IsSameDir(h.normal()) * 2 + p.normal().IsSameOrOppositeDir(q.normal()));
        Add(r, p.normal().Cross(h.normal()).GetScaleSquared());
        break;
      }
      case 25: {
        int d = p.drop_dimension();
        HalfSpace2 a = p.edge(rng.Below(p.vertex_count())).line().Project2D(d), b = q.edge(rng.Below(q.vertex_count())).line().Project2D(d);
        r.Add(a.HasSameLine(b) * 2 + (a == b));
        r.Add(static_cast<uint64_t>(a.Compare(w.DropDimension(d)) + 2));
        break;
      }
      case 26: r.Add(p.IsValidState() * 2 + (p.vertex_count() == q.vertex_count())); r.Add(static_cast<uint64_t>(h.Compare(v) * h.Compare(w) + 2)); break;
      case 27: { HomoPoint3 x(w); x.Reduce(); Add(r, x); Add(r, HalfSpace3::GetAxisAligned(static_cast<int>(rng.Below(3)), w.x(), w.w())); break; }
      case 28: {
        if (s.connected.empty()) break;
        const Out& c = s.connected[rng.Below(s.connected.size())];
        if (!c.vertex_count()) break;
        const auto& e = c.edge(rng.Below(c.vertex_count()));
        int d = static_cast<int>(rng.Below(3));
        r.Add(e.IsPositive(d) * 2 + (e.partner() != nullptr));
        Add(r, e.GetBeginLocation(d));
        Add(r, e.GetEndLocation(d));
        AddExact(r, std::vector<Poly>{Poly(c)});
        break;
      }
      case 13: { auto info = p.GetSplitInfo(h); r.Add(info.neg_range().first * 64 + info.neg_range().second + info.pos_range().second * 4096); break; }
    }
  }
}

void Export(const Shared& s, Rng& rng, Result& r) {
  int count = 0;
  auto factory = [&](const DoublePoint3&) { return count++; };
  auto merger = [](RedirectableValue<int>& a, RedirectableValue<int>& b) { a.Redirect(b); };
  VertexDoublePoint3Mapper<decltype(factory), decltype(merger)> mapper(factory, merger);
  auto each = [&](const auto& polys) {
    for (const auto& p : polys) for (const auto& e : p.edges()) mapper.Map(e);
    for (const auto& p : polys)
      for (size_t i = 0; i < p.vertex_count(); ++i) {
        const auto& e = p.edge(i);
        r.Add(static_cast<uint64_t>(mapper.map.find(e.vertex().GetDoublePoint3())->second.IsPrimary()));
        const auto* n = e.GetNextAroundVertex();
        if (n) Add(r, n->vertex());
      }
  };
  if (rng.Chance(1, 2)) each(s.connected); else each(s.fan.tris);
  r.Add(static_cast<uint64_t>(count));
}

void Borders(const Shared& s, Rng& rng, Result& r) {
  BSPTree<> tree;
  for (const auto& o : s.order) tree.AddContent(static_cast<BSPContentId>(o.first), s.solids[o.first][o.second]);
  auto* n = &tree.root;
  std::vector<bool> path;
  int depth = static_cast<int>(rng.Range(1, 4));
  std::vector<HalfSpace3> used;
  for (int i = 0; i < depth; ++i) {
    const HalfSpace3& h = s.planes[rng.Below(s.planes.size())];
    bool again = false;
    for (const HalfSpace3& u : used) again |= u.IsSameOrOpposite(h);
    if (again) continue;
    used.push_back(h);
    n->Split(h);
    bool pos = rng.Chance(1, 2);
    path.push_back(pos);
    n->PushContentsToChildren();
    n = pos ? n->positive_child() : n->negative_child();
    r.Add(n->contents().size() * 1000 + n->border_contents().size());
  }
  auto border = tree.GetNodeBorder(path.begin(), path.end(), s.box);
  AddMesh(r, border);
}

void Copies(const Shared& s, Rng& rng, Result& r) {
  std::vector<BigInt> own(s.numbers);
  std::vector<HomoPoint3> pts(s.points.begin(), s.points.begin() + std::min<size_t>(s.points.size(), 12));
  std::vector<Poly> polys;
  int n = static_cast<int>(rng.Range(5, 25));
  for (int i = 0; i < n; ++i) {
    switch (rng.Below(7)) {
      case 0: { size_t k = rng.Below(own.size()); own[k] = s.numbers[rng.Below(s.numbers.size())]; own[k] += BigInt(1); Add(r, own[k]); break; }
      case 1: { size_t k = rng.Below(own.size()); own[k] = own[k] * s.numbers[rng.Below(s.numbers.size())]; if (own[k].used_words() > 30) own[k] = BigInt(7); Add(r, own[k]); break; }
      case 2: if (!s.order.empty()) { const auto& o = s.order[rng.Below(s.order.size())]; polys.push_back(s.solids[o.first][o.second]); } break;
      case 3: if (!polys.empty()) { Poly p(std::move(polys.back())); polys.pop_back(); r.Add(p.vertex_count()); Add(r, p.plane()); } break;
      case 4: { size_t a = rng.Below(own.size()), b = rng.Below(own.size()); std::swap(own[a], own[b]); Add(r, own[a]); break; }
      case 5: if (!pts.empty()) { size_t a = rng.Below(pts.size()); pts[a] = s.points[rng.Below(s.points.size())]; Add(r, pts[a]); } break;
      case 6: { BigInt t(s.numbers[rng.Below(s.numbers.size())]); t.Negate(); own.push_back(t); Add(r, t); break; }
    }
  }
  AddExact(r, polys);
}

void Building(const Shared& s, Rng& rng, Result& r) {
  int n = static_cast<int>(rng.Range(1, 5));
  for (int i = 0; i < n; ++i) {
    if (rng.Chance(1, 2) && !s.order.empty()) {
      const auto& o = s.order[rng.Below(s.order.size())];
      const Poly& p = s.solids[o.first][o.second];
      std::vector<HomoPoint3> cap;
      for (size_t k = p.vertex_count(); k-- > 0;) cap.push_back(p.vertex(k));
      std::vector<Poly> prism = Extrude(cap, Vector3(p.plane().normal()), BigInt(static_cast<int>(rng.Range(1, 5))));
      AddExact(r, prism);
    } else {
      NudgingPlaneBuilder b;
      for (int k = 0; k < 5; ++k) {
        const HomoPoint3& v = s.points[rng.Below(s.points.size())];
        if (rng.Chance(1, 2)) b.AddUnconstrained(&v);
        else r.Add(b.TryAddConstrained(&v));
      }
      r.Add(b.HasLargePlane());
      Add(r, b.Build());
    }
  }
}

void RunTask(const Shared& s, int kind, uint64_t seed, Result& r) {
  Rng rng(seed);
  try {
    switch (kind) {
      case kBoolean: Boolean(s, rng, r); break;
      case kDecompose: Decompose(s, rng, r); break;
      case kRepair: Repair(s, rng, r); break;
      case kNumbers: Numbers(s, rng, r); break;
      case kSplits: Splits(s, rng, r); break;
      case kQueries: Queries(s, rng, r); break;
      case kExport: Export(s, rng, r); break;
      case kBorders: Borders(s, rng, r); break;
      case kCopies: Copies(s, rng, r); break;
      case kBuild: Building(s, rng, r); break;
    }
  } catch (const std::bad_alloc&) {
    r.failed = true;
  }
}

void MakeShared(Shared& s) {
  World& w = s.w;
  if (!w.streamed) w.FixStream(0, 0);
  Rng rng(w.total() + 17);
  size_t place[kMaxIds] = {};
  for (int i = 0; i < kMaxIds; ++i) {
    for (const geom::Facet& f : w.mesh[i]) {
      Sut u;
      s.solids[i].push_back(ToPolygon(f));
      s.boxed[i].emplace_back(s.solids[i].back());
    }
    (void)place;
  }
  for (World::Item it : w.stream) s.order.emplace_back(it.id, it.facet);
  std::vector<const geom::Mesh*> ms = w.Meshes();
  for (int i = 0; i < 12; ++i) {
    geom::Plane p = geom::RandomPlane(ms, rng, i & 3);
    Sut u;
    s.planes.push_back(ToPlane(p));
  }
  {
    Sut u;
    for (const auto& o : s.order) {
      const Poly& p = s.solids[o.first][o.second];
      s.points.push_back(p.vertex(rng.Below(p.vertex_count())));
      if (s.points.size() > 40) break;
    }
    for (int i = 0; i < 8; ++i) s.points.emplace_back(static_cast<int>(rng.Range(-9, 9)), static_cast<int>(rng.Range(-9, 9)), static_cast<int>(rng.Range(-9, 9)), 1);
    for (int i = 0; i < 16; ++i) {
      BigInt n(static_cast<int64_t>(rng.Next() >> rng.Below(60)));
      int words = static_cast<int>(rng.Pick({0, 0, 1, 1, 2, 4, 9}));
      for (int k = 0; k < words; ++k) n = (n << 60) + BigInt(static_cast<int64_t>(rng.Next() >> 4));
      if (rng.Chance(1, 2)) n.Negate();
      s.numbers.push_back(n);
    }
    // Combs: teeth up and down between two ends, in planes of a random frame.
    for (int i = 0; i < 6; ++i) {
      int n = static_cast<int>(rng.Range(2, 9));
      int m[6];
      for (int& x : m) x = static_cast<int>(rng.Range(-4, 4));
      int big = static_cast<int>(rng.Pick({0, 0, 70}));
      // The two directions must not be parallel.
      m[0] = 3; m[1] = 0; m[3] = 1; m[4] = 5;
      auto at = [&](int x, int y) {
        auto c = [&](int k) { return BigInt(m[k] * x + m[k + 3] * y) << static_cast<size_t>(big); };
        return HomoPoint3(c(0), c(1), c(2), BigInt(1) << static_cast<size_t>(rng.Chance(1, 2) ? 0 : 0));
      };
      std::vector<HomoPoint3> loop;
      for (int x = 0; x <= n; ++x) loop.push_back(at(x, x == 0 || x == n ? 0 : -static_cast<int>(rng.Range(1, 6))));
      for (int x = n - 1; x > 0; --x) loop.push_back(at(x, static_cast<int>(rng.Range(1, 6))));
      s.loops.push_back(loop);
    }
    BuildFan(s.fan, static_cast<int>(rng.Range(3, 8)), rng.Next(), static_cast<int>(rng.Range(1, 4)));
  }
  {
    Sut u;
    s.box = AABB(-(1 << 20), -(1 << 20), -(1 << 20), 1 << 20, 1 << 20, 1 << 20, 1);
    BSPTree<> tree;
    for (const auto& o : s.order) tree.AddContent(static_cast<BSPContentId>(o.first), s.solids[o.first][o.second]);
    std::vector<BSPContentId> ids;
    for (int i : w.Ids()) ids.push_back(static_cast<BSPContentId>(i));
    if (!ids.empty()) s.connected_id = ids[0];
    UnionIdsFilter filter(ids);
    ConnectingVisitor<UnionIdsFilter> v(filter, [](const std::string&) {});
    tree.Traverse(v);
    v.FilterEmptyPolygons();
    s.connected = v.TakePolygons();
  }
}

// Nothing may change the common inputs.
uint64_t SharedDigest(const Shared& s) {
  Sut u;
  Result r;
  for (int i = 0; i < kMaxIds; ++i) AddExact(r, s.solids[i]);
  for (int i = 0; i < kMaxIds; ++i) AddExact(r, s.boxed[i]);
  AddExact(r, s.connected);
  AddExact(r, s.fan.tris);
  for (const auto& p : s.points) Add(r, p);
  for (const auto& p : s.planes) Add(r, p);
  for (const auto& n : s.numbers) Add(r, n);
  for (const auto& l : s.loops) for (const auto& p : l) Add(r, p);
  return r.digest;
}

void Execute(const Plan& plan) {
  struct T { int kind; uint64_t seed; };
  Shared s;
  std::vector<T> tasks;
  std::vector<race::Step> steps;
  race::Faults faults;
  bool alone_first = false;
  for (size_t i = 0; i < plan.ops.size(); ++i) {
    const Op& op = plan.ops[i];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(i));
    switch (op.code) {
      case kScene: if (!s.w.streamed) s.w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid: s.w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4)); break;
      case kOrder: s.w.FixStream(op.arg(0), op.arg(1)); break;
      case kTask: if (tasks.size() < race::kMaxTasks) tasks.push_back({static_cast<int>(static_cast<uint64_t>(op.arg(0)) % kTaskKinds), static_cast<uint64_t>(op.arg(1))}); break;
      case kPreempt: steps.push_back({static_cast<int>(op.arg(0) & 3), static_cast<uint64_t>(op.arg(1)) & 0xffffff, static_cast<int>(op.arg(2) & 0xff), (op.arg(3) & 1) != 0}); break;
      case kFail: {
        size_t t = static_cast<uint64_t>(op.arg(0)) % race::kMaxTasks;
        faults.nth[t] = static_cast<uint64_t>(op.arg(1)) & 0xffff;
        faults.count[t] = static_cast<uint64_t>(op.arg(2));
        break;
      }
      case kAloneFirst: alone_first = true; break;
    }
  }
  MakeShared(s);
  uint64_t before = SharedDigest(s);
  std::vector<Result> alone(tasks.size()), together(tasks.size());
  auto run_alone = [&]() {
    for (size_t i = 0; i < tasks.size(); ++i) {
      Sut u;
      RunTask(s, tasks[i].kind, tasks[i].seed, alone[i]);
    }
  };
  if (alone_first) run_alone();
  std::vector<std::function<void()>> bodies;
  for (size_t i = 0; i < tasks.size(); ++i) {
    const T t = tasks[i];
    Result* r = &together[i];
    const Shared* in = &s;
    bodies.push_back([t, r, in]() { RunTask(*in, t.kind, t.seed, *r); });
  }
  race::Stats st = race::Run(bodies, steps, faults);
  if (!alone_first) run_alone();
  for (size_t i = 0; i < tasks.size(); ++i) {
    Probe(kTaskNames[tasks[i].kind]);
    if (st.failed_by[i]) {
      // Streams swallow failed allocations: only the others' results count.
      Probe(together[i].failed ? "task-failed-alloc" : "task-swallowed-failed-alloc");
      continue;
    }
    SIM_CHECK(!together[i].failed, "task:spurious-failure", "task %zu (%s) ran out of memory although no allocation of its own failed", i, kTaskNames[tasks[i].kind]);
    SIM_CHECK(!alone[i].failed, "task:failed-alone", "task %zu ran out of memory", i);
    SIM_CHECK(together[i].digest == alone[i].digest && together[i].items == alone[i].items, "task:result",
              "task %zu (%s) has another result (%llu items, digest %llx) than alone (%llu items, digest %llx)", i, kTaskNames[tasks[i].kind],
              (unsigned long long)together[i].items, (unsigned long long)together[i].digest, (unsigned long long)alone[i].items, (unsigned long long)alone[i].digest);
    Event(together[i].digest);
  }
  SIM_CHECK(SharedDigest(s) == before, "task:inputs-changed", "the common inputs are not what they were");
  FaultFired("sched:preemption", st.switches);
  FaultFired("sched:stall", st.stalls);
  FaultFired("alloc:task-fails", st.failed);
  Probe("accesses", st.accesses);
  Probe("accesses-to-shared-data", st.shared);
  Probe("synchronisations", st.syncs);
  Probe("waits-for-a-lock", st.blocked);
  Event(st.signature);
  Event(st.accesses);
  Signature(st.signature);
  State(st.signature);
  if (tasks.size() > 1 && st.switches >= tasks.size()) NonTrivial();
}

}  // namespace

const sim::Harness sim::harness = {
    "C12", kNames, kEnd - kOpFirstHarness, Generate, Execute,
    "walnut library (all of include/walnut and src/walnut that the tasks use), compiled with thread instrumentation",
    "thread scheduler, locks and once flags (sim/core/race.cpp); heap (arena)",
    "results of every task equal to those of the same task alone; no two tasks access memory without synchronisation, at least one of them writing; inputs unchanged",
    400000000, false, 7000, 150000};
