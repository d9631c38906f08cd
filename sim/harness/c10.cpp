// C10: sessions of the plane repairer: facets of nudged solids in any order and
// representation, clears, restarts and failing allocations.
// sim-mode: asan
#include <map>
#include <memory>
#include <set>

#include "world.h"
#include "walnut/mesh_plane_repairer.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kNudge, kFeed, kFaultyFeed, kClear, kFinish, kRecreate, kBand, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "nudge", "feed", "faulty_feed", "clear", "finish", "recreate", "band"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, 2, false);
  // corners, seed, style: two rings of corners joined by triangles
  if (rng.Chance(1, 3)) plan.Add(kBand, {rng.Range(4, 9), rng.Range(0, 1 << 30), rng.Range(0, 7)});
  int nudges = static_cast<int>(rng.Pick({0, 1, 1, 1, 2, 3}));
  // seed, kind, share of the vertices, magnitude
  for (int i = 0; i < nudges; ++i) plan.Add(kNudge, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Pick({1, 2, 10, 30, 60, 100}), rng.Range(0, 40)});
  auto feed = [&](int64_t n) { plan.Add(kFeed, {n, rng.Range(0, 1 << 30), rng.Range(0, 7)}); };
  auto faulty = [&]() { plan.Add(kFaultyFeed, {rng.Range(1, 8), rng.Range(0, 1 << 30), rng.Range(0, 7), rng.Range(1, 4), rng.Range(1, 60), rng.Range(1, 4)}); };
  int sessions = static_cast<int>(rng.Range(1, thorough ? 6 : 3));
  for (int s = 0; s < sessions; ++s) {
    int n = static_cast<int>(rng.Range(0, 3));
    for (int i = 0; i < n; ++i) {
      int r = static_cast<int>(rng.Below(8));
      if (r < 4) feed(rng.Range(1, 20));
      else if (r < 7) faulty();
      else plan.Add(kClear, {rng.Range(0, 1 << 30)});
    }
    if (rng.Chance(7, 8)) feed(100000);
    plan.Add(kFinish, {rng.Range(0, 3)});
    plan.Add(rng.Chance(1, 2) ? kClear : kRecreate, {rng.Chance(1, 2) ? 0 : rng.Range(1, 1 << 30)});
  }
}

using Repairer = MeshPlaneRepairer<>;
using Producer = MeshPlaneRepairerProducer<>;

struct Loop { std::vector<size_t> v; geom::Plane plane; bool planar; };

struct Session {
  World w;
  bool fixed = false, finished = false, retried = false;
  std::vector<geom::Pt> pts;         // distinct vertices, nudged
  std::vector<Loop> loops;           // facets in delivery order
  size_t next = 0;
  std::vector<Op> nudges, bands;
  std::unique_ptr<Repairer> rep;
  int cleared = 0, failed = 0;

  void Fix() {
    if (fixed) return;
    fixed = true;
    if (!w.streamed) w.FixStream(0, 0);
    std::map<uint64_t, size_t> index;
    std::vector<geom::Mesh> all;
    for (World::Item it : w.stream) {
      const geom::Facet& f = w.mesh[it.id][it.facet];
      Loop l;
      l.plane = f.plane;
      for (const geom::Pt& p : f.pts) {
        auto r = index.emplace(geom::PointKey(p), pts.size());
        if (r.second) pts.push_back(p);
        l.v.push_back(r.first->second);
      }
      loops.push_back(l);
    }
    for (const Op& op : bands) AddBand(op);
    double size = 0;
    for (const geom::Mesh* m : w.Meshes()) size = std::max(size, geom::ApproxSize(*m));
    for (const Op& op : nudges) {
      Rng rng(static_cast<uint64_t>(op.arg(0)));
      int kind = static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4);
      int64_t share = op.arg(2);
      long double len = std::ldexp(static_cast<long double>(size), -4 - static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 41));
      bool any = false;
      for (geom::Pt& p : pts) {
        if (!rng.Chance(static_cast<int>(std::max<int64_t>(1, std::min<int64_t>(100, share))), 100)) continue;
        any = true;
        if (kind < 2) { p = geom::Displace(p, rng, len); continue; }
        // On a coarse grid relative to the length of the nudge, perhaps along
        // one axis only.
        int axis = static_cast<int>(rng.Below(3));
        int e = 0;
        std::frexp(static_cast<double>(len), &e);
        geom::Num den = geom::FromI64(e < 0 ? 1ll << std::min(62, -e) : 1);
        geom::Num unit = geom::FromI64(e > 0 ? 1ll << std::min(60, e) : 1);
        geom::Num* c[3] = {&p.x, &p.y, &p.z};
        for (int i = 0; i < 3; ++i) {
          int64_t k = kind == 2 || i == axis ? rng.Range(-2, 2) : 0;
          *c[i] = geom::Add(geom::Mul(*c[i], den), geom::Mul(geom::Mul(unit, geom::FromI64(k)), p.w));
        }
        p.w = geom::Mul(p.w, den);
      }
      if (any) FaultFired("nudged-vertices");
    }
    // Nudged vertices may coincide: such input is not what the repairer is for.
    std::set<uint64_t> keys;
    for (const geom::Pt& p : pts) if (!keys.insert(geom::PointKey(p)).second) { Probe("nudged-into-each-other"); loops.clear(); }
    for (Loop& l : loops) {
      l.planar = true;
      geom::Plane p;
      bool got = false;
      for (size_t i = 0; i + 2 < l.v.size() && !got; ++i) got = geom::PlaneOf(pts[l.v[0]], pts[l.v[i + 1]], pts[l.v[i + 2]], p);
      if (!got) continue;
      for (size_t v : l.v) if (geom::PlaneSide(p, pts[v]) != 0) l.planar = false;
    }
    // Not all vertices of a facet on one line.
    std::vector<Loop> keep;
    for (Loop& l : loops) {
      bool ok = false;
      geom::Plane p;
      for (size_t i = 0; i < l.v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
          for (size_t k = 0; k < j && !ok; ++k) if (geom::PlaneOf(pts[l.v[i]], pts[l.v[j]], pts[l.v[k]], p)) ok = true;
      if (ok) keep.push_back(l); else Probe("facet-on-a-line-left-out");
    }
    loops.swap(keep);
  }

  // Every corner of the rings is used by at least three triangles, so the
  // repairer cannot move it once they were fed, while it can cut the rings.
  void AddBand(const Op& op) {
    Rng rng(static_cast<uint64_t>(op.arg(1)));
    int n = static_cast<int>(std::max<int64_t>(3, std::min<int64_t>(op.arg(0), 12)));
    int64_t style = op.arg(2);
    int64_t far = 100 * static_cast<int64_t>(1 + rng.Below(5)), skew[4];
    for (int64_t& s : skew) s = rng.Range(-3, 3);
    size_t ring[2][12];
    std::vector<Loop> add;
    for (int side = 0; side < 2; ++side) {
      // Corners of a convex polygon: points of two parabolas.
      std::vector<std::pair<int64_t, int64_t>> c;
      int up = n / 2;
      for (int i = 0; i < up; ++i) { int64_t x = 2 * i - up; c.push_back({x, x * x}); }
      for (int i = n - up; i-- > 0;) { int64_t x = 2 * i - (n - up); c.push_back({x, 200 - x * x}); }
      for (size_t i = 0; i < c.size(); ++i) {
        int64_t x = c[i].first + far, y = c[i].second, z = side ? 50 : 0;
        geom::Pt p;
        p.x = geom::FromI64(x + skew[0] * z);
        p.y = geom::FromI64(y + skew[1] * z);
        p.z = geom::FromI64(z + skew[2] * x + skew[3] * y);
        p.w = geom::FromI64(1);
        ring[side][i] = pts.size();
        pts.push_back(p);
      }
    }
    for (int i = 0; i < n; ++i) {
      int j = (i + 1) % n;
      Loop a, b;
      a.v = {ring[0][i], ring[0][j], ring[1][j]};
      b.v = {ring[0][i], ring[1][j], ring[1][i]};
      add.push_back(a);
      add.push_back(b);
    }
    Loop top, bottom;
    int turn = static_cast<int>(rng.Below(static_cast<uint64_t>(n)));
    for (int i = 0; i < n; ++i) {
      top.v.push_back(ring[1][(i + turn) % n]);
      bottom.v.push_back(ring[0][(2 * n - i - turn) % n]);
    }
    size_t at = style & 1 ? 0 : rng.Below(add.size() + 1);
    if (style & 2) at = add.size();
    add.insert(add.begin() + static_cast<ptrdiff_t>(at), top);
    add.insert(style & 4 ? add.end() : add.begin(), bottom);
    loops.insert(style & 1 ? loops.begin() : loops.end(), add.begin(), add.end());
  }

  HomoPoint3 Make(const geom::Pt& p, Rng& rng, int style) {
    int64_t k = 1;
    int shift = 0;
    { Host h; if ((style & 1) && rng.Chance(1, 2)) { k = rng.Range(1, 9); if (rng.Chance(1, 4)) shift = static_cast<int>(rng.Below(80)); if ((style & 4) && rng.Chance(1, 3)) k = -k; } }
    return ToPoint(geom::Rescale(p, k, shift));
  }

  void Restart(bool clear, int64_t order) {
    Fix();
    {
      Sut s;
      if (clear) rep->Clear(); else { rep.reset(); rep.reset(new Repairer); }
    }
    SIM_CHECK(rep->GetUniqueVertexCount() == 0 && rep->IsValidState(), "repair:clear", "%zu vertices left after a %s", rep->GetUniqueVertexCount(), clear ? "clear" : "restart");
    if (clear) ++cleared;
    next = 0;
    finished = retried = false;
    if (order) {
      Rng rng(static_cast<uint64_t>(order));
      for (size_t i = loops.size(); i > 1; --i) std::swap(loops[i - 1], loops[rng.Below(i)]);
      for (Loop& l : loops) std::rotate(l.v.begin(), l.v.begin() + static_cast<long>(rng.Below(l.v.size())), l.v.end());
    }
  }

  void Feed(const Op& op, bool faulty) {
    Fix();
    if (finished) return;
    Rng rng(static_cast<uint64_t>(op.arg(1)));
    int style = static_cast<int>(op.arg(2) & 7);
    size_t end = std::min(loops.size(), next + static_cast<size_t>(std::max<int64_t>(0, op.arg(0))));
    if (faulty) ArmAllocFault(static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 5), static_cast<uint64_t>(op.arg(4)), static_cast<uint64_t>(op.arg(5)));
    bool broken = false;
    for (; next < end && !broken; ++next) {
      const Loop& l = loops[next];
      if (Tracing())
        for (size_t v : l.v) Trace("facet %zu: vertex %zu %s", next, v, geom::ToString(pts[v]).c_str());
      for (size_t v : l.v) {
        for (int attempt = 0; ; ++attempt) {
          uint64_t before = AllocFaultsFired();
          Sut s;
          try {
            HomoPoint3 p = Make(pts[v], rng, style);
            if (style & 2) rep->AddVertex(std::move(p)); else rep->AddVertex(p);
            break;
          } catch (const std::bad_alloc&) {
            Host h;
            SIM_CHECK(AllocFaultsFired() > before, "repair:exception", "AddVertex threw without a failed allocation");
            retried = true;
            ++failed;
            // The vertex was not added; try again, then without faults.
            if (attempt >= 2) { uint64_t n = DisarmAllocFault(); FaultFired("failed-allocation", n); }
          }
        }
      }
      Sut s;
      uint64_t before = AllocFaultsFired();
      try {
        rep->FinishFacet();
      } catch (const std::bad_alloc&) {
        Host h;
        SIM_CHECK(AllocFaultsFired() > before, "repair:exception", "FinishFacet threw without a failed allocation");
        broken = true;
        ++failed;
      }
    }
    if (faulty) { uint64_t n = DisarmAllocFault(); if (n) FaultFired("failed-allocation", n); }
    Signature(Mix(op.arg(1) ^ Mix(next)));
    Trace("fed %zu of %zu facets%s", next, loops.size(), broken ? ", broken off" : "");
    if (broken) { Probe("cleared-after-failure"); Restart(rng.Chance(2, 3), 0); return; }
    CheckState();
  }
  void CheckState() {
    SIM_CHECK(rep->IsValidState(), "repair:state", "the vertex map lost its entries");
    std::set<size_t> used;
    for (size_t k = 0; k < next; ++k) used.insert(loops[k].v.begin(), loops[k].v.end());
    if (!retried) SIM_CHECK(rep->GetUniqueVertexCount() == used.size(), "repair:unique", "%zu unique vertices, expected %zu", rep->GetUniqueVertexCount(), used.size());
    Rng rng(next);
    for (int i = 0; i < 8 && !pts.empty(); ++i) {
      size_t v = rng.Below(pts.size());
      bool has;
      { Sut s; has = rep->HasVertex(Make(pts[v], rng, 5)); }
      SIM_CHECK(has == (used.count(v) != 0), "repair:has", "HasVertex returns %d for vertex %zu", has, v);
    }
  }

  void Finish(const Op& op) {
    Fix();
    if (finished) return;
    finished = true;
    struct Out { geom::Plane plane; std::vector<const HomoPoint3*> v; };
    std::vector<Out> out;
    {
      Sut s;
      Producer p = std::move(*rep).FinalizeMesh();
      while (p.HasMorePolygons()) {
        Producer::VertexIterator a, b;
        HalfSpace3 plane = p.GetNextPolygon(a, b);
        Host h;
        Out o;
        o.plane = FromPlane(plane);
        SIM_CHECK(b - a >= 3, "repair:facet", "a facet with %td vertices", b - a);
        for (; a != b; ++a) o.v.push_back(&*a);
        out.push_back(o);
      }
    }
    // Assign the output polygons to the input facets.
    std::map<const HomoPoint3*, size_t> id;
    std::map<size_t, const HomoPoint3*> place;
    std::vector<std::vector<size_t>> of(loops.size());   // output polygons by input facet
    size_t o = 0;
    for (size_t k = 0; k < next; ++k) {
      const Loop& l = loops[k];
      size_t left = l.v.size() - 2;
      std::map<const HomoPoint3*, std::map<const HomoPoint3*, int>> chain;
      const HomoPoint3* first = nullptr;
      while (left) {
        SIM_CHECK(o < out.size(), "repair:missing", "the output ends before facet %zu of %zu", k, next);
        const Out& q = out[o];
        if (!first) first = q.v[0];
        SIM_CHECK(q.v.size() - 2 <= left, "repair:cover", "facet %zu (%zu vertices) came out with too many vertices", k, l.v.size());
        left -= q.v.size() - 2;
        for (size_t i = 0; i < q.v.size(); ++i) {
          const HomoPoint3 *a = q.v[i], *b = q.v[(i + 1) % q.v.size()];
          SIM_CHECK(a != b, "repair:cover", "facet %zu: a vertex is repeated", k);
          if (chain[b][a] > 0) --chain[b][a]; else ++chain[a][b];
        }
        of[k].push_back(o++);
      }
      if (of[k].size() > 1) Probe("split-facets");
      // The directed edges that are left must be the input loop.
      std::vector<const HomoPoint3*> cycle;
      size_t edges = 0;
      for (auto& a : chain) for (auto& b : a.second) edges += static_cast<size_t>(b.second);
      const HomoPoint3* at = first;
      for (size_t i = 0; i < l.v.size(); ++i) {
        cycle.push_back(at);
        const HomoPoint3* to = nullptr;
        for (auto& b : chain[at]) if (b.second == 1) { SIM_CHECK(!to, "repair:cover", "facet %zu: the pieces do not cover the input loop", k); to = b.first; }
        SIM_CHECK(to, "repair:cover", "facet %zu: the pieces do not cover the input loop", k);
        at = to;
      }
      SIM_CHECK(edges == l.v.size() && at == first, "repair:cover", "facet %zu: the pieces do not cover the input loop", k);
      for (size_t i = 0; i < l.v.size(); ++i) {
        auto r = id.emplace(cycle[i], l.v[i]);
        SIM_CHECK(r.first->second == l.v[i], "repair:identity", "facet %zu: input vertices %zu and %zu share one output position", k, r.first->second, l.v[i]);
        auto p = place.emplace(l.v[i], cycle[i]);
        SIM_CHECK(p.first->second == cycle[i], "repair:identity", "facet %zu: input vertex %zu has two output positions", k, l.v[i]);
      }
    }
    SIM_CHECK(o == out.size(), "repair:extra", "%zu polygons more than the input has", out.size() - o);
    // Positions.
    std::map<size_t, geom::Pt> pos;
    for (auto& p : place) pos[p.first] = FromPoint(*p.second);
    for (size_t k = 0; k < next; ++k)
      for (size_t q : of[k]) {
        const Out& x = out[q];
        bool finite = true, flat = true;
        for (const HomoPoint3* v : x.v) {
          if (!geom::SignOf(pos[id[v]].w)) finite = false;
          if (Tracing()) Trace("output %zu of facet %zu: vertex %zu %s", q, k, id[v], geom::ToString(pos[id[v]]).c_str());
        }
        geom::Plane any;
        for (size_t i = 0; finite && flat && i < x.v.size(); ++i)
          for (size_t j = 0; flat && j < i; ++j)
            for (size_t m = 0; flat && m < j; ++m) if (geom::PlaneOf(pos[id[x.v[i]]], pos[id[x.v[j]]], pos[id[x.v[m]]], any)) flat = false;
        // Where too many planes meet, the vertices of a facet can be moved onto
        // one line.
        if (flat && finite) { Probe("facet-collapsed"); continue; }
        SIM_CHECK(geom::SignOf(x.plane.a) || geom::SignOf(x.plane.b) || geom::SignOf(x.plane.c), "repair:no-plane", "facet %zu has no plane", k);
        for (const HomoPoint3* v : x.v) {
          const geom::Pt& p = pos[id[v]];
          SIM_CHECK(geom::SignOf(p.w), "repair:at-infinity", "vertex %zu of facet %zu is at infinity", id[v], k);
          SIM_CHECK(geom::PlaneSide(x.plane, p) == 0, "repair:off-plane", "vertex %zu of facet %zu is not on the plane of the facet", id[v], k);
        }
      }
    // A vertex moves only off a plane of a facet that uses it.
    std::map<size_t, bool> may;
    for (size_t k = 0; k < next; ++k)
      for (size_t q : of[k])
        for (const HomoPoint3* v : out[q].v) if (geom::PlaneSide(out[q].plane, pts[id[v]]) != 0) may[id[v]] = true;
    size_t moved = 0;
    for (auto& p : pos) {
      bool same = geom::SamePoint(p.second, pts[p.first]);
      if (!same) ++moved;
      SIM_CHECK(same || may.count(p.first), "repair:moved", "vertex %zu lies on the planes of all of its facets and was moved", p.first);
    }
    // Parts that were planar before stay as they are.
    std::vector<size_t> group(pts.size());
    for (size_t i = 0; i < group.size(); ++i) group[i] = i;
    auto find = [&](size_t i) { while (group[i] != i) i = group[i] = group[group[i]]; return i; };
    for (size_t k = 0; k < next; ++k) for (size_t v : loops[k].v) group[find(v)] = find(loops[k].v[0]);
    std::set<size_t> bent;
    for (size_t k = 0; k < next; ++k) if (!loops[k].planar) bent.insert(find(loops[k].v[0]));
    for (size_t k = 0; k < next; ++k) {
      if (bent.count(find(loops[k].v[0]))) continue;
      Probe("planar-facets");
      for (size_t v : loops[k].v) SIM_CHECK(geom::SamePoint(pos[v], pts[v]), "repair:moved", "vertex %zu of a planar part was moved", v);
    }
    if (moved) { NonTrivial(); Probe("moved-vertices", moved); }
    if (cleared && moved) Probe("after-clear");
    if (failed && moved) Probe("after-failure");
    uint64_t h = 0;
    for (auto& p : pos) h = Mix(h ^ geom::PointKey(p.second));
    for (Out& x : out) h = Mix(h ^ geom::PlaneKey(x.plane));
    State(h);
    Event(h);
    Signature(Mix(op.arg(0) ^ 0xf1));
  }
};

void Execute(const Plan& plan) {
  Session z;
  { Sut s; z.rep.reset(new Repairer); }
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!z.w.streamed && z.w.Ids().empty()) z.w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid: if (!z.fixed && z.w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2)))); break;
      case kOrder: if (!z.fixed && !z.w.streamed) z.w.FixStream(op.arg(0), op.arg(1)); break;
      case kNudge: if (!z.fixed) { z.nudges.push_back(op); Signature(Mix(op.arg(0) ^ 0x31)); } break;
      case kBand: if (!z.fixed) { z.bands.push_back(op); Signature(Mix(op.arg(1) ^ 0x77)); } break;
      case kFeed: z.Feed(op, false); break;
      case kFaultyFeed: z.Feed(op, true); break;
      case kClear: z.Restart(true, op.arg(0)); break;
      case kRecreate: z.Restart(false, op.arg(0)); break;
      case kFinish: z.Finish(op); break;
    }
  }
  Sut s;
  z.rep.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C10", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut MeshPlaneRepairer, MeshPlaneRepairerProducer, NudgingPlaneBuilder, HomoPoint3, HalfSpace3, PluckerLine, BigInt",
  "allocator replaced by the simulated heap, failing the chosen allocations; oracle: exact incidence of points and planes, chains of directed edges over output positions",
  "a run feeds the facets of nudged solids in one or more sessions with clears, restarts and failing allocations; distinct by seeds of the executed operations",
  400000000ull, true, 20000, 300000};
