// C08: pools of convex polygons edited by random histories of cuts, edge
// splits, merges, rotations, copies and moves, with failing allocations and
// edge data whose copies throw. Oracle: exact geometry on a mirrored model.
// sim-mode: asan
#include <algorithm>
#include <memory>
#include <new>
#include <set>
#include <type_traits>
#include <vector>

#include "glue.h"
#include "walnut/aabb_convex_polygon.h"
#include "walnut/connected_polygon.h"
#include "walnut/mutable_convex_polygon.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kNew = kOpFirstHarness, kSplit, kSplitEdge, kAttach, kMerge, kRotate, kSort, kCopy, kMove, kAssign, kInvert, kQuery, kDrop, kRelocate, kSwap, kEnd };
const char* const kNames[] = {"new", "cut", "split_edge", "attach", "merge", "rotate", "sort", "copy", "move_assign", "copy_assign", "invert", "query", "drop", "relocate", "swap"};
constexpr int kLanes = 4;
const char* const kLaneNames[kLanes] = {"mutable+data", "aabb<mutable>", "connected<aabb>", "aabb<connected>"};

// Every op: lane, slot, style, seed, second slot, fault kind, fault position
void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  int only = rng.Chance(2, 3) ? static_cast<int>(rng.Below(kLanes)) : -1;
  int n = static_cast<int>(rng.Range(4, thorough ? 90 : 40));
  bool faulty = rng.Chance(1, 2);
  auto op = [&](int code) {
    int lane = only >= 0 ? only : static_cast<int>(rng.Below(kLanes));
    int fault = faulty && rng.Chance(1, 5) ? static_cast<int>(rng.Range(1, 2)) : 0;
    plan.Add(code, {lane, rng.Range(0, 63), rng.Range(0, 15), rng.Range(0, 1 << 30), rng.Range(0, 63), fault, rng.Chance(2, 3) ? rng.Range(1, 6) : rng.Range(1, 60)});
  };
  for (int i = 0; i < 2; ++i) op(kNew);
  static const int codes[] = {kNew, kSplit, kSplit, kSplit, kSplit, kSplitEdge, kSplitEdge, kAttach, kAttach, kMerge, kMerge, kMerge, kMerge, kRotate, kSort,
                              kCopy, kMove, kAssign, kInvert, kQuery, kQuery, kDrop, kRelocate, kSwap};
  for (int i = 0; i < n; ++i) op(codes[rng.Below(sizeof(codes) / sizeof(codes[0]))]);
}

// ------------------------------------------------------------ edge data
int64_t g_live = 0;
uint64_t g_copies = 0, g_copy_fault = 0;
int64_t g_next_id = 0;
struct CopyFailed {};
struct VData : public EdgeInfoRoot {
  int64_t id = -1;
  int cut = 0;
  int64_t magic = 0x77;
  void Copied(const VData& o) {
    if (o.magic != 0x77) { Host h; Violation("polygon:dead-data", "copied from destroyed edge data"); }
    if (++g_copies == g_copy_fault) { FaultFired("edge-data:copy-throws"); magic = 0; throw CopyFailed(); }
    ++g_live;
  }
  VData() { ++g_live; }
  VData(const VData& o) : EdgeInfoRoot(o), id(o.id), cut(o.cut) { Copied(o); }
  VData(const VData& o, const HomoPoint3&) : id(o.id), cut(o.cut) { Copied(o); }
  VData(const VData& o, const PluckerLine&) : id(o.id), cut(1) { Copied(o); }
  VData(const VData& o, const HomoPoint3&, const PluckerLine&) : id(o.id), cut(1) { Copied(o); }
  VData(RValueKey<VData> o) : id(o.get().id), cut(o.get().cut) { ++g_live; }
  VData& operator=(const VData& o) { id = o.id; cut = o.cut; return *this; }
  VData& operator=(RValueKey<VData> o) { id = o.get().id; cut = o.get().cut; return *this; }
  bool operator==(const VData& o) const { return id == o.id && cut == o.cut; }
  bool operator!=(const VData& o) const { return !(*this == o); }
  static bool Mergeable(int64_t a, int64_t b) { return (a ^ b) % 4 != 1; }
  bool CanMerge(const VData& next) const { return Mergeable(id, next.id); }
  ~VData() { if (magic != 0x77) { Host h; Violation("polygon:dead-data", "edge data destroyed twice"); } magic = 0; --g_live; }
};

using P0 = MutableConvexPolygon<VData>;
using P1 = AABBConvexPolygon<MutableConvexPolygon<>>;
using P2 = ConnectedPolygon<AABBConvexPolygon<>>;
using P3 = AABBConvexPolygon<ConnectedPolygon<>>;

template <typename P> struct Tr;
template <> struct Tr<P0> { enum { data = 1, aabb = 0, conn = 0, invert = 1, copy_assign = 1, rotate = 1 }; };
template <> struct Tr<P1> { enum { data = 0, aabb = 1, conn = 0, invert = 1, copy_assign = 1, rotate = 1 }; };
template <> struct Tr<P2> { enum { data = 0, aabb = 1, conn = 1, invert = 0, copy_assign = 0, rotate = 1 }; };
template <> struct Tr<P3> { enum { data = 0, aabb = 1, conn = 1, invert = 0, copy_assign = 0, rotate = 1 }; };
template <bool b> using Bool = std::integral_constant<bool, b>;

// A polygon as the model sees it.
struct Snap {
  geom::Facet f;
  std::vector<std::pair<int64_t, int>> data;
  uint64_t finger = 0;
  size_t n() const { return f.pts.size(); }
};

inline uint64_t HashNum(const geom::Num& n, uint64_t h) {
  geom::Num m = n;
  return HashBytes(m.data(), m.size() * 8, h);
}
template <typename P> void ReadData(const P&, Snap&, Bool<false>) {}
template <typename P> void ReadData(const P& p, Snap& s, Bool<true>) {
  for (size_t i = 0; i < p.vertex_count(); ++i) s.data.push_back({p.edge(i).id, p.edge(i).cut});
}
template <typename P> void HashAabb(const P&, uint64_t&, Bool<false>) {}
template <typename P> void HashAabb(const P& p, uint64_t& h, Bool<true>) {
  if (p.vertex_count() == 0) return;
  for (int d = 0; d < 3; ++d) {
    h = HashNum(FromBig(p.aabb().min_point_num().components()[d]), h);
    h = HashNum(FromBig(p.aabb().max_point_num().components()[d]), h);
    h = Mix(h ^ p.min_vertex_index(d) * 1000 + p.max_vertex_index(d));
  }
  h = HashNum(FromBig(p.aabb().denom()), h);
}
template <typename P> Snap Take(const P& p) {
  Host host;
  Snap s;
  s.f = FromPolygon(p);
  ReadData(p, s, Bool<Tr<P>::data>());
  uint64_t h = Mix(s.f.pts.size() * 3 + s.f.drop);
  for (const geom::Num* n : {&s.f.plane.a, &s.f.plane.b, &s.f.plane.c, &s.f.plane.d}) h = HashNum(*n, h);
  for (size_t i = 0; i < s.n(); ++i) {
    const geom::Pt& q = s.f.pts[i];
    for (const geom::Num* n : {&q.x, &q.y, &q.z, &q.w}) h = HashNum(*n, h);
    const auto& l = p.edge(i).line();
    for (int d = 0; d < 3; ++d) { h = HashNum(FromBig(l.d().components()[d]), h); h = HashNum(FromBig(l.m().components()[d]), h); }
  }
  for (auto& d : s.data) h = Mix(h ^ d.first * 2 + d.second);
  HashAabb(p, h, Bool<Tr<P>::aabb>());
  s.finger = h;
  return s;
}

template <typename P> void CheckAabb(const P&, const Snap&, const char*, Bool<false>) {}
template <typename P> void CheckAabb(const P& p, const Snap& s, const char* what, Bool<true>) {
  geom::Num den = FromBig(p.aabb().denom());
  SIM_CHECK(geom::SignOf(den) > 0, "aabb:denominator", "%s: denominator %s", what, geom::ToString(den).c_str());
  for (int d = 0; d < 3; ++d) {
    size_t lo = p.min_vertex_index(d), hi = p.max_vertex_index(d);
    SIM_CHECK(lo < s.n() && hi < s.n(), "aabb:index", "%s: extreme vertex %zu/%zu of %zu", what, lo, hi, s.n());
    for (size_t i = 0; i < s.n(); ++i) {
      SIM_CHECK(geom::CompareComponent(s.f.pts[i], s.f.pts[lo], d) >= 0, "aabb:not-minimum", "%s: vertex %zu is below the reported minimum %zu in dimension %d", what, i, lo, d);
      SIM_CHECK(geom::CompareComponent(s.f.pts[i], s.f.pts[hi], d) <= 0, "aabb:not-maximum", "%s: vertex %zu is above the reported maximum %zu in dimension %d", what, i, hi, d);
    }
    geom::Num mn = FromBig(p.aabb().min_point_num().components()[d]), mx = FromBig(p.aabb().max_point_num().components()[d]);
    SIM_CHECK(geom::CompareComponentTo(s.f.pts[lo], d, mn, den) >= 0, "aabb:misses-vertex", "%s: box starts above the vertices in dimension %d", what, d);
    SIM_CHECK(geom::CompareComponentTo(s.f.pts[hi], d, mx, den) <= 0, "aabb:misses-vertex", "%s: box ends below the vertices in dimension %d", what, d);
    SIM_CHECK(geom::CompareComponentTo(s.f.pts[lo], d, geom::Add(mn, geom::FromI64(1)), den) < 0, "aabb:loose", "%s: box starts more than a unit early in dimension %d", what, d);
    SIM_CHECK(geom::CompareComponentTo(s.f.pts[hi], d, geom::Add(mx, geom::FromI64(-1)), den) > 0, "aabb:loose", "%s: box ends more than a unit late in dimension %d", what, d);
  }
}
template <typename P> void CheckConn(const P&, const char*, Bool<false>) {}
template <typename P> void CheckConn(const P& p, const char* what, Bool<true>) {
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    SIM_CHECK(static_cast<const void*>(&p.edge(i).polygon()) == static_cast<const void*>(&p), "polygon:edge-owner", "%s: edge %zu names another polygon as its own", what, i);
    SIM_CHECK(p.edge(i).partner() == nullptr, "polygon:partner", "%s: edge %zu has a partner", what, i);
  }
}
template <typename P> void Verify(const P& p, const Snap& s, const char* what) {
  Host h;
  if (s.n() == 0) return;
  std::string e = geom::CheckFacet(s.f, false);
  SIM_CHECK(e.empty(), "polygon:invalid", "%s: %s; %s", what, e.c_str(), geom::ToString(s.f).c_str());
  e = CheckEdges(p);
  SIM_CHECK(e.empty(), "polygon:edges", "%s: %s; %s", what, e.c_str(), geom::ToString(s.f).c_str());
  int d = s.f.drop;
  SIM_CHECK(d >= 0 && d < 3 && geom::SignOf(d == 0 ? s.f.plane.a : d == 1 ? s.f.plane.b : s.f.plane.c) != 0, "polygon:drop", "%s: drop dimension %d", what, d);
  CheckAabb(p, s, what, Bool<Tr<P>::aabb>());
  CheckConn(p, what, Bool<Tr<P>::conn>());
}

bool SameVerts(const std::vector<geom::Pt>& a, const std::vector<geom::Pt>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!geom::SamePoint(a[i], b[i])) return false;
  return true;
}
// Offset o with b[(i + o) % n] == a[i], or -1.
long Rotation(const std::vector<geom::Pt>& a, const std::vector<geom::Pt>& b) {
  if (a.size() != b.size()) return -1;
  for (size_t o = 0; o < b.size(); ++o) {
    bool ok = true;
    for (size_t i = 0; ok && i < a.size(); ++i) ok = geom::SamePoint(a[i], b[(i + o) % b.size()]);
    if (ok) return static_cast<long>(o);
  }
  return -1;
}

// ------------------------------------------------------------ generation
geom::Facet MakeConvex(Rng& rng, int style) {
  int64_t g = rng.Pick({3, 6, 20, 1000});
  int want = static_cast<int>(rng.Chance(1, 3) ? rng.Range(12, 60) : rng.Range(3, 12));
  std::vector<std::pair<int64_t, int64_t>> v;
  while (true) {
    v.clear();
    for (int i = 0; i < want; ++i) {
      int64_t x = rng.Range(-g, g), y = rng.Range(-g, g);
      if (style & 1) { if (x * x + y * y > g * g) continue; }
      v.push_back({x, y});
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() < 3) { want += 3; continue; }
    auto turn = [](const std::pair<int64_t, int64_t>& a, const std::pair<int64_t, int64_t>& b, const std::pair<int64_t, int64_t>& c) {
      return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first);
    };
    std::vector<std::pair<int64_t, int64_t>> h;
    for (int pass = 0; pass < 2; ++pass) {
      size_t base = h.size();
      for (auto& p : v) {
        while (h.size() >= base + 2) {
          int64_t t = turn(h[h.size() - 2], h.back(), p);
          if (t < 0 || (t == 0 && !(style & 2))) h.pop_back(); else break;
        }
        h.push_back(p);
      }
      h.pop_back();
      std::reverse(v.begin(), v.end());
    }
    bool area = false;
    for (size_t i = 0; i + 2 < h.size() + 0; ++i) if (turn(h[0], h[i + 1], h[i + 2])) area = true;
    std::set<std::pair<int64_t, int64_t>> uniq(h.begin(), h.end());
    if (!area || uniq.size() != h.size()) { want += 3; continue; }
    v = h;
    break;
  }
  int64_t u[3], w[3], o[3], n[3];
  do {
    for (int i = 0; i < 3; ++i) { u[i] = rng.Range(-3, 3); w[i] = rng.Range(-3, 3); o[i] = rng.Range(-30, 30); }
    if (rng.Chance(1, 2)) {
      int ax = static_cast<int>(rng.Below(3));
      for (int i = 0; i < 3; ++i) { u[i] = i == (ax + 1) % 3 ? rng.Pick({-1, 1, 2}) : 0; w[i] = i == (ax + 2) % 3 ? rng.Pick({-1, 1}) : 0; }
    }
    for (int i = 0; i < 3; ++i) n[i] = u[(i + 1) % 3] * w[(i + 2) % 3] - u[(i + 2) % 3] * w[(i + 1) % 3];
  } while (!n[0] && !n[1] && !n[2]);
  geom::Facet f;
  int64_t dist = 0;
  for (int i = 0; i < 3; ++i) dist += n[i] * o[i];
  int64_t den = rng.Pick({1, 1, 3, 7, 1024});
  int64_t k = rng.Pick({1, 1, 2, 5});
  f.plane = {geom::FromI64(n[0] * k * den), geom::FromI64(n[1] * k * den), geom::FromI64(n[2] * k * den), geom::FromI64(dist * k)};
  int big = rng.Chance(1, 4) ? static_cast<int>(rng.Range(20, 150)) : 0;
  if (big) f.plane.d = geom::Mul(f.plane.d, geom::Rescale({geom::FromI64(1), geom::FromI64(0), geom::FromI64(0), geom::FromI64(1)}, 1, big).x);
  for (auto& p : v) {
    int64_t c[3];
    for (int i = 0; i < 3; ++i) c[i] = o[i] + p.first * u[i] + p.second * w[i];
    geom::Pt q{geom::FromI64(c[0]), geom::FromI64(c[1]), geom::FromI64(c[2]), geom::FromI64(den)};
    if (big) { geom::Pt b = geom::Rescale(q, 1, big); b.w = q.w; q = b; }
    if (style & 4) q = geom::Rescale(q, rng.Pick({1, -1, 2, -3, 10}), rng.Chance(1, 4) ? static_cast<int>(rng.Below(80)) : 0);
    f.pts.push_back(q);
  }
  do { f.drop = static_cast<int>(rng.Below(3)); } while (n[f.drop] == 0);
  return f;
}
geom::Plane CutPlane(const Snap& s, Rng& rng, int style) {
  const auto& v = s.f.pts;
  size_t n = v.size();
  auto on_edge = [&]() { size_t i = rng.Below(n); int64_t a = rng.Range(0, 4); return a == 0 ? v[i] : geom::Mix2(v[i], v[(i + 1) % n], rng.Range(1, 9), a); };
  geom::Plane r;
  switch (style % 8) {
    case 0: case 1: {  // through a vertex or edge point and another, tilted
      for (int t = 0; t < 12; ++t) {
        geom::Pt a = on_edge(), b = on_edge();
        geom::Pt c = geom::Displace(a, rng, 8);
        if (geom::PlaneOf(a, b, c, r)) return r;
      }
      break;
    }
    case 2: {  // contains an edge
      for (int t = 0; t < 12; ++t) {
        size_t i = rng.Below(n);
        geom::Pt c = geom::Displace(v[i], rng, 8);
        if (geom::PlaneOf(v[i], v[(i + 1) % n], c, r)) return r;
      }
      break;
    }
    case 3: {  // parallel to the polygon
      r = s.f.plane;
      int64_t k = rng.Pick({1, -1, 3, -2});
      for (geom::Num* x : {&r.a, &r.b, &r.c, &r.d}) *x = geom::Mul(*x, geom::FromI64(k));
      if (rng.Chance(2, 3)) r.d = geom::Add(r.d, geom::FromI64(rng.Pick({1, -1, 1000, -1000})));
      return r;
    }
    case 4: {
      geom::Mesh m{s.f};
      return geom::RandomPlane({&m}, rng, 0);
    }
    case 5: {
      geom::Mesh m{s.f};
      return geom::RandomPlane({&m}, rng, 3);
    }
    case 6: {  // through one vertex only
      geom::Pt a = v[rng.Below(n)];
      for (int t = 0; t < 12; ++t)
        if (geom::PlaneOf(a, geom::Displace(a, rng, 4), geom::Displace(a, rng, 4), r)) return r;
      break;
    }
    default: {  // far away
      int64_t c[3] = {rng.Range(-3, 3), rng.Range(-3, 3), rng.Range(-3, 3)};
      if (!c[0] && !c[1] && !c[2]) c[0] = 1;
      return {geom::FromI64(c[0]), geom::FromI64(c[1]), geom::FromI64(c[2]), geom::FromI64(rng.Pick({-1000000, 1000000, 40, -40}))};
    }
  }
  return {geom::FromI64(1), geom::FromI64(0), geom::FromI64(0), geom::FromI64(0)};
}

// ------------------------------------------------------------ SUT calls that differ by type
template <typename P> void SetIds(P&, Bool<false>) {}
template <typename P> void SetIds(P& p, Bool<true>) { for (size_t i = 0; i < p.vertex_count(); ++i) { p.edge(i).id = g_next_id++; p.edge(i).cut = 0; } }

template <typename P> struct Make {
  static P Do(const HalfSpace3& pl, int drop, const std::vector<HomoPoint3>& v, bool via) {
    if (via) { MutableConvexPolygon<> m(pl, drop, v); return P(m); }
    return P(pl, drop, v);
  }
};
template <> struct Make<P0> {
  static P0 Do(const HalfSpace3& pl, int drop, const std::vector<HomoPoint3>& v, bool) { return P0(pl, drop, v); }
};
template <> struct Make<P3> {
  static P3 Do(const HalfSpace3& pl, int drop, const std::vector<HomoPoint3>& v, bool via) {
    if (via) return P3(MutableConvexPolygon<>(pl, drop, v));
    return P3(pl, drop, v);
  }
};
template <typename P> struct Cut {
  static void Do(P& p, ConvexPolygonSplitInfo& info, bool consume, std::unique_ptr<P>& neg, std::unique_ptr<P>& pos) {
    if (consume) {
      auto r = std::move(p).CreateSplitChildren(std::move(info));
      neg.reset(new P(std::move(r.first)));
      pos.reset(new P(std::move(r.second)));
    } else {
      const P& c = p;
      const ConvexPolygonSplitInfo& ci = info;
      auto r = c.CreateSplitChildren(ci);
      neg.reset(new P(std::move(r.first)));
      pos.reset(new P(std::move(r.second)));
    }
  }
};
template <> struct Cut<P0> {
  static void Do(P0& p, ConvexPolygonSplitInfo& info, bool consume, std::unique_ptr<P0>& neg, std::unique_ptr<P0>& pos) {
    if (consume) {
      auto r = P0::CreateSplitChildren(std::move(p).GetRValueKey(), std::move(info));
      neg.reset(new P0(r.first));
      pos.reset(new P0(r.second));
    } else {
      const P0& c = p;
      const ConvexPolygonSplitInfo& ci = info;
      auto r = c.CreateSplitChildren(ci);
      neg.reset(new P0(r.first));
      pos.reset(new P0(r.second));
    }
  }
};
template <typename P> void DoInvert(P& p, Bool<true>) { p.Invert(); }
template <typename P> void DoInvert(P&, Bool<false>) {}
template <typename P> void DoAssign(P& a, const P& b, Bool<true>) { a = b; }
template <typename P> void DoAssign(P& a, const P& b, Bool<false>) { a = P(b); }

enum Outcome { kOk, kBadAlloc, kCopyThrew };
struct Fault {
  int kind;
  int64_t pos;
  uint64_t fired = 0;
};

template <typename P>
struct Lane {
  const char* name = "";
  std::vector<P> pool;
  std::vector<Snap> model;
  std::vector<bool> broken;   // abandoned by a failed edit: only destroy or assign
  uint64_t failures = 0;
  ~Lane() { Sut s; std::vector<P>().swap(pool); }

  template <typename F> Outcome Guard(Fault& ft, const F& f) {
    Outcome out = kOk;
    if (ft.kind == 1) ArmAllocFault(ft.pos % 5 == 4 ? kAfFrom : kAfNth, static_cast<uint64_t>(ft.pos), 0);
    uint64_t c0 = g_copies;
    if (ft.kind == 2) g_copy_fault = g_copies + static_cast<uint64_t>(ft.pos);
    {
      Sut s;
      try { f(); } catch (const std::bad_alloc&) { out = kBadAlloc; } catch (const CopyFailed&) { out = kCopyThrew; }
    }
    if (ft.kind == 1) { ft.fired = DisarmAllocFault(); if (ft.fired) FaultFired("alloc", ft.fired); }
    if (ft.kind == 2) { ft.fired = g_copy_fault > c0 && g_copies >= g_copy_fault; g_copy_fault = 0; }
    SIM_CHECK(!(out != kOk && !ft.fired), "polygon:threw", "%s: exception without a fault", name);
    SIM_CHECK(!(out == kOk && ft.fired), "polygon:swallowed", "%s: a failure inside an edit was not reported", name);
    if (out != kOk) { ++failures; Probe("edit-interrupted"); }
    return out;
  }
  // All polygons other than the listed ones are untouched.
  void Others(size_t i, size_t j, const char* what) {
    for (size_t k = 0; k < pool.size(); ++k) {
      if (k == i || k == j || broken[k]) continue;
      Snap s = Take(pool[k]);
      SIM_CHECK(s.finger == model[k].finger, "polygon:other-changed", "%s: %s changed polygon %zu, which it does not involve", name, what, k);
      CheckConn(pool[k], what, Bool<Tr<P>::conn>());
    }
  }
  void Refresh(size_t i, const char* what) {
    model[i] = Take(pool[i]);
    Verify(pool[i], model[i], what);
    uint64_t h = geom::ChainHash({model[i].f});
    State(h);
    Event(h);
  }
  bool Push(P&& p, const char* what) {
    Fault none{0, 0};
    Guard(none, [&] { pool.push_back(std::move(p)); });
    model.push_back(Snap());
    broken.push_back(false);
    Refresh(pool.size() - 1, what);
    return true;
  }
  void Erase(size_t i) {
    { Sut s; pool.erase(pool.begin() + static_cast<long>(i)); }
    model.erase(model.begin() + static_cast<long>(i));
    broken.erase(broken.begin() + static_cast<long>(i));
  }
  void Break(size_t i) { broken[i] = true; }
  long Pick(int64_t v) const {
    std::vector<size_t> ok;
    for (size_t i = 0; i < pool.size(); ++i) if (!broken[i] && model[i].n()) ok.push_back(i);
    return ok.empty() ? -1 : static_cast<long>(ok[static_cast<uint64_t>(v) % ok.size()]);
  }

  void New(const Op& op, Fault ft) {
    Rng rng(op.arg(3));
    geom::Facet f = MakeConvex(rng, static_cast<int>(op.arg(2)));
    Emit(f, ft, op.arg(2) & 8, "new polygon");
  }
  void Emit(const geom::Facet& f, Fault ft, bool via, const char* what) {
    std::unique_ptr<HalfSpace3> pl;
    std::vector<HomoPoint3> v;
    { Sut s; pl.reset(new HalfSpace3(ToPlane(f.plane))); v.reserve(f.pts.size()); for (auto& p : f.pts) v.push_back(ToPoint(p)); }
    Outcome o = Guard(ft, [&] { pool.push_back(Make<P>::Do(*pl, f.drop, v, via)); });
    { Sut s; pl.reset(); std::vector<HomoPoint3>().swap(v); }
    if (o != kOk) { Others(99, 99, what); return; }
    { Sut s; SetIds(pool.back(), Bool<Tr<P>::data>()); }
    model.push_back(Snap());
    broken.push_back(false);
    size_t i = pool.size() - 1;
    Refresh(i, what);
    SIM_CHECK(Rotation(f.pts, model[i].f.pts) >= 0, "polygon:vertices", "%s: %s does not have the given vertices", name, what);
    SIM_CHECK(geom::PlaneKey(f.plane) == geom::PlaneKey(model[i].f.plane), "polygon:plane", "%s: %s is on another plane", name, what);
    Others(i, i, what);
  }

  void DoCut(const Op& op, Fault ft) {
    long si = Pick(op.arg(1));
    if (si < 0) return;
    size_t i = static_cast<size_t>(si);
    Rng rng(op.arg(3));
    Snap before = model[i];
    geom::Plane pl = CutPlane(before, rng, static_cast<int>(op.arg(2)));
    bool consume = rng.Chance(1, 2), keep = rng.Chance(1, 4);
    std::vector<int> side;
    bool neg = false, pos = false;
    for (auto& p : before.f.pts) { int s = geom::PlaneSide(pl, p); side.push_back(s); neg |= s < 0; pos |= s > 0; }
    size_t n = side.size();
    std::unique_ptr<HalfSpace3> hs;
    std::unique_ptr<ConvexPolygonSplitInfo> info;
    { Sut s; hs.reset(new HalfSpace3(ToPlane(pl))); }
    Outcome o = Guard(ft, [&] { info.reset(new ConvexPolygonSplitInfo(const_cast<const P&>(pool[i]).GetSplitInfo(*hs))); });
    if (o != kOk) {
      { Sut s; info.reset(); hs.reset(); }
      Others(99, 99, "an abandoned split query");
      return;
    }
    Others(99, 99, "a split query");
    bool en, ep, eo;
    { Sut s; en = info->ShouldEmitNegativeChild(); ep = info->ShouldEmitPositiveChild(); eo = info->ShouldEmitOnPlane(); }
    if (Tracing()) Trace("cut %s slot %zu n=%zu: neg=%d pos=%d", name, i, n, neg, pos);
    SIM_CHECK(en == neg && ep == pos && eo == (!neg && !pos), "cut:side", "%s: a polygon with vertices %s%son the plane's sides is reported neg=%d pos=%d on=%d", name,
              neg ? "below " : "", pos ? "above " : "", en, ep, eo);
    std::vector<int> got(n, 0);
    auto mark = [&](const std::pair<size_t, size_t>& r, int v) {
      SIM_CHECK(r.first <= r.second && r.second - r.first <= n, "cut:range", "%s: range [%zu, %zu) of %zu", name, r.first, r.second, n);
      for (size_t k = r.first; k < r.second; ++k) got[k % n] = v;
    };
    mark(info->neg_range(), -1);
    mark(info->pos_range(), 1);
    for (size_t k = 0; k < n; ++k) SIM_CHECK(got[k] == side[k], "cut:range", "%s: vertex %zu of %zu is on side %d but listed on side %d", name, k, n, side[k], got[k]);
    std::vector<int64_t> last_side{neg, pos};
    if (!(neg && pos)) {
      { Sut s; info.reset(); hs.reset(); }
      Probe(neg ? "cut:all-below" : pos ? "cut:all-above" : "cut:on-plane");
      return;
    }
    std::unique_ptr<P> a, b;
    Fault ft2 = ft;
    o = Guard(ft2, [&] { Cut<P>::Do(pool[i], *info, consume, a, b); });
    { Sut s; info.reset(); hs.reset(); }
    if (o != kOk) {
      { Sut s; a.reset(); b.reset(); }
      if (consume) { Break(i); Others(i, i, "an abandoned cut"); } else Others(99, 99, "an abandoned cut");
      return;
    }
    if (consume) { Break(i); Others(i, i, "a consuming cut"); } else Others(99, 99, "a cut");
    Snap sa = Take(*a), sb = Take(*b);
    Verify(*a, sa, "negative child");
    Verify(*b, sb, "positive child");
    CheckChild(before, side, pl, sa, -1);
    CheckChild(before, side, pl, sb, 1);
    SIM_CHECK(geom::BoundaryHash({sa.f, sb.f}) == geom::BoundaryHash({before.f}) && geom::ChainHashU({sa.f, sb.f}) == geom::ChainHashU({before.f}), "cut:area",
              "%s: the children do not make up the polygon: %s | %s | %s", name, geom::ToString(before.f).c_str(), geom::ToString(sa.f).c_str(), geom::ToString(sb.f).c_str());
    SIM_CHECK(geom::AreaHash({sa.f, sb.f}) == geom::AreaHash({before.f}), "cut:area", "%s: area changed", name);
    Probe(n >= 10 ? "cut:bisect" : "cut:linear");
    NonTrivial();
    // Children go back to the pool.
    if (consume || !keep) {
      Fault none{0, 0};
      Guard(none, [&] { pool[i] = std::move(*a); });
      broken[i] = false;
      Refresh(i, "negative child moved into its parent");
      SIM_CHECK(SameVerts(model[i].f.pts, sa.f.pts), "polygon:move", "%s: a moved polygon changed", name);
    } else {
      Push(std::move(*a), "negative child");
    }
    Push(std::move(*b), "positive child");
    { Sut s; a.reset(); b.reset(); }
    Others(99, 99, "storing children");
  }
  void CheckChild(const Snap& parent, const std::vector<int>& side, const geom::Plane& pl, const Snap& c, int want) {
    size_t n = parent.n(), keep = 0;
    const char* w = want < 0 ? "negative" : "positive";
    for (int s : side) if (s == want) ++keep;
    SIM_CHECK(c.n() == keep + 2, "cut:vertices", "%s: %s child has %zu vertices for %zu kept ones", name, w, c.n(), keep);
    SIM_CHECK(geom::PlaneKey(c.f.plane) == geom::PlaneKey(parent.f.plane), "cut:plane", "%s: %s child is on another plane", name, w);
    SIM_CHECK(c.f.drop == parent.f.drop, "cut:drop", "%s: %s child drops another dimension", name, w);
    for (size_t k = 0; k < c.n(); ++k) {
      int s = geom::PlaneSide(pl, c.f.pts[k]);
      bool shared = want < 0 ? k >= c.n() - 2 : k == 0 || k == c.n() - 1;
      SIM_CHECK(s == (shared ? 0 : want), "cut:wrong-side", "%s: vertex %zu of %zu of the %s child is on side %d", name, k, c.n(), w, s);
    }
    if (c.data.empty()) return;
    // Data of kept vertices, and of the two edges created by the cut.
    size_t first = 0;
    while (!(side[first] == want && side[(first + n - 1) % n] != want)) ++first;
    size_t before_first = (first + n - 1) % n;          // vertex before the kept ones
    size_t last = (first + keep - 1) % n;
    size_t off = want < 0 ? 0 : 1;
    for (size_t k = 0; k < keep; ++k)
      SIM_CHECK(c.data[k + off] == parent.data[(first + k) % n], "cut:data", "%s: vertex %zu of the %s child carries other data", name, k + off, w);
    // The edge entering the kept range continues edge before_first.
    size_t enter = want < 0 ? c.n() - 1 : 0;
    SIM_CHECK(c.data[enter] == parent.data[before_first], "cut:data", "%s: the edge from the cut back to the %s side carries data %lld/%d instead of %lld/%d", name, w,
              (long long)c.data[enter].first, c.data[enter].second, (long long)parent.data[before_first].first, parent.data[before_first].second);
    size_t leave = want < 0 ? c.n() - 2 : c.n() - 1;
    size_t next = (last + 1) % n;
    int64_t want_id = side[next] == 0 ? parent.data[next].first : parent.data[last].first;
    SIM_CHECK(c.data[leave].second == 1 && c.data[leave].first == want_id, "cut:data", "%s: the edge along the cut of the %s child carries data %lld/%d, its parent is %lld", name, w,
              (long long)c.data[leave].first, c.data[leave].second, (long long)want_id);
  }

  void DoSplitEdge(const Op& op, Fault ft) {
    long si = Pick(op.arg(1));
    if (si < 0) return;
    size_t i = static_cast<size_t>(si);
    Rng rng(op.arg(3));
    Snap before = model[i];
    size_t e = rng.Below(before.n());
    geom::Pt m = geom::Mix2(before.f.pts[e], before.f.pts[(e + 1) % before.n()], rng.Range(1, 9), rng.Range(1, 9));
    if (rng.Chance(1, 3)) m = geom::Rescale(m, rng.Pick({-1, 2, -5}), static_cast<int>(rng.Below(70)));
    std::unique_ptr<HomoPoint3> mid;
    { Sut s; mid.reset(new HomoPoint3(ToPoint(m))); }
    Outcome o = Guard(ft, [&] { pool[i].SplitEdge(e, *mid); });
    { Sut s; mid.reset(); }
    if (o != kOk) { Break(i); Others(i, i, "an abandoned edge split"); return; }
    Refresh(i, "edge split");
    std::vector<geom::Pt> want = before.f.pts;
    want.insert(want.begin() + static_cast<long>(e) + 1, m);
    SIM_CHECK(SameVerts(model[i].f.pts, want), "split-edge:vertices", "%s: splitting edge %zu gave %s", name, e, geom::ToString(model[i].f).c_str());
    if (!before.data.empty()) {
      auto d = before.data;
      d.insert(d.begin() + static_cast<long>(e) + 1, d[e]);
      SIM_CHECK(d == model[i].data, "split-edge:data", "%s: edge data after an edge split", name);
    }
    Others(i, i, "an edge split");
    Probe("edge-split");
  }

  // A new polygon on the other side of an edge of polygon i.
  void Attach(const Op& op, Fault ft) {
    long si = Pick(op.arg(1));
    if (si < 0) return;
    size_t i = static_cast<size_t>(si);
    Rng rng(op.arg(3));
    const Snap& s = model[i];
    size_t n = s.n(), e = rng.Below(n);
    const geom::Pt &a = s.f.pts[e], &b = s.f.pts[(e + 1) % n], &prev = s.f.pts[(e + n - 1) % n], &next = s.f.pts[(e + 2) % n];
    geom::Facet f;
    f.plane = s.f.plane;
    f.drop = s.f.drop;
    int style = static_cast<int>(op.arg(2)) % 6;
    geom::Pt x;
    if (style == 0) x = geom::Mix2(prev, a, -rng.Range(1, 4), 4 + rng.Range(1, 4));        // extends the previous edge
    else if (style == 1) x = geom::Mix2(next, b, -rng.Range(1, 4), 4 + rng.Range(1, 4));   // extends the next edge backwards
    else x = geom::OffEdge(a, b, s.f.plane, rng.Range(-4, 12), rng.Range(1, 8), 8);
    f.pts = {b, a, x};
    if (style >= 3 && rng.Chance(1, 2)) {
      geom::Pt y = geom::OffEdge(a, b, s.f.plane, rng.Range(-4, 12), rng.Range(1, 8), 8);
      f.pts.push_back(y);
    }
    if (style == 5) {  // folded along the edge
      geom::Pt z = geom::Displace(x, rng, 6);
      f.pts = {b, a, z};
      if (!geom::PlaneOf(b, a, z, f.plane)) return;
      int sg[3] = {geom::SignOf(f.plane.a), geom::SignOf(f.plane.b), geom::SignOf(f.plane.c)};
      do { f.drop = static_cast<int>(rng.Below(3)); } while (!sg[f.drop]);
    }
    if (style == 4 && rng.Chance(1, 2)) {  // same edge, same side, turned over
      f.pts = s.f.pts;
      std::reverse(f.pts.begin(), f.pts.end());
      for (geom::Num* q : {&f.plane.a, &f.plane.b, &f.plane.c, &f.plane.d}) *q = geom::Neg(*q);
    }
    if (!geom::CheckFacet(f, false).empty()) return;
    Emit(f, ft, op.arg(2) & 8, "attached polygon");
  }

  void Merge(const Op& op, Fault ft) {
    if (pool.size() < 2) return;
    struct Cand { size_t i, e, j, g; };
    std::vector<Cand> c;
    std::map<std::pair<uint64_t, uint64_t>, std::vector<std::pair<size_t, size_t>>> edges;
    for (size_t i = 0; i < pool.size(); ++i) {
      if (broken[i]) continue;
      size_t n = model[i].n();
      for (size_t e = 0; e < n; ++e) edges[{geom::PointKey(model[i].f.pts[e]), geom::PointKey(model[i].f.pts[(e + 1) % n])}].push_back({i, e});
    }
    for (auto& kv : edges) {
      auto it = edges.find({kv.first.second, kv.first.first});
      if (it == edges.end()) continue;
      for (auto& a : kv.second) for (auto& b : it->second) if (a.first != b.first) c.push_back({a.first, a.second, b.first, b.second});
    }
    if (c.empty()) return;
    std::sort(c.begin(), c.end(), [](const Cand& a, const Cand& b) { return std::tie(a.i, a.e, a.j, a.g) < std::tie(b.i, b.e, b.j, b.g); });
    Rng rng(op.arg(3));
    Cand k = c[rng.Below(c.size())];
    Snap A = model[k.i], B = model[k.j];
    size_t n = A.n(), m = B.n();
    const geom::Pt &p = A.f.pts[k.e], &q = A.f.pts[(k.e + 1) % n];
    std::vector<int> dims;
    for (int d = 0; d < 3; ++d) if (geom::CompareComponent(p, q, d)) dims.push_back(d);
    int dim = dims[rng.Below(dims.size())];
    // The union, starting with the first vertex of A.
    bool same_plane = geom::PlaneKey(A.f.plane) == geom::PlaneKey(B.f.plane);
    geom::Facet u;
    u.plane = A.f.plane;
    u.drop = A.f.drop;
    std::vector<std::pair<int64_t, int>> ud;
    size_t join1 = 0, join2 = 0;   // positions of the two ends of the common edge
    for (size_t t = 0; t < n; ++t) {
      size_t at = (k.e + 1 + t) % n;      // from the far end of the edge around A
      if (t == 0) join2 = u.pts.size();
      if (at == k.e) break;
      u.pts.push_back(A.f.pts[at]);
      if (!A.data.empty()) ud.push_back(A.data[at]);
    }
    join1 = u.pts.size();
    for (size_t t = 1; t < m; ++t) {
      size_t at = (k.g + t) % m;
      u.pts.push_back(B.f.pts[at]);
      if (!B.data.empty()) ud.push_back(B.data[at]);
    }
    (void)join2;
    bool convex = same_plane && geom::CheckFacet(u, false).empty();
    bool merged = false;
    Outcome o = Guard(ft, [&] { merged = pool[k.i].TryMergePolygon(dim, k.e, pool[k.j], k.g); });
    if (Tracing()) Trace("merge %s slot %zu edge %zu/%zu with slot %zu edge %zu/%zu dim %d: convex=%d merged=%d outcome=%d", name, k.i, k.e, n, k.j, k.g, m, dim, convex, merged, o);
    if (o != kOk) { Break(k.i); Break(k.j); Others(k.i, k.j, "an abandoned merge"); return; }
    if (!convex) {
      SIM_CHECK(!merged, "merge:not-convex", "%s: merged %s with %s although the union is not a convex facet", name, geom::ToString(A.f).c_str(), geom::ToString(B.f).c_str());
      Others(99, 99, "a refused merge");
      Probe(same_plane ? "merge-refused:not-convex" : "merge-refused:plane");
      return;
    }
    SIM_CHECK(merged, "merge:refused", "%s: refused to merge %s with %s although the union is convex", name, geom::ToString(A.f).c_str(), geom::ToString(B.f).c_str());
    // Vertices at the ends of the removed edge disappear if redundant.
    auto collinear = [&](size_t at) {
      size_t s = u.pts.size();
      geom::Plane pl;
      return !geom::PlaneOf(u.pts[(at + s - 1) % s], u.pts[at], u.pts[(at + 1) % s], pl);
    };
    auto mergeable = [&](size_t at) {
      size_t s = u.pts.size();
      return ud.empty() || VData::Mergeable(ud[(at + s - 1) % s].first, ud[at].first);
    };
    bool drop1 = collinear(join1) && mergeable(join1);
    std::vector<geom::Pt> want;
    std::vector<std::pair<int64_t, int>> wd;
    bool drop2 = collinear(0) && mergeable(0);
    for (size_t t = 0; t < u.pts.size(); ++t) {
      if ((t == join1 && drop1) || (t == 0 && drop2)) continue;
      want.push_back(u.pts[t]);
      if (!ud.empty()) wd.push_back(ud[t]);
    }
    Refresh(k.i, "merged polygon");
    long rot = Rotation(want, model[k.i].f.pts);
    SIM_CHECK(rot >= 0, "merge:vertices", "%s: merging gave %s", name, geom::ToString(model[k.i].f).c_str());
    for (size_t t = 0; t < wd.size(); ++t)
      SIM_CHECK(model[k.i].data[(t + static_cast<size_t>(rot)) % wd.size()] == wd[t], "merge:data", "%s: edge %zu of the merged polygon carries other data", name, t);
    SIM_CHECK(pool[k.j].vertex_count() == 0, "merge:leftover", "%s: the merged neighbour keeps %zu edges", name, pool[k.j].vertex_count());
    SIM_CHECK(geom::AreaHash({model[k.i].f}) == geom::AreaHash({A.f, B.f}), "merge:area", "%s: merging changed the area", name);
    model[k.j] = Take(pool[k.j]);
    Probe(drop1 || drop2 ? "merged:vertex-dropped" : "merged");
    NonTrivial();
    Others(k.i, k.j, "a merge");
    Erase(k.j);
  }

  void Query(const Op& op, Fault ft) {
    long si = Pick(op.arg(1));
    if (si < 0) return;
    size_t i = static_cast<size_t>(si);
    Rng rng(op.arg(3));
    const Snap& s = model[i];
    size_t n = s.n();
    int64_t v[3] = {rng.Range(-4, 4), rng.Range(-4, 4), rng.Range(-4, 4)};
    if (rng.Chance(1, 4)) for (int d = 0; d < 3; ++d) v[d] = rng.Chance(1, 2) ? 0 : v[d];
    if (rng.Chance(1, 3)) {  // perpendicular to an edge: ties
      size_t e = rng.Below(n);
      long double dd[3];
      geom::Direction(s.f.pts[e], s.f.pts[(e + 1) % n], dd);
      int64_t w[3];
      bool small = true;
      for (int d = 0; d < 3; ++d) { if (dd[d] > 1e6L || dd[d] < -1e6L) small = false; w[d] = small ? static_cast<int64_t>(dd[d]) : 0; }
      if (small) { int64_t c[3] = {v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]}; for (int d = 0; d < 3; ++d) v[d] = c[d]; }
    }
    size_t got = 0, lo = 0;
    std::unique_ptr<std::pair<BigInt, BigInt>> area;
    int drop = 0;
    do { drop = static_cast<int>(rng.Below(3)); } while (geom::SignOf(drop == 0 ? s.f.plane.a : drop == 1 ? s.f.plane.b : s.f.plane.c) == 0);
    Outcome o = Guard(ft, [&] {
      const P& p = pool[i];
      got = p.GetExtremeIndexBisect(Vector3(static_cast<int>(v[0]), static_cast<int>(v[1]), static_cast<int>(v[2])));
      lo = p.GetMinimumIndex();
      area.reset(new std::pair<BigInt, BigInt>(p.GetProjectedArea(drop)));
    });
    if (o == kOk) {
      bool flat = true;
      for (size_t k = 1; k < n; ++k) if (geom::CompareAlong(s.f.pts[0], s.f.pts[k], v)) flat = false;
      if (flat) {
        SIM_CHECK(got == static_cast<size_t>(-1), "query:extreme", "%s: extreme vertex %zu in a direction perpendicular to the polygon", name, got);
      } else {
        SIM_CHECK(got < n, "query:extreme", "%s: extreme vertex %zu of %zu", name, got, n);
        for (size_t k = 0; k < n; ++k) SIM_CHECK(geom::CompareAlong(s.f.pts[got], s.f.pts[k], v) >= 0, "query:extreme", "%s: vertex %zu lies farther than the extreme vertex %zu", name, k, got);
        SIM_CHECK(geom::CompareAlong(s.f.pts[got], s.f.pts[(got + n - 1) % n], v) > 0, "query:extreme-tie", "%s: vertex %zu is not the first of the tied extreme vertices", name, got);
      }
      for (size_t k = 0; k < n; ++k) {
        int c = 0;
        for (int d = 0; d < 3 && !c; ++d) c = geom::CompareComponent(s.f.pts[k], s.f.pts[lo], d);
        SIM_CHECK(c >= 0, "query:minimum", "%s: vertex %zu is before the minimum %zu", name, k, lo);
      }
      uint64_t a2 = 0;
      int ux = drop == 0 ? 1 : 0, uy = drop == 2 ? 1 : 2;
      // GetProjectedArea uses DropDimension's order of the two components.
      auto fc = [&](const geom::Pt& p, int d) { return geom::FieldOf(d == 0 ? p.x : d == 1 ? p.y : p.z); };
      std::vector<uint64_t> X, Y, W;
      for (auto& p : s.f.pts) { X.push_back(fc(p, ux)); Y.push_back(fc(p, uy)); W.push_back(geom::FieldOf(p.w)); }
      // Multiply through by the product of all denominators.
      uint64_t all = 1;
      for (uint64_t w : W) all = geom::FieldMul(all, w);
      for (size_t k = 0; k < n; ++k) {
        size_t m = (k + 1) % n;
        uint64_t rest = 1;
        for (size_t t = 0; t < n; ++t) if (t != k && t != m) rest = geom::FieldMul(rest, W[t]);
        a2 = geom::FieldAdd(a2, geom::FieldMul(rest, geom::FieldSub(geom::FieldMul(X[k], Y[m]), geom::FieldMul(X[m], Y[k]))));
      }
      uint64_t num = geom::FieldOf(FromBig(area->first)), den = geom::FieldOf(FromBig(area->second));
      // num / den == a2 / (2 all), up to the orientation convention of the drop
      uint64_t l = geom::FieldMul(geom::FieldMul(num, 2), all), r = geom::FieldMul(a2, den);
      uint64_t rn = geom::FieldSub(0, r);
      SIM_CHECK(l == r || l == rn, "query:area", "%s: projected area of %s", name, geom::ToString(s.f).c_str());
    }
    { Sut x; area.reset(); }
    Others(99, 99, "a query");
    if (o == kOk) Equality(op);
  }
  void Equality(const Op& op) {
    long ai = Pick(op.arg(1)), bi = Pick(op.arg(4));
    if (ai < 0 || bi < 0) return;
    const Snap &a = model[ai], &b = model[bi];
    long rot = Rotation(a.f.pts, b.f.pts);
    bool same = rot >= 0 && geom::PlaneKey(a.f.plane) == geom::PlaneKey(b.f.plane);
    if (same) for (size_t k = 0; k < a.data.size(); ++k) if (a.data[k] != b.data[(k + static_cast<size_t>(rot)) % b.data.size()]) same = false;
    if (same && Tr<P>::aabb && ai != bi && a.finger != b.finger) return;   // boxes may be rounded differently
    bool got;
    { Sut s; got = const_cast<const P&>(pool[ai]) == const_cast<const P&>(pool[bi]); }
    SIM_CHECK(got == same, "query:equality", "%s: polygons %ld and %ld compare %s", name, ai, bi, got ? "equal although they differ" : "different although they are equal");
    bool ne;
    { Sut s; ne = const_cast<const P&>(pool[ai]) != const_cast<const P&>(pool[bi]); }
    SIM_CHECK(ne != got, "query:equality", "%s: == and != agree", name);
    if (same && ai != bi) Probe("equal-pair");
    OneDiffers(op, static_cast<size_t>(ai), Bool<Tr<P>::data>());
  }
  // A copy with other data on a single edge is a different polygon.
  void OneDiffers(const Op&, size_t, Bool<false>) {}
  void OneDiffers(const Op& op, size_t i, Bool<true>) {
    Rng rng(op.arg(3) ^ 0xd1ff);
    size_t e = rng.Below(model[i].n()), off = rng.Chance(1, 2) ? 0 : rng.Below(model[i].n());
    bool eq, ne, eq2;
    {
      Sut s;
      P c(const_cast<const P&>(pool[i]));
      c.edge(e).id ^= 1 << 20;
      c.RotateEdges(off);
      eq = c == const_cast<const P&>(pool[i]);
      ne = c != const_cast<const P&>(pool[i]);
      eq2 = const_cast<const P&>(pool[i]) == c;
    }
    SIM_CHECK(!eq && ne && !eq2, "query:equality", "%s: equal although the data of edge %zu differs (rotated by %zu)", name, e, off);
    Probe("one-edge-differs");
  }

  void Run(const Op& op) {
    Fault ft{static_cast<int>(static_cast<uint64_t>(op.arg(5)) % 3), 1 + static_cast<int64_t>(static_cast<uint64_t>(op.arg(6)) % 200)};
    if (ft.kind == 2 && !Tr<P>::data) ft.kind = 1;
    while (pool.size() > 9) Erase(static_cast<size_t>(static_cast<uint64_t>(op.arg(4)) % pool.size()));
    // Polygons abandoned by a failed edit are destroyed, or assigned to.
    Rng rng(op.arg(3) ^ 0xb0);
    for (size_t i = 0; i < pool.size();) {
      if (!broken[i] || rng.Chance(1, 2)) { ++i; continue; }
      long src = Pick(op.arg(4));
      if (src >= 0 && rng.Chance(1, 2)) {
        Fault none{0, 0};
        Guard(none, [&] { DoAssign(pool[i], pool[static_cast<size_t>(src)], Bool<Tr<P>::copy_assign>()); });
        broken[i] = false;
        Refresh(i, "assignment to an abandoned polygon");
        SIM_CHECK(SameVerts(model[i].f.pts, model[static_cast<size_t>(src)].f.pts), "polygon:assign", "%s: assignment to an abandoned polygon", name);
        Probe("abandoned-then-assigned");
        ++i;
      } else {
        Erase(i);
        Probe("abandoned-then-destroyed");
      }
    }
    long si = Pick(op.arg(1));
    size_t i = si < 0 ? 0 : static_cast<size_t>(si);
    switch (op.code) {
      case kNew: New(op, ft); return;
      case kSplit: DoCut(op, ft); return;
      case kSplitEdge: DoSplitEdge(op, ft); return;
      case kAttach: Attach(op, ft); return;
      case kMerge: Merge(op, ft); return;
      case kQuery: Query(op, ft); return;
      default: break;
    }
    if (si < 0) return;
    Snap before = model[i];
    long other = Pick(op.arg(4));
    size_t j = static_cast<size_t>(other);
    switch (op.code) {
      case kRotate: {
        size_t off = static_cast<uint64_t>(op.arg(3)) % before.n();
        Guard(ft, [&] { pool[i].RotateEdges(off); });
        Refresh(i, "rotation");
        auto want = before.f.pts;
        std::rotate(want.begin(), want.begin() + static_cast<long>(off), want.end());
        auto wd = before.data;
        if (!wd.empty()) std::rotate(wd.begin(), wd.begin() + static_cast<long>(off), wd.end());
        SIM_CHECK(SameVerts(want, model[i].f.pts) && wd == model[i].data, "polygon:rotate", "%s: rotation by %zu", name, off);
        Others(i, i, "a rotation");
        return;
      }
      case kSort: {
        Outcome o = Guard(ft, [&] { pool[i].SortVertices(); });
        if (o != kOk) { Break(i); Others(i, i, "an abandoned sort"); return; }
        Refresh(i, "sort");
        long rot = Rotation(before.f.pts, model[i].f.pts);
        SIM_CHECK(rot >= 0, "polygon:sort", "%s: sorting changed the polygon", name);
        for (size_t k = 1; k < before.n(); ++k) {
          int c = 0;
          for (int d = 0; d < 3 && !c; ++d) c = geom::CompareComponent(model[i].f.pts[k], model[i].f.pts[0], d);
          SIM_CHECK(c > 0, "polygon:sort", "%s: vertex %zu is before vertex 0 after sorting", name, k);
        }
        for (size_t k = 0; k < before.data.size(); ++k) SIM_CHECK(before.data[k] == model[i].data[(k + static_cast<size_t>(rot)) % before.n()], "polygon:sort", "%s: sorting moved data to other vertices", name);
        Others(i, i, "a sort");
        return;
      }
      case kCopy: {
        std::unique_ptr<P> c;
        Outcome o = Guard(ft, [&] { c.reset(new P(const_cast<const P&>(pool[i]))); });
        if (o == kOk) {
          Snap s = Take(*c);
          Verify(*c, s, "copy");
          SIM_CHECK(s.finger == before.finger, "polygon:copy", "%s: a copy differs from its original", name);
          bool eq;
          { Sut x; eq = *c == const_cast<const P&>(pool[i]); }
          SIM_CHECK(eq, "query:equality", "%s: a copy does not compare equal to its original", name);
          Push(std::move(*c), "copy");
          // `i` may have been relocated; its value must not have changed.
        }
        { Sut s; c.reset(); }
        Others(99, 99, "a copy");
        return;
      }
      case kMove: {
        if (j == i) return;
        Outcome o = Guard(ft, [&] { pool[j] = std::move(pool[i]); });
        if (o != kOk) { Break(i); Break(j); Others(i, j, "an abandoned move"); return; }
        Refresh(j, "move assignment");
        SIM_CHECK(SameVerts(model[j].f.pts, before.f.pts) && model[j].data == before.data, "polygon:move", "%s: a moved polygon changed", name);
        Break(i);
        Others(i, j, "a move");
        return;
      }
      case kAssign: {
        Outcome o = Guard(ft, [&] { DoAssign(pool[j], const_cast<const P&>(pool[i]), Bool<Tr<P>::copy_assign>()); });
        if (o != kOk) { Break(j); Others(j, j, "an abandoned assignment"); return; }
        Refresh(j, "assignment");
        SIM_CHECK(SameVerts(model[j].f.pts, before.f.pts) && model[j].data == before.data, "polygon:assign", "%s: an assigned polygon differs from its source", name);
        Others(j, j, "an assignment");
        return;
      }
      case kInvert: {
        if (!Tr<P>::invert) return;
        Guard(ft, [&] { DoInvert(pool[i], Bool<Tr<P>::invert>()); });
        // Edge data has no defined place in an inverted polygon.
        Refresh(i, "inversion");
        auto want = before.f.pts;
        std::reverse(want.begin(), want.end());
        SIM_CHECK(Rotation(want, model[i].f.pts) >= 0, "polygon:invert", "%s: inversion", name);
        Others(i, i, "an inversion");
        return;
      }
      case kDrop: Erase(i); Others(99, 99, "a destruction"); return;
      case kRelocate: {
        Outcome o = Guard(ft, [&] {
          if (op.arg(2) & 1) pool.shrink_to_fit(); else pool.reserve(pool.capacity() + 1 + static_cast<size_t>(op.arg(2) & 6));
        });
        (void)o;
        Others(99, 99, "a relocation");
        for (size_t k = 0; k < pool.size(); ++k) if (!broken[k]) Verify(pool[k], model[k], "relocated polygon");
        return;
      }
      case kSwap: {
        if (j == i) return;
        Snap bj = model[j];
        Outcome o = Guard(ft, [&] { using std::swap; swap(pool[i], pool[j]); });
        if (o != kOk) { Break(i); Break(j); Others(i, j, "an abandoned swap"); return; }
        Refresh(i, "swap");
        Refresh(j, "swap");
        SIM_CHECK(SameVerts(model[i].f.pts, bj.f.pts) && SameVerts(model[j].f.pts, before.f.pts), "polygon:swap", "%s: swapped polygons changed", name);
        Others(i, j, "a swap");
        return;
      }
    }
  }
};

void Execute(const Plan& plan) {
  g_live = 0;
  g_copies = g_copy_fault = 0;
  g_next_id = 0;
  {
    Lane<P0> a;
    Lane<P1> b;
    Lane<P2> c;
    Lane<P3> d;
    a.name = kLaneNames[0]; b.name = kLaneNames[1]; c.name = kLaneNames[2]; d.name = kLaneNames[3];
    for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
      const Op& op = plan.ops[oi];
      if (op.code < kOpFirstHarness || op.code >= kEnd) continue;
      CurrentOp(static_cast<int>(oi));
      int lane = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % kLanes);
      if (Tracing()) Trace("%s %s slot=%lld style=%lld fault=%lld@%lld", kLaneNames[lane], kNames[op.code - kOpFirstHarness], (long long)op.arg(1), (long long)op.arg(2), (long long)op.arg(5), (long long)op.arg(6));
      switch (lane) {
        case 0: a.Run(op); break;
        case 1: b.Run(op); break;
        case 2: c.Run(op); break;
        default: d.Run(op); break;
      }
      Signature(Mix(op.code * 64 + op.arg(5) * 8 + lane) ^ Mix(op.arg(3)));
    }
  }
  SIM_CHECK(g_live == 0, "polygon:data-leak", "%lld edge data objects were never destroyed", (long long)g_live);
}

}  // namespace

const sim::Harness sim::harness = {
  "C08", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut ConvexPolygon, MutableConvexPolygon, AABBConvexPolygon, ConvexVertexAABBTracker, ConnectedPolygon, ConvexPolygonEdge, ConvexPolygonSplitInfo, HalfSpace2/3, PluckerLine, HomoPoint3, BigInt",
  "allocator replaced by the simulated heap; edge data is simulator code whose copies may throw; oracle: exact geometry on mirrored vertex lists",
  "a run is a seeded history of 6-42 edits over pools of polygons of four types; distinct by the sequence of operations, seeds and faults",
  200000000ull, true, 30000, 600000};
