// C18: mesh helpers (centroid, extreme points, extrusion) in sessions that
// build, join, reorder and copy meshes, with failed allocations. Reference:
// boost rationals on the generator's own copy of every mesh.
// sim-mode: asan
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include <boost/multiprecision/cpp_int.hpp>

#include "glue.h"
#include "walnut/aabb_convex_polygon.h"
#include "walnut/extrude.h"
#include "walnut/rational.h"
#include "walnut/mesh.h"

using namespace sim;
using namespace walnut;
using boost::multiprecision::cpp_int;
using boost::multiprecision::cpp_rational;

namespace {

constexpr int kPool = 4;
enum { kLoad = kOpFirstHarness, kExtrude, kJoin, kReorder, kCopy, kCentroid, kTop, kFarthest, kDrop, kEnd };
const char* const kNames[] = {"load", "extrude", "join", "reorder", "copy", "centroid", "top", "farthest", "drop"};

struct Q3 { cpp_rational x, y, z; };
cpp_int Value(const geom::Num& n) {
  cpp_int r = 0;
  if (n.empty()) return r;
  bool neg = static_cast<int64_t>(n.back()) < 0;
  for (size_t i = n.size(); i-- > 0;) { r <<= 64; r |= neg ? ~n[i] : n[i]; }
  if (neg) r = -r - 1;
  return r;
}
Q3 Exact(const geom::Pt& p) {
  cpp_int w = Value(p.w);
  return {cpp_rational(Value(p.x), w), cpp_rational(Value(p.y), w), cpp_rational(Value(p.z), w)};
}
bool Top(const Q3& a, const Q3& b) { return a.z != b.z ? a.z < b.z : a.y != b.y ? a.y < b.y : a.x < b.x; }
bool Is(const geom::Pt& p, const Q3& q) {
  cpp_int w = Value(p.w);
  return w != 0 && cpp_rational(Value(p.x), w) == q.x && cpp_rational(Value(p.y), w) == q.y && cpp_rational(Value(p.z), w) == q.z;
}
std::string Str(const Q3& q) {
  auto s = [](const cpp_rational& r) { return std::to_string(static_cast<double>(r)); };
  return "(" + s(q.x) + ", " + s(q.y) + ", " + s(q.z) + ")";
}

// The centroid, or false if the volume is zero.
bool Centroid(const geom::Mesh& m, Q3& out) {
  cpp_rational v = 0;
  out = {0, 0, 0};
  for (const geom::Facet& f : m) {
    if (f.pts.size() < 3) continue;
    std::vector<Q3> p;
    for (const geom::Pt& q : f.pts) p.push_back(Exact(q));
    for (size_t i = 2; i < p.size(); ++i) {
      const Q3 &a = p[0], &b = p[i - 1], &c = p[i];
      cpp_rational d = a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
      v += d;
      out.x += d * (a.x + b.x + c.x);
      out.y += d * (a.y + b.y + c.y);
      out.z += d * (a.z + b.z + c.z);
    }
  }
  if (v == 0) return false;
  out.x /= 4 * v; out.y /= 4 * v; out.z /= 4 * v;
  return true;
}

bool SameNum(const geom::Num& a, const geom::Num& b) { return geom::Equal(a, b); }
bool SameWords(const geom::Pt& a, const geom::Pt& b) { return SameNum(a.x, b.x) && SameNum(a.y, b.y) && SameNum(a.z, b.z) && SameNum(a.w, b.w); }

using Poly = MutableConvexPolygon<>;
using BoxPoly = AABBConvexPolygon<>;
struct Slot {
  std::unique_ptr<std::vector<Poly>> mesh;
  std::unique_ptr<std::vector<BoxPoly>> boxed;  // the same mesh
  geom::Mesh model;
  bool closed = false;
};

// ------------------------------------------------------------ planar loops
struct P2 { int64_t x, y; };
// A simple loop, counter-clockwise.
std::vector<P2> Loop(Rng& rng) {
  std::vector<P2> v;
  switch (rng.Below(4)) {
    case 0: {  // histogram
      int n = static_cast<int>(rng.Range(1, 6));
      int64_t last = 0;
      v.push_back({0, 0});
      if (rng.Chance(1, 2)) for (int i = 1; i < n; ++i) v.push_back({i, 0});
      v.push_back({n, 0});
      for (int i = n; i-- > 0;) {
        int64_t h = rng.Range(1, 5);
        if (h == last) { if (rng.Chance(1, 2)) { v.back() = {i, h}; continue; } }
        else v.push_back({i + 1, h});
        v.push_back({i, h});
        last = h;
      }
      return v;
    }
    case 1: {  // convex
      static const P2 d[] = {{1, 0}, {2, 1}, {1, 1}, {1, 2}, {0, 1}, {-1, 2}, {-1, 1}, {-2, 1}, {-1, 0}, {-2, -1}, {-1, -1}, {-1, -2}, {0, -1}, {1, -2}, {1, -1}, {2, -1}};
      P2 p{0, 0};
      uint64_t use = rng.Next() & 0xff;
      if ((use & (use - 1)) == 0) use = 0x11;  // two directions at least
      for (int i = 0; i < 16; ++i) if (use >> (i % 8) & 1) { v.push_back(p); p.x += d[i].x; p.y += d[i].y; }
      return v;
    }
    case 2: {  // zigzag band
      int n = static_cast<int>(rng.Range(2, 5));
      std::vector<P2> top;
      for (int i = 0; i <= n; ++i) { int64_t y = rng.Range(-3, 3); v.push_back({i * 2, y}); top.push_back({i * 2, y + 1}); }
      v.insert(v.end(), top.rbegin(), top.rend());
      return v;
    }
    default: {  // star
      int n = static_cast<int>(rng.Range(3, 8));
      static const P2 d[] = {{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
      for (int i = 0; i < 8; ++i) {
        if (n < 8 && (i & 1) && rng.Chance(1, 3)) continue;
        int64_t r = rng.Range(1, 6);
        v.push_back({d[i].x * r, d[i].y * r});
      }
      return v;
    }
  }
}

struct Session {
  Slot slot[kPool];
  const Op* op = nullptr;
  int fm = 0, checked = 0;
  uint64_t fired_total = 0;

  ~Session() { Sut s; for (Slot& x : slot) { x.mesh.reset(); x.boxed.reset(); } }
  Slot& At(size_t k) { return slot[static_cast<uint64_t>(op->arg(k)) % kPool]; }
  template <typename F> bool Run(bool faulty, F f) {
    bool failed = false;
    uint64_t fired = 0;
    {
      Sut s;
      if (faulty) ArmAllocFault(fm, static_cast<uint64_t>(op->arg(6)), static_cast<uint64_t>(op->arg(7)));
      try { f(); } catch (const std::bad_alloc&) { failed = true; }
      if (faulty) fired = DisarmAllocFault();
    }
    if (fired) { FaultFired("failed-allocation", fired); fired_total += fired; }
    SIM_CHECK(!failed || fired, "mesh:exception", "bad_alloc without a failed allocation");
    SIM_CHECK(!fired || failed, "mesh:swallowed", "a failed allocation was not reported");
    return !failed;
  }
  // First as the plan wants it, then undisturbed.
  template <typename F> void Twice(F f) {
    if (fm && Run(true, f)) return;
    if (fm) Probe("retried");
    Run(false, f);
  }
  void Unchanged(const Slot& s, const char* what) {
    if (!s.mesh) return;
    SIM_CHECK(s.mesh->size() == s.model.size(), "mesh:changed", "after %s: %zu facets, was %zu", what, s.mesh->size(), s.model.size());
    for (size_t i = 0; i < s.model.size(); ++i) {
      const Poly& p = (*s.mesh)[i];
      SIM_CHECK(p.vertex_count() == s.model[i].pts.size(), "mesh:changed", "after %s: facet %zu has another number of vertices", what, i);
      for (size_t k = 0; k < p.vertex_count(); ++k)
        SIM_CHECK(SameWords(FromPoint(p.vertex(k)), s.model[i].pts[k]), "mesh:changed", "after %s: facet %zu vertex %zu changed", what, i, k);
    }
  }
  void Store(Slot& s, const geom::Mesh& m, bool closed) {
    s.model = m;
    s.closed = closed;
    Sut g;
    s.mesh.reset(new std::vector<Poly>());
    s.boxed.reset(new std::vector<BoxPoly>());
    for (const geom::Facet& f : m) { s.mesh->push_back(ToPolygon<Poly>(f)); s.boxed->push_back(ToPolygon<BoxPoly>(f)); }
    Host h;
    s.model = FromPolygons(*s.mesh);
    SIM_CHECK(geom::ChainHash(m) == geom::ChainHash(s.model), "mesh:changed", "the facets are not what they were built from");
  }

  void Load(Rng& rng) {
    geom::Scene scene = geom::MakeScene(rng.Next(), static_cast<int>(rng.Below(4)));
    geom::Mesh m = geom::MakeSolid(static_cast<int>(rng.Below(geom::kSolidKinds)), rng.Next(), scene, rng.Chance(1, 4));
    geom::Perturb(m, rng.Next(), static_cast<int>(rng.Below(16)));
    if (rng.Chance(1, 2)) geom::Shuffle(m, rng.Next());
    bool closed = true;
    if (rng.Chance(1, 8) && m.size() > 2) { m.resize(rng.Below(m.size())); closed = false; }
    if (m.size() > 120) return;
    Store(At(0), m, closed);
  }
  void Extrusion(Rng& rng) {
    // The loop in space: o + x u + y v.
    std::vector<P2> loop = Loop(rng);
    if (rng.Chance(1, 4)) std::reverse(loop.begin(), loop.end());
    std::rotate(loop.begin(), loop.begin() + rng.Below(loop.size()), loop.end());
    int64_t g = rng.Pick({1, 1, 2, 50, 100000});
    int64_t o[3], u[3], v[3], d[3], n[3];
    auto vec = [&](int64_t* t) { for (int k = 0; k < 3; ++k) t[k] = rng.Chance(1, 3) ? 0 : rng.Range(-g, g); };
    int64_t dot = 0;
    for (int tries = 0; tries < 50; ++tries) {
      vec(o); vec(u); vec(v); vec(d);
      for (int k = 0; k < 3; ++k) n[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3];
      dot = 0;
      for (int k = 0; k < 3; ++k) { dot += (n[k] > 0) - (n[k] < 0) ? (n[k] % 1000003) * d[k] : 0; }
      cpp_int e = cpp_int(n[0]) * d[0] + cpp_int(n[1]) * d[1] + cpp_int(n[2]) * d[2];
      dot = e > 0 ? 1 : e < 0 ? -1 : 0;
      if (dot) break;
    }
    if (!dot) return;
    int64_t den = rng.Pick({1, 1, 1, 2, 3, -1, -4, 1000});
    int bits = rng.Chance(1, 4) ? static_cast<int>(rng.Range(30, 130)) : 0;
    bool mixed = rng.Chance(1, 3);
    std::vector<geom::Pt> pts, up;
    auto num = [&](cpp_int c) {
      geom::Num r;
      bool neg = c < 0;
      if (neg) c = -c - 1;
      while (c != 0) { r.push_back(static_cast<uint64_t>(c & ~uint64_t(0))); c >>= 64; }
      r.push_back(0);
      if (neg) for (uint64_t& w : r) w = ~w;
      return r;
    };
    int64_t common = rng.Pick({1, 1, 5, -3});
    for (const P2& p : loop) {
      cpp_int w = mixed ? static_cast<int64_t>(rng.Pick({1, 2, -1, 3, -6, 10})) : common;
      cpp_int c[3];
      for (int k = 0; k < 3; ++k) c[k] = ((cpp_int(o[k]) + cpp_int(u[k]) * p.x + cpp_int(v[k]) * p.y) * w) * (cpp_int(1) << bits) + (bits ? w * o[(k + 1) % 3] : cpp_int(0));
      pts.push_back({num(c[0]), num(c[1]), num(c[2]), num(w)});
      for (int k = 0; k < 3; ++k) c[k] = c[k] * den + d[k] * w * (cpp_int(1) << bits);
      up.push_back({num(c[0]), num(c[1]), num(c[2]), num(w * den)});
    }
    std::unique_ptr<std::vector<Poly>> got;
    Twice([&] {
      got.reset();
      std::vector<HomoPoint3> cap;
      for (const geom::Pt& p : pts) cap.push_back(ToPoint(p));
      auto big = [&](int64_t x) { return bits ? BigInt(x) << bits : BigInt(x); };
      Vector3 dir(big(d[0]), big(d[1]), big(d[2]));
      BigInt dd(den);
      got.reset(new std::vector<Poly>(Extrude(cap, dir, dd)));
      if (got->empty()) got->reserve(0);
    });
    geom::Mesh m = FromPolygons(*got);
    ++checked;
    std::string bad = geom::CheckFacets(m, false);
    SIM_CHECK(bad.empty(), "extrude:facet", "%s", bad.c_str());
    for (const Poly& p : *got) {
      bad = CheckEdges(p);
      SIM_CHECK(bad.empty(), "extrude:facet", "%s", bad.c_str());
    }
    SIM_CHECK(geom::BoundaryHash(m) == 0, "extrude:open", "the extrusion of a loop of %zu vertices is not closed", pts.size());
    // The expected chain: triangle fans over the caps and walls.
    geom::Mesh want;
    size_t size = pts.size();
    auto fan = [&](const std::vector<geom::Pt>& l) {
      for (size_t i = 2; i < l.size(); ++i) {
        geom::Facet f;
        f.pts = {l[0], l[i - 1], l[i]};
        if (geom::PlaneOf(l[0], l[i - 1], l[i], f.plane)) want.push_back(f);
      }
    };
    fan(pts);
    for (size_t i = 0; i < size; ++i) fan({pts[(i + 1) % size], pts[i], up[i], up[(i + 1) % size]});
    fan(std::vector<geom::Pt>(up.rbegin(), up.rend()));
    SIM_CHECK(geom::ChainHashU(m) == geom::ChainHashU(want), "extrude:surface", "the extrusion of a loop of %zu vertices has another surface", size);
    // No facet may oppose another one: walls of a simple loop do not overlap.
    Probe(bits ? "extrude-large" : "extrude");
    Slot& s = At(0);
    s.model = m;
    s.closed = true;
    Sut g2;
    s.mesh = std::move(got);
    s.boxed.reset(new std::vector<BoxPoly>());
    for (const geom::Facet& f : m) s.boxed->push_back(ToPolygon<BoxPoly>(f));
  }
  // The answer of a helper, asked about one of the two copies.
  template <typename F, typename G> geom::Pt Ask(const Slot& s, bool boxed, F f, G g) {
    std::unique_ptr<HomoPoint3> r;
    Twice([&] { if (boxed) r.reset(new HomoPoint3(g(*s.boxed))); else r.reset(new HomoPoint3(f(*s.mesh))); });
    geom::Pt p = FromPoint(*r);
    Sut z;
    r.reset();
    return p;
  }

  void Step(const Op& o) {
    op = &o;
    fm = static_cast<int>(static_cast<uint64_t>(o.arg(5)) % 6);
    Rng rng(static_cast<uint64_t>(o.arg(2)));
    Slot &a = At(0), &b = At(1);
    const bool boxed = o.arg(3) & 1;
    switch (o.code) {
      case kLoad: Load(rng); break;
      case kExtrude: Extrusion(rng); break;
      case kJoin:
        if (!a.mesh || !b.mesh || &a == &b || a.model.size() + b.model.size() > 150) break;
        {
          Sut s;
          a.mesh->insert(a.mesh->end(), b.mesh->begin(), b.mesh->end());
          a.boxed->insert(a.boxed->end(), b.boxed->begin(), b.boxed->end());
        }
        a.model.insert(a.model.end(), b.model.begin(), b.model.end());
        a.closed = a.closed && b.closed;
        break;
      case kReorder: {
        if (!a.mesh || a.model.empty()) break;
        size_t n = a.model.size();
        for (int t = 0; t < 8; ++t) {
          size_t i = rng.Below(n), j = rng.Below(n);
          if (i == j) continue;
          std::swap(a.model[i], a.model[j]);
          Sut s;
          std::swap((*a.mesh)[i], (*a.mesh)[j]);
          std::swap((*a.boxed)[i], (*a.boxed)[j]);
        }
        break;
      }
      case kCopy: {
        if (!b.mesh || &a == &b) break;
        a.model = b.model;
        a.closed = b.closed;
        Sut s;
        if (o.arg(3) & 2) a.mesh.reset(new std::vector<Poly>(*b.mesh));
        else { if (!a.mesh) a.mesh.reset(new std::vector<Poly>()); *a.mesh = *b.mesh; }
        a.boxed.reset(new std::vector<BoxPoly>(*b.boxed));
        break;
      }
      case kCentroid: {
        Q3 want;
        if (!a.mesh || !a.closed || a.model.size() > 60 || !Centroid(a.model, want)) break;
        geom::Pt got = Ask(a, boxed, [](const std::vector<Poly>& m) { return GetCentroid(m); }, [](const std::vector<BoxPoly>& m) { return GetCentroid(m); });
        ++checked;
        Probe("centroid");
        SIM_CHECK(Is(got, want), "mesh:centroid", "the centroid of %zu facets is %s, exactly %s", a.model.size(), geom::ToString(got).c_str(), Str(want).c_str());
        break;
      }
      case kTop: case kFarthest: {
        if (!a.mesh) break;
        int64_t v[3] = {rng.Range(-3, 3), rng.Range(-3, 3), rng.Range(-3, 3)};
        if (rng.Chance(1, 4)) for (int64_t& x : v) x *= int64_t(1) << 61;
        geom::Pt got = o.code == kTop
          ? Ask(a, boxed, [](const std::vector<Poly>& m) { return GetTopPoint(m); }, [](const std::vector<BoxPoly>& m) { return GetTopPoint(m); })
          : Ask(a, boxed, [&](const std::vector<Poly>& m) { return GetFarthest(m, Vector3(BigInt(v[0]), BigInt(v[1]), BigInt(v[2]))); },
                [&](const std::vector<BoxPoly>& m) { return GetFarthest(m, Vector3(BigInt(v[0]), BigInt(v[1]), BigInt(v[2]))); });
        size_t n = 0;
        Q3 best{0, 0, 0};
        cpp_rational far = 0;
        std::vector<Q3> all;
        for (const geom::Facet& f : a.model)
          for (const geom::Pt& p : f.pts) {
            Q3 q = Exact(p);
            cpp_rational s = q.x * v[0] + q.y * v[1] + q.z * v[2];
            if (o.code == kTop ? (!n || Top(best, q)) : (!n || far < s)) { best = q; far = s; }
            ++n;
          }
        ++checked;
        if (!n) { SIM_CHECK(geom::SignOf(got.w) == 0, "mesh:extreme", "an extreme point of nothing: %s", geom::ToString(got).c_str()); break; }
        if (o.code == kTop) {
          SIM_CHECK(Is(got, best), "mesh:extreme", "the top point is %s, exactly %s", geom::ToString(got).c_str(), Str(best).c_str());
          break;
        }
        SIM_CHECK(geom::SignOf(got.w) != 0, "mesh:extreme", "no farthest point");
        Q3 q = Exact(got);
        SIM_CHECK(q.x * v[0] + q.y * v[1] + q.z * v[2] == far, "mesh:extreme", "the farthest point is %s, but %s is farther", geom::ToString(got).c_str(), Str(best).c_str());
        bool member = false;
        uint64_t key = geom::PointKey(got);
        for (const geom::Facet& f : a.model) for (const geom::Pt& p : f.pts) member = member || geom::PointKey(p) == key;
        SIM_CHECK(member, "mesh:extreme", "the farthest point %s is no vertex", geom::ToString(got).c_str());
        break;
      }
      case kDrop: {
        if (!a.mesh || a.model.empty()) break;
        size_t i = rng.Below(a.model.size());
        a.model.erase(a.model.begin() + static_cast<long>(i));
        a.closed = false;
        Sut s;
        a.mesh->erase(a.mesh->begin() + static_cast<long>(i));
        a.boxed->erase(a.boxed->begin() + static_cast<long>(i));
        break;
      }
    }
    for (const Slot& s : slot) Unchanged(s, kNames[o.code - kOpFirstHarness]);
  }
};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5, 1, 0x80}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  const bool faults = rng.Chance(1, 2);
  int n = static_cast<int>(rng.Range(4, thorough ? 30 : 12));
  for (int i = 0; i < n; ++i) {
    int code = i == 0 ? rng.Pick({(int)kLoad, (int)kExtrude})
                      : rng.Pick({(int)kLoad, (int)kExtrude, (int)kExtrude, (int)kJoin, (int)kReorder, (int)kCopy, (int)kCentroid, (int)kCentroid, (int)kCentroid, (int)kTop, (int)kFarthest, (int)kFarthest, (int)kDrop});
    int64_t slot = i == 0 || rng.Chance(1, 2) ? 0 : rng.Range(0, kPool - 1);
    if (faults && rng.Chance(1, 2)) {
      int fm = rng.Pick({(int)kAfNth, (int)kAfNth, (int)kAfFrom, (int)kAfWindow, (int)kAfRandom, (int)kAfSize});
      plan.Add(code, {slot, rng.Range(0, kPool - 1), rng.Range(0, 1 << 30), rng.Range(0, 3), 0, fm, fm == kAfSize ? rng.Pick({1, 40, 100, 400}) : rng.Chance(1, 2) ? rng.Range(1, 20) : rng.Range(1, 800), rng.Range(1, 3)});
    } else {
      plan.Add(code, {slot, rng.Range(0, kPool - 1), rng.Range(0, 1 << 30), rng.Range(0, 3), 0});
    }
  }
}

void Execute(const Plan& plan) {
  Session z;
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness || op.code >= kEnd) continue;
    CurrentOp(static_cast<int>(oi));
    int before = z.checked;
    z.Step(op);
    if (z.checked > before) Signature(Mix(static_cast<uint64_t>(op.code) * 64 + static_cast<uint64_t>(op.arg(0)) % 64) ^ Mix(static_cast<uint64_t>(op.arg(2))));
    Event(Mix(static_cast<uint64_t>(z.checked) + z.fired_total));
  }
  for (const Slot& s : z.slot) State(geom::ChainHash(s.model));
  if (z.checked > 1) NonTrivial();
}

}  // namespace

const sim::Harness sim::harness = {
  "C18", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut GetCentroid, GetTopPoint, GetFarthest, Extrude, ConvexPolygonFactory, polygons, BigInt",
  "allocator replaced by the simulated heap with injected failures; oracle: boost rationals and chain hashes on the harness's own copy of the meshes",
  "non-trivial: at least two answers were compared with the exact ones",
  400000000, true, 8000, 150000, false};
