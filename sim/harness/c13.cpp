// C13: histories of pipeline edits and updates of the VTK boolean filter, with
// inputs that get damaged, emptied and repaired.
// sim-mode: asan
// sim-extra: vtk
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>

#include <vtkCallbackCommand.h>
#include <vtkCellArray.h>
#include <vtkExecutive.h>
#include <vtkPoints.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>
#include <vtkTrivialProducer.h>

#include "world.h"
#include "fan.h"
#include "walnut/vtkWalnutBooleanFilter.h"
#include "walnut/walnut_to_vtk_mesh.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kInput = kOpFirstHarness, kConnect, kDisconnect, kReconnect, kOperation, kExponent, kDamage, kHeal, kClear, kFeedback, kUpdate, kTouch, kExport, kEnd };
const char* const kNames[] = {"input", "connect", "disconnect", "reconnect", "operation", "exponent", "damage", "heal", "empty", "feedback", "update", "touch", "export"};
constexpr int kSlots = 4;
constexpr double kFar = 9007199254740992.0 - 17592186044416.0;  // 2^53 - 2^44

void Generate(Rng& rng, Plan& plan, bool thorough) {
  // slot, scene style, scene seed, kind, seed, invert, fraction bits, noise, cells, layout, offset
  int64_t style = rng.Pick({0, 0, 1, 2, 3}), scene = rng.Range(0, 1 << 30), fraction = rng.Pick({0, 0, 0, 2, 5, 20});
  bool boxes = rng.Chance(1, 4);
  // Far from the origin half-integers are half way between doubles, so one
  // vertex has several floating-point representations.
  int64_t far = rng.Chance(1, 3) ? rng.Range(1, 1 << 30) : 0;
  if (far) fraction = 0;
  auto input = [&](int64_t slot) {
    int64_t kind = far ? rng.Range(geom::kSolidKinds + 1, geom::kSolidKinds + 2) : boxes ? rng.Pick({0, 0, 4, 11, 10, 13, geom::kSolidKinds}) : rng.Range(0, geom::kSolidKinds);
    plan.Add(kInput, {slot, style, scene, kind, rng.Range(0, 1 << 30), rng.Chance(1, 10), !far && rng.Chance(1, 8) ? rng.Range(0, 30) : fraction,
                      !far && rng.Chance(1, 4) ? rng.Range(1, 20) : 0, rng.Range(0, 4), rng.Range(0, 63), far});
  };
  int n = static_cast<int>(rng.Range(1, 3));
  if (n == 1 && rng.Chance(1, 2)) n = 2;
  if (far) n = 3;
  for (int i = 0; i < n; ++i) { input(i); plan.Add(kConnect, {i}); }
  plan.Add(kOperation, {rng.Range(0, 2)});
  plan.Add(kUpdate, {rng.Range(0, 1 << 30)});
  int ops = static_cast<int>(rng.Range(2, thorough ? 40 : 14));
  for (int i = 0; i < ops; ++i) {
    int64_t slot = rng.Below(kSlots);
    switch (rng.Below(12)) {
      case 0: case 1: input(slot); break;
      case 2: plan.Add(kConnect, {slot}); break;
      case 3: plan.Add(kDisconnect, {rng.Range(0, 5)}); break;
      case 4: plan.Add(kReconnect, {rng.Range(1, 15), rng.Range(0, 1 << 20)}); break;
      case 5: case 6: plan.Add(kOperation, {rng.Range(0, 2)}); break;
      case 7: plan.Add(kExponent, {rng.Chance(1, 2) ? -1000 : rng.Pick({0, 0, -1, -2, -4, -10, -30})}); break;
      case 8: plan.Add(kDamage, {rng.Chance(2, 3) ? static_cast<int64_t>(rng.Below(2)) : slot, rng.Range(0, 1 << 30), rng.Range(0, 2)}); break;
      case 9: plan.Add(kHeal, {rng.Range(0, 3)}); break;
      case 10: plan.Add(rng.Chance(1, 2) ? kClear : kFeedback, {slot, rng.Range(0, 1 << 20)}); break;
      case 11: plan.Add(kTouch, {slot}); break;
    }
    if (rng.Chance(1, 4)) plan.Add(kExport, {rng.Range(4, 12), rng.Range(0, 1 << 30), rng.Range(1, 8)});
    if (rng.Chance(3, 5)) plan.Add(kUpdate, {rng.Range(0, 1 << 30)});
  }
  plan.Add(kUpdate, {rng.Range(0, 1 << 30)});
}

using V3 = std::array<double, 3>;

geom::Num Pow2(int k) {
  geom::Num r = geom::FromI64(1);
  for (; k > 60; k -= 60) r = geom::Mul(r, geom::FromI64(1ll << 60));
  return geom::Mul(r, geom::FromI64(1ll << k));
}
geom::Pt Exact(const V3& v) {
  int e[3], low = 0;
  int64_t m[3];
  for (int i = 0; i < 3; ++i) {
    m[i] = static_cast<int64_t>(std::ldexp(std::frexp(v[i], &e[i]), 53));
    e[i] -= 53;
    if (m[i]) low = std::min(low, e[i]);
  }
  geom::Num c[3];
  for (int i = 0; i < 3; ++i) c[i] = m[i] ? geom::Mul(geom::FromI64(m[i]), Pow2(e[i] - low)) : geom::FromI64(0);
  return {c[0], c[1], c[2], Pow2(-low)};
}
V3 Approx(const geom::Pt& p) {
  long double w = geom::ToLong(p.w);
  return {static_cast<double>(geom::ToLong(p.x) / w), static_cast<double>(geom::ToLong(p.y) / w), static_cast<double>(geom::ToLong(p.z) / w)};
}
V3 Sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
double Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 Cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double Len(const V3& a) { return std::sqrt(Dot(a, a)); }

// Distance from q to the segment and the triangle.
double ToSegment(const V3& q, const V3& a, const V3& b) {
  V3 d = Sub(b, a);
  double l = Dot(d, d), t = l > 0 ? Dot(Sub(q, a), d) / l : 0;
  t = std::max(0.0, std::min(1.0, t));
  return Len(Sub(q, {a[0] + t * d[0], a[1] + t * d[1], a[2] + t * d[2]}));
}
double ToTriangle(const V3& q, const V3& a, const V3& b, const V3& c) {
  double best = std::min(ToSegment(q, a, b), std::min(ToSegment(q, b, c), ToSegment(q, c, a)));
  V3 n = Cross(Sub(b, a), Sub(c, a));
  double l = Len(n);
  if (!(l > 0)) return best;
  double h = Dot(Sub(q, a), n) / l;
  V3 p = {q[0] - h * n[0] / l, q[1] - h * n[1] / l, q[2] - h * n[2] / l};
  if (Dot(Cross(Sub(b, a), Sub(p, a)), n) >= 0 && Dot(Cross(Sub(c, b), Sub(p, b)), n) >= 0 && Dot(Cross(Sub(a, c), Sub(p, c)), n) >= 0)
    best = std::min(best, std::fabs(h));
  return best;
}
double SolidAngle(const V3& q, const V3& a, const V3& b, const V3& c) {
  V3 u = Sub(a, q), v = Sub(b, q), w = Sub(c, q);
  double lu = Len(u), lv = Len(v), lw = Len(w);
  return 2 * std::atan2(Dot(u, Cross(v, w)), lu * lv * lw + Dot(u, v) * lw + Dot(v, w) * lu + Dot(w, u) * lv);
}

// An axis-parallel prism. Its caps are not convex but monotone along every axis
// (0), triangles with a slope of 1/2 (1), or rectangles (2).
geom::Mesh Prism(int shape, uint64_t seed, bool invert) {
  Rng rng(seed ^ 0x9b15);
  int64_t g = rng.Range(3, 9), n = rng.Range(1, 3);
  using P2 = std::array<int64_t, 2>;
  std::vector<P2> v;
  auto chain = [&](P2 a, P2 b) {
    std::vector<int64_t> c[2];
    for (size_t k = 0; k < 2; ++k) {
      int64_t lo = std::min(a[k], b[k]) + 1, hi = std::max(a[k], b[k]) - 1;
      for (int64_t i = 0; i < n; ++i) c[k].push_back(rng.Range(lo, hi));
      std::sort(c[k].begin(), c[k].end());
      if (b[k] < a[k]) std::reverse(c[k].begin(), c[k].end());
    }
    v.push_back(a);
    for (size_t i = 0; i < c[0].size(); ++i) {
      P2 p{c[0][i], c[1][i]};
      if (p != v.back()) v.push_back(p);
    }
  };
  if (shape == 0) {
    chain({-g, 0}, {0, -g}); chain({0, -g}, {g, 0}); chain({g, 0}, {0, g}); chain({0, g}, {-g, 0});
  } else if (shape == 1) {
    int64_t a = rng.Range(2, 7), x = rng.Range(-7, 0), y = rng.Range(-5, 0);
    v = {{x, y}, {x + 2 * a, y}, {x, y + a}};
    if (rng.Chance(1, 2)) v = {{-x, -y}, {-x - 2 * a, -y}, {-x, -y - a}};
    if (rng.Chance(1, 2)) {
      for (P2& p : v) std::swap(p[0], p[1]);
      std::reverse(v.begin(), v.end());
    }
  } else {
    int64_t x = rng.Range(-6, 2), y = rng.Range(-6, 2), w = rng.Range(2, 9), h = rng.Range(2, 9);
    v = {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
  }
  int64_t z0 = rng.Range(-5, 2), z1 = z0 + rng.Range(1, 6);
  size_t axis = rng.Below(3);
  int64_t off[3] = {rng.Range(-4, 4), rng.Range(-4, 4), rng.Range(-4, 4)};
  auto at = [&](const P2& p, int64_t z) {
    int64_t c[3];
    c[axis] = z; c[(axis + 1) % 3] = p[0]; c[(axis + 2) % 3] = p[1];
    return geom::Pt{geom::FromI64(c[0] + off[0]), geom::FromI64(c[1] + off[1]), geom::FromI64(c[2] + off[2]), geom::FromI64(1)};
  };
  geom::Mesh m;
  geom::Facet top, bottom;
  for (size_t i = 0; i < v.size(); ++i) {
    const P2 &a = v[i], &b = v[(i + 1) % v.size()];
    top.pts.push_back(at(a, z1));
    bottom.pts.push_back(at(a, z0));
    geom::Facet side;
    side.pts = {at(a, z0), at(b, z0), at(b, z1), at(a, z1)};
    m.push_back(side);
  }
  std::reverse(bottom.pts.begin(), bottom.pts.end());
  m.push_back(top);
  m.push_back(bottom);
  if (invert) for (geom::Facet& f : m) std::reverse(f.pts.begin(), f.pts.end());
  return m;
}

using Faces = std::vector<std::vector<V3>>;

struct Slot {
  Faces faces;          // as intended
  Faces shown;          // as put into the data set, perhaps damaged
  int cells = 0, layout = 0;
  bool whole = false;   // cells must stay whole
  bool rough = false;   // the faces need not be planar
  vtkSmartPointer<vtkPolyData> data;
  vtkSmartPointer<vtkTrivialProducer> producer;
};

struct Pipeline {
  Slot slot[kSlots];
  std::vector<int> conns;
  vtkSmartPointer<vtkWalnutBooleanFilter> filter;
  int operation = 0, exponent = std::numeric_limits<int>::min();
  int errors = 0;
  vtkSmartPointer<vtkCallbackCommand> observer;
  bool failed = false, stale = false;

  static void OnError(vtkObject*, unsigned long, void* client, void*) { ++*static_cast<int*>(client); }

  Pipeline() {
    observer = vtkSmartPointer<vtkCallbackCommand>::New();
    observer->SetCallback(OnError);
    observer->SetClientData(&errors);
    filter = vtkSmartPointer<vtkWalnutBooleanFilter>::New();
    filter->AddObserver("ErrorEvent", observer);
    filter->GetExecutive()->AddObserver("ErrorEvent", observer);
    for (Slot& s : slot) {
      s.data = vtkSmartPointer<vtkPolyData>::New();
      s.producer = vtkSmartPointer<vtkTrivialProducer>::New();
      s.producer->SetOutput(s.data);
    }
  }

  // Writes slot.shown into the data set of the slot.
  void Write(Slot& s, uint64_t seed) {
    Host h;
    Rng rng(seed);
    bool shared = !(s.layout & 1), fresh = s.layout & 4, junk = s.layout & 8, mixed = s.layout & 16, joined = s.layout & 32;
    bool narrow = s.layout & 2;
    for (const auto& f : s.shown) for (const V3& p : f) for (double c : p) if (static_cast<double>(static_cast<float>(c)) != c) narrow = false;
    auto points = vtkSmartPointer<vtkPoints>::New();
    points->SetDataType(narrow ? VTK_FLOAT : VTK_DOUBLE);
    std::map<V3, vtkIdType> ids;
    auto id = [&](const V3& p) {
      if (junk && rng.Chance(1, 5)) points->InsertNextPoint(rng.Range(-9, 9) + 0.5, 7, rng.Range(-9, 9));
      if (shared) {
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
      }
      vtkIdType r = points->InsertNextPoint(p[0], p[1], p[2]);
      ids[p] = r;
      return r;
    };
    auto polys = vtkSmartPointer<vtkCellArray>::New();
    auto strips = vtkSmartPointer<vtkCellArray>::New();
    auto add = [](vtkCellArray* a, const std::vector<vtkIdType>& c) { a->InsertNextCell(static_cast<vtkIdType>(c.size()), c.data()); };
    std::vector<std::vector<vtkIdType>> loops, tris;
    for (const auto& f : s.shown) {
      std::vector<vtkIdType> l;
      for (const V3& p : f) l.push_back(id(p));
      std::rotate(l.begin(), l.begin() + static_cast<long>(rng.Below(l.size())), l.end());
      loops.push_back(l);
    }
    for (size_t i = loops.size(); i > 1; --i) std::swap(loops[i - 1], loops[rng.Below(i)]);
    // Cells: 0 polygons, 1 triangles, 2 strips within a face, 3 strips across
    // faces, 4 any.
    for (const auto& l : loops) {
      int how = s.cells == 4 ? static_cast<int>(rng.Below(4)) : s.cells;
      if (mixed && rng.Chance(1, 4)) how = static_cast<int>(rng.Below(4));
      // The triangles of a fan overlap in faces that are not convex.
      if (s.whole) how = 0;
      if (how == 0) { add(polys, l); continue; }
      if (how == 2) {
        // v0 v1 vn-1 v2 vn-2 ...
        std::vector<vtkIdType> strip = {l[0]};
        for (size_t a = 1, b = l.size() - 1; a <= b;) {
          strip.push_back(l[a++]);
          if (a <= b) strip.push_back(l[b--]);
        }
        add(strips, strip);
        continue;
      }
      for (size_t i = 1; i + 1 < l.size(); ++i) {
        std::vector<vtkIdType> t = {l[0], l[i], l[i + 1]};
        if (how == 1) add(polys, t); else tris.push_back(t);
      }
    }
    // Greedy strips over the remaining triangles.
    std::vector<bool> used(tris.size());
    std::vector<std::vector<vtkIdType>> all;
    for (size_t i = 0; i < tris.size(); ++i) {
      if (used[i]) continue;
      used[i] = true;
      std::vector<vtkIdType> strip = tris[i];
      size_t limit = 3 + rng.Below(12);
      while (strip.size() < limit) {
        size_t n = strip.size();
        // Triangle n-2 uses the last two vertices in this direction.
        vtkIdType a = strip[n - 2], b = strip[n - 1];
        if ((n - 2) & 1) std::swap(a, b);
        bool found = false;
        for (size_t j = 0; j < tris.size() && !found; ++j) {
          if (used[j]) continue;
          for (int k = 0; k < 3; ++k)
            if (tris[j][static_cast<size_t>(k)] == a && tris[j][static_cast<size_t>((k + 1) % 3)] == b) {
              strip.push_back(tris[j][static_cast<size_t>((k + 2) % 3)]);
              used[j] = found = true;
              break;
            }
        }
        if (!found) break;
      }
      if (strip.size() > 3) Probe("long-strips");
      if (joined && !all.empty() && rng.Chance(1, 3)) {
        // Connect the strips by degenerate triangles.
        std::vector<vtkIdType>& t = all.back();
        t.push_back(t.back());
        if (!(t.size() & 1)) t.push_back(t.back());
        t.push_back(strip[0]);
        t.insert(t.end(), strip.begin(), strip.end());
        Probe("joined-strips");
      } else {
        all.push_back(strip);
      }
    }
    for (const auto& t : all) add(strips, t);
    if (fresh) {
      s.data = vtkSmartPointer<vtkPolyData>::New();
      s.producer->SetOutput(s.data);
    }
    s.data->SetPoints(points);
    s.data->SetPolys(polys);
    s.data->SetStrips(strips);
    if (junk) {
      auto verts = vtkSmartPointer<vtkCellArray>::New();
      if (points->GetNumberOfPoints()) { vtkIdType v = 0; verts->InsertNextCell(1, &v); }
      s.data->SetVerts(verts);
    }
    s.data->Modified();
  }

  void Define(const Op& op) {
    Host h;
    Slot& s = slot[static_cast<uint64_t>(op.arg(0)) % kSlots];
    geom::Scene scene = geom::MakeScene(static_cast<uint64_t>(op.arg(2)), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
    scene.scale_bits %= 9;
    scene.t_bits %= 8;
    int kind = static_cast<int>(static_cast<uint64_t>(op.arg(3)) % (geom::kSolidKinds + 3));
    geom::Mesh m = kind < geom::kSolidKinds ? geom::MakeSolid(kind, static_cast<uint64_t>(op.arg(4)), scene, op.arg(5) & 1)
                                            : Prism(kind - geom::kSolidKinds, static_cast<uint64_t>(op.arg(4)), op.arg(5) & 1);
    if (m.size() > 120) return;
    double unit = std::ldexp(1.0, -static_cast<int>(static_cast<uint64_t>(op.arg(6)) % 31));
    int64_t noise = op.arg(7);
    // Large facets have planes with large coefficients.
    if (op.arg(10)) unit *= static_cast<double>(1 + 2 * ((op.arg(10) >> 3) % 300000));
    Rng rng(static_cast<uint64_t>(op.arg(4)) ^ 0x9015e);
    std::map<V3, V3> moved;
    bool rounded = false;
    s.faces.clear();
    for (const geom::Facet& f : m) {
      std::vector<V3> face;
      for (const geom::Pt& p : f.pts) {
        V3 v = Approx(p);
        for (double& c : v) c *= unit;
        if (op.arg(10)) {
          for (size_t k = 0; k < 3; ++k) {
            double to = v[k] + kFar + static_cast<double>((op.arg(10) >> (k * 6)) & 63);
            if (to - kFar - static_cast<double>((op.arg(10) >> (k * 6)) & 63) != v[k]) rounded = true;
            v[k] = to;
          }
        }
        if (noise) {
          auto it = moved.find(v);
          if (it == moved.end()) {
            V3 to = v;
            double size = std::ldexp(unit, -static_cast<int>(noise));
            for (double& c : to) c += size * (static_cast<double>(rng.Range(-1000, 1000)) / 1000.0);
            it = moved.emplace(v, to).first;
          }
          v = it->second;
        }
        face.push_back(v);
      }
      s.faces.push_back(face);
    }
    s.rough = noise != 0 || rounded;
    s.whole = kind == geom::kSolidKinds;
    s.cells = static_cast<int>(static_cast<uint64_t>(op.arg(8)) % 5);
    s.layout = static_cast<int>(op.arg(9) & 63);
    s.shown = s.faces;
    Write(s, static_cast<uint64_t>(op.arg(4)));
    Signature(Mix(op.arg(4) ^ Mix(op.arg(3))));
  }

  // The triangles the filter has to work with, after quantisation.
  geom::Mesh Quantized(const Slot& s, double& slack, std::vector<std::array<V3, 3>>& tris, double& largest) const {
    geom::Mesh r;
    bool shifted = false, large = false;
    for (const auto& face : s.shown) {
      std::vector<V3> q = face;
      for (V3& p : q)
        for (double& c : p) {
          if (exponent > -1000) {
            double t = std::ldexp(c, -exponent), v = std::floor(t);
            if (t - v >= 0.5) ++v;
            v = std::ldexp(v, exponent);
            if (v != c) shifted = true;
            c = v;
          }
          largest = std::max(largest, std::fabs(c));
        }
      if (q.size() > 3) large = true;
      for (size_t i = 1; i + 1 < q.size(); ++i) {
        tris.push_back({q[0], q[i], q[i + 1]});
        geom::Facet f;
        f.pts = {Exact(q[0]), Exact(q[i]), Exact(q[i + 1])};
        if (!geom::PlaneOf(f.pts[0], f.pts[1], f.pts[2], f.plane)) continue;
        f.drop = geom::SignOf(f.plane.a) ? 0 : geom::SignOf(f.plane.b) ? 1 : 2;
        r.push_back(f);
      }
    }
    // The filter may cut faces that are not planar along other diagonals.
    if (large && shifted) slack = std::max(slack, 2 * std::ldexp(1.0, exponent));
    if (large && s.rough) slack = 1e300;
    return r;
  }

  void Check(uint64_t seed) {
    vtkPolyData* out = filter->GetOutput();
    Host h;
    // The pipeline refuses to run without a required input.
    if (conns.empty()) return;
    std::vector<geom::Mesh> in;
    std::vector<std::array<V3, 3>> tris;
    double slack = 0, largest = 0;
    bool open = false;
    for (int c : conns) {
      in.push_back(Quantized(slot[c], slack, tris, largest));
      if (geom::BoundaryHash(in.back())) open = true;
    }
    if (errors) {
      SIM_CHECK(open, "vtk:error", "the update reports an error although all %zu inputs are closed", conns.size());
      Probe("failed-updates");
      failed = true;
      return;
    }
    // Closed by point ids.
    std::map<std::pair<vtkIdType, vtkIdType>, int> edges;
    std::vector<std::vector<V3>> faces;
    vtkIdType n;
    const vtkIdType* c;
    vtkCellArray* cells = out->GetPolys();
    SIM_CHECK(out->GetNumberOfCells() == cells->GetNumberOfCells(), "vtk:cells", "%lld cells, %lld of them polygons", static_cast<long long>(out->GetNumberOfCells()), static_cast<long long>(cells->GetNumberOfCells()));
    uint64_t total = 0;
    for (cells->InitTraversal(); cells->GetNextCell(n, c);) {
      SIM_CHECK(n >= 3, "vtk:cell", "a polygon with %lld vertices", static_cast<long long>(n));
      std::vector<V3> face;
      for (vtkIdType i = 0; i < n; ++i) {
        SIM_CHECK(c[i] >= 0 && c[i] < out->GetNumberOfPoints(), "vtk:cell", "point id %lld of %lld", static_cast<long long>(c[i]), static_cast<long long>(out->GetNumberOfPoints()));
        vtkIdType a = c[i], b = c[(i + 1) % n];
        if (a < b) ++edges[{a, b}]; else if (b < a) --edges[{b, a}];
        V3 p;
        out->GetPoint(c[i], p.data());
        face.push_back(p);
      }
      faces.push_back(face);
      ++total;
    }
    for (auto& e : edges) SIM_CHECK(e.second == 0, "vtk:open", "%d more half-edges from point %lld to %lld than back (%zu inputs%s, %zu cells)", e.second, static_cast<long long>(e.first.first), static_cast<long long>(e.first.second), conns.size(), open ? ", open" : "", faces.size());
    if (open) { Probe("open-input-not-needed"); return; }
    if (failed) Probe("recovered");
    Probe("updates");
    if (faces.size()) NonTrivial();
    // Membership of points away from all surfaces.
    double tol = std::max(slack, 2e-6 * largest);
    std::vector<geom::Solid> solids;
    for (const geom::Mesh& m : in) solids.emplace_back(m);
    std::vector<const geom::Mesh*> ms;
    for (const geom::Mesh& m : in) if (!m.empty()) ms.push_back(&m);
    Rng rng(seed);
    int decided = 0;
    uint64_t sum = 0;
    for (int i = 0; i < 30 && !ms.empty() && slack < 1e200; ++i) {
      int bits = static_cast<int>(rng.Pick({2, 4, 6, 9, 12}));
      geom::Pt p;
      switch (rng.Below(3)) {
        case 0: p = geom::RandomPoint(ms, rng); break;
        case 1: p = geom::NearVertex(*ms[rng.Below(ms.size())], rng, bits); break;
        default: p = geom::NearFacet(*ms[rng.Below(ms.size())], rng, bits, rng.Chance(1, 2)); break;
      }
      V3 q = Approx(p);
      bool near = false;
      for (auto& t : tris) if (ToTriangle(q, t[0], t[1], t[2]) < tol) { near = true; break; }
      if (near) continue;
      geom::Pt e = Exact(q);
      bool want = operation == 1;
      std::vector<int> w(in.size());
      bool ok = true;
      for (size_t k = 0; k < in.size() && ok; ++k) ok = solids[k].Winding(e, w[k]);
      if (!ok) continue;
      for (size_t k = 0; k < in.size(); ++k) {
        bool inside = w[k] > 0;
        if (operation == 0) want = want || inside;
        else if (operation == 1) want = want && inside;
        else want = k == 0 ? inside : want && !inside;
      }
      double angle = 0;
      for (const auto& f : faces)
        for (size_t k = 1; k + 1 < f.size(); ++k) angle += SolidAngle(q, f[0], f[k], f[k + 1]);
      double turns = angle / (4 * M_PI);
      int got = static_cast<int>(std::lround(turns));
      SIM_CHECK(got == static_cast<int>(want), "vtk:membership", "operation %d on %zu inputs: the output winds %.3f times around (%.17g, %.17g, %.17g), expected %d (first winding numbers %d %d)", operation, in.size(), turns, q[0], q[1], q[2], static_cast<int>(want), w[0], w.size() > 1 ? w[1] : 0);
      ++decided;
      sum = sum * 2 + static_cast<uint64_t>(want);
    }
    Probe("membership-queries", static_cast<uint64_t>(decided));
    State(Mix(sum ^ Mix(seed)));
    Event(Mix(sum ^ (total ? 1 : 0)));
  }
};

void Execute(const Plan& plan) {
  std::unique_ptr<Pipeline> p;
  { Sut s; p.reset(new Pipeline); }
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    Slot& s = p->slot[static_cast<uint64_t>(op.arg(0)) % kSlots];
    switch (op.code) {
      case kInput: p->Define(op); break;
      case kConnect: {
        if (p->conns.size() >= 4) break;
        Sut g;
        p->filter->AddInputConnection(s.producer->GetOutputPort());
        p->conns.push_back(static_cast<int>(static_cast<uint64_t>(op.arg(0)) % kSlots));
        break;
      }
      case kDisconnect: {
        if (p->conns.empty()) break;
        size_t i = static_cast<uint64_t>(op.arg(0)) % p->conns.size();
        Sut g;
        p->filter->RemoveInputConnection(0, static_cast<int>(i));
        p->conns.erase(p->conns.begin() + static_cast<long>(i));
        break;
      }
      case kReconnect: {
        Sut g;
        p->filter->RemoveAllInputConnections(0);
        p->conns.clear();
        Rng rng(static_cast<uint64_t>(op.arg(1)));
        std::vector<int> order;
        for (int i = 0; i < kSlots; ++i) if (op.arg(0) >> i & 1) order.push_back(i);
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.Below(i)]);
        for (int i : order) { p->filter->AddInputConnection(p->slot[i].producer->GetOutputPort()); p->conns.push_back(i); }
        break;
      }
      case kOperation: {
        int o = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % 3);
        Sut g;
        if (o == 0) p->filter->SetOperationToUnion();
        else if (o == 1) p->filter->SetOperationToIntersection();
        else p->filter->SetOperationToDifference();
        p->operation = o;
        SIM_CHECK(p->filter->GetOperation() == o, "vtk:operation", "set %d, got %d", o, static_cast<int>(p->filter->GetOperation()));
        break;
      }
      case kExponent: {
        int e = op.arg(0) <= -1000 ? std::numeric_limits<int>::min() : static_cast<int>(std::min<int64_t>(0, op.arg(0)));
        Sut g;
        p->filter->SetMinExponent(e);
        p->exponent = e;
        break;
      }
      case kDamage: {
        if (s.shown.empty()) break;
        Rng rng(static_cast<uint64_t>(op.arg(1)));
        size_t i = rng.Below(s.shown.size());
        int how = static_cast<int>(static_cast<uint64_t>(op.arg(2)) % 3);
        if (how == 0) s.shown.erase(s.shown.begin() + static_cast<long>(i));
        else if (how == 1) std::reverse(s.shown[i].begin(), s.shown[i].end());
        else s.shown.push_back(s.shown[i]);
        FaultFired(how == 0 ? "lost-cell" : how == 1 ? "flipped-cell" : "duplicated-cell");
        p->Write(s, static_cast<uint64_t>(op.arg(1)));
        break;
      }
      case kHeal: {
        if (s.shown == s.faces) break;
        s.shown = s.faces;
        p->Write(s, oi);
        break;
      }
      case kClear: {
        s.shown.clear();
        s.faces.clear();
        if (op.arg(1) & 1) { Sut g; s.data->Initialize(); s.data->Modified(); }
        else p->Write(s, oi);
        Probe("emptied-inputs");
        break;
      }
      case kFeedback: {
        // The current output becomes an input.
        if (p->errors || p->stale || p->conns.empty()) break;
        vtkPolyData* out = p->filter->GetOutput();
        if (!out || out->GetNumberOfCells() > 60) break;
        Faces f;
        vtkIdType n;
        const vtkIdType* c;
        for (out->GetPolys()->InitTraversal(); out->GetPolys()->GetNextCell(n, c);) {
          std::vector<V3> face;
          for (vtkIdType i = 0; i < n; ++i) { V3 q; out->GetPoint(c[i], q.data()); face.push_back(q); }
          f.push_back(face);
        }
        s.faces = s.shown = f;
        s.rough = true;
        s.whole = false;
        s.cells = static_cast<int>(op.arg(1) % 2);
        p->Write(s, static_cast<uint64_t>(op.arg(1)));
        Probe("fed-back-outputs");
        break;
      }
      case kTouch: { Sut g; if (op.arg(0) & 1) p->filter->Modified(); else s.data->Modified(); break; }
      case kExport: {
        // A connected mesh of the library's own, with a vertex that has several
        // floating-point representations.
        Sut g;
        Fan fan;
        BuildFan(fan, static_cast<int>(4 + static_cast<uint64_t>(op.arg(0)) % 9), static_cast<uint64_t>(op.arg(1)), 1 + static_cast<int>(static_cast<uint64_t>(op.arg(2)) % 8));
        Rng rng(static_cast<uint64_t>(op.arg(1)) ^ 0xfa);
        for (size_t i = fan.tris.size(); i > 1; --i) std::swap(fan.tris[i - 1], fan.tris[rng.Below(i)]);
        vtkSmartPointer<vtkPolyData> out = WalnutToVTKMesh(fan.tris);
        Host h;
        vtkIdType n;
        const vtkIdType* c;
        std::map<std::pair<vtkIdType, vtkIdType>, int> edges;
        std::set<vtkIdType> used;
        int cells = 0;
        for (out->GetPolys()->InitTraversal(); out->GetPolys()->GetNextCell(n, c); ++cells) {
          SIM_CHECK(n == 3, "vtk:export", "a triangle became a cell of %lld points", static_cast<long long>(n));
          for (int k = 0; k < 3; ++k) {
            SIM_CHECK(c[k] >= 0 && c[k] < out->GetNumberOfPoints(), "vtk:export", "point id %lld of %lld", static_cast<long long>(c[k]), static_cast<long long>(out->GetNumberOfPoints()));
            used.insert(c[k]);
            if (c[k] < c[(k + 1) % 3]) ++edges[{c[k], c[(k + 1) % 3]}]; else --edges[{c[(k + 1) % 3], c[k]}];
          }
        }
        SIM_CHECK(cells == fan.n, "vtk:export", "%d of %d triangles exported", cells, fan.n);
        size_t open = 0;
        for (auto& e : edges) if (e.second) ++open;
        SIM_CHECK(used.size() == static_cast<size_t>(fan.n) + 1 && open == static_cast<size_t>(fan.n), "vtk:export",
                  "a fan of %d triangles has %zu points and %zu open edges after the export", fan.n, used.size(), open);
        Probe("exported-fans");
        Signature(Mix(op.arg(1) ^ 0xfa));
        break;
      }
      case kUpdate: {
        // Faces in general position make the work grow with their cube.
        size_t work = 0;
        for (int c : p->conns) for (const auto& f : p->slot[c].shown) work += p->slot[c].rough ? 2 * (f.size() - 2) : 1;
        if (work > 160) { Probe("too-large"); p->stale = true; break; }
        p->stale = false;
        p->errors = 0;
        { Sut g; p->filter->Update(); }
        p->Check(static_cast<uint64_t>(op.arg(0)));
        Signature(Mix(static_cast<uint64_t>(p->operation) ^ 0x55));
        break;
      }
    }
  }
  Sut g;
  p.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C13", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "vtkWalnutBooleanFilter, VTKToWalnutMesh, SaveWalnutMeshToVTK and the whole walnut library; VTK pipeline, producers and poly data (real, not instrumented)",
  "data sets made by the simulator, with lost, flipped and duplicated cells; oracle: exact winding numbers of the quantised inputs, solid angles of the output",
  "a run edits, damages and repairs the inputs of one filter, changes its settings and updates it; distinct by seeds of the executed operations",
  6000000000ull, false, 2500, 60000, true};
