// C09: streaming decomposition of vertex loops through reused factories, with
// consumers that throw, allocations that fail and vertex data whose copies
// throw. Oracle: boundary chains and an independent convexity check.
// sim-mode: asan
#include <algorithm>
#include <list>
#include <memory>
#include <new>
#include <set>
#include <vector>

#include "glue.h"
#include "walnut/convex_polygon_factory.h"
#include "walnut/point3_with_vertex_data.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kLoop = kOpFirstHarness, kReset, kEnd };
const char* const kNames[] = {"loop", "new_factory"};

constexpr int kKinds = 13;
const char* const kKindNames[kKinds] = {"triangle", "convex", "star", "x-monotone", "xy-monotone", "polyomino", "two-opt",
                                        "comb", "spiral", "self-crossing", "collinear", "tiny", "non-planar"};
enum Fault { kNoFault, kThrowEmit, kAlloc, kDataCopy, kNest, kFaults };

// loop: factory 0-2, kind, size, shape seed, embedding seed, flags, container
// and entry point, fault, fault position, fault extra
void AddLoop(Rng& rng, Plan& plan, bool thorough) {
  int64_t fault = rng.Chance(1, 3) ? rng.Range(1, kFaults - 1) : 0;
  plan.Add(kLoop, {rng.Range(0, 2), rng.Range(0, kKinds - 1), rng.Range(3, thorough ? 40 : 16), rng.Range(0, 1 << 30), rng.Range(0, 1 << 30),
                   rng.Chance(1, 2) ? 0 : rng.Range(0, 31), rng.Range(0, 7), fault, rng.Range(0, (1 << 20) - 1), rng.Range(0, 7)});
}

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  int n = static_cast<int>(rng.Range(1, thorough ? 40 : 14));
  for (int i = 0; i < n; ++i) {
    AddLoop(rng, plan, thorough);
    if (rng.Chance(1, 20)) plan.Add(kReset, {rng.Range(0, 2)});
  }
}

// ------------------------------------------------------------ loop shapes
struct P2 { int64_t x, y; };
bool operator==(const P2& a, const P2& b) { return a.x == b.x && a.y == b.y; }
int Turn(const P2& a, const P2& b, const P2& c) {
  __int128 v = static_cast<__int128>(b.x - a.x) * (c.y - a.y) - static_cast<__int128>(b.y - a.y) * (c.x - a.x);
  return v > 0 ? 1 : v < 0 ? -1 : 0;
}
bool OnSeg(const P2& a, const P2& b, const P2& p) {
  return Turn(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
bool Meet(const P2& a, const P2& b, const P2& c, const P2& d) {
  int t1 = Turn(a, b, c), t2 = Turn(a, b, d), t3 = Turn(c, d, a), t4 = Turn(c, d, b);
  if (t1 * t2 < 0 && t3 * t4 < 0) return true;
  return OnSeg(a, b, c) || OnSeg(a, b, d) || OnSeg(c, d, a) || OnSeg(c, d, b);
}
// A simple polygon (no repeated vertices, no spikes).
bool Simple(const std::vector<P2>& p) {
  size_t n = p.size();
  if (n < 3) return false;
  bool area = false;
  for (size_t i = 0; i < n; ++i) {
    const P2 &a = p[i], &b = p[(i + 1) % n], &c = p[(i + 2) % n];
    if (a == b) return false;
    int t = Turn(a, b, c);
    if (t) area = true;
    if (t == 0 && !OnSeg(a, c, b)) return false;  // spike
    for (size_t j = i + 2; j < n; ++j) {
      if (i == 0 && j == n - 1) continue;
      if (Meet(a, b, p[j], p[(j + 1) % n])) return false;
    }
  }
  return area;
}
__int128 Area2(const std::vector<P2>& p) {
  __int128 s = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    const P2 &a = p[i], &b = p[(i + 1) % p.size()];
    s += static_cast<__int128>(a.x) * b.y - static_cast<__int128>(a.y) * b.x;
  }
  return s;
}
std::vector<P2> Hull(std::vector<P2> v, bool keep_collinear) {
  auto lt = [](const P2& a, const P2& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; };
  std::sort(v.begin(), v.end(), lt);
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.size() < 3) return v;
  std::vector<P2> h;
  auto pass = [&](auto b, auto e) {
    size_t base = h.size();
    for (auto i = b; i != e; ++i) {
      while (h.size() >= base + 2) {
        int t = Turn(h[h.size() - 2], h.back(), *i);
        if (t < 0 || (t == 0 && !keep_collinear)) h.pop_back(); else break;
      }
      h.push_back(*i);
    }
    h.pop_back();
  };
  pass(v.begin(), v.end());
  pass(v.rbegin(), v.rend());
  return h;
}
std::vector<P2> Polyomino(Rng& rng, int n) {
  std::set<std::pair<int64_t, int64_t>> cells{{0, 0}};
  for (int t = 0; t < n * 4 && static_cast<int>(cells.size()) < n; ++t) {
    auto it = cells.begin();
    std::advance(it, rng.Below(cells.size()));
    static const int d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    int k = static_cast<int>(rng.Below(4));
    cells.insert({it->first + d[k][0], it->second + d[k][1]});
  }
  // Boundary with the cells on the left.
  std::map<std::pair<int64_t, int64_t>, std::vector<std::pair<int64_t, int64_t>>> next;
  size_t edges = 0;
  for (auto& c : cells) {
    int64_t x = c.first, y = c.second;
    auto add = [&](int64_t nx, int64_t ny, int64_t ax, int64_t ay, int64_t bx, int64_t by) {
      if (!cells.count({nx, ny})) { next[{ax, ay}].push_back({bx, by}); ++edges; }
    };
    add(x, y - 1, x, y, x + 1, y);
    add(x + 1, y, x + 1, y, x + 1, y + 1);
    add(x, y + 1, x + 1, y + 1, x, y + 1);
    add(x - 1, y, x, y + 1, x, y);
  }
  std::vector<P2> r;
  auto cur = next.begin()->first;
  for (size_t i = 0; i < edges; ++i) {
    r.push_back({cur.first, cur.second});
    if (next[cur].size() != 1) return {};
    cur = next[cur][0];
  }
  // Keep some collinear vertices.
  std::vector<P2> out;
  for (size_t i = 0; i < r.size(); ++i) {
    if (Turn(r[(i + r.size() - 1) % r.size()], r[i], r[(i + 1) % r.size()]) == 0 && rng.Chance(2, 3)) continue;
    out.push_back(r[i]);
  }
  return out;
}
std::vector<P2> Shape(int kind, int n, uint64_t seed) {
  Rng rng(seed ^ 0xc09);
  int64_t g = rng.Pick({3, 5, 10, 100, 1000});
  auto pt = [&]() { return P2{rng.Range(-g, g), rng.Range(-g, g)}; };
  std::vector<P2> v;
  switch (kind) {
    case 1: {
      for (int i = 0; i < n + 4; ++i) v.push_back(pt());
      return Hull(v, rng.Chance(1, 3));
    }
    case 2: {
      g = std::max<int64_t>(g, 20);
      for (int i = 0; i < n; ++i) { P2 p = pt(); if (p.x || p.y) v.push_back(p); }
      auto half = [](const P2& p) { return p.y < 0 || (p.y == 0 && p.x < 0); };
      std::sort(v.begin(), v.end(), [&](const P2& a, const P2& b) {
        if (half(a) != half(b)) return half(a) < half(b);
        int t = Turn({0, 0}, a, b);
        if (t) return t > 0;
        return a.x * a.x + a.y * a.y < b.x * b.x + b.y * b.y;
      });
      std::vector<P2> r;
      for (auto& p : v) if (r.empty() || Turn({0, 0}, r.back(), p) != 0 || half(r.back()) != half(p)) r.push_back(p);
      return r;
    }
    case 3: {
      std::vector<P2> top, bot;
      int64_t x = 0;
      for (int i = 0; i < n; ++i) {
        x += rng.Range(0, 2);
        if (rng.Chance(1, 2)) top.push_back({x, rng.Range(1, g)}); else bot.push_back({x, rng.Range(-g, rng.Chance(1, 4) ? 0 : -1)});
      }
      v.push_back({-1 - rng.Range(0, 1), 0});
      for (auto& p : bot) v.push_back(p);
      v.push_back({x + 1, 0});
      for (size_t i = top.size(); i-- > 0;) v.push_back(top[i]);
      return v;
    }
    case 4: {
      // Monotone chains between left, bottom, right, top.
      auto chain = [&](P2 a, P2 b) {
        std::vector<int64_t> xs, ys;
        int k = static_cast<int>(rng.Below(n / 3 + 2));
        for (int i = 0; i < k; ++i) { xs.push_back(rng.Range(std::min(a.x, b.x), std::max(a.x, b.x))); ys.push_back(rng.Range(std::min(a.y, b.y), std::max(a.y, b.y))); }
        std::sort(xs.begin(), xs.end());
        std::sort(ys.begin(), ys.end());
        if (b.x < a.x) std::reverse(xs.begin(), xs.end());
        if (b.y < a.y) std::reverse(ys.begin(), ys.end());
        v.push_back(a);
        for (int i = 0; i < k; ++i) v.push_back({xs[i], ys[i]});
      };
      g = std::max<int64_t>(g, 5);
      P2 l{-g, rng.Range(-g / 2, g / 2)}, b{rng.Range(-g / 2, g / 2), -g}, r{g, rng.Range(-g / 2, g / 2)}, t{rng.Range(-g / 2, g / 2), g};
      chain(l, b); chain(b, r); chain(r, t); chain(t, l);
      return v;
    }
    case 5: return Polyomino(rng, n);
    case 6: {
      g = rng.Pick({4, 6, 20});
      for (int i = 0; i < n; ++i) { P2 p = pt(); if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p); }
      for (int it = 0; it < 400; ++it) {
        bool any = false;
        for (size_t i = 0; i < v.size() && !any; ++i)
          for (size_t j = i + 2; j < v.size() && !any; ++j) {
            if (i == 0 && j == v.size() - 1) continue;
            if (Meet(v[i], v[i + 1], v[j], v[(j + 1) % v.size()])) {
              std::reverse(v.begin() + i + 1, v.begin() + j + 1);
              any = true;
            }
          }
        if (!any) break;
        if (it % 20 == 19) std::swap(v[rng.Below(v.size())], v[rng.Below(v.size())]);
      }
      return v;
    }
    case 7: {
      int teeth = n / 3 + 1;
      v.push_back({0, -1});
      v.push_back({2 * teeth, -1 - rng.Range(0, 2)});
      for (int i = teeth; i-- > 0;) {
        v.push_back({2 * i + 1 + rng.Range(0, 1), rng.Range(2, 9)});
        v.push_back({2 * i + rng.Range(0, 0), rng.Range(0, 1)});
      }
      return v;
    }
    case 8: {
      // Square spiral of unit width with an outgoing and a returning path.
      int64_t x = 0, y = 0;
      std::vector<P2> out, in;
      int turns = 2 + n / 5;
      for (int i = 0; i < turns; ++i) {
        static const int d[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
        int64_t len = 4 * (i / 2 + 1) + 2;
        out.push_back({x * 2, y * 2});
        in.push_back({x * 2 + (i % 4 == 0 || i % 4 == 3 ? 1 : -1) * (i ? 1 : 0), y * 2 + (i % 4 == 0 || i % 4 == 1 ? 1 : -1)});
        x += d[i % 4][0] * len;
        y += d[i % 4][1] * len;
      }
      v = out;
      for (size_t i = in.size(); i-- > 0;) v.push_back(in[i]);
      return v;
    }
    case 9: {
      for (int i = 0; i < n; ++i) v.push_back(pt());
      return v;
    }
    case 10: {
      int64_t dx = rng.Range(-3, 3), dy = rng.Range(-3, 3);
      for (int i = 0; i < n; ++i) { int64_t t = rng.Range(-4, 4); v.push_back({dx * t, dy * t}); }
      return v;
    }
    case 11: {
      int k = static_cast<int>(rng.Below(5));
      P2 p = pt(), q = pt();
      for (int i = 0; i < k; ++i) v.push_back(rng.Chance(1, 2) ? p : q);
      return v;
    }
    default: break;
  }
  while (true) {
    v = {pt(), pt(), pt()};
    if (Turn(v[0], v[1], v[2])) return v;
  }
}

struct I3 { int64_t c[3]; };
struct LoopSpec {
  int kind;
  bool simple = false;      // planar simple loop
  bool planar = false;      // all points in one plane with an area direction
  bool convex = false, monotone = false;  // monotone along every axis
  std::vector<I3> pts;
  geom::Plane plane;        // with the loop's orientation (simple loops)
  int64_t scale = 1;        // denominator
};

LoopSpec MakeLoop(const Op& op, bool thorough_ints) {
  LoopSpec l;
  l.kind = static_cast<int>(static_cast<uint64_t>(op.arg(1)) % kKinds);
  int n = 3 + static_cast<int>(static_cast<uint64_t>(op.arg(2) - 3) % 64);
  Rng rng(op.arg(4));
  uint64_t flags = op.arg(5);
  if (l.kind == 12) {
    int64_t g = rng.Pick({2, 4, 50});
    Rng r2(op.arg(3));
    for (int i = 0; i < n; ++i) l.pts.push_back({{r2.Range(-g, g), r2.Range(-g, g), r2.Chance(1, 2) ? 0 : r2.Range(-g, g)}});
    return l;
  }
  std::vector<P2> s = Shape(l.kind, n, op.arg(3));
  bool simple = Simple(s);
  if (l.kind < 9 && !simple) { s = Shape(0, 3, op.arg(3)); l.kind = 0; simple = true; }
  l.simple = simple;
  if (flags & 1) std::reverse(s.begin(), s.end());
  if ((flags & 4) && s.size() >= 2) {
    for (P2& p : s) { p.x *= 2; p.y *= 2; }
    std::vector<P2> r;
    for (size_t i = 0; i < s.size(); ++i) {
      const P2 &a = s[i], &b = s[(i + 1) % s.size()];
      r.push_back(a);
      if (rng.Chance(1, 3)) r.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2});
    }
    s = r;
  }
  if (l.simple) {
    int want = Area2(s) > 0 ? 1 : -1;
    l.convex = true;
    for (size_t i = 0; i < s.size(); ++i)
      if (Turn(s[i], s[(i + 1) % s.size()], s[(i + 2) % s.size()]) == -want) l.convex = false;
  }
  if (flags & 2) {
    std::vector<P2> r;
    for (auto& p : s) { r.push_back(p); while (rng.Chance(1, 4)) r.push_back(p); }
    s = r;
  }
  if (!s.empty()) std::rotate(s.begin(), s.begin() + rng.Below(s.size()), s.end());
  // Embedding.
  int64_t u[3], v[3], o[3];
  int style = static_cast<int>(rng.Below(4));
  for (int i = 0; i < 3; ++i) { u[i] = rng.Range(-3, 3); v[i] = rng.Range(-3, 3); o[i] = rng.Range(-20, 20); }
  if (style < 3) {
    int64_t su = rng.Pick({-1, 1}), sv = rng.Pick({-1, 1, 2});
    for (int i = 0; i < 3; ++i) { u[i] = i == (style + 1) % 3 ? su : 0; v[i] = i == (style + 2) % 3 ? sv : 0; }
    if (rng.Chance(1, 3)) { u[style] = rng.Range(-1, 1); v[style] = rng.Range(-1, 1); }
  }
  auto crossf = [&](int64_t* c) { for (int i = 0; i < 3; ++i) c[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]; };
  int64_t nv[3];
  crossf(nv);
  while (!nv[0] && !nv[1] && !nv[2]) {
    u[rng.Below(3)] += 1; v[rng.Below(3)] += rng.Chance(1, 2) ? 1 : -1;
    crossf(nv);
  }
  int sign = 1;
  if (l.simple) { sign = Area2(s) > 0 ? 1 : -1; }
  l.planar = true;
  int64_t d = 0;
  for (int i = 0; i < 3; ++i) d += nv[i] * o[i];
  l.plane = {geom::FromI64(sign * nv[0]), geom::FromI64(sign * nv[1]), geom::FromI64(sign * nv[2]), geom::FromI64(sign * d)};
  for (const P2& p : s) {
    I3 q;
    for (int i = 0; i < 3; ++i) q.c[i] = o[i] + p.x * u[i] + p.y * v[i];
    l.pts.push_back(q);
  }
  l.monotone = l.simple;
  for (int i = 0; i < 3 && l.monotone; ++i) {
    int last = 0, changes = 0;
    for (int pass = 0; pass < 2; ++pass)
      for (size_t k = 0; k < l.pts.size(); ++k) {
        int64_t df = l.pts[(k + 1) % l.pts.size()].c[i] - l.pts[k].c[i];
        int sg = df > 0 ? 1 : df < 0 ? -1 : 0;
        if (sg && last && sg != last && pass == 1) ++changes;
        if (sg) last = sg;
      }
    if (changes > 2) l.monotone = false;
  }
  return l;
}

// ------------------------------------------------------------ vertex data
int64_t g_live_data = 0;
uint64_t g_copies = 0, g_copy_fault = 0;
struct CopyFailed {};
struct VData : public EdgeInfoRoot {
  int64_t id = -1;
  int64_t magic = 0x77;
  explicit VData(int64_t i) : id(i) { ++g_live_data; }
  VData() = delete;
  VData(const VData& o) : EdgeInfoRoot(o), id(o.id) {
    if (o.magic != 0x77) { Host h; Violation("factory:dead-data", "copied from destroyed vertex data"); }
    if (++g_copies == g_copy_fault) { FaultFired("vertex-data:copy-throws"); throw CopyFailed(); }
    ++g_live_data;
  }
  VData(RValueKey<VData> o) : id(o.get().id) { ++g_live_data; }
  VData& operator=(const VData& o) { id = o.id; return *this; }
  VData& operator=(RValueKey<VData> o) { id = o.get().id; return *this; }
  ~VData() { if (magic != 0x77) { Host h; Violation("factory:dead-data", "vertex data destroyed twice"); } magic = 0; --g_live_data; }
};

struct EmitFailed { int k; };

struct Output {
  geom::Mesh mesh;
  bool bad_data = false;
  std::string edge_error;
};

// What to do at the n-th emission.
struct EmitPlan {
  int throw_at = -1;
  bool take = false;       // move the polygon out
  std::function<void()> nested;
  int nest_at = -1;
  Output* out = nullptr;
  const std::vector<uint64_t>* keys = nullptr;  // point key per loop index
  int count = 0;
};

template <typename In> int64_t DataId(const typename ConvexPolygonFactory<In>::ConvexPolygonRep::EdgeRep& e) { return -1; }
template <> int64_t DataId<Point3WithVertexData<VData>>(const MutableConvexPolygon<VData>::EdgeRep& e) { return e.id; }

template <typename In>
struct Factory : public ConvexPolygonFactory<In> {
  using Rep = typename ConvexPolygonFactory<In>::ConvexPolygonRep;
  EmitPlan* plan = nullptr;
  void Record(const Rep& p) {
    Host h;
    geom::Facet f = FromPolygon(p);
    f.drop = p.drop_dimension();
    std::string e = CheckEdges(p);
    if (!e.empty() && plan->out->edge_error.empty()) plan->out->edge_error = e;
    if (f.drop < 0 || f.drop > 2 || geom::SignOf(f.drop == 0 ? f.plane.a : f.drop == 1 ? f.plane.b : f.plane.c) == 0)
      plan->out->edge_error = "drop dimension with a zero normal component";
    for (size_t i = 0; i < f.pts.size(); ++i) {
      int64_t id = DataId<In>(p.edge(i));
      if (id >= 0 && plan->keys && (id >= static_cast<int64_t>(plan->keys->size()) || (*plan->keys)[id] != geom::PointKey(f.pts[i])))
        plan->out->bad_data = true;
    }
    plan->out->mesh.push_back(std::move(f));
  }
  void Emit(Rep&& p) override {
    int k = plan->count++;
    if (k == plan->throw_at && plan->take) { FaultFired("emit:throw-before-take"); throw EmitFailed{k}; }
    if (plan->take) {
      Rep mine(std::move(p));
      Record(mine);
    } else {
      Record(p);
    }
    if (k == plan->throw_at) { FaultFired("emit:throw"); throw EmitFailed{k}; }
    if (k == plan->nest_at && plan->nested) { FaultFired("emit:nested-build"); plan->nested(); }
  }
};

template <typename In> In MakeIn(const I3& p, int64_t index, Rng& rng, int bits);
template <> Point3 MakeIn<Point3>(const I3& p, int64_t, Rng&, int bits) {
  return Point3(BigInt(static_cast<int>(p.c[0])) << bits, BigInt(static_cast<int>(p.c[1])) << bits, BigInt(static_cast<int>(p.c[2])) << bits);
}
template <> HomoPoint3 MakeIn<HomoPoint3>(const I3& p, int64_t, Rng& rng, int bits) {
  // Independent representation per vertex; a common denominator of 3.
  int64_t s = rng.Pick({1, 1, 2, 5, -1, -3});
  size_t sh = rng.Chance(1, 4) ? rng.Below(100) : 0;
  BigInt k = BigInt(static_cast<int>(s)) << sh;
  BigInt den = k * 3;
  return HomoPoint3((k * static_cast<int>(p.c[0])) << bits, (k * static_cast<int>(p.c[1])) << bits, (k * static_cast<int>(p.c[2])) << bits, den);
}
template <> Point3WithVertexData<VData> MakeIn<Point3WithVertexData<VData>>(const I3& p, int64_t index, Rng&, int) {
  return Point3WithVertexData<VData>(static_cast<int>(p.c[0]), static_cast<int>(p.c[1]), static_cast<int>(p.c[2]), VData(index));
}
geom::Pt ToPt(const Point3& p) { return {FromBig(p.x()), FromBig(p.y()), FromBig(p.z()), geom::FromI64(1)}; }
geom::Pt ToPt(const HomoPoint3& p) { return FromPoint(p); }

// Result of one build: how it ended.
enum End { kDone, kBadAlloc, kEmitThrew, kCopyThrew };

template <typename In, typename It>
void Drive(Factory<In>& f, int api, const HalfSpace3* plane, It b, It e) {
  if (plane && (api & 1)) f.Build(*plane, b, e); else f.Build(b, e);
}
template <typename In>
End RunBuild(Factory<In>& f, EmitPlan& plan, int api, const HalfSpace3* plane, std::vector<In>& v, std::list<In>& l) {
  f.plan = &plan;
  plan.count = 0;
  End end = kDone;
  {
    Sut s;
    try {
      if (api & 2) Drive(f, api, plane, l.begin(), l.end()); else Drive(f, api, plane, v.begin(), v.end());
    } catch (const std::bad_alloc&) { end = kBadAlloc; }
    catch (const EmitFailed&) { end = kEmitThrew; }
    catch (const CopyFailed&) { end = kCopyThrew; }
  }
  f.plan = nullptr;
  return end;
}

std::string CheckPiece(const geom::Facet& f) { return geom::CheckFacet(f, false); }

void CheckOutput(const LoopSpec& l, const geom::Facet& loop, const Output& out, bool complete, const char* what) {
  std::set<uint64_t> verts;
  for (const geom::Pt& p : loop.pts) verts.insert(geom::PointKey(p));
  SIM_CHECK(!out.bad_data, "factory:wrong-data", "%s: a piece of a %s loop carries another vertex's data", what, kKindNames[l.kind]);
  SIM_CHECK(out.edge_error.empty(), "factory:edges", "%s: %s loop: %s", what, kKindNames[l.kind], out.edge_error.c_str());
  for (size_t i = 0; i < out.mesh.size(); ++i) {
    const geom::Facet& f = out.mesh[i];
    std::string e = CheckPiece(f);
    SIM_CHECK(e.empty(), "factory:bad-piece", "%s: piece %zu of a %s loop: %s; %s", what, i, kKindNames[l.kind], e.c_str(), geom::ToString(f).c_str());
    for (const geom::Pt& p : f.pts)
      SIM_CHECK(verts.count(geom::PointKey(p)), "factory:foreign-vertex", "%s: piece %zu of a %s loop has a vertex that is not in the loop", what, i, kKindNames[l.kind]);
    if (l.planar) {
      SIM_CHECK(geom::PlaneKeyU(f.plane) == geom::PlaneKeyU(loop.plane), "factory:wrong-plane", "%s: piece %zu of a %s loop is on another plane", what, i, kKindNames[l.kind]);
      if (l.simple && (l.convex || l.monotone))
        SIM_CHECK(geom::PlaneKey(f.plane) == geom::PlaneKey(loop.plane), "factory:flipped-piece", "%s: piece %zu of a %s loop has the opposite orientation", what, i, kKindNames[l.kind]);
    }
  }
  if (!complete) return;
  geom::Mesh all = out.mesh;
  uint64_t got = geom::BoundaryHash(all), want = loop.pts.size() < 2 ? 0 : geom::BoundaryHash({loop});
  SIM_CHECK(got == want, "factory:not-tiled", "%s: the %zu pieces of a %s loop of %zu vertices do not tile it", what, out.mesh.size(), kKindNames[l.kind], loop.pts.size());
}

template <typename In>
struct Lane {
  std::unique_ptr<Factory<In>> f;
  bool interrupted = false;
  Lane() { Reset(); }
  ~Lane() { Sut s; f.reset(); }
  void Reset() { Sut s; f.reset(); f.reset(new Factory<In>); interrupted = false; }

  struct Input {
    std::vector<In> v;
    std::list<In> l;
    std::unique_ptr<HalfSpace3> plane;
    geom::Facet loop;
    std::vector<uint64_t> keys;
    ~Input() { Sut s; std::vector<In>().swap(v); l.clear(); plane.reset(); }
  };
  static void Fill(Input& in, const LoopSpec& l, const Op& op) {
    Rng rng(op.arg(4) ^ 0x5eed);
    int bits = rng.Chance(1, 4) ? static_cast<int>(rng.Below(90)) : 0;
    if (std::is_same<In, Point3WithVertexData<VData>>::value) bits = 0;
    {
      Sut s;
      in.v.reserve(l.pts.size());
      for (size_t i = 0; i < l.pts.size(); ++i) { in.v.push_back(MakeIn<In>(l.pts[i], static_cast<int64_t>(i), rng, bits)); in.l.push_back(in.v.back()); }
      if (l.planar && l.kind != 11 && l.kind != 10) {
        // Explicit plane: any scale, either orientation.
        int64_t k = rng.Pick({1, -1, 2, -7});
        BigInt den(std::is_same<In, HomoPoint3>::value ? 3 : 1);
        in.plane.reset(new HalfSpace3(ToBig(l.plane.a) * den * static_cast<int>(k), ToBig(l.plane.b) * den * static_cast<int>(k), ToBig(l.plane.c) * den * static_cast<int>(k),
                                      (ToBig(l.plane.d) * static_cast<int>(k)) << bits));
      }
    }
    for (const In& p : in.v) { in.loop.pts.push_back(ToPt(p)); in.keys.push_back(geom::PointKey(in.loop.pts.back())); }
    if (l.planar) {
      BigInt den(std::is_same<In, HomoPoint3>::value ? 3 : 1);
      in.loop.plane = {FromBig(ToBig(l.plane.a) * den), FromBig(ToBig(l.plane.b) * den), FromBig(ToBig(l.plane.c) * den), FromBig(ToBig(l.plane.d) << bits)};
    }
  }

  void Run(const Op& op, std::function<void()> nested) {
    LoopSpec l = MakeLoop(op, false);
    Input in;
    Fill(in, l, op);
    int api = static_cast<int>(static_cast<uint64_t>(op.arg(6)) % 8);
    int fault = static_cast<int>(static_cast<uint64_t>(op.arg(7)) % kFaults);
    uint64_t pos = static_cast<uint64_t>(op.arg(8)) & ((1 << 20) - 1);
    int extra = static_cast<int>(static_cast<uint64_t>(op.arg(9)) % 8);
    if (Tracing()) {
      std::string t;
      for (const I3& q : l.pts) t += "(" + std::to_string(q.c[0]) + "," + std::to_string(q.c[1]) + "," + std::to_string(q.c[2]) + ") ";
      Trace("loop kind=%s simple=%d convex=%d monotone=%d api=%d fault=%d: %s", kKindNames[l.kind], l.simple, l.convex, l.monotone, api, fault, t.c_str());
    }
    EmitPlan plan;
    plan.take = api & 4;
    plan.keys = &in.keys;
    if (fault == kThrowEmit || fault == kAlloc || fault == kDataCopy) {
      // Size of an undisturbed build, on a factory of its own.
      Output o;
      plan.out = &o;
      uint64_t a0 = SutAllocCount(), c0 = g_copies;
      std::unique_ptr<Factory<In>> fresh;
      { Sut s; fresh.reset(new Factory<In>); }
      End e = RunBuild(*fresh, plan, api, in.plane.get(), in.v, in.l);
      SIM_CHECK(e == kDone, "factory:threw", "undisturbed build of a %s loop threw", kKindNames[l.kind]);
      CheckOutput(l, in.loop, o, true, "undisturbed build");
      uint64_t allocs = SutAllocCount() - a0, copies = g_copies - c0;
      { Sut s; fresh.reset(); }
      Output fo;
      plan.out = &fo;
      if (fault == kThrowEmit && plan.count) plan.throw_at = static_cast<int>(pos * plan.count >> 20);
      if (fault == kDataCopy && copies) g_copy_fault = g_copies + 1 + (pos * copies >> 20);
      if (fault == kAlloc && allocs) {
        static const int modes[8] = {kAfNth, kAfNth, kAfNth, kAfFrom, kAfFrom, kAfWindow, kAfRandom, kAfNth};
        int m = modes[extra];
        ArmAllocFault(m, m == kAfRandom ? 20 : 1 + (pos * allocs >> 20), m == kAfWindow ? 3 : pos);
      }
      End fe = RunBuild(*f, plan, api, in.plane.get(), in.v, in.l);
      uint64_t fired = fault == kAlloc && allocs ? DisarmAllocFault() : 0;
      bool copy_fired = g_copy_fault && g_copies >= g_copy_fault;
      g_copy_fault = 0;
      if (fired) FaultFired("alloc", fired);
      SIM_CHECK(!(fired && fe == kDone), "factory:swallowed", "a failed allocation while decomposing a %s loop was not reported", kKindNames[l.kind]);
      SIM_CHECK(!(copy_fired && fe == kDone), "factory:swallowed", "an exception from vertex data was not reported");
      SIM_CHECK(fe == kDone || fired || copy_fired || plan.throw_at >= 0, "factory:threw", "exception without a fault");
      CheckOutput(l, in.loop, fo, fe == kDone, "disturbed build");
      if (fe != kDone) { interrupted = true; Probe("build-interrupted"); }
      plan.throw_at = -1;
      if (extra & 1) { Event(1); return; }   // sometimes retried at once
    }
    Output o;
    plan.out = &o;
    if (fault == kNest) { plan.nested = nested; plan.nest_at = static_cast<int>(pos % 3); }
    End e = RunBuild(*f, plan, api, in.plane.get(), in.v, in.l);
    SIM_CHECK(e == kDone, "factory:threw", "build of a %s loop threw without a fault", kKindNames[l.kind]);
    CheckOutput(l, in.loop, o, true, interrupted ? "build after an interruption" : "build");
    if (interrupted) Probe("build-after-interruption");
    Probe(kKindNames[l.kind]);
    if (l.convex) Probe("convex-loop");
    if (l.monotone && !l.convex) Probe("reflex-monotone-loop");
    if (l.simple && !l.monotone) Probe("simple-non-monotone-loop");
    if (o.mesh.size() >= 2) { Probe("several-pieces"); NonTrivial(); }
    uint64_t h = geom::BoundaryHash(o.mesh);
    for (auto& p : o.mesh) h = Mix(h ^ p.pts.size());
    Event(h);
    State(h);
  }
};

void Execute(const Plan& plan) {
  g_live_data = 0;
  g_copies = g_copy_fault = 0;
  {
    Lane<Point3> a;
    Lane<HomoPoint3> b;
    Lane<Point3WithVertexData<VData>> c;
    auto run = [&](const Op& op, int lane, std::function<void()> nested) {
      switch (lane) {
        case 0: a.Run(op, nested); break;
        case 1: b.Run(op, nested); break;
        default: c.Run(op, nested); break;
      }
    };
    for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
      const Op& op = plan.ops[oi];
      if (op.code < kOpFirstHarness) continue;
      CurrentOp(static_cast<int>(oi));
      int lane = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % 3);
      if (op.code == kReset) {
        if (lane == 0) a.Reset(); else if (lane == 1) b.Reset(); else c.Reset();
        continue;
      }
      // A nested build from inside Emit uses another factory.
      Op inner = op;
      inner.a.resize(10);
      inner.a[3] ^= 0x1234;
      inner.a[7] = 0;
      run(op, lane, [&, lane]() { Host h; run(inner, (lane + 1) % 3, nullptr); });
      Signature(Mix(op.arg(1) * 64 + op.arg(7) * 8 + lane) ^ Mix(op.arg(3)));
    }
  }
  SIM_CHECK(g_live_data == 0, "factory:data-leak", "%lld vertex data objects were never destroyed", (long long)g_live_data);
}

}  // namespace

const sim::Harness sim::harness = {
  "C09", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut ConvexPolygonFactory, PlanarRange, MonotoneRange, ConcatRange, OrientingMonotoneDecomposer, MonotoneDecomposer, MonotoneTriangulator, ConvexPolygon",
  "allocator replaced by the simulated heap; consumer (Emit) and vertex data are simulator code that may throw; oracle: exact boundary chains and convexity checks",
  "a run is a seeded sequence of 1-14 vertex loops of 13 shape families fed through three long-lived factories (integer points, homogeneous points, points with vertex data) with throwing consumers, failing allocations, throwing vertex data and nested builds; distinct by loop and fault sequence",
  200000000ull, true, 40000, 600000};
