#include "geom.h"

#include <algorithm>
#include <array>
#include <cmath>
#include <set>

#include <boost/multiprecision/cpp_int.hpp>

namespace sim {
namespace geom {

using boost::multiprecision::cpp_int;
typedef unsigned __int128 u128;

// ------------------------------------------------------------ numbers
static void Trim(Num& n) {
  while (n.size() > 1) {
    uint64_t top = n.back(), next = n[n.size() - 2];
    if ((top == 0 && !(next >> 63)) || (top == ~0ull && (next >> 63))) n.pop_back();
    else break;
  }
}
static cpp_int Big(const Num& n) {
  cpp_int r = 0;
  if (n.empty()) return r;
  bool neg = n.back() >> 63;
  if (n.size() == 1) return cpp_int(static_cast<int64_t>(n[0]));
  uint64_t carry = 1;
  std::vector<uint64_t> mag(n);
  if (neg) {
    for (auto& w : mag) { w = ~w + carry; carry = carry && w == 0; }
  }
  boost::multiprecision::import_bits(r, mag.begin(), mag.end(), 64, false);
  if (neg) r = -r;
  return r;
}
static Num Export(const cpp_int& v) {
  cpp_int a = v < 0 ? cpp_int(-v) : v;
  Num n;
  if (a != 0) boost::multiprecision::export_bits(a, std::back_inserter(n), 64, false);
  n.push_back(0);
  if (v < 0) {
    uint64_t carry = 1;
    for (auto& w : n) { w = ~w + carry; carry = carry && w == 0; }
  }
  Trim(n);
  return n;
}
Num FromI64(int64_t v) { return Num{static_cast<uint64_t>(v)}; }
int SignOf(const Num& n) {
  if (n.empty()) return 0;
  if (n.back() >> 63) return -1;
  for (uint64_t w : n) if (w) return 1;
  return 0;
}
std::string ToString(const Num& n) { return Big(n).str(); }
bool Equal(const Num& a, const Num& b) {
  Num x = a, y = b;
  if (x.empty()) x.push_back(0);
  if (y.empty()) y.push_back(0);
  Trim(x); Trim(y);
  return x == y;
}
Num Mul(const Num& a, const Num& b) { return Export(Big(a) * Big(b)); }
Num Add(const Num& a, const Num& b) { return Export(Big(a) + Big(b)); }
Num Neg(const Num& a) { return Export(-Big(a)); }
long double ToLong(const Num& n) {
  if (n.empty()) return 0;
  bool neg = n.back() >> 63;
  size_t top = n.size();
  if (!neg) {
    while (top > 1 && n[top - 1] == 0) --top;
    long double r = 0;
    size_t lo = top > 3 ? top - 3 : 0;
    for (size_t i = top; i-- > lo;) r = r * 18446744073709551616.0L + n[i];
    return ldexpl(r, static_cast<int>(lo * 64));
  }
  Num m(n);
  uint64_t carry = 1;
  for (auto& w : m) { w = ~w + carry; carry = carry && w == 0; }
  if (m.back() >> 63) m.push_back(0);
  return -ToLong(m);
}

std::string ToString(const Pt& p) {
  return "(" + ToString(p.x) + "," + ToString(p.y) + "," + ToString(p.z) + ")/" + ToString(p.w);
}
std::string ToString(const Facet& f) {
  std::string s = "[" + ToString(f.plane.a) + "," + ToString(f.plane.b) + "," + ToString(f.plane.c) + ";" + ToString(f.plane.d) + "]";
  for (const Pt& p : f.pts) s += " " + ToString(p);
  return s;
}

// ------------------------------------------------------------ field
// A prime without special form: with a Mersenne prime, coordinates that mix
// magnitudes of 2^61 apart collide.
static const uint64_t kC = 192812375ull;
static const uint64_t P = (1ull << 62) - kC;
static const uint64_t kMask = (1ull << 62) - 1;
static inline uint64_t Red(u128 x) {
  x = (x & kMask) + (x >> 62) * kC;
  uint64_t r = static_cast<uint64_t>(x & kMask) + static_cast<uint64_t>(x >> 62) * kC;
  while (r >= P) r -= P;
  return r;
}
uint64_t FieldAdd(uint64_t a, uint64_t b) { uint64_t r = a + b; return r >= P ? r - P : r; }
uint64_t FieldSub(uint64_t a, uint64_t b) { return a >= b ? a - b : a + P - b; }
uint64_t FieldMul(uint64_t a, uint64_t b) { return Red(static_cast<u128>(a) * b); }
static uint64_t FieldInv(uint64_t a) {
  uint64_t e = P - 2, r = 1;
  while (e) { if (e & 1) r = FieldMul(r, a); a = FieldMul(a, a); e >>= 1; }
  return r;
}
uint64_t FieldOf(const Num& n) {
  if (n.empty()) return 0;
  int64_t top = static_cast<int64_t>(n.back());
  uint64_t r = top >= 0 ? Red(static_cast<uint64_t>(top)) : FieldSub(0, Red(-static_cast<u128>(static_cast<__int128>(top))));
  for (size_t i = n.size() - 1; i-- > 0;) r = Red((static_cast<u128>(r) << 64) % P + n[i]);
  return r;
}
struct F3 { uint64_t x, y, z; };
static F3 Sub(F3 a, F3 b) { return {FieldSub(a.x, b.x), FieldSub(a.y, b.y), FieldSub(a.z, b.z)}; }
static F3 Cross(F3 a, F3 b) {
  return {FieldSub(FieldMul(a.y, b.z), FieldMul(a.z, b.y)), FieldSub(FieldMul(a.z, b.x), FieldMul(a.x, b.z)),
          FieldSub(FieldMul(a.x, b.y), FieldMul(a.y, b.x))};
}
static uint64_t Dot(F3 a, F3 b) { return FieldAdd(FieldAdd(FieldMul(a.x, b.x), FieldMul(a.y, b.y)), FieldMul(a.z, b.z)); }
static F3 Scale(F3 a, uint64_t s) { return {FieldMul(a.x, s), FieldMul(a.y, s), FieldMul(a.z, s)}; }
static F3 Field(const Pt& p) {
  uint64_t w = FieldOf(p.w);
  F3 v{FieldOf(p.x), FieldOf(p.y), FieldOf(p.z)};
  return w == 1 ? v : Scale(v, FieldInv(w));
}
static uint64_t Key(F3 a) { return Mix(a.x ^ Mix(a.y ^ Mix(a.z + 77))); }
uint64_t PointKey(const Pt& p) { return Key(Field(p)); }
bool SamePoint(const Pt& a, const Pt& b) { return PointKey(a) == PointKey(b); }
static uint64_t NormalKey(F3 n, uint64_t d) {
  uint64_t lead = n.x ? n.x : n.y ? n.y : n.z;
  uint64_t inv = FieldInv(lead);
  return Mix(Key(Scale(n, inv)) ^ FieldMul(d, inv));
}
static int Orientation(const Plane& p) {
  int s = SignOf(p.a);
  if (!s) s = SignOf(p.b);
  if (!s) s = SignOf(p.c);
  return s;
}
uint64_t PlaneKey(const Plane& p) {
  return Mix(NormalKey({FieldOf(p.a), FieldOf(p.b), FieldOf(p.c)}, FieldOf(p.d)) + static_cast<uint64_t>(Orientation(p) + 3));
}
uint64_t PlaneKeyU(const Plane& p) {
  return NormalKey({FieldOf(p.a), FieldOf(p.b), FieldOf(p.c)}, FieldOf(p.d));
}
int PlaneSide(const Plane& p, const Pt& q) {
  cpp_int v = Big(p.a) * Big(q.x) + Big(p.b) * Big(q.y) + Big(p.c) * Big(q.z) - Big(p.d) * Big(q.w);
  int s = v > 0 ? 1 : v < 0 ? -1 : 0;
  return SignOf(q.w) < 0 ? -s : s;
}

static uint64_t EdgeSum(const Mesh& m, int with_plane) {
  uint64_t sum = 0;
  std::vector<F3> v;
  std::vector<uint64_t> k;
  for (const Facet& f : m) {
    uint64_t pk = with_plane == 1 ? PlaneKey(f.plane) : with_plane == 2 ? PlaneKeyU(f.plane) : 1234567;
    size_t n = f.pts.size();
    v.resize(n); k.resize(n);
    for (size_t i = 0; i < n; ++i) { v[i] = Field(f.pts[i]); k[i] = Key(v[i]); }
    for (size_t i = 0; i < n; ++i) {
      size_t j = i + 1 == n ? 0 : i + 1;
      F3 d = Sub(v[j], v[i]);
      uint64_t lead = d.x ? d.x : d.y ? d.y : d.z;
      if (!lead) continue;
      d = Scale(d, FieldInv(lead));
      uint64_t line = Mix(Key(d) ^ Mix(Key(Cross(v[i], d)) ^ pk));
      sum += Mix(line ^ k[j]) - Mix(line ^ k[i]);
    }
  }
  return sum;
}
uint64_t ChainHash(const Mesh& m) { return EdgeSum(m, 1); }
uint64_t ChainHashU(const Mesh& m) { return EdgeSum(m, 2); }
uint64_t BoundaryHash(const Mesh& m) { return EdgeSum(m, 0); }
uint64_t VolumeHash(const Mesh& m) {
  uint64_t sum = 0;
  for (const Facet& f : m) {
    if (f.pts.size() < 3) continue;
    F3 a = Field(f.pts[0]), b = Field(f.pts[1]);
    for (size_t i = 2; i < f.pts.size(); ++i) {
      F3 c = Field(f.pts[i]);
      sum = FieldAdd(sum, Dot(a, Cross(b, c)));
      b = c;
    }
  }
  return sum;
}
uint64_t AreaHash(const Mesh& m) {
  uint64_t sum = 0;
  for (const Facet& f : m) {
    if (f.pts.size() < 3) continue;
    F3 a = Field(f.pts[0]), b = Sub(Field(f.pts[1]), a);
    F3 area{0, 0, 0};
    for (size_t i = 2; i < f.pts.size(); ++i) {
      F3 c = Sub(Field(f.pts[i]), a);
      F3 x = Cross(b, c);
      area = {FieldAdd(area.x, x.x), FieldAdd(area.y, x.y), FieldAdd(area.z, x.z)};
      b = c;
    }
    uint64_t mult = PlaneKey(f.plane) % P;
    sum = FieldAdd(sum, FieldMul(mult % P, Dot(area, F3{1234577, 998244353, 1000000007})));
  }
  return sum;
}

// ------------------------------------------------------------ exact helpers
struct B3 { cpp_int x, y, z; };
static int Sgn(const cpp_int& v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static cpp_int Gcd(const cpp_int& a, const cpp_int& b) { return boost::multiprecision::gcd(a, b); }

static Plane ReducePlane(cpp_int a, cpp_int b, cpp_int c, cpp_int d) {
  cpp_int g = Gcd(Gcd(a, b), Gcd(c, d));
  if (g < 0) g = -g;
  if (g > 1) { a /= g; b /= g; c /= g; d /= g; }
  return {Export(a), Export(b), Export(c), Export(d)};
}
// Plane through three points (counter-clockwise seen from the positive side).
static bool PlaneThrough(const Pt& p, const Pt& q, const Pt& r, Plane& out) {
  cpp_int px = Big(p.x), py = Big(p.y), pz = Big(p.z), pw = Big(p.w);
  cpp_int qw = Big(q.w), rw = Big(r.w);
  // u = q - p scaled by pw*qw, v = r - p scaled by pw*rw
  B3 u{Big(q.x) * pw - px * qw, Big(q.y) * pw - py * qw, Big(q.z) * pw - pz * qw};
  B3 v{Big(r.x) * pw - px * rw, Big(r.y) * pw - py * rw, Big(r.z) * pw - pz * rw};
  cpp_int a = u.y * v.z - u.z * v.y, b = u.z * v.x - u.x * v.z, c = u.x * v.y - u.y * v.x;
  if (a == 0 && b == 0 && c == 0) return false;
  if ((Sgn(qw) < 0) != (Sgn(rw) < 0)) { a = -a; b = -b; c = -c; }
  cpp_int d = a * px + b * py + c * pz;
  a *= pw; b *= pw; c *= pw;
  if (pw < 0) { a = -a; b = -b; c = -c; d = -d; }
  out = ReducePlane(a, b, c, d);
  return true;
}
static int PickDrop(const Plane& p, Rng& rng) {
  int s[3] = {SignOf(p.a), SignOf(p.b), SignOf(p.c)};
  for (int t = 0; t < 20; ++t) { int i = static_cast<int>(rng.Below(3)); if (s[i]) return i; }
  for (int i = 0; i < 3; ++i) if (s[i]) return i;
  return 2;
}

// ------------------------------------------------------------ scenes, solids
Scene MakeScene(uint64_t seed, int style) {
  Rng rng(seed ^ 0x5ce0e);
  Scene s;
  if (style == 0) return s;
  // 1: permuted/reflected axes; 2: small shear; 3: arbitrary matrix
  if (style >= 2) {
    for (int t = 0; t < 100; ++t) {
      int64_t r = style == 2 ? 2 : 9;
      for (auto& x : s.m) x = rng.Range(-r, r);
      int64_t* m = s.m;
      int64_t det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
      if (det != 0) break;
      for (int i = 0; i < 9; ++i) m[i] = i % 4 == 0;
    }
  } else {
    int p[3] = {0, 1, 2};
    for (int i = 2; i > 0; --i) std::swap(p[i], p[rng.Below(i + 1)]);
    for (auto& x : s.m) x = 0;
    for (int i = 0; i < 3; ++i) s.m[i * 3 + p[i]] = rng.Chance(1, 2) ? 1 : -1;
  }
  if (rng.Chance(1, 3)) s.scale_bits = static_cast<int>(rng.Below(rng.Chance(1, 2) ? 62 : 140));
  if (rng.Chance(1, 3)) {
    s.t_bits = static_cast<int>(rng.Below(70));
    for (auto& x : s.t) x = rng.Range(-5, 5);
  }
  return s;
}

namespace {
struct Raw {
  std::vector<std::array<int64_t, 3>> v;
  std::vector<std::vector<int>> f;
  int AddV(int64_t x, int64_t y, int64_t z) { v.push_back({x, y, z}); return static_cast<int>(v.size()) - 1; }
};
void AddBox(Raw& r, const int64_t lo[3], const int64_t hi[3], bool inverted = false) {
  int b = static_cast<int>(r.v.size());
  for (int i = 0; i < 8; ++i) r.AddV(i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2]);
  static const int q[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  for (auto& c : q) {
    std::vector<int> f;
    for (int i = 0; i < 4; ++i) f.push_back(b + c[inverted ? 3 - i : i]);
    r.f.push_back(f);
  }
}
void RandBox(Rng& rng, int64_t range, int64_t lo[3], int64_t hi[3]) {
  for (int i = 0; i < 3; ++i) { lo[i] = rng.Range(0, range - 1); hi[i] = rng.Range(lo[i] + 1, range); }
}
// Convex hull by brute force; coplanar points are merged into one facet.
bool Hull(Raw& r, std::vector<std::array<int64_t, 3>> pts) {
  std::sort(pts.begin(), pts.end());
  pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
  int n = static_cast<int>(pts.size());
  if (n < 4) return false;
  std::set<std::vector<int>> done;
  std::vector<std::vector<int>> faces;
  typedef __int128 I;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) {
    I ux = pts[j][0] - pts[i][0], uy = pts[j][1] - pts[i][1], uz = pts[j][2] - pts[i][2];
    I vx = pts[k][0] - pts[i][0], vy = pts[k][1] - pts[i][1], vz = pts[k][2] - pts[i][2];
    I a = uy * vz - uz * vy, b = uz * vx - ux * vz, c = ux * vy - uy * vx;
    if (a == 0 && b == 0 && c == 0) continue;
    bool pos = false, neg = false;
    std::vector<int> on;
    for (int q = 0; q < n; ++q) {
      I s = a * (pts[q][0] - pts[i][0]) + b * (pts[q][1] - pts[i][1]) + c * (pts[q][2] - pts[i][2]);
      if (s > 0) pos = true; else if (s < 0) neg = true; else on.push_back(q);
    }
    if (pos && neg) continue;
    if (!pos && !neg) return false;  // flat
    if (!done.insert(on).second) continue;
    if (pos) { a = -a; b = -b; c = -c; }
    // 2D hull of `on`, counter-clockwise around (a,b,c); gift wrapping.
    int start = on[0];
    std::vector<int> loop;
    int cur = start;
    do {
      loop.push_back(cur);
      int next = -1;
      for (int q : on) {
        if (q == cur) continue;
        if (next < 0) { next = q; continue; }
        I px = pts[next][0] - pts[cur][0], py = pts[next][1] - pts[cur][1], pz = pts[next][2] - pts[cur][2];
        I qx = pts[q][0] - pts[cur][0], qy = pts[q][1] - pts[cur][1], qz = pts[q][2] - pts[cur][2];
        I cr = a * (py * qz - pz * qy) + b * (pz * qx - px * qz) + c * (px * qy - py * qx);
        if (cr < 0) next = q;
        else if (cr == 0 && qx * qx + qy * qy + qz * qz > px * px + py * py + pz * pz) next = q;
      }
      cur = next;
      if (loop.size() > 200) return false;
    } while (cur != start);
    faces.push_back(loop);
  }
  int base = static_cast<int>(r.v.size());
  for (auto& p : pts) r.v.push_back(p);
  for (auto& f : faces) { for (int& i : f) i += base; r.f.push_back(f); }
  return true;
}
// Prism over a set of convex 2D pieces; outline edges become walls.
void Prism(Raw& r, const std::vector<std::vector<std::array<int64_t, 2>>>& pieces,
           const std::vector<std::array<int64_t, 2>>& outline, int64_t z0, int64_t z1) {
  for (auto& p : pieces) {
    std::vector<int> top, bottom;
    for (auto& q : p) { top.push_back(r.AddV(q[0], q[1], z1)); bottom.push_back(r.AddV(q[0], q[1], z0)); }
    std::reverse(bottom.begin(), bottom.end());
    r.f.push_back(top);
    r.f.push_back(bottom);
  }
  for (size_t i = 0; i < outline.size(); ++i) {
    auto& a = outline[i];
    auto& b = outline[(i + 1) % outline.size()];
    int v0 = r.AddV(a[0], a[1], z0), v1 = r.AddV(b[0], b[1], z0), v2 = r.AddV(b[0], b[1], z1), v3 = r.AddV(a[0], a[1], z1);
    r.f.push_back({v0, v1, v2, v3});
  }
}
}  // namespace

static const char* const kKindNames[kSolidKinds] = {
    "box", "tetrahedron", "small hull", "hull", "L prism", "U prism", "two boxes", "hollow box", "gridded box",
    "bipyramid", "wedge", "touching boxes", "overlapping boxes", "polycube", "many-sided prism", "box with a hole", "ball",
    "striped box", "drum"};
const char* SolidKindName(int kind) { return kKindNames[static_cast<unsigned>(kind) % kSolidKinds]; }

static Raw MakeRaw(int kind, Rng& rng) {
  Raw r;
  int64_t lo[3], hi[3];
  switch (static_cast<unsigned>(kind) % kSolidKinds) {
    default:
    case 0: RandBox(rng, 5, lo, hi); AddBox(r, lo, hi); break;
    case 1:
      for (int t = 0; t < 50; ++t) {
        std::vector<std::array<int64_t, 3>> p;
        for (int i = 0; i < 4; ++i) p.push_back({rng.Range(0, 6), rng.Range(0, 6), rng.Range(0, 6)});
        r = Raw();
        if (Hull(r, p)) break;
        r = Raw();
      }
      break;
    case 2: case 3: {
      int n = static_cast<int>(kind % kSolidKinds == 2 ? rng.Range(5, 8) : rng.Range(8, 14));
      int64_t g = kind % kSolidKinds == 2 ? 5 : 30;
      for (int t = 0; t < 50; ++t) {
        std::vector<std::array<int64_t, 3>> p;
        for (int i = 0; i < n; ++i) p.push_back({rng.Range(0, g), rng.Range(0, g), rng.Range(0, g)});
        r = Raw();
        if (Hull(r, p)) break;
        r = Raw();
      }
      if (g == 30) for (auto& v : r.v) for (auto& x : v) x = x / 5;  // may flatten; fixed below
      if (g == 30) { std::vector<std::array<int64_t, 3>> p = r.v; r = Raw(); if (!Hull(r, p)) r = Raw(); }
      break;
    }
    case 4: {
      int64_t x0 = rng.Range(0, 2), y0 = rng.Range(0, 2), a = rng.Range(1, 2), b = rng.Range(1, 2), c = rng.Range(1, 2), d = rng.Range(1, 2);
      int64_t z0 = rng.Range(0, 3), z1 = z0 + rng.Range(1, 3);
      int64_t x1 = x0 + a, x2 = x1 + b, y1 = y0 + c, y2 = y1 + d;
      Prism(r, {{{x0, y0}, {x2, y0}, {x2, y1}, {x0, y1}}, {{x0, y1}, {x1, y1}, {x1, y2}, {x0, y2}}},
            {{x0, y0}, {x2, y0}, {x2, y1}, {x1, y1}, {x1, y2}, {x0, y2}}, z0, z1);
      break;
    }
    case 5: {
      int64_t z0 = rng.Range(0, 3), z1 = z0 + rng.Range(1, 3), s = rng.Range(0, 1);
      int64_t a = s, b = s + 1, c = s + 3, d = s + 4, y0 = rng.Range(0, 2), y1 = y0 + rng.Range(1, 2), y2 = y1 + rng.Range(1, 2);
      Prism(r, {{{a, y0}, {d, y0}, {d, y1}, {a, y1}}, {{a, y1}, {b, y1}, {b, y2}, {a, y2}}, {{c, y1}, {d, y1}, {d, y2}, {c, y2}}},
            {{a, y0}, {d, y0}, {d, y1}, {d, y2}, {c, y2}, {c, y1}, {b, y1}, {b, y2}, {a, y2}, {a, y1}}, z0, z1);
      break;
    }
    case 6: {
      RandBox(rng, 3, lo, hi); AddBox(r, lo, hi);
      RandBox(rng, 3, lo, hi);
      int ax = static_cast<int>(rng.Below(3)); lo[ax] += 4; hi[ax] += 4;
      AddBox(r, lo, hi);
      break;
    }
    case 7: {
      for (int i = 0; i < 3; ++i) { lo[i] = rng.Range(0, 2); hi[i] = lo[i] + rng.Range(3, 5); }
      AddBox(r, lo, hi);
      for (int i = 0; i < 3; ++i) { lo[i] += 1; hi[i] -= 1; }
      AddBox(r, lo, hi, true);
      break;
    }
    case 8: {
      int k = static_cast<int>(rng.Range(1, 3));
      for (int i = 0; i < 3; ++i) { lo[i] = rng.Range(0, 2); hi[i] = lo[i] + k * rng.Range(1, 2); }
      for (int ax = 0; ax < 3; ++ax) for (int side = 0; side < 2; ++side) {
        int u = (ax + 1) % 3, w = (ax + 2) % 3;
        int64_t du = (hi[u] - lo[u]) / k, dw = (hi[w] - lo[w]) / k;
        for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) {
          std::vector<int> f;
          static const int c[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
          for (int q = 0; q < 4; ++q) {
            int64_t p[3];
            p[ax] = side ? hi[ax] : lo[ax];
            p[u] = lo[u] + (i + c[q][0]) * du;
            p[w] = lo[w] + (j + c[q][1]) * dw;
            f.push_back(r.AddV(p[0], p[1], p[2]));
          }
          if (!side) std::reverse(f.begin(), f.end());
          r.f.push_back(f);
        }
      }
      break;
    }
    case 9: {
      static const int d8[8][2] = {{2, 0}, {1, 1}, {0, 2}, {-1, 1}, {-2, 0}, {-1, -1}, {0, -2}, {1, -1}};
      int step = rng.Chance(1, 2) ? 2 : 1;
      int64_t cx = rng.Range(1, 4), cy = rng.Range(1, 4), cz = rng.Range(1, 4);
      std::vector<std::array<int64_t, 3>> p;
      for (int i = 0; i < 8; i += step) p.push_back({cx + d8[i][0] , cy + d8[i][1], cz});
      p.push_back({cx, cy, cz + rng.Range(1, 3)});
      p.push_back({cx + rng.Range(0, 1), cy, cz - rng.Range(1, 3)});
      if (!Hull(r, p)) r = Raw();
      break;
    }
    case 10: {
      RandBox(rng, 5, lo, hi);
      std::vector<std::array<int64_t, 3>> p;
      int drop1 = static_cast<int>(rng.Below(3)), s1 = static_cast<int>(rng.Below(4));
      for (int i = 0; i < 8; ++i) {
        int u = (i >> ((drop1 + 1) % 3)) & 1, w = (i >> ((drop1 + 2) % 3)) & 1;
        if (u * 2 + w == s1) continue;
        p.push_back({i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2]});
      }
      if (!Hull(r, p)) r = Raw();
      break;
    }
    case 11: {
      for (int i = 0; i < 3; ++i) { lo[i] = rng.Range(0, 1); hi[i] = lo[i] + rng.Range(1, 2); }
      AddBox(r, lo, hi);
      int64_t l2[3], h2[3];
      int touch = static_cast<int>(rng.Range(1, 3));  // axes in which it only touches
      int ax = static_cast<int>(rng.Below(3));
      for (int i = 0; i < 3; ++i) {
        if ((i - ax + 3) % 3 < touch) { l2[i] = hi[i]; h2[i] = l2[i] + rng.Range(1, 2); }
        else { l2[i] = lo[i] + rng.Range(0, 1) * (hi[i] - lo[i] > 1); h2[i] = l2[i] + rng.Range(1, 2); }
      }
      AddBox(r, l2, h2);
      break;
    }
    case 12: {
      RandBox(rng, 4, lo, hi); AddBox(r, lo, hi);
      int64_t l2[3], h2[3];
      for (int i = 0; i < 3; ++i) { l2[i] = rng.Range(lo[i], hi[i] - 1); h2[i] = rng.Range(l2[i] + 1, 5); }
      AddBox(r, l2, h2);
      break;
    }
    case 13: {
      bool c[5][5][5] = {};
      int n = static_cast<int>(rng.Range(2, 7));
      int x = 2, y = 2, z = 2;
      for (int i = 0; i < n; ++i) {
        c[x][y][z] = true;
        int nx = x, ny = y, nz = z;
        int ax = static_cast<int>(rng.Below(3)), dd = rng.Chance(1, 2) ? 1 : -1;
        (ax == 0 ? nx : ax == 1 ? ny : nz) += dd;
        if (nx >= 1 && nx <= 3 && ny >= 1 && ny <= 3 && nz >= 1 && nz <= 3) { x = nx; y = ny; z = nz; }
        if (rng.Chance(1, 6)) { x = static_cast<int>(rng.Range(1, 3)); y = static_cast<int>(rng.Range(1, 3)); z = static_cast<int>(rng.Range(1, 3)); }
      }
      int64_t off[3] = {rng.Range(-1, 1), rng.Range(-1, 1), rng.Range(-1, 1)};
      static const int q[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
      static const int d[6][3] = {{0, 0, -1}, {0, 0, 1}, {0, -1, 0}, {0, 1, 0}, {-1, 0, 0}, {1, 0, 0}};
      for (int i = 1; i <= 3; ++i) for (int j = 1; j <= 3; ++j) for (int k = 1; k <= 3; ++k) {
        if (!c[i][j][k]) continue;
        for (int f = 0; f < 6; ++f) {
          if (c[i + d[f][0]][j + d[f][1]][k + d[f][2]]) continue;
          std::vector<int> loop;
          for (int v : q[f]) loop.push_back(r.AddV(i + (v & 1) + off[0], j + ((v >> 1) & 1) + off[1], k + ((v >> 2) & 1) + off[2]));
          r.f.push_back(loop);
        }
      }
      break;
    }
    case 14: {
      // A prism over a convex polygon of 8 to 24 corners.
      static const int e[12][2] = {{1, 0}, {3, 1}, {2, 1}, {1, 1}, {1, 2}, {1, 3}, {0, 1}, {-1, 3}, {-1, 2}, {-1, 1}, {-2, 1}, {-3, 1}};
      int skip = static_cast<int>(rng.Range(0, 2));
      std::vector<std::array<int64_t, 2>> o;
      int64_t x = rng.Range(0, 4), y = rng.Range(-6, 0);
      std::vector<int> use;
      for (int i = 0; i < 12; ++i) if (skip == 0 || !rng.Chance(skip, 3)) use.push_back(i);
      if (use.size() < 4) use = {0, 3, 6, 9};
      for (int s = 1; s >= -1; s -= 2)
        for (int i : use) { o.push_back({x, y}); x += s * e[i][0]; y += s * e[i][1]; }
      int64_t z0 = rng.Range(0, 3), z1 = z0 + rng.Range(1, 3);
      Prism(r, {o}, o, z0, z1);
      break;
    }
    case 15: {
      // A box with a hole through it.
      int64_t x0 = rng.Range(0, 2), y0 = rng.Range(0, 2), x3 = x0 + rng.Range(3, 5), y3 = y0 + rng.Range(3, 5);
      int64_t x1 = x0 + 1, y1 = y0 + 1, x2 = x3 - 1, y2 = y3 - 1, z0 = rng.Range(0, 3), z1 = z0 + rng.Range(1, 4);
      Prism(r, {{{x0, y0}, {x3, y0}, {x2, y1}, {x1, y1}}, {{x3, y0}, {x3, y3}, {x2, y2}, {x2, y1}},
                {{x3, y3}, {x0, y3}, {x1, y2}, {x2, y2}}, {{x0, y3}, {x0, y0}, {x1, y1}, {x1, y2}}},
            {{x0, y0}, {x3, y0}, {x3, y3}, {x0, y3}}, z0, z1);
      Prism(r, {}, {{x1, y1}, {x1, y2}, {x2, y2}, {x2, y1}}, z0, z1);
      break;
    }
    case 16: {
      // A ball of lattice points.
      int64_t k = rng.Range(2, 3), c = rng.Range(2, 4);
      std::vector<std::array<int64_t, 3>> p;
      for (int64_t a = -k; a <= k; ++a) for (int64_t b = -k; b <= k; ++b) for (int64_t d = -k; d <= k; ++d) {
        int64_t q = a * a + b * b + d * d;
        if (q <= k * k + 1 && q + 2 * k - 1 >= k * k && rng.Chance(2, 5)) p.push_back({c + a, c + b, c + d});
      }
      if (p.size() > 36) p.resize(36);
      if (!Hull(r, p)) r = Raw();
      break;
    }
    case 17: {
      // A box whose faces are cut into strips: many facets on few planes.
      RandBox(rng, 5, lo, hi);
      int64_t n = rng.Range(6, 12);
      bool flat_caps = rng.Chance(1, 2);
      for (int a = 0; a < 3; ++a) { lo[a] *= n; hi[a] *= n; }
      for (int a = 0; a < 3; ++a) {
        int u = (a + 1) % 3, v = (a + 2) % 3;
        int across = a == 0 ? 1 : 0;  // walls get vertical strips
        if (u != across && v != across) across = u;
        int along = across == u ? v : u;
        int64_t k = a == 2 && flat_caps ? rng.Range(1, 3) : n;
        for (int side = 0; side < 2; ++side) for (int64_t i = 0; i < k; ++i) {
          // The ends of a strip are also cut, so that they need not be parallel.
          int64_t w = hi[across] - lo[across];
          int64_t c0 = lo[across] + w * i / k, c1 = lo[across] + w * (i + 1) / k;
          int64_t q[4][2] = {{c0, lo[along]}, {c1, lo[along]}, {c1, hi[along]}, {c0, hi[along]}};
          std::vector<int> f;
          for (auto& e : q) {
            int64_t c[3];
            c[a] = side ? hi[a] : lo[a];
            c[across] = e[0];
            c[along] = e[1];
            f.push_back(r.AddV(c[0], c[1], c[2]));
          }
          if ((side == 1) != (across == u)) std::reverse(f.begin(), f.end());
          r.f.push_back(f);
        }
      }
      break;
    }
    case 18: {
      // A prism over a polygon with an edge in every direction of a small
      // lattice, caps cut into strips.
      std::vector<std::array<int64_t, 2>> d, o;
      int64_t g = rng.Range(3, 4);
      for (int64_t a = -g; a <= g; ++a) for (int64_t b = -g; b <= g; ++b) {
        int64_t x = a < 0 ? -a : a, y = b < 0 ? -b : b;
        while (y) { int64_t z = x % y; x = y; y = z; }
        if (x == 1) d.push_back({a, b});
      }
      std::sort(d.begin(), d.end(), [](const std::array<int64_t, 2>& a, const std::array<int64_t, 2>& b) {
        auto half = [](const std::array<int64_t, 2>& p) { return p[1] < 0 || (p[1] == 0 && p[0] < 0); };
        if (half(a) != half(b)) return half(b);
        return a[0] * b[1] - a[1] * b[0] > 0;
      });
      int64_t x = 0, y = 0;
      for (auto& e : d) { o.push_back({x, y}); x += e[0]; y += e[1]; }
      size_t n = o.size();
      std::vector<std::vector<std::array<int64_t, 2>>> pieces;
      for (size_t i = 0, j = n - 1; i < j;) {
        size_t i2 = i + static_cast<size_t>(rng.Range(1, 3)), j2 = j - static_cast<size_t>(rng.Range(1, 3));
        if (i2 + 1 >= j2 || j2 > n) i2 = j2 = (i + j) / 2;
        std::vector<std::array<int64_t, 2>> s;
        for (size_t k = i; k <= i2; ++k) s.push_back(o[k]);
        for (size_t k = std::max(j2, i2 + 1); k <= j; ++k) s.push_back(o[k]);
        if (s.size() >= 3) pieces.push_back(s);
        if (i2 == j2) break;
        i = i2;
        j = j2;
      }
      Prism(r, pieces, o, 0, rng.Range(1, 30));
      break;
    }
  }
  if (r.f.size() < 4) { r = Raw(); int64_t l[3] = {0, 0, 0}, h[3] = {2, 2, 2}; AddBox(r, l, h); }
  return r;
}

void InvertMesh(Mesh& mesh) {
  for (Facet& f : mesh) {
    std::reverse(f.pts.begin(), f.pts.end());
    for (Num* n : {&f.plane.a, &f.plane.b, &f.plane.c, &f.plane.d}) *n = Neg(*n);
  }
}

Mesh MakeSolid(int kind, uint64_t seed, const Scene& sc, bool invert) {
  Rng rng(seed ^ 0x50114d);
  Raw r = MakeRaw(kind, rng);
  const int64_t* m = sc.m;
  int64_t det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
  std::vector<Pt> v;
  for (auto& p : r.v) {
    Num c[3];
    for (int i = 0; i < 3; ++i) {
      cpp_int x = m[i * 3] * p[0] + m[i * 3 + 1] * p[1] + m[i * 3 + 2] * p[2];
      x <<= sc.scale_bits;
      x += cpp_int(sc.t[i]) << sc.t_bits;
      c[i] = Export(x);
    }
    v.push_back({c[0], c[1], c[2], FromI64(1)});
  }
  Mesh out;
  for (auto& loop : r.f) {
    Facet f;
    std::vector<int> l = loop;
    if ((det < 0) != invert) std::reverse(l.begin(), l.end());
    for (int i : l) f.pts.push_back(v[i]);
    if (!PlaneThrough(f.pts[0], f.pts[1], f.pts[2], f.plane)) continue;
    f.drop = PickDrop(f.plane, rng);
    out.push_back(f);
  }
  return out;
}

static Pt ScalePt(const Pt& p, const cpp_int& s) {
  return {Export(Big(p.x) * s), Export(Big(p.y) * s), Export(Big(p.z) * s), Export(Big(p.w) * s)};
}
static Pt Between(const Pt& a, const Pt& b, int64_t na, int64_t nb) {
  // (na a + nb b) / (na + nb)
  cpp_int aw = Big(a.w), bw = Big(b.w);
  return {Export(Big(a.x) * bw * na + Big(b.x) * aw * nb), Export(Big(a.y) * bw * na + Big(b.y) * aw * nb),
          Export(Big(a.z) * bw * na + Big(b.z) * aw * nb), Export(aw * bw * (na + nb))};
}

void Perturb(Mesh& mesh, uint64_t seed, int flags) {
  Rng rng(seed ^ 0x9e47);
  if (flags & 1) {
    Mesh out;
    for (Facet& f : mesh) {
      size_t n = f.pts.size();
      if (n < 3 || rng.Chance(1, 2)) { out.push_back(f); continue; }
      // Cut along a segment between two boundary points.
      size_t i = rng.Below(n);
      std::vector<Pt> pts = f.pts;
      std::rotate(pts.begin(), pts.begin() + i, pts.end());
      size_t j;
      if (n > 3 && rng.Chance(1, 2)) {
        j = 2 + rng.Below(n - 3);
      } else {
        j = 1 + rng.Below(n - 2);  // new point after pts[j]
        pts.insert(pts.begin() + j + 1, Between(pts[j], pts[j + 1], rng.Range(1, 3), rng.Range(1, 3)));
        j = j + 1;
      }
      Facet a = f, b = f;
      a.pts.assign(pts.begin(), pts.begin() + j + 1);
      b.pts.assign(pts.begin() + j, pts.end());
      b.pts.push_back(pts[0]);
      // Collinear inputs can make a piece degenerate.
      if (CheckFacet(a, false).empty() && CheckFacet(b, false).empty()) { out.push_back(a); out.push_back(b); }
      else out.push_back(f);
    }
    mesh.swap(out);
  }
  for (Facet& f : mesh) {
    if ((flags & 8) && rng.Chance(1, 4)) {
      size_t i = rng.Below(f.pts.size());
      Pt mid = Between(f.pts[i], f.pts[(i + 1) % f.pts.size()], rng.Range(1, 3), rng.Range(1, 3));
      f.pts.insert(f.pts.begin() + i + 1, mid);
    }
    std::rotate(f.pts.begin(), f.pts.begin() + rng.Below(f.pts.size()), f.pts.end());
    if (flags & 2) {
      for (Pt& p : f.pts) {
        if (!rng.Chance(1, 2)) continue;
        cpp_int s = rng.Range(1, 9);
        if (rng.Chance(1, 4)) s <<= static_cast<unsigned>(rng.Below(80));
        if ((flags & 16) && rng.Chance(1, 3)) s = -s;
        p = ScalePt(p, s);
      }
    }
    if ((flags & 4) && rng.Chance(1, 2)) {
      Num s = FromI64(rng.Range(1, 1000));
      for (Num* n : {&f.plane.a, &f.plane.b, &f.plane.c, &f.plane.d}) *n = Mul(*n, s);
    }
    f.drop = PickDrop(f.plane, rng);
  }
}

void Shuffle(Mesh& mesh, uint64_t seed) {
  Rng rng(seed);
  for (size_t i = mesh.size(); i > 1; --i) std::swap(mesh[i - 1], mesh[rng.Below(i)]);
}

// ------------------------------------------------------------ facet checks
struct L3 { long double x, y, z; };
static L3 Long(const Pt& p) {
  long double w = ToLong(p.w);
  return {ToLong(p.x) / w, ToLong(p.y) / w, ToLong(p.z) / w};
}

std::string CheckFacet(const Facet& f, bool strict) {
  size_t n = f.pts.size();
  if (n < 3) return "fewer than three vertices";
  if (SignOf(f.plane.a) == 0 && SignOf(f.plane.b) == 0 && SignOf(f.plane.c) == 0) return "plane without normal";
  F3 nf{FieldOf(f.plane.a), FieldOf(f.plane.b), FieldOf(f.plane.c)};
  uint64_t df = FieldOf(f.plane.d);
  std::vector<F3> v(n);
  for (size_t i = 0; i < n; ++i) {
    if (SignOf(f.pts[i].w) == 0) return "vertex at infinity";
    v[i] = Field(f.pts[i]);
    if (Dot(nf, v[i]) != df) return "vertex " + std::to_string(i) + " is off the plane";
  }
  for (size_t i = 0; i < n; ++i)
    if (Key(v[i]) == Key(v[(i + 1) % n])) return "repeated vertex " + std::to_string(i);
  // Projection on the dominant axis of the normal, orientation preserved.
  long double na[3] = {ToLong(f.plane.a), ToLong(f.plane.b), ToLong(f.plane.c)};
  int ax = 0;
  for (int i = 1; i < 3; ++i) if (fabsl(na[i]) > fabsl(na[ax])) ax = i;
  int u = (ax + 1) % 3, w = (ax + 2) % 3;
  if (na[ax] < 0) std::swap(u, w);
  auto comp = [](const Pt& p, int i) -> const Num& { return i == 0 ? p.x : i == 1 ? p.y : p.z; };
  std::vector<L3> lv(n);
  for (size_t i = 0; i < n; ++i) lv[i] = Long(f.pts[i]);
  auto lc = [](const L3& p, int i) { return i == 0 ? p.x : i == 1 ? p.y : p.z; };
  // Directions of the edges: exact sign of a component difference.
  auto diff = [&](size_t i, size_t j, int c) -> int {
    long double a = lc(lv[i], c), b = lc(lv[j], c), d = b - a;
    if (fabsl(d) > (fabsl(a) + fabsl(b)) * 1e-17L) return d > 0 ? 1 : -1;
    cpp_int aw = Big(f.pts[i].w), bw = Big(f.pts[j].w);
    int s = Sgn(Big(comp(f.pts[j], c)) * aw - Big(comp(f.pts[i], c)) * bw);
    return (aw < 0) != (bw < 0) ? -s : s;
  };
  auto turn = [&](size_t i, size_t j, size_t k) -> int {
    long double ax_ = lc(lv[j], u) - lc(lv[i], u), ay = lc(lv[j], w) - lc(lv[i], w);
    long double bx = lc(lv[k], u) - lc(lv[j], u), by = lc(lv[k], w) - lc(lv[j], w);
    long double det = ax_ * by - ay * bx;
    long double mi = fabsl(lc(lv[i], u)) + fabsl(lc(lv[i], w)) + fabsl(lc(lv[j], u)) + fabsl(lc(lv[j], w));
    long double mk = fabsl(lc(lv[k], u)) + fabsl(lc(lv[k], w)) + fabsl(lc(lv[j], u)) + fabsl(lc(lv[j], w));
    long double la = fabsl(ax_) + fabsl(ay), lb = fabsl(bx) + fabsl(by);
    long double err = (mi * lb + mk * la + la * lb) * 1e-17L;
    if (fabsl(det) > err) return det > 0 ? 1 : -1;
    // det of homogeneous 3x3
    cpp_int m[3][3];
    size_t id[3] = {i, j, k};
    int neg = 0;
    for (int r = 0; r < 3; ++r) {
      m[r][0] = Big(comp(f.pts[id[r]], u)); m[r][1] = Big(comp(f.pts[id[r]], w)); m[r][2] = Big(f.pts[id[r]].w);
      if (m[r][2] < 0) ++neg;
    }
    int s = Sgn(m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
                m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]));
    return neg & 1 ? -s : s;
  };
  int wraps = 0;
  bool any = false;
  std::vector<int> half(n);
  for (size_t i = 0; i < n; ++i) {
    size_t j = (i + 1) % n;
    int dy = diff(i, j, w), dx = diff(i, j, u);
    half[i] = dy > 0 || (dy == 0 && dx > 0) ? 0 : 1;  // upper or lower half turn
  }
  for (size_t i = 0; i < n; ++i) {
    size_t j = (i + 1) % n, k = (i + 2) % n;
    int t = turn(i, j, k);
    if (t < 0) return "reflex vertex " + std::to_string(j);
    if (t > 0) any = true;
    if (t == 0) {
      if (strict) return "collinear vertex " + std::to_string(j);
      if (half[i] != half[j]) return "edge doubles back at vertex " + std::to_string(j);
    }
    if (half[i] == 1 && half[j] == 0) ++wraps;
  }
  if (!any) return "no area";
  if (wraps != 1) return "winds " + std::to_string(wraps) + " times";
  return "";
}
std::string CheckFacets(const Mesh& m, bool strict) {
  for (size_t i = 0; i < m.size(); ++i) {
    std::string s = CheckFacet(m[i], strict);
    if (!s.empty()) return "facet " + std::to_string(i) + ": " + s + ": " + ToString(m[i]);
  }
  return "";
}
double ApproxSize(const Mesh& m) {
  long double lo[3] = {1e4000L, 1e4000L, 1e4000L}, hi[3] = {-1e4000L, -1e4000L, -1e4000L};
  for (const Facet& f : m) for (const Pt& p : f.pts) {
    L3 l = Long(p);
    long double c[3] = {l.x, l.y, l.z};
    for (int i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], c[i]); hi[i] = std::max(hi[i], c[i]); }
  }
  long double s = 0;
  for (int i = 0; i < 3; ++i) s = std::max(s, hi[i] - lo[i]);
  return m.empty() ? 1 : static_cast<double>(s > 0 ? s : 1);
}

// ------------------------------------------------------------ winding
struct PPt { cpp_int x, y, z, w; L3 l; };
struct PFacet { cpp_int a, b, c, d; long double la, lb, lc, ld; std::vector<PPt> p; };
struct Prepared { std::vector<PFacet> f; };

static PPt Prep(const Pt& p) {
  PPt r;
  r.x = Big(p.x); r.y = Big(p.y); r.z = Big(p.z); r.w = Big(p.w);
  if (r.w < 0) { r.x = -r.x; r.y = -r.y; r.z = -r.z; r.w = -r.w; }
  r.l = Long(p);
  return r;
}
bool SegmentsOppose(const Pt& a0, const Pt& b0, const Pt& c0, const Pt& d0) {
  PPt a = Prep(a0), p[3] = {Prep(b0), Prep(c0), Prep(d0)};
  cpp_int v[3][3];
  for (int i = 0; i < 3; ++i) {
    v[i][0] = p[i].x * a.w - a.x * p[i].w;
    v[i][1] = p[i].y * a.w - a.y * p[i].w;
    v[i][2] = p[i].z * a.w - a.z * p[i].w;
  }
  for (int i = 1; i < 3; ++i)
    for (int k = 0; k < 3; ++k) {
      int l = (k + 1) % 3;
      if (v[0][k] * v[i][l] != v[0][l] * v[i][k]) return false;
    }
  int ax = v[0][0] != 0 ? 0 : v[0][1] != 0 ? 1 : 2;
  if (v[0][ax] == 0) return false;
  if (v[0][ax] < 0) for (auto& x : v) x[ax] = -x[ax];
  // Positions along a->b, scaled by the weights: 0 .. b, c and d.
  cpp_int b = v[0][ax], c = v[1][ax], d = v[2][ax];
  bool down = d * p[1].w < c * p[2].w;
  return down && c > 0 && d * p[0].w < b * p[2].w;
}
void Direction(const Pt& a0, const Pt& b0, long double* d) {
  PPt a = Prep(a0), b = Prep(b0);
  cpp_int v[3] = {b.x * a.w - a.x * b.w, b.y * a.w - a.y * b.w, b.z * a.w - a.z * b.w};
  cpp_int big = 1;
  for (const cpp_int& c : v) big = std::max(big, cpp_int(abs(c)));
  int bits = static_cast<int>(msb(big));
  for (int k = 0; k < 3; ++k) {
    cpp_int m = abs(v[k]);
    if (bits > 200) m >>= bits - 200;
    d[k] = m.convert_to<long double>() * (v[k] < 0 ? -1 : 1);
  }
}
Solid::Solid(const Mesh& m) {
  auto p = std::make_shared<Prepared>();
  for (const Facet& f : m) {
    PFacet q;
    q.a = Big(f.plane.a); q.b = Big(f.plane.b); q.c = Big(f.plane.c); q.d = Big(f.plane.d);
    q.la = ToLong(f.plane.a); q.lb = ToLong(f.plane.b); q.lc = ToLong(f.plane.c); q.ld = ToLong(f.plane.d);
    for (const Pt& v : f.pts) q.p.push_back(Prep(v));
    p->f.push_back(std::move(q));
  }
  p_ = p;
}
bool Solid::empty() const { return !p_ || p_->f.empty(); }

static const long double kEps = 1e-17L;

bool Solid::Winding(const Pt& q0, int& winding) const {
  winding = 0;
  if (!p_) return true;
  PPt q = Prep(q0);
  Rng rng(PointKey(q0));
  for (int attempt = 0; attempt < 16; ++attempt) {
    int64_t dir[3];
    for (auto& d : dir) d = rng.Range(-100003, 100003);
    if (!dir[0] && !dir[1] && !dir[2]) continue;
    long double lx = dir[0], ly = dir[1], lz = dir[2];
    long double ldir = fabsl(lx) + fabsl(ly) + fabsl(lz);
    long double lq = fabsl(q.l.x) + fabsl(q.l.y) + fabsl(q.l.z);
    int wind = 0;
    bool retry = false;
    for (const PFacet& f : p_->f) {
      long double mag = (fabsl(f.la) + fabsl(f.lb) + fabsl(f.lc));
      long double s = f.la * lx + f.lb * ly + f.lc * lz;
      int sn = fabsl(s) > mag * ldir * kEps ? (s > 0 ? 1 : -1) : Sgn(f.a * dir[0] + f.b * dir[1] + f.c * dir[2]);
      s = f.la * q.l.x + f.lb * q.l.y + f.lc * q.l.z - f.ld;
      int sq = fabsl(s) > (mag * lq + fabsl(f.ld)) * kEps
                   ? (s > 0 ? 1 : -1)
                   : Sgn(f.a * q.x + f.b * q.y + f.c * q.z - f.d * q.w);
      if (sq != 0 && sq == sn) continue;
      if (sn == 0) { if (sq == 0) { retry = true; break; } continue; }
      bool pos = false, neg = false, zero = false;
      size_t n = f.p.size();
      for (size_t i = 0; i < n; ++i) {
        const PPt& a = f.p[i];
        const PPt& b = f.p[i + 1 == n ? 0 : i + 1];
        long double ux = a.l.x - q.l.x, uy = a.l.y - q.l.y, uz = a.l.z - q.l.z;
        long double vx = b.l.x - q.l.x, vy = b.l.y - q.l.y, vz = b.l.z - q.l.z;
        long double det = lx * (uy * vz - uz * vy) + ly * (uz * vx - ux * vz) + lz * (ux * vy - uy * vx);
        long double la = fabsl(a.l.x) + fabsl(a.l.y) + fabsl(a.l.z) + lq, lb = fabsl(b.l.x) + fabsl(b.l.y) + fabsl(b.l.z) + lq;
        long double lu = fabsl(ux) + fabsl(uy) + fabsl(uz), lv = fabsl(vx) + fabsl(vy) + fabsl(vz);
        long double err = ldir * (la * lv + lb * lu + lu * lv) * kEps;
        int sd;
        if (fabsl(det) > err) sd = det > 0 ? 1 : -1;
        else {
          cpp_int Ux = a.x * q.w - q.x * a.w, Uy = a.y * q.w - q.y * a.w, Uz = a.z * q.w - q.z * a.w;
          cpp_int Vx = b.x * q.w - q.x * b.w, Vy = b.y * q.w - q.y * b.w, Vz = b.z * q.w - q.z * b.w;
          sd = Sgn(cpp_int((Uy * Vz - Uz * Vy) * dir[0] + (Uz * Vx - Ux * Vz) * dir[1] + (Ux * Vy - Uy * Vx) * dir[2]));
        }
        if (sd > 0) pos = true; else if (sd < 0) neg = true; else zero = true;
        if (pos && neg) break;
      }
      if (pos && neg) continue;
      if (sq == 0) return false;  // on the facet
      if (zero) { retry = true; break; }
      wind += pos ? 1 : -1;
    }
    if (retry) continue;
    winding = wind;
    return true;
  }
  return false;
}

// ------------------------------------------------------------ query points
Pt Displace(const Pt& p, Rng& rng, long double length) {
  // Displacement in units of 2^-k.
  int e = 0;
  frexpl(length > 0 ? length : 1, &e);
  int k = std::max(0, 24 - e), up = std::max(0, e - 24);
  cpp_int w = Big(p.w);
  cpp_int s = cpp_int(1) << k;
  cpp_int c[3] = {Big(p.x), Big(p.y), Big(p.z)};
  for (auto& x : c) {
    cpp_int d = rng.Range(-(1 << 24), 1 << 24);
    x = x * s + ((d << up) * w);
  }
  return {Export(c[0]), Export(c[1]), Export(c[2]), Export(w * s)};
}
Pt NearVertex(const Mesh& m, Rng& rng, int bits) {
  const Facet& f = m[rng.Below(m.size())];
  const Pt& p = f.pts[rng.Below(f.pts.size())];
  return Displace(p, rng, ldexpl(ApproxSize(m), -bits));
}
Pt NearFacet(const Mesh& m, Rng& rng, int bits, bool other) {
  const Facet& f = m[rng.Below(m.size())];
  size_t n = f.pts.size();
  size_t i = rng.Below(n);
  Pt c = Between(Between(f.pts[i], f.pts[(i + 1) % n], rng.Range(1, 9), rng.Range(1, 9)),
                 f.pts[(i + 2 + rng.Below(n - 2)) % n], rng.Range(1, 9), rng.Range(1, 9));
  (void)other;
  return Displace(c, rng, ldexpl(ApproxSize(m), -bits));
}
Pt RandomPoint(const std::vector<const Mesh*>& ms, Rng& rng) {
  // Weighted combination of random vertices, then displaced a little.
  Pt p{FromI64(0), FromI64(0), FromI64(0), FromI64(1)};
  std::vector<const Mesh*> ok;
  for (const Mesh* m : ms) if (!m->empty()) ok.push_back(m);
  if (ok.empty()) return Displace(p, rng, 4);
  auto pick = [&]() -> const Pt& { const Mesh& m = *ok[rng.Below(ok.size())]; const Facet& f = m[rng.Below(m.size())]; return f.pts[rng.Below(f.pts.size())]; };
  p = pick();
  for (int i = 0; i < 3; ++i) p = Between(p, pick(), rng.Range(1, 7), rng.Range(-1, 7) | 1);
  if (SignOf(p.w) == 0) p = pick();
  return Displace(p, rng, ApproxSize(*ok[0]) / 64);
}
Plane RandomPlane(const std::vector<const Mesh*>& ms, Rng& rng, int style) {
  std::vector<const Mesh*> ok;
  for (const Mesh* m : ms) if (!m->empty()) ok.push_back(m);
  Plane fallback{FromI64(1), FromI64(0), FromI64(0), FromI64(1)};
  if (ok.empty()) return fallback;
  auto pickf = [&]() -> const Facet& { const Mesh& m = *ok[rng.Below(ok.size())]; return m[rng.Below(m.size())]; };
  auto pick = [&]() -> const Pt& { const Facet& f = pickf(); return f.pts[rng.Below(f.pts.size())]; };
  Plane r;
  for (int t = 0; t < 20; ++t) {
    if (style == 0) {  // axis aligned through a vertex
      int ax = static_cast<int>(rng.Below(3));
      const Pt& p = pick();
      const Num& c = ax == 0 ? p.x : ax == 1 ? p.y : p.z;
      cpp_int n[3] = {0, 0, 0}, d = Big(c);
      n[ax] = Big(p.w);
      if (rng.Chance(1, 2)) { n[ax] = -n[ax]; d = -d; }
      return ReducePlane(n[0], n[1], n[2], d);
    }
    if (style == 1) {  // through three vertices
      if (PlaneThrough(pick(), pick(), pick(), r)) return r;
      continue;
    }
    if (style == 2) {  // plane of a facet, either direction
      r = pickf().plane;
      if (rng.Chance(1, 2)) for (Num* n : {&r.a, &r.b, &r.c, &r.d}) *n = Neg(*n);
      return r;
    }
    // general position: through a displaced point
    Pt p = Displace(pick(), rng, ApproxSize(*ok[0]) / 4);
    cpp_int n[3];
    for (auto& x : n) x = rng.Range(-7, 7);
    if (n[0] == 0 && n[1] == 0 && n[2] == 0) continue;
    cpp_int d = n[0] * Big(p.x) + n[1] * Big(p.y) + n[2] * Big(p.z), w = Big(p.w);
    for (auto& x : n) x *= w;
    if (w < 0) { for (auto& x : n) x = -x; d = -d; }
    return ReducePlane(n[0], n[1], n[2], d);
  }
  return fallback;
}

// ------------------------------------------------------------ constructions
static Pt ReducePt(cpp_int x, cpp_int y, cpp_int z, cpp_int w);
bool Meet3(const Plane& p, const Plane& q, const Plane& r, Pt& out) {
  const Plane* pl[3] = {&p, &q, &r};
  cpp_int m[3][4];
  for (int i = 0; i < 3; ++i) { m[i][0] = Big(pl[i]->a); m[i][1] = Big(pl[i]->b); m[i][2] = Big(pl[i]->c); m[i][3] = Big(pl[i]->d); }
  auto det = [&](int a, int b, int c) {
    cpp_int d = m[0][a] * (m[1][b] * m[2][c] - m[1][c] * m[2][b]);
    d -= m[0][b] * (m[1][a] * m[2][c] - m[1][c] * m[2][a]);
    d += m[0][c] * (m[1][a] * m[2][b] - m[1][b] * m[2][a]);
    return d;
  };
  cpp_int w = det(0, 1, 2);
  if (w == 0) return false;
  out = ReducePt(det(3, 1, 2), det(0, 3, 2), det(0, 1, 3), w);
  return true;
}
bool PlaneOf(const Pt& p, const Pt& q, const Pt& r, Plane& out) { return PlaneThrough(p, q, r, out); }
static Pt ReducePt(cpp_int x, cpp_int y, cpp_int z, cpp_int w) {
  cpp_int g = Gcd(Gcd(x, y), Gcd(z, w));
  if (g < 0) g = -g;
  if (g > 1) { x /= g; y /= g; z /= g; w /= g; }
  return {Export(x), Export(y), Export(z), Export(w)};
}
Pt Mix2(const Pt& a, const Pt& b, int64_t na, int64_t nb) {
  cpp_int aw = Big(a.w), bw = Big(b.w);
  return ReducePt(Big(a.x) * bw * na + Big(b.x) * aw * nb, Big(a.y) * bw * na + Big(b.y) * aw * nb,
                  Big(a.z) * bw * na + Big(b.z) * aw * nb, aw * bw * (na + nb));
}
Pt OffEdge(const Pt& a, const Pt& b, const Plane& n, int64_t s, int64_t t, int64_t den) {
  cpp_int aw = Big(a.w), bw = Big(b.w);
  cpp_int ac[3] = {Big(a.x), Big(a.y), Big(a.z)}, bc[3] = {Big(b.x), Big(b.y), Big(b.z)};
  cpp_int nn[3] = {Big(n.a), Big(n.b), Big(n.c)};
  // Large normals are scaled down to a comparable direction.
  cpp_int e[3], x[3];
  for (int i = 0; i < 3; ++i) e[i] = bc[i] * aw - ac[i] * bw;   // (b - a) aw bw
  for (int i = 0; i < 3; ++i) x[i] = e[(i + 1) % 3] * nn[(i + 2) % 3] - e[(i + 2) % 3] * nn[(i + 1) % 3];
  cpp_int big = 0;
  for (int i = 0; i < 3; ++i) { cpp_int m = nn[i] < 0 ? cpp_int(-nn[i]) : nn[i]; if (m > big) big = m; }
  // x is about |n| times too long.
  cpp_int w = aw * bw * den * big;
  cpp_int r[3];
  for (int i = 0; i < 3; ++i) r[i] = ac[i] * bw * den * big + e[i] * s * big + x[i] * t;
  return ReducePt(r[0], r[1], r[2], w);
}
static cpp_int Comp(const Pt& p, int d) { return Big(d == 0 ? p.x : d == 1 ? p.y : p.z); }
int CompareComponent(const Pt& a, const Pt& b, int dim) {
  cpp_int aw = Big(a.w), bw = Big(b.w);
  int s = Sgn(Comp(a, dim) * bw - Comp(b, dim) * aw);
  return (aw < 0) != (bw < 0) ? -s : s;
}
int CompareComponentTo(const Pt& p, int dim, const Num& num, const Num& den) {
  cpp_int w = Big(p.w), dd = Big(den);
  int s = Sgn(Comp(p, dim) * dd - Big(num) * w);
  return (w < 0) != (dd < 0) ? -s : s;
}
int CompareAlong(const Pt& a, const Pt& b, const int64_t* v) {
  cpp_int aw = Big(a.w), bw = Big(b.w);
  cpp_int da = Big(a.x) * v[0] + Big(a.y) * v[1] + Big(a.z) * v[2], db = Big(b.x) * v[0] + Big(b.y) * v[1] + Big(b.z) * v[2];
  int s = Sgn(da * bw - db * aw);
  return (aw < 0) != (bw < 0) ? -s : s;
}
Pt Rescale(const Pt& p, int64_t k, int shift) {
  cpp_int m = cpp_int(k) << shift;
  return ScalePt(p, m);
}

}  // namespace geom
}  // namespace sim
