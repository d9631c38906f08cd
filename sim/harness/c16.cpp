// C16: geometric values answer side tests, comparisons, intersections and
// orderings exactly through any history. Reference: boost cpp_int.
// sim-mode: asan
#include <array>
#include <memory>
#include <string>
#include <vector>

#include <boost/multiprecision/cpp_int.hpp>

#include "glue.h"
#include "walnut/aabb.h"
#include "walnut/half_space2.h"
#include "walnut/half_space2_sideless_compare.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
#include "walnut/r_transformation.h"
#include "walnut/rational.h"
#include "walnut/vector2.h"
#include "walnut/vector3.h"

using namespace sim;
using namespace walnut;
using boost::multiprecision::cpp_int;

namespace {

constexpr int kPool = 6;
using V = std::vector<cpp_int>;

enum { kSet = kOpFirstHarness, kCopy, kVec, kPoint, kPlane, kLine, kOrder, kBox, kRatio, kEnd };
const char* const kNames[] = {"set", "copy", "vector", "point", "plane", "line", "order", "box", "rational"};
enum Kind { kV2, kV3, kP2, kP3, kH2, kH3, kS2, kS3, kL, kB, kKinds };
const int kSize[kKinds] = {2, 3, 2, 3, 3, 4, 3, 4, 6, 7};

int Sgn(const cpp_int& v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
template <typename T> int SgnOf(T v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

cpp_int Value(const BigInt& v) {
  size_t n = v.used_words();
  SIM_CHECK(n >= 1 && n < 100000, "geometry:bad-size", "used_words=%zu", n);
  cpp_int r = 0;
  bool neg = static_cast<int64_t>(v.word(n - 1).low_uint64()) < 0;
  for (size_t i = n; i-- > 0;) {
    uint64_t w = v.word(i).low_uint64();
    if (neg) w = ~w;
    r <<= 64;
    r |= w;
  }
  if (neg) r = -r - 1;
  return r;
}
// The words of a value, as the code under test will be given it.
geom::Num Words(const cpp_int& v) {
  cpp_int u = v < 0 ? cpp_int(-v - 1) : v;
  geom::Num n;
  while (u != 0) { n.push_back(static_cast<uint64_t>(u & ~uint64_t(0))); u >>= 64; }
  n.push_back(0);
  if (v < 0) for (uint64_t& w : n) w = ~w;
  return n;
}
size_t Bits(const V& m) {
  size_t b = 0;
  for (const cpp_int& c : m) if (c != 0) b = std::max<size_t>(b, boost::multiprecision::msb(c < 0 ? cpp_int(-c) : c) + 1);
  return b;
}
std::string Str(const V& m) {
  std::string s = "(";
  for (const cpp_int& c : m) {
    std::string t = c.str();
    if (t.size() > 40) t = t.substr(0, 20) + ".." + t.substr(t.size() - 12);
    s += (s.size() > 1 ? ", " : "") + t;
  }
  return s + ")";
}

// ------------------------------------------------------------ components of the real objects
const BigInt& C(const Vector2& v, int i) { return v.components()[i]; }
const BigInt& C(const Vector3& v, int i) { return v.components()[i]; }
const BigInt& C(const Point2& v, int i) { return v.coords()[i]; }
const BigInt& C(const Point3& v, int i) { return v.components()[i]; }
const BigInt& C(const HomoPoint2& v, int i) { return i == 2 ? v.w() : v.vector_from_origin().components()[i]; }
const BigInt& C(const HomoPoint3& v, int i) { return i == 3 ? v.w() : v.vector_from_origin().components()[i]; }
const BigInt& C(const HalfSpace2& v, int i) { return i == 2 ? v.d() : v.normal().components()[i]; }
const BigInt& C(const HalfSpace3& v, int i) { return i == 3 ? v.d() : v.normal().components()[i]; }
const BigInt& C(const PluckerLine& v, int i) { return i < 3 ? v.d().components()[i] : v.m().components()[i - 3]; }
const BigInt& C(const AABB& v, int i) { return i == 6 ? v.denom() : i < 3 ? v.min_point_num().components()[i] : v.max_point_num().components()[i - 3]; }

template <typename T> struct KindOf;
template <> struct KindOf<Vector2> { enum { k = kV2 }; };
template <> struct KindOf<Vector3> { enum { k = kV3 }; };
template <> struct KindOf<Point2> { enum { k = kP2 }; };
template <> struct KindOf<Point3> { enum { k = kP3 }; };
template <> struct KindOf<HomoPoint2> { enum { k = kH2 }; };
template <> struct KindOf<HomoPoint3> { enum { k = kH3 }; };
template <> struct KindOf<HalfSpace2> { enum { k = kS2 }; };
template <> struct KindOf<HalfSpace3> { enum { k = kS3 }; };
template <> struct KindOf<PluckerLine> { enum { k = kL }; };
template <> struct KindOf<AABB> { enum { k = kB }; };

template <typename T> V Read(const T& t) {
  V r;
  for (int i = 0; i < kSize[KindOf<T>::k]; ++i) r.push_back(Value(C(t, i)));
  return r;
}

// Called in Sut mode. `how` picks the constructor.
using Nums = std::vector<geom::Num>;
bool Small(const Nums& n) { for (const geom::Num& x : n) if (x.size() > 1 || static_cast<int64_t>(x[0]) > (1 << 30) || static_cast<int64_t>(x[0]) < -(1 << 30)) return false; return true; }
int I(const geom::Num& n) { return static_cast<int>(static_cast<int64_t>(n[0])); }
Vector2 New(const Nums& n, int how, const Vector2*) { if ((how & 1) && Small(n)) return Vector2(I(n[0]), I(n[1])); return Vector2(ToBig(n[0]), ToBig(n[1])); }
Vector3 New(const Nums& n, int how, const Vector3*) {
  if ((how & 1) && Small(n)) return Vector3(I(n[0]), I(n[1]), I(n[2]));
  if (how & 2) { BigInt x = ToBig(n[0]), y = ToBig(n[1]), z = ToBig(n[2]); return Vector3(x, y, z); }
  return Vector3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]));
}
Point2 New(const Nums& n, int how, const Point2*) { if ((how & 1) && Small(n)) return Point2(I(n[0]), I(n[1])); return Point2(ToBig(n[0]), ToBig(n[1])); }
Point3 New(const Nums& n, int how, const Point3*) {
  if ((how & 1) && Small(n)) return Point3(I(n[0]), I(n[1]), I(n[2]));
  if (how & 2) return Point3(New(n, how, static_cast<const Vector3*>(nullptr)));
  return Point3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]));
}
HomoPoint2 New(const Nums& n, int how, const HomoPoint2*) {
  if ((how & 1) && Small(n)) return HomoPoint2(I(n[0]), I(n[1]), I(n[2]));
  if (how & 2) return HomoPoint2(Vector2(ToBig(n[0]), ToBig(n[1])), ToBig(n[2]));
  return HomoPoint2(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]));
}
HomoPoint3 New(const Nums& n, int how, const HomoPoint3*) {
  if ((how & 1) && Small(n)) return HomoPoint3(I(n[0]), I(n[1]), I(n[2]), I(n[3]));
  if (how & 2) return HomoPoint3(Vector3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2])), ToBig(n[3]));
  if (how & 4) { BigInt x = ToBig(n[0]), y = ToBig(n[1]), z = ToBig(n[2]), w = ToBig(n[3]); return HomoPoint3(x, y, z, w); }
  return HomoPoint3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]), ToBig(n[3]));
}
HalfSpace2 New(const Nums& n, int how, const HalfSpace2*) {
  if ((how & 1) && Small(n)) return HalfSpace2(I(n[0]), I(n[1]), I(n[2]));
  if (how & 2) return HalfSpace2(Vector2(ToBig(n[0]), ToBig(n[1])), ToBig(n[2]));
  return HalfSpace2(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]));
}
HalfSpace3 New(const Nums& n, int how, const HalfSpace3*) {
  if ((how & 1) && Small(n)) return HalfSpace3(I(n[0]), I(n[1]), I(n[2]), I(n[3]));
  if (how & 2) { Vector3 v(ToBig(n[0]), ToBig(n[1]), ToBig(n[2])); BigInt d = ToBig(n[3]); return HalfSpace3(v, d); }
  if (how & 4) return HalfSpace3(Vector3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2])), ToBig(n[3]));
  return HalfSpace3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]), ToBig(n[3]));
}
PluckerLine New(const Nums& n, int, const PluckerLine*) { return PluckerLine(Vector3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2])), Vector3(ToBig(n[3]), ToBig(n[4]), ToBig(n[5]))); }
AABB New(const Nums& n, int how, const AABB*) {
  if ((how & 1) && Small(n)) return AABB(I(n[0]), I(n[1]), I(n[2]), I(n[3]), I(n[4]), I(n[5]), I(n[6]));
  if (how & 2) return AABB(ToBig(n[0]), ToBig(n[1]), ToBig(n[2]), ToBig(n[3]), ToBig(n[4]), ToBig(n[5]), ToBig(n[6]));
  return AABB(Vector3(ToBig(n[0]), ToBig(n[1]), ToBig(n[2])), Vector3(ToBig(n[3]), ToBig(n[4]), ToBig(n[5])), ToBig(n[6]));
}

// ------------------------------------------------------------ exact model
cpp_int Dot(const V& a, const V& b, int n) { cpp_int r = 0; for (int i = 0; i < n; ++i) r += a[i] * b[i]; return r; }
V Cross3(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
cpp_int Cross2(const V& a, const V& b) { return a[0] * b[1] - a[1] * b[0]; }
V Head(const V& a, int n) { return V(a.begin(), a.begin() + n); }
V Tail(const V& a, int n) { return V(a.end() - n, a.end()); }
bool Zero(const V& a, int n) { for (int i = 0; i < n; ++i) if (a[i] != 0) return false; return true; }
V Mulv(const V& a, const cpp_int& k) { V r; for (const cpp_int& c : a) r.push_back(c * k); return r; }
V Addv(const V& a, const V& b, int s) { V r; for (size_t i = 0; i < a.size(); ++i) r.push_back(s > 0 ? cpp_int(a[i] + b[i]) : cpp_int(a[i] - b[i])); return r; }
// -1: opposite multiples, 1: positive multiples, 0: not proportional. Neither is zero.
int Proportion(const V& a, const V& b) {
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = i + 1; j < a.size(); ++j) if (a[i] * b[j] != a[j] * b[i]) return 0;
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) return Sgn(a[i]) * Sgn(b[i]);
  return 1;
}
// A point as homogeneous coordinates whatever its kind.
V Homo(const V& p, int dim) { V r = p; if (static_cast<int>(p.size()) == dim) r.push_back(1); return r; }
int CmpComp(const V& a, const V& b, int i) { return Sgn(a[i] * b.back() - b[i] * a.back()) * Sgn(a.back()) * Sgn(b.back()); }
bool SamePt(const V& a, const V& b) { for (size_t i = 0; i + 1 < a.size(); ++i) if (CmpComp(a, b, static_cast<int>(i))) return false; return true; }
V DropDim(const V& a, int d) { return {a[(d + 1) % 3], a[(d + 2) % 3]}; }
int Side(const V& plane, const V& pt) { size_t n = plane.size() - 1; return Sgn(Dot(plane, pt, static_cast<int>(n)) - plane[n] * pt[n]) * Sgn(pt[n]); }
// Twist of p3 around c from p1, both 2D homogeneous.
int Twist(const V& c, const V& p1, const V& p3) {
  V a, b;
  for (int i = 0; i < 2; ++i) { a.push_back(p1[i] * c[2] - c[i] * p1[2]); b.push_back(p3[i] * c[2] - c[i] * p3[2]); }
  return Sgn(Cross2(a, b)) * Sgn(p1[2]) * Sgn(p3[2]);
}
V Drop3(const V& p, int d) { V r = DropDim(p, d); r.push_back(p[3]); return r; }
// 0 for angle 0, quadrant-free comparison key: half plane then cross product.
int AngleHalf(const V& a) { return a[1] > 0 || (a[1] == 0 && a[0] > 0) ? 0 : 1; }
int CmpAngle(const V& a, const V& b) {
  int ha = AngleHalf(a), hb = AngleHalf(b);
  if (ha != hb) return ha < hb ? -1 : 1;
  return -Sgn(Cross2(a, b));
}
bool OnLine(const V& line, const V& p) {  // p homogeneous
  return Cross3(Head(p, 3), Head(line, 3)) == Mulv(Tail(line, 3), p[3]);
}

template <typename T> struct Cell {
  std::unique_ptr<T> v;
  V m;
  bool known = false;
};

struct Session {
  Cell<Vector2> v2[kPool];
  Cell<Vector3> v3[kPool];
  Cell<Point2> p2[kPool];
  Cell<Point3> p3[kPool];
  Cell<HomoPoint2> h2[kPool];
  Cell<HomoPoint3> h3[kPool];
  Cell<HalfSpace2> s2[kPool];
  Cell<HalfSpace3> s3[kPool];
  Cell<PluckerLine> l[kPool];
  Cell<AABB> b[kPool];
  const Op* op = nullptr;
  int fm = 0, how = 0;
  uint64_t fired_total = 0;
  int checked = 0;

  template <typename F> void Each(F f) { f(v2); f(v3); f(p2); f(p3); f(h2); f(h3); f(s2); f(s3); f(l); f(b); }
  struct Init { template <typename T> void operator()(Cell<T> (&c)[kPool]) const { for (auto& x : c) x.v.reset(new T()); } };
  struct Free { template <typename T> void operator()(Cell<T> (&c)[kPool]) const { for (auto& x : c) x.v.reset(); } };
  struct Same {
    const char* name;
    template <typename T> void operator()(Cell<T> (&c)[kPool]) const {
      for (int i = 0; i < kPool; ++i) {
        if (!c[i].known) continue;
        V got = Read(*c[i].v);
        SIM_CHECK(got == c[i].m, "geometry:changed", "after %s: object %d of kind %d is %s, was %s", name, i, static_cast<int>(KindOf<T>::k), Str(got).c_str(), Str(c[i].m).c_str());
      }
    }
  };
  Session() { Sut s; Each(Init()); }
  ~Session() { Sut s; Each(Free()); }

  int Idx(size_t k) const { return static_cast<int>(static_cast<uint64_t>(op->arg(k)) % kPool); }
  // Runs code under test, with this operation's fault if it has one.
  template <typename F> bool Run(F f) {
    bool failed = false;
    uint64_t fired = 0;
    {
      Sut s;
      if (fm) ArmAllocFault(fm, static_cast<uint64_t>(op->arg(7)), static_cast<uint64_t>(op->arg(8)));
      try {
        f();
      } catch (const std::bad_alloc&) {
        failed = true;
      }
      if (fm) fired = DisarmAllocFault();
    }
    if (fired) { FaultFired("failed-allocation", fired); fired_total += fired; }
    SIM_CHECK(!failed || fired, "geometry:exception", "bad_alloc without a failed allocation");
    return !failed;
  }
  // Stores a result of the code under test in a cell.
  template <typename T, typename F> bool Make(Cell<T>& d, F f) {
    d.known = false;
    bool ok = Run([&] {
      switch (how & 3) {
        case 0: *d.v = f(); break;
        case 1: { T t(f()); *d.v = t; break; }
        case 2: { T t(f()); d.v.reset(new T(std::move(t))); break; }
        default: { const T t(f()); d.v.reset(new T(t)); break; }
      }
    });
    if (!ok) { Probe("make-failed"); return false; }
    d.m = Read(*d.v);
    d.known = true;
    return true;
  }
  template <typename T, typename F> bool InPlace(Cell<T>& d, F f) {
    d.known = false;
    if (!Run(f)) { Probe("in-place-failed"); return false; }
    d.m = Read(*d.v);
    d.known = true;
    return true;
  }
  // A predicate: its value must match.
  template <typename F> void Expect(int want, const char* what, const V& x, const V& y, F f) {
    int got = 0;
    if (!Run([&] { got = f(); })) return;
    ++checked;
    SIM_CHECK(got == want, "geometry:predicate", "%s of %s and %s is %d, exactly %d", what, Str(x).c_str(), Str(y).c_str(), got, want);
  }
  template <typename F> void ExpectValue(const cpp_int& want, const char* what, const V& x, const V& y, F f) {
    std::unique_ptr<BigInt> got;
    if (!Run([&] { got.reset(new BigInt(f())); })) { Sut s; got.reset(); return; }
    cpp_int g = Value(*got);
    { Sut s; got.reset(); }
    ++checked;
    SIM_CHECK(g == want, "geometry:value", "%s of %s and %s is %s, exactly %s", what, Str(x).c_str(), Str(y).c_str(), Str({g}).c_str(), Str({want}).c_str());
  }
  void Equal(const V& got, const V& want, const char* what, const V& x, const V& y) {
    ++checked;
    SIM_CHECK(got == want, "geometry:result", "%s of %s and %s is %s, exactly %s", what, Str(x).c_str(), Str(y).c_str(), Str(got).c_str(), Str(want).c_str());
  }
  void Positive(const V& got, const V& want, const char* what, const V& x, const V& y) {
    ++checked;
    SIM_CHECK(Zero(got, static_cast<int>(got.size())) == Zero(want, static_cast<int>(want.size())) && Proportion(got, want) == 1, "geometry:result", "%s of %s and %s is %s, exactly a positive multiple of %s", what, Str(x).c_str(), Str(y).c_str(), Str(got).c_str(), Str(want).c_str());
  }
  void SamePoint(const V& got, const V& want, const char* what, const V& x, const V& y) {
    ++checked;
    SIM_CHECK(got.back() != 0 && SamePt(got, want), "geometry:result", "%s of %s and %s is %s, exactly %s", what, Str(x).c_str(), Str(y).c_str(), Str(got).c_str(), Str(want).c_str());
  }

  // ---------------------------------------------------------- new values
  cpp_int RandomInt(Rng& rng, int style) {
    switch (style) {
      case 0: return static_cast<int64_t>(rng.Range(-2, 2));
      case 1: return static_cast<int64_t>(rng.Range(-40, 40));
      case 2: return cpp_int(static_cast<int64_t>(rng.Next()) >> static_cast<int>(rng.Below(63)));
      case 3: {  // next to a power of two
        cpp_int p = cpp_int(1) << static_cast<unsigned>(rng.Pick({31, 32, 62, 63, 64, 65, 95, 127, 128, 129, 191, 192}));
        p += static_cast<int64_t>(rng.Range(-1, 1));
        return rng.Chance(1, 2) ? p : cpp_int(-p);
      }
      default: {
        cpp_int p = 0;
        for (int i = static_cast<int>(rng.Range(1, 4)); i > 0; --i) p = (p << 64) | (rng.Chance(1, 4) ? 0 : rng.Next());
        return rng.Chance(1, 2) ? p : cpp_int(-p);
      }
    }
  }
  template <typename T> bool Valid(const V& m, const T*) const {
    switch (static_cast<int>(KindOf<T>::k)) {
      case kH2: return m[2] != 0;
      case kH3: return m[3] != 0;
      case kS2: return !Zero(m, 2);
      case kS3: return !Zero(m, 3);
      case kL: return !Zero(m, 3) && Dot(m, Tail(m, 3), 3) == 0;
      case kB: return m[6] > 0 && m[0] <= m[3] && m[1] <= m[4] && m[2] <= m[5];
      default: return true;
    }
  }
  template <typename T> void Set(Cell<T> (&cells)[kPool], Rng& rng) {
    constexpr int kind = KindOf<T>::k;
    Cell<T>& d = cells[Idx(1)];
    const int n = kSize[kind];
    V m;
    for (int tries = 0; tries < 20; ++tries) {
      m.clear();
      const Cell<T>& src = cells[rng.Below(kPool)];
      int mode = static_cast<int>(rng.Below(6));
      if (mode < 2 && src.known && Bits(src.m) < 600) {
        m = src.m;
        cpp_int k = RandomInt(rng, rng.Pick({0, 1, 2, 3}));
        if (k == 0) k = -1;
        if (kind == kB) { if (k < 0) k = -k; m = Mulv(m, k); }
        else m = Mulv(m, k);
        if (mode == 1) {
          int i = static_cast<int>(rng.Below(static_cast<uint64_t>(n)));
          m[i] += rng.Pick({1, -1});
          if (rng.Chance(1, 3)) m[i] = -m[i];
          if (kind == kL) { V q = Head(m, 3); V p; for (int j = 0; j < 3; ++j) p.push_back(RandomInt(rng, 1)); V c = Cross3(p, q); m = q; m.insert(m.end(), c.begin(), c.end()); }
        }
      } else {
        int style = rng.Pick({0, 0, 1, 2, 3, 4});
        if (kind == kL) {
          V p, q;
          for (int i = 0; i < 3; ++i) { p.push_back(RandomInt(rng, style)); q.push_back(RandomInt(rng, rng.Pick({0, 1, style}))); }
          if (rng.Chance(1, 3)) q[rng.Below(3)] = 0;
          V c = Cross3(p, q);
          cpp_int k = RandomInt(rng, 1);
          if (k == 0) k = 1;
          m = Mulv(q, k);
          c = Mulv(c, k);
          m.insert(m.end(), c.begin(), c.end());
        } else {
          for (int i = 0; i < n; ++i) m.push_back(RandomInt(rng, rng.Chance(1, 3) ? static_cast<int>(rng.Below(5)) : style));
          if (kind == kB) {
            for (int i = 0; i < 3; ++i) if (m[i] > m[i + 3]) std::swap(m[i], m[i + 3]);
            if (m[6] < 0) m[6] = -m[6];
          }
          // Points on a face, edge or corner of a box.
          const Cell<AABB>& box = b[rng.Below(kPool)];
          if (kind == kH3 && box.known && Bits(box.m) < 600 && rng.Chance(1, 2)) {
            cpp_int k = rng.Pick({1, -1, 3, -7});
            for (int i = 0; i < 3; ++i) {
              int c = static_cast<int>(rng.Below(4));
              cpp_int x = c == 0 ? box.m[i] : c == 1 ? box.m[i + 3] : c == 2 ? cpp_int((box.m[i] + box.m[i + 3]) / 2) : cpp_int(box.m[i] + rng.Pick({-1, 1}));
              m[i] = x * k;
            }
            m[3] = box.m[6] * k;
          }
        }
      }
      if (Valid(m, static_cast<const T*>(nullptr))) break;
      m.clear();
    }
    if (m.empty()) return;
    V give = m;
    if (kind == kB && rng.Chance(1, 3)) give = Mulv(m, -1);  // the constructor normalises the sign
    Nums nums;
    for (const cpp_int& c : give) nums.push_back(Words(c));
    int ctor = static_cast<int>(rng.Below(8));
    if (Make(d, [&] { return New(nums, ctor, static_cast<const T*>(nullptr)); })) Equal(d.m, m, "construction", give, {});
  }
  template <typename T> void CopyOp(Cell<T> (&cells)[kPool]) {
    Cell<T> &d = cells[Idx(1)], &a = cells[Idx(2)];
    if (!a.known) return;
    V am = a.m, dm = d.m;
    bool dk = d.known, ok = false;
    switch (static_cast<uint64_t>(op->arg(3)) % 5) {
      case 0: ok = InPlace(d, [&] { const T& r = *a.v; *d.v = r; }); break;
      case 1:
        if (&d == &a) return;
        ok = InPlace(d, [&] { *d.v = std::move(*a.v); });
        a.known = false;
        break;
      case 2:
        if (&d == &a) return;
        ok = InPlace(d, [&] { d.v.reset(new T(std::move(*a.v))); });
        a.known = false;
        break;
      case 3: if (&d == &a) return; ok = InPlace(d, [&] { const T& r = *a.v; d.v.reset(new T(r)); }); break;
      default:
        if (&d == &a || !dk) return;
        a.known = d.known = false;
        if (!Run([&] { std::swap(*a.v, *d.v); })) return;
        a.m = dm;
        d.m = am;
        a.known = d.known = true;
        return;
    }
    if (ok) Equal(d.m, am, "copy or move", am, {});
  }

  // ---------------------------------------------------------- operations
  // The reverse lexicographical shear z' = z + y e + x e^2, with e = 1/inv.
  void ShearOp(bool planes) {
    Cell<Vector3> &a = v3[Idx(1)], &c = v3[Idx(2)];
    if (!planes) {
      Cell<HomoPoint3> &p = h3[Idx(1)], &q = h3[Idx(2)];
      if (!p.known || !q.known || Bits(p.m) > 300 || Bits(q.m) > 300) return;
      // Small enough to settle every comparison of these two points.
      cpp_int inv = cpp_int(1) << (2 * (Bits(p.m) + Bits(q.m)) + 4);
      geom::Num iw = Words(inv);
      V r[2];
      for (int i = 0; i < 2; ++i) {
        const V& m = i ? q.m : p.m;
        V want{m[0] * inv * inv, m[1] * inv * inv, m[2] * inv * inv + m[1] * inv + m[0], m[3] * inv * inv};
        std::unique_ptr<HomoPoint3> got;
        if (Run([&] { got.reset(new HomoPoint3(RTransform(i ? *q.v : *p.v, ToBig(iw)))); })) { r[i] = Read(*got); SamePoint(r[i], want, "shear", m, {inv}); }
        Sut s;
        got.reset();
      }
      if (r[0].empty() || r[1].empty()) return;
      int lex = 0;
      for (int k = 2; k >= 0 && !lex; --k) lex = CmpComp(p.m, q.m, k);
      SIM_CHECK(CmpComp(r[0], r[1], 2) == lex, "geometry:result", "the sheared heights of %s and %s compare as %d", Str(p.m).c_str(), Str(q.m).c_str(), CmpComp(r[0], r[1], 2));
      return;
    }
    if (!a.known || !c.known || Bits(a.m) > 500 || Bits(c.m) > 500) return;
    // Normals are sheared by the inverse transpose; e is taken small enough.
    cpp_int inv = cpp_int(1) << (Bits(a.m) + Bits(c.m) + 4);
    auto shear = [&](const V& n) { return V{n[0] * inv * inv - n[2], n[1] * inv * inv - n[2] * inv}; };
    int want = Sgn(Cross2(shear(a.m), shear(c.m)));
    Expect(want, "sheared rotation", a.m, c.m, [&] { return RXYCompareBivector(*a.v, *c.v); });
    for (int pos = 0; pos < 2; ++pos)
      Expect(pos ? -want : want, "sheared rotation to a side", a.m, c.m, [&] {
        std::unique_ptr<HalfSpace3> split(new HalfSpace3(*c.v, BigInt(0)));
        SplitSide side;
        side.split = split.get();
        side.pos_side = pos;
        return RXYCompareBivector(*a.v, side);
      });
  }
  void VecOp(int sub) {
    Cell<Vector3> &d = v3[Idx(1)], &a = v3[Idx(2)], &c = v3[Idx(3)];
    Cell<Vector2> &d2 = v2[Idx(1)], &a2 = v2[Idx(2)], &c2 = v2[Idx(3)];
    Rng rng(static_cast<uint64_t>(op->arg(4)));
    if (sub > 33) { ShearOp(sub == 35); return; }
    if (sub < 20 ? !a.known || !c.known : !a2.known || !c2.known) return;
    const V x = sub < 20 ? a.m : a2.m, y = sub < 20 ? c.m : c2.m;
    const bool big = Bits(x) > 900 || Bits(y) > 900;
    const int dim = static_cast<int>(rng.Below(3));
    const cpp_int k = RandomInt(rng, static_cast<int>(rng.Below(5)));
    const int64_t ki = rng.Range(-5, 5);
    const bool xz = Zero(x, static_cast<int>(x.size())), yz = Zero(y, static_cast<int>(y.size()));
    const geom::Num kw = Words(k);
    switch (sub) {
      case 0: if (!big && Make(d, [&] { return *a.v + *c.v; })) Equal(d.m, Addv(x, y, 1), "sum", x, y); break;
      case 1: if (!big && Make(d, [&] { return *a.v - *c.v; })) Equal(d.m, Addv(x, y, -1), "difference", x, y); break;
      case 2: if (!big && InPlace(a, [&] { *a.v += *c.v; })) Equal(a.m, Addv(x, y, 1), "+=", x, y); break;
      case 3: if (InPlace(a, [&] { a.v->Negate(); })) Equal(a.m, Mulv(x, -1), "negate", x, {}); break;
      case 4: if (Make(d, [&] { return -*a.v; })) Equal(d.m, Mulv(x, -1), "minus", x, {}); break;
      case 5: if (!big && Make(d, [&] { BigInt kb = ToBig(kw); return rng.Chance(1, 2) ? a.v->Scale(kb) : kb * *a.v; })) Equal(d.m, Mulv(x, k), "scale", x, {k}); break;
      case 6: if (!big && Make(d, [&] { return *a.v * static_cast<int>(ki); })) Equal(d.m, Mulv(x, ki), "scale", x, {cpp_int(ki)}); break;
      case 7: if (!big && Make(d, [&] { return a.v->Cross(*c.v); })) Equal(d.m, Cross3(x, y), "cross product", x, y); break;
      case 8: if (!big && Make(d, [&] { return a.v->Hadamard(*c.v); })) Equal(d.m, {x[0] * y[0], x[1] * y[1], x[2] * y[2]}, "hadamard product", x, y); break;
      case 9:
        if (xz) break;
        if (InPlace(a, [&] { a.v->Reduce(); })) {
          Positive(a.m, x, "reduce", x, {});
          SIM_CHECK(boost::multiprecision::gcd(boost::multiprecision::gcd(a.m[0], a.m[1]), a.m[2]) == 1, "geometry:reduce", "reducing %s left %s", Str(x).c_str(), Str(a.m).c_str());
        }
        break;
      case 10: if (Make(d2, [&] { return a.v->DropDimension(dim); })) Equal(d2.m, DropDim(x, dim), "drop dimension", x, {cpp_int(dim)}); break;
      case 11: ExpectValue(Dot(x, y, 3), "dot product", x, y, [&] { return a.v->Dot(*c.v); }); break;
      case 12: ExpectValue(Dot(x, x, 3), "squared length", x, {}, [&] { return a.v->GetScaleSquared(); }); break;
      case 13: Expect(x == y, "equality", x, y, [&] { return *a.v == *c.v; }); Expect(x != y, "inequality", x, y, [&] { return *a.v != *c.v; }); break;
      case 14: case 15:
        if (xz || yz) break;
        Expect(Proportion(x, y) > 0, "same direction", x, y, [&] { return a.v->IsSameDir(*c.v); });
        Expect(Proportion(x, y) != 0, "same or opposite direction", x, y, [&] { return a.v->IsSameOrOppositeDir(*c.v); });
        break;
      case 16:
        Expect(xz, "is zero", x, {}, [&] { return a.v->IsZero(); });
        Expect(x[0] != 0 ? 0 : x[1] != 0 ? 1 : x[2] != 0 ? 2 : -1, "first nonzero dimension", x, {}, [&] { return a.v->GetFirstNonzeroDimension(); });
        ExpectValue(x[(1 + dim) % 3], "component after drop", x, {cpp_int(dim)}, [&] { return a.v->GetComponentAfterDrop(0, dim); });
        break;
      case 17: case 18: {
        // The rotation of two bivectors after the shear, for a small enough step.
        int want = Sgn(x[0] * y[1] - x[1] * y[0]);
        if (!want) want = Sgn(x[2] * y[0] - x[0] * y[2]);
        if (!want) want = Sgn(x[1] * y[2] - x[2] * y[1]);
        Expect(want, "bivector comparison", x, y, [&] { return SgnOf(RXYCompareBivector(*a.v, *c.v)); });
        break;
      }
      case 19: if (!big && Make(d, [&] { return a.v->HadamardSquared(); })) Equal(d.m, {x[0] * x[0], x[1] * x[1], x[2] * x[2]}, "squares", x, {}); break;
      case 20: if (Make(d2, [&] { return *a2.v - *c2.v; })) Equal(d2.m, Addv(x, y, -1), "difference", x, y); break;
      case 21: if (!big && Make(d2, [&] { BigInt kb = ToBig(kw); return *a2.v * kb; })) Equal(d2.m, Mulv(x, k), "scale", x, {k}); break;
      case 22: if (!big && Make(d2, [&] { return *a2.v * static_cast<int>(ki); })) Equal(d2.m, Mulv(x, ki), "scale", x, {cpp_int(ki)}); break;
      case 23: if (InPlace(a2, [&] { a2.v->Negate(); })) Equal(a2.m, Mulv(x, -1), "negate", x, {}); break;
      case 24: if (Make(d2, [&] { return -*a2.v; })) Equal(d2.m, Mulv(x, -1), "minus", x, {}); break;
      case 25: if (Make(d2, [&] { return a2.v->GetPerpendicular(); })) Equal(d2.m, {-x[1], x[0]}, "perpendicular", x, {}); break;
      case 26: if (Make(d2, [&] { return a2.v->SwapXY(); })) Equal(d2.m, {x[1], x[0]}, "swap", x, {}); break;
      case 27: ExpectValue(Dot(x, y, 2), "dot product", x, y, [&] { return a2.v->Dot(*c2.v); }); break;
      case 28: ExpectValue(Cross2(x, y), "cross product", x, y, [&] { return a2.v->Cross(*c2.v); }); break;
      case 29: Expect(x == y, "equality", x, y, [&] { return *a2.v == *c2.v; }); Expect(xz, "is zero", x, {}, [&] { return a2.v->IsZero(); }); break;
      case 30: case 31:
        if (xz || yz) break;
        Expect(Proportion(x, y) > 0, "same direction", x, y, [&] { return a2.v->IsSameDir(*c2.v); });
        Expect(Proportion(x, y) != 0, "same or opposite direction", x, y, [&] { return a2.v->IsSameOrOppositeDir(*c2.v); });
        break;
      case 32:
        if (xz || yz) break;
        Expect(CmpAngle(x, y) < 0, "rotation order", x, y, [&] { return a2.v->IsRotationLessThan(*c2.v); });
        break;
      default: {
        if (xz || yz) break;
        V nx = AngleHalf(x) ? Mulv(x, -1) : x, ny = AngleHalf(y) ? Mulv(y, -1) : y;
        Expect(CmpAngle(nx, ny) < 0, "half rotation order", x, y, [&] { return a2.v->IsHalfRotationLessThan(*c2.v); });
        break;
      }
    }
  }

  void PointOp(int sub) {
    Rng rng(static_cast<uint64_t>(op->arg(4)));
    const int dim = static_cast<int>(rng.Below(3)), comp = static_cast<int>(rng.Below(3));
    Cell<Point2> &a2 = p2[Idx(1)], &b2 = p2[Idx(2)], &c2 = p2[Idx(3)];
    Cell<Point3> &a3 = p3[Idx(1)], &b3 = p3[Idx(2)], &c3 = p3[Idx(3)];
    Cell<HomoPoint2> &g2 = h2[Idx(1)], &g2b = h2[Idx(2)];
    Cell<HomoPoint3> &a = h3[Idx(1)], &c = h3[Idx(2)], &e = h3[Idx(3)];
    switch (sub) {
      case 0: if (a2.known && b2.known && Make(v2[Idx(3)], [&] { return *a2.v - *b2.v; })) Equal(v2[Idx(3)].m, Addv(a2.m, b2.m, -1), "point difference", a2.m, b2.m); break;
      case 1: if (a2.known && b2.known) Expect(a2.m == b2.m, "point equality", a2.m, b2.m, [&] { return *a2.v == *b2.v; }); break;
      case 2: if (a2.known && b2.known && c2.known) Expect(Twist(Homo(a2.m, 2), Homo(b2.m, 2), Homo(c2.m, 2)), "twist", a2.m, b2.m, [&] { return SgnOf(a2.v->GetTwistDir(*b2.v, *c2.v)); }); break;
      case 3: if (a3.known && b3.known && Make(v3[Idx(3)], [&] { return *a3.v - *b3.v; })) Equal(v3[Idx(3)].m, Addv(a3.m, b3.m, -1), "point difference", a3.m, b3.m); break;
      case 4: {
        Cell<Vector3>& v = v3[Idx(2)];
        if (!a3.known || !v.known || Bits(v.m) > 600 || Bits(a3.m) > 600) break;
        V x = a3.m;
        bool plus = rng.Chance(1, 2);
        if (Make(c3, [&] { return plus ? *a3.v + *v.v : *a3.v - *v.v; })) Equal(c3.m, Addv(x, v.m, plus ? 1 : -1), "point and vector", x, v.m);
        break;
      }
      case 5: if (a3.known && b3.known) { Expect(a3.m == b3.m, "point equality", a3.m, b3.m, [&] { return *a3.v == *b3.v; }); Expect(a3.m != b3.m, "point inequality", a3.m, b3.m, [&] { return *a3.v != *b3.v; }); } break;
      case 6:
        if (!a3.known || !b3.known || !c3.known) break;
        Expect(Twist(Drop3(Homo(a3.m, 3), dim), Drop3(Homo(b3.m, 3), dim), Drop3(Homo(c3.m, 3), dim)), "twist", a3.m, b3.m, [&] { return rng.Chance(1, 2) ? a3.v->Get2DTwistDirReduced(dim, *b3.v, *c3.v) : SgnOf(a3.v->Get2DTwistDir(dim, *b3.v, *c3.v)); });
        break;
      case 7:
        if (!a3.known || !b3.known) break;
        Expect(Sgn(a3.m[comp] - b3.m[comp]), "component comparison", a3.m, b3.m, [&] { return SgnOf(a3.v->CompareComponent(static_cast<size_t>(comp), *b3.v)); });
        Expect(a3.m[comp] == b3.m[comp], "component equality", a3.m, b3.m, [&] { return a3.v->IsEquivalentComponent(static_cast<size_t>(comp), *b3.v); });
        break;
      case 8: if (a3.known) { V x = a3.m; if (InPlace(a3, [&] { a3.v->Negate(); })) Equal(a3.m, Mulv(x, -1), "negate", x, {}); } break;
      case 9: if (a3.known && Make(p2[Idx(2)], [&] { return a3.v->DropDimension(dim); })) Equal(p2[Idx(2)].m, DropDim(a3.m, dim), "drop dimension", a3.m, {cpp_int(dim)}); break;
      case 10:
        if (!g2.known || !g2b.known) break;
        Expect(SamePt(g2.m, g2b.m), "point equality", g2.m, g2b.m, [&] { return *g2.v == *g2b.v; });
        Expect(!SamePt(g2.m, g2b.m), "point inequality", g2.m, g2b.m, [&] { return *g2.v != *g2b.v; });
        break;
      case 11: {
        if (!g2.known || !b2.known) break;
        bool same = SamePt(g2.m, Homo(b2.m, 2));
        Expect(same, "point equality", g2.m, b2.m, [&] { return rng.Chance(1, 2) ? *g2.v == *b2.v : *b2.v == *g2.v; });
        Expect(!same, "point inequality", g2.m, b2.m, [&] { return *g2.v != *b2.v; });
        break;
      }
      case 12: if (b2.known && Make(g2, [&] { return HomoPoint2(*b2.v); })) SamePoint(g2.m, Homo(b2.m, 2), "conversion", b2.m, {}); break;
      case 13: if (b3.known && Make(a, [&] { return HomoPoint3(*b3.v); })) SamePoint(a.m, Homo(b3.m, 3), "conversion", b3.m, {}); break;
      case 14: case 15:
        if (!a.known || !c.known) break;
        Expect(SamePt(a.m, c.m), "point equality", a.m, c.m, [&] { return *a.v == *c.v; });
        Expect(!SamePt(a.m, c.m), "point inequality", a.m, c.m, [&] { return *a.v != *c.v; });
        Expect(a.m == c.m, "strict equality", a.m, c.m, [&] { return HomoPoint3StrictEq()(*a.v, *c.v); });
        if (a.m == c.m) Expect(1, "equal hashes", a.m, c.m, [&] { return ReducedHomoPoint3Hasher()(*a.v) == ReducedHomoPoint3Hasher()(*c.v); });
        break;
      case 16: {
        if (!a.known || !b3.known) break;
        bool same = SamePt(a.m, Homo(b3.m, 3));
        Expect(same, "point equality", a.m, b3.m, [&] { return rng.Chance(1, 2) ? *a.v == *b3.v : *b3.v == *a.v; });
        Expect(!same, "point inequality", a.m, b3.m, [&] { return *a.v != *b3.v; });
        break;
      }
      case 17: case 18:
        if (!a.known || !c.known) break;
        Expect(CmpComp(a.m, c.m, comp), "component comparison", a.m, c.m, [&] { return SgnOf(a.v->CompareComponent(static_cast<size_t>(comp), *c.v)); });
        Expect(CmpComp(a.m, c.m, comp) < 0, "component order", a.m, c.m, [&] { return a.v->IsLessThanComponent(static_cast<size_t>(comp), *c.v); });
        Expect(CmpComp(a.m, c.m, comp) == 0, "component equality", a.m, c.m, [&] { return a.v->IsEquivalentComponent(static_cast<size_t>(comp), *c.v); });
        break;
      case 19: case 20:
        if (!a.known || !c.known || !e.known) break;
        Expect(Twist(Drop3(a.m, dim), Drop3(c.m, dim), Drop3(e.m, dim)), "twist", a.m, c.m, [&] { return rng.Chance(1, 2) ? a.v->Get2DTwistDirReduced(dim, *c.v, *e.v) : SgnOf(a.v->Get2DTwistDir(dim, *c.v, *e.v)); });
        break;
      case 21: if (a.known && Make(g2b, [&] { return a.v->DropDimension(dim); })) Equal(g2b.m, Drop3(a.m, dim), "drop dimension", a.m, {cpp_int(dim)}); break;
      case 22: {
        if (!a.known) break;
        V x = a.m;
        if (!InPlace(a, [&] { a.v->Reduce(); })) break;
        SamePoint(a.m, x, "reduce", x, {});
        cpp_int g = 0;
        for (const cpp_int& n : a.m) g = boost::multiprecision::gcd(g, n);
        SIM_CHECK(g == 1 && a.m[3] > 0, "geometry:reduce", "reducing %s left %s", Str(x).c_str(), Str(a.m).c_str());
        break;
      }
      case 23: {
        Cell<Vector3>& v = v3[Idx(2)];
        if (!a.known || !v.known || Bits(a.m) > 600 || Bits(v.m) > 600) break;
        cpp_int den = RandomInt(rng, static_cast<int>(rng.Below(4)));
        if (den == 0) den = -3;
        geom::Num dw = Words(den);
        V x = a.m, want;
        for (int i = 0; i < 3; ++i) want.push_back(x[i] * den + v.m[i] * x[3]);
        want.push_back(x[3] * den);
        if (Make(e, [&] { return a.v->AddOffset(*v.v, ToBig(dw)); })) SamePoint(e.m, want, "offset", x, v.m);
        break;
      }
      case 24: {
        if (!a.known || !c.known || Bits(a.m) > 600 || Bits(c.m) > 600) break;
        Cell<Vector3>& v = v3[Idx(3)];
        std::unique_ptr<BigInt> den;
        bool ok = Make(v, [&] { den.reset(new BigInt); return a.v->Difference(*c.v, *den); });
        if (ok) {
          V got = v.m, want;
          got.push_back(Value(*den));
          for (int i = 0; i < 3; ++i) want.push_back(a.m[i] * c.m[3] - c.m[i] * a.m[3]);
          want.push_back(a.m[3] * c.m[3]);
          SamePoint(got, want, "difference", a.m, c.m);
        }
        Sut s;
        den.reset();
        break;
      }
      default: {
        if (!a.known || !c.known) break;
        int lex = 0, top = 0;
        for (int i = 0; i < 3 && !lex; ++i) lex = CmpComp(a.m, c.m, i);
        for (int i = 2; i >= 0 && !top; --i) top = CmpComp(a.m, c.m, i);
        Expect(lex < 0, "lexicographic order", a.m, c.m, [&] { return rng.Chance(1, 2) ? a.v->LexicographicallyLt(*c.v) : HomoPoint3::LexicographicallyLt(*a.v, *c.v); });
        Expect(top < 0, "topness order", a.m, c.m, [&] { return HomoPoint3::TopnessLt(*a.v, *c.v); });
        if (a3.known && b3.known) Expect(a3.m < b3.m, "lexicographic order", a3.m, b3.m, [&] { return a3.v->LexicographicallyLt(*b3.v); });
        break;
      }
    }
  }

  void PlaneOp(int sub) {
    Rng rng(static_cast<uint64_t>(op->arg(4)));
    const int dim = static_cast<int>(rng.Below(3));
    Cell<HalfSpace2> &a2 = s2[Idx(1)], &c2 = s2[Idx(2)];
    Cell<HalfSpace3> &a = s3[Idx(1)], &c = s3[Idx(2)];
    switch (sub) {
      case 0: {
        Cell<Point2> &p = p2[Idx(2)], &q = p2[Idx(3)];
        if (!p.known || !q.known || p.m == q.m || Bits(p.m) > 600 || Bits(q.m) > 600) break;
        V dir = Addv(q.m, p.m, -1), want{-dir[1], dir[0]};
        want.push_back(Dot(want, p.m, 2));
        if (Make(a2, [&] { return HalfSpace2(*p.v, *q.v); })) Positive(a2.m, want, "line through points", p.m, q.m);
        break;
      }
      case 1: if (a2.known) { V x = a2.m; if (InPlace(a2, [&] { a2.v->Negate(); })) Equal(a2.m, Mulv(x, -1), "negate", x, {}); } break;
      case 2: {
        if (!a2.known || Bits(a2.m) > 800) break;
        V x = a2.m;
        int k = static_cast<int>(rng.Pick({-3, -1, 2, 7}));
        bool minus = rng.Chance(1, 2);
        if (Make(c2, [&] { return minus ? -*a2.v : *a2.v * k; })) Positive(c2.m, Mulv(x, minus ? -1 : Sgn(k)), "scaled half-space", x, {cpp_int(k)});
        break;
      }
      case 3: case 4: {
        Cell<Point2>& p = p2[Idx(2)];
        Cell<HomoPoint2>& q = h2[Idx(3)];
        if (a2.known && p.known) {
          Expect(Side(a2.m, Homo(p.m, 2)), "side", a2.m, p.m, [&] { return SgnOf(a2.v->Compare(*p.v)); });
          Expect(Side(a2.m, Homo(p.m, 2)) == 0, "coincidence", a2.m, p.m, [&] { return a2.v->IsCoincident(*p.v); });
        }
        if (a2.known && q.known) {
          Expect(Side(a2.m, q.m), "side", a2.m, q.m, [&] { return SgnOf(a2.v->Compare(*q.v)); });
          Expect(Side(a2.m, q.m) == 0, "coincidence", a2.m, q.m, [&] { return a2.v->IsCoincident(*q.v); });
        }
        break;
      }
      case 5: case 6:
        if (!a2.known || !c2.known) break;
        Expect(Proportion(a2.m, c2.m) > 0, "half-space equality", a2.m, c2.m, [&] { return *a2.v == *c2.v; });
        Expect(Proportion(a2.m, c2.m) <= 0, "half-space inequality", a2.m, c2.m, [&] { return *a2.v != *c2.v; });
        Expect(Proportion(a2.m, c2.m) != 0, "same line", a2.m, c2.m, [&] { return a2.v->HasSameLine(*c2.v); });
        break;
      case 7: {
        Cell<Point3> &p = p3[Idx(2)], &q = p3[Idx(3)], &r = p3[static_cast<int>(rng.Below(kPool))];
        if (!p.known || !q.known || !r.known || Bits(p.m) > 500 || Bits(q.m) > 500 || Bits(r.m) > 500) break;
        V n = Cross3(Addv(r.m, q.m, -1), Addv(p.m, q.m, -1));
        if (Zero(n, 3)) break;
        V want = n;
        want.push_back(Dot(n, q.m, 3));
        if (Make(a, [&] { return HalfSpace3(*p.v, *q.v, *r.v); })) Positive(a.m, want, "plane through points", p.m, q.m);
        break;
      }
      case 8: case 9: {
        Cell<HomoPoint3> &p = h3[Idx(2)], &q = h3[Idx(3)], &r = h3[static_cast<int>(rng.Below(kPool))];
        if (!p.known || !q.known || !r.known || Bits(p.m) > 400 || Bits(q.m) > 400 || Bits(r.m) > 400) break;
        V u, v;  // r - q and p - q, up to positive factors
        for (int i = 0; i < 3; ++i) {
          u.push_back((r.m[i] * q.m[3] - q.m[i] * r.m[3]) * Sgn(r.m[3]) * Sgn(q.m[3]));
          v.push_back((p.m[i] * q.m[3] - q.m[i] * p.m[3]) * Sgn(p.m[3]) * Sgn(q.m[3]));
        }
        V n = Cross3(u, v);
        if (Zero(n, 3)) break;
        V want = Mulv(n, q.m[3] < 0 ? cpp_int(-q.m[3]) : q.m[3]);
        want.push_back(Dot(n, q.m, 3) * Sgn(q.m[3]));
        if (Make(a, [&] { return HalfSpace3(*p.v, *q.v, *r.v); })) Positive(a.m, want, "plane through points", p.m, q.m);
        break;
      }
      case 10: {
        Cell<Vector3>& n = v3[Idx(2)];
        Cell<HomoPoint3>& p = h3[Idx(3)];
        if (!n.known || !p.known || Zero(n.m, 3) || Bits(n.m) > 500 || Bits(p.m) > 500) break;
        V want = Mulv(n.m, p.m[3]);
        want.push_back(Dot(n.m, p.m, 3));
        want = Mulv(want, Sgn(p.m[3]));
        if (Make(a, [&] { return HalfSpace3(*n.v, *p.v); })) Positive(a.m, want, "plane through a point", n.m, p.m);
        break;
      }
      case 11: {
        if (!a2.known) break;
        V want(4);
        want[(dim + 1) % 3] = a2.m[0];
        want[(dim + 2) % 3] = a2.m[1];
        want[3] = a2.m[2];
        if (Make(c, [&] { return HalfSpace3(*a2.v, dim); })) Equal(c.m, want, "extruded line", a2.m, {cpp_int(dim)});
        break;
      }
      case 12: {
        cpp_int num = RandomInt(rng, static_cast<int>(rng.Below(5))), den = RandomInt(rng, static_cast<int>(rng.Below(4)));
        if (den == 0) den = 1;
        geom::Num nw = Words(num), dw = Words(den);
        V want(4);
        want[dim] = den;
        want[3] = num;
        if (Make(a, [&] { return HalfSpace3::GetAxisAligned(dim, ToBig(nw), ToBig(dw)); })) Positive(a.m, want, "axis aligned plane", {num}, {den});
        break;
      }
      case 13: if (a.known) { V x = a.m; if (InPlace(a, [&] { a.v->Negate(); })) Equal(a.m, Mulv(x, -1), "negate", x, {}); } break;
      case 14: if (a.known) { V x = a.m; if (Make(c, [&] { return -*a.v; })) Equal(c.m, Mulv(x, -1), "minus", x, {}); } break;
      case 15: {
        if (!a.known) break;
        V x = a.m;
        if (!InPlace(a, [&] { a.v->Reduce(); })) break;
        Positive(a.m, x, "reduce", x, {});
        cpp_int g = 0;
        for (const cpp_int& n : a.m) g = boost::multiprecision::gcd(g, n);
        SIM_CHECK(g == 1, "geometry:reduce", "reducing %s left %s", Str(x).c_str(), Str(a.m).c_str());
        break;
      }
      case 16: case 17: {
        Cell<HomoPoint2>& p = h2[Idx(2)];
        Cell<HomoPoint3>& r = h3[Idx(3)];
        if (!a.known || !p.known || a.m[dim] == 0 || Bits(a.m) > 500 || Bits(p.m) > 500) break;
        if (!Make(r, [&] { return a.v->ProjectOntoPlane(*p.v, dim); })) break;
        SamePoint(Drop3(r.m, dim), p.m, "projection", a.m, p.m);
        SIM_CHECK(Side(a.m, r.m) == 0, "geometry:result", "the projection of %s onto %s is %s, off the plane", Str(p.m).c_str(), Str(a.m).c_str(), Str(r.m).c_str());
        break;
      }
      case 18: case 19: case 20: {
        Cell<Point3>& p = p3[Idx(2)];
        Cell<HomoPoint3>& q = h3[Idx(3)];
        if (a.known && p.known) {
          Expect(Side(a.m, Homo(p.m, 3)), "side", a.m, p.m, [&] { return SgnOf(a.v->Compare(*p.v)); });
          Expect(Side(a.m, Homo(p.m, 3)) == 0, "coincidence", a.m, p.m, [&] { return a.v->IsCoincident(*p.v); });
        }
        if (a.known && q.known) {
          Expect(Side(a.m, q.m), "side", a.m, q.m, [&] { return SgnOf(a.v->Compare(*q.v)); });
          Expect(Side(a.m, q.m) == 0, "coincidence", a.m, q.m, [&] { return a.v->IsCoincident(*q.v); });
        }
        break;
      }
      case 21: {
        // A parallel plane on either side. The existing tests fix the sign:
        // negative when this plane comes first along its own normal (the
        // comment in half_space3.h says the opposite).
        if (!a.known || Bits(a.m) > 800) break;
        cpp_int k = RandomInt(rng, 1);
        if (k == 0) k = -1;
        V x = a.m, y = Mulv(a.m, k);
        y[3] += static_cast<int64_t>(rng.Range(-1, 1));
        int nz = dim;
        while (x[nz] == 0) nz = (nz + 1) % 3;
        V on{0, 0, 0, y[nz]};  // a point of y
        on[nz] = y[3];
        Nums nums;
        for (const cpp_int& n : y) nums.push_back(Words(n));
        Expect(-Side(x, on), "side of a parallel plane", x, y, [&] { HalfSpace3 o = New(nums, 0, static_cast<const HalfSpace3*>(nullptr)); return SgnOf(a.v->Compare(o, nz)); });
        break;
      }
      default:
        if (!a.known || !c.known) break;
        Expect(Proportion(a.m, c.m) > 0, "half-space equality", a.m, c.m, [&] { return *a.v == *c.v; });
        Expect(Proportion(a.m, c.m) <= 0, "half-space inequality", a.m, c.m, [&] { return *a.v != *c.v; });
        Expect(Proportion(a.m, c.m) != 0, "same plane", a.m, c.m, [&] { return a.v->IsSameOrOpposite(*c.v); });
        Expect(!Zero(a.m, 3), "validity", a.m, {}, [&] { return a.v->IsValid(); });
        break;
    }
  }

  void LineOp(int sub) {
    Rng rng(static_cast<uint64_t>(op->arg(4)));
    const int dim = static_cast<int>(rng.Below(3));
    Cell<PluckerLine> &a = l[Idx(1)], &c = l[Idx(2)];
    switch (sub) {
      case 0: case 1: {
        const bool homo = sub == 1;
        Cell<Point3> &p = p3[Idx(2)], &q = p3[Idx(3)];
        Cell<HomoPoint3> &hp = h3[Idx(2)], &hq = h3[Idx(3)];
        if (homo ? !hp.known || !hq.known : !p.known || !q.known) break;
        V x = homo ? hp.m : Homo(p.m, 3), y = homo ? hq.m : Homo(q.m, 3);
        if (SamePt(x, y) || Bits(x) > 500 || Bits(y) > 500) break;
        V d, m = Cross3(x, y);
        for (int i = 0; i < 3; ++i) d.push_back(y[i] * x[3] - x[i] * y[3]);
        V want = d;
        want.insert(want.end(), m.begin(), m.end());
        want = Mulv(want, Sgn(x[3]) * Sgn(y[3]));
        if (Make(a, [&] { return homo ? PluckerLine(*hp.v, *hq.v) : PluckerLine(*p.v, *q.v); })) {
          Positive(a.m, want, "line through points", x, y);
          Expect(1, "coincidence", a.m, x, [&] { return homo ? a.v->IsCoincident(*hp.v) : a.v->IsCoincident(*p.v); });
        }
        break;
      }
      case 2: case 3: {
        Cell<HalfSpace3> &p = s3[Idx(2)], &q = s3[Idx(3)];
        if (!p.known || !q.known || Bits(p.m) > 500 || Bits(q.m) > 500) break;
        V d = Cross3(p.m, q.m);
        if (Zero(d, 3)) break;
        if (!Make(a, [&] { return PluckerLine(*p.v, *q.v); })) break;
        Positive(Head(a.m, 3), d, "direction of an intersection", p.m, q.m);
        for (const V& pl : {p.m, q.m})
          SIM_CHECK(Dot(a.m, pl, 3) == 0 && Mulv(Head(a.m, 3), pl[3]) == Cross3(Tail(a.m, 3), pl), "geometry:result", "the intersection of %s and %s is %s, off a plane", Str(p.m).c_str(), Str(q.m).c_str(), Str(a.m).c_str());
        SIM_CHECK(Dot(a.m, Tail(a.m, 3), 3) == 0, "geometry:result", "%s is not a line", Str(a.m).c_str());
        Expect(1, "coincidence", a.m, p.m, [&] { return a.v->IsCoincident(*p.v); });
        break;
      }
      case 4: case 5: case 6: {
        Cell<HalfSpace3>& p = s3[Idx(2)];
        Cell<HomoPoint3>& r = h3[Idx(3)];
        if (!a.known || !p.known || Bits(a.m) > 600 || Bits(p.m) > 600 || Dot(a.m, p.m, 3) == 0) break;
        if (!Make(r, [&] { return a.v->Intersect(*p.v); })) break;
        ++checked;
        SIM_CHECK(r.m[3] != 0 && Side(p.m, r.m) == 0 && OnLine(a.m, r.m), "geometry:result", "the intersection of %s and %s is %s", Str(a.m).c_str(), Str(p.m).c_str(), Str(r.m).c_str());
        Expect(1, "coincidence", a.m, r.m, [&] { return a.v->IsCoincident(*r.v); });
        break;
      }
      case 7: {
        if (!a.known || Zero(DropDim(a.m, dim), 2)) break;
        Cell<HalfSpace2>& r = s2[Idx(3)];
        V d = DropDim(a.m, dim), want{-d[1], d[0], -a.m[3 + dim]};
        if (Make(r, [&] { return a.v->Project2D(dim); })) Positive(r.m, want, "projection", a.m, {cpp_int(dim)});
        break;
      }
      case 8: if (a.known) { V x = a.m; if (InPlace(a, [&] { a.v->Negate(); })) Equal(a.m, Mulv(x, -1), "negate", x, {}); } break;
      case 9: if (a.known) { V x = a.m; if (Make(c, [&] { return -*a.v; })) Equal(c.m, Mulv(x, -1), "minus", x, {}); } break;
      case 10: {
        if (!a.known) break;
        V x = a.m;
        if (!InPlace(a, [&] { a.v->Reduce(); })) break;
        Positive(a.m, x, "reduce", x, {});
        cpp_int g = 0;
        for (const cpp_int& n : a.m) g = boost::multiprecision::gcd(g, n);
        SIM_CHECK(g == 1, "geometry:reduce", "reducing %s left %s", Str(x).c_str(), Str(a.m).c_str());
        break;
      }
      case 11: case 12: {
        Cell<Point3>& p = p3[Idx(2)];
        Cell<HomoPoint3>& q = h3[Idx(3)];
        Cell<HalfSpace3>& s = s3[Idx(2)];
        if (a.known && p.known) Expect(OnLine(a.m, Homo(p.m, 3)), "coincidence", a.m, p.m, [&] { return a.v->IsCoincident(*p.v); });
        if (a.known && q.known) Expect(OnLine(a.m, q.m), "coincidence", a.m, q.m, [&] { return a.v->IsCoincident(*q.v); });
        if (a.known && s.known) Expect(Dot(a.m, s.m, 3) == 0 && Mulv(Head(a.m, 3), s.m[3]) == Cross3(Tail(a.m, 3), s.m), "coincidence", a.m, s.m, [&] { return a.v->IsCoincident(*s.v); });
        break;
      }
      default:
        if (a.known && &a != &c && !Zero(a.m, 3) && Bits(a.m) < 600 && rng.Chance(1, 2)) {
          // A line that differs from `a` in as little as possible: parallel
          // with a moment that differs in one component, or scaled.
          V m = Tail(a.m, 3);
          cpp_int scale = rng.Chance(1, 2) ? 1 : rng.Range(1, 5) * (rng.Chance(1, 3) ? -1 : 1);
          for (int i = 0; i < 3; ++i)
            if (a.m[i] == 0 && rng.Chance(1, 2)) { m[i] += rng.Pick({-1, 1, 2}); Probe("near-line"); break; }
          V want = Head(a.m, 3);
          want.insert(want.end(), m.begin(), m.end());
          want = Mulv(want, scale);
          Nums nums;
          for (const cpp_int& n : want) nums.push_back(Words(n));
          if (!Make(c, [&] { return New(nums, 0, static_cast<const PluckerLine*>(nullptr)); })) break;
          Equal(c.m, want, "construction", want, {});
        }
        if (!a.known || !c.known) break;
        Expect(Proportion(a.m, c.m) > 0, "line equality", a.m, c.m, [&] { return *a.v == *c.v; });
        Expect(Proportion(a.m, c.m) <= 0, "line inequality", a.m, c.m, [&] { return *a.v != *c.v; });
        Expect(!Zero(a.m, 3), "validity", a.m, {}, [&] { return a.v->IsValid(); });
        break;
    }
  }

  // The order over everything in a pool: a strict weak order whose equivalence
  // is geometric equality, and where the order itself is specified, that one.
  template <typename T, typename Lt, typename Ref>
  void Order(Cell<T> (&cells)[kPool], const char* what, Lt lt, Ref ref) {
    // ref: 0 equal, -1/1 ordered, 2 different in an unspecified order
    int n[kPool], cnt = 0;
    for (int i = 0; i < kPool; ++i) if (cells[i].known && (static_cast<int>(KindOf<T>::k) != kV2 || !Zero(cells[i].m, 2))) n[cnt++] = i;
    int m[kPool][kPool] = {};
    for (int i = 0; i < cnt; ++i)
      for (int j = 0; j < cnt; ++j)
        if (!Run([&] { m[i][j] = lt(*cells[n[i]].v, *cells[n[j]].v); })) return;
    auto name = [&](int i) { return Str(cells[n[i]].m); };
    for (int i = 0; i < cnt; ++i) {
      for (int j = 0; j < cnt; ++j) {
        int r = ref(cells[n[i]].m, cells[n[j]].m);
        SIM_CHECK(!(m[i][j] && m[j][i]), "geometry:order", "%s: %s and %s are each less than the other", what, name(i).c_str(), name(j).c_str());
        SIM_CHECK((!m[i][j] && !m[j][i]) == (r == 0), "geometry:order", "%s: %s and %s are %s", what, name(i).c_str(), name(j).c_str(), r ? "equivalent but different" : "ordered but equal");
        SIM_CHECK(r == 2 || m[i][j] == (r < 0), "geometry:order", "%s: %s < %s is %d", what, name(i).c_str(), name(j).c_str(), m[i][j]);
        for (int k = 0; k < cnt; ++k)
          SIM_CHECK(!m[i][j] || !m[j][k] || m[i][k], "geometry:order", "%s is not transitive for %s, %s, %s", what, name(i).c_str(), name(j).c_str(), name(k).c_str());
      }
    }
    if (cnt > 2) ++checked;
  }
  void OrderOp(int sub) {
    auto lex = [](const V& a, const V& b) { for (size_t i = 0; i + 1 < a.size(); ++i) if (int r = CmpComp(a, b, static_cast<int>(i))) return r; return 0; };
    switch (sub) {
      case 0: Order(v2, "rotation order", [](const Vector2& a, const Vector2& b) { return Vector2::RotationCompare()(a, b); }, CmpAngle); break;
      case 1: Order(v2, "half rotation order", [](const Vector2& a, const Vector2& b) { return Vector2::HalfRotationCompare()(a, b); },
                    [](const V& a, const V& b) { return CmpAngle(AngleHalf(a) ? Mulv(a, -1) : a, AngleHalf(b) ? Mulv(b, -1) : b); }); break;
      case 2: Order(p3, "lexicographic order", [](const Point3& a, const Point3& b) { return Point3::LexicographicallyLt(a, b); }, [](const V& a, const V& b) { return a < b ? -1 : a == b ? 0 : 1; }); break;
      case 3: Order(h2, "lexicographic order", [](const HomoPoint2& a, const HomoPoint2& b) { return HomoPoint2::LexicographicallyLt(a, b); }, lex); break;
      case 4: Order(h3, "lexicographic order", [](const HomoPoint3& a, const HomoPoint3& b) { return HomoPoint3::LexicographicallyLt(a, b); }, lex); break;
      case 5: Order(h3, "topness order", [](const HomoPoint3& a, const HomoPoint3& b) { return HomoPoint3::TopnessLt(a, b); }, [](const V& a, const V& b) { for (int i = 2; i >= 0; --i) if (int r = CmpComp(a, b, i)) return r; return 0; }); break;
      case 6: Order(s2, "sideless order", [](const HalfSpace2& a, const HalfSpace2& b) { return HalfSpace2SidelessCompare()(a, b); }, [](const V& a, const V& b) { return Proportion(a, b) ? 0 : 2; }); break;
      default: Order(s3, "plane order", [](const HalfSpace3& a, const HalfSpace3& b) { return HalfSpace3Compare()(a, b); }, [](const V& a, const V& b) { return Proportion(a, b) > 0 ? 0 : 2; }); break;
    }
  }

  static int BoxPart(const V& box, const V& p) {  // -1 outside, 0 on the border, 1 strictly inside
    int r = 1;
    for (int i = 0; i < 3; ++i) {
      int lo = Sgn(p[i] * box[6] - box[i] * p[3]) * Sgn(p[3]), hi = Sgn(box[3 + i] * p[3] - p[i] * box[6]) * Sgn(p[3]);
      if (lo < 0 || hi < 0) return -1;
      if (!lo || !hi) r = 0;
    }
    return r;
  }
  void BoxOp(int sub) {
    Cell<AABB> &a = b[Idx(1)], &c = b[Idx(2)];
    Rng rng(static_cast<uint64_t>(op->arg(4)));
    if (!a.known) return;
    switch (sub) {
      case 0: case 1: {
        Cell<Point3>& p = p3[Idx(2)];
        Cell<HomoPoint3>& q = h3[Idx(3)];
        if (p.known) {
          int part = BoxPart(a.m, Homo(p.m, 3));
          Expect(part >= 0, "inside box", a.m, p.m, [&] { return a.v->IsInside(*p.v); });
          Expect(part == 0, "on box border", a.m, p.m, [&] { return a.v->IsOnBorder(*p.v); });
        }
        if (q.known) {
          int part = BoxPart(a.m, q.m);
          Expect(part >= 0, "inside box", a.m, q.m, [&] { return a.v->IsInside(*q.v); });
          Expect(part == 0, "on box border", a.m, q.m, [&] { return a.v->IsOnBorder(*q.v); });
        }
        break;
      }
      case 2: {
        if (!c.known) break;
        bool same = true;
        for (int i = 0; i < 6; ++i) same = same && a.m[i] * c.m[6] == c.m[i] * a.m[6];
        Expect(same, "box equality", a.m, c.m, [&] { return *a.v == *c.v; });
        Expect(!same, "box inequality", a.m, c.m, [&] { return *a.v != *c.v; });
        break;
      }
      case 3: {
        V d = Addv(V(a.m.begin() + 3, a.m.begin() + 6), Head(a.m, 3), -1);
        ExpectValue(Dot(d, d, 3), "squared diagonal", a.m, {}, [&] { return a.v->GetSquaredDiagonalLengthNumerator(); });
        V lo = Head(a.m, 3), hi(a.m.begin() + 3, a.m.begin() + 6);
        lo.push_back(a.m[6]);
        hi.push_back(a.m[6]);
        if (Make(h3[Idx(2)], [&] { return a.v->min_point(); })) SamePoint(h3[Idx(2)].m, lo, "least corner", a.m, {});
        if (Make(h3[Idx(2)], [&] { return a.v->max_point(); })) SamePoint(h3[Idx(2)].m, hi, "greatest corner", a.m, {});
        break;
      }
      case 4: case 5: case 6: {
        Cell<HalfSpace3>& p = s3[Idx(3)];
        if (!p.known || Bits(p.m) > 330 || Bits(a.m) > 330) break;
        int lo = 0, hi = 0;
        bool strict_lo = false, strict_hi = false;
        for (int k = 0; k < 8; ++k) {
          V q;
          for (int i = 0; i < 3; ++i) q.push_back(a.m[(k >> i & 1) * 3 + i]);
          q.push_back(a.m[6]);
          int s = Side(p.m, q);
          lo += s <= 0;
          hi += s >= 0;
          strict_lo = strict_lo || s < 0;
          strict_hi = strict_hi || s > 0;
        }
        Expect(lo == 0 ? 1 : hi == 0 ? -1 : 0, "side of a box", a.m, p.m, [&] { return SgnOf(a.v->GetPlaneSide(*p.v)); });
        if (!(a.m[0] < a.m[3] && a.m[1] < a.m[4] && a.m[2] < a.m[5]) || sub == 4) break;
        // The section: every vertex on the plane and the border of the box,
        // each edge in a wall, and nothing if the plane misses the box.
        std::unique_ptr<MutableConvexPolygon<>> poly;
        bool ok = Run([&] { poly.reset(new MutableConvexPolygon<>(a.v->IntersectPlane(*p.v))); });
        if (ok) {
          ++checked;
          size_t n = poly->vertex_count();
          SIM_CHECK(n || !strict_lo || !strict_hi, "geometry:section", "the section of %s by %s is empty", Str(a.m).c_str(), Str(p.m).c_str());
          SIM_CHECK(!n || (lo && hi), "geometry:section", "the section of %s by %s has %zu vertices", Str(a.m).c_str(), Str(p.m).c_str(), n);
          if (n && strict_lo && strict_hi) {
            Probe("box-section");
            geom::Mesh mesh;
            mesh.push_back(FromPolygon(*poly));
            std::string bad = geom::CheckFacets(mesh, true);
            SIM_CHECK(bad.empty(), "geometry:section", "the section of %s by %s: %s", Str(a.m).c_str(), Str(p.m).c_str(), bad.c_str());
            SIM_CHECK(Proportion(Read(poly->plane()), p.m) > 0, "geometry:section", "the section lies in another plane");
            for (size_t i = 0; i < n; ++i) {
              V q = Read(poly->vertex(i)), r = Read(poly->vertex((i + 1) % n));
              SIM_CHECK(Side(p.m, q) == 0 && BoxPart(a.m, q) == 0, "geometry:section", "vertex %s of the section of %s by %s", Str(q).c_str(), Str(a.m).c_str(), Str(p.m).c_str());
              bool wall = false;
              for (int w = 0; w < 6; ++w) {
                cpp_int at = a.m[w];
                if (q[w % 3] * a.m[6] == at * q[3] && r[w % 3] * a.m[6] == at * r[3]) wall = true;
              }
              SIM_CHECK(wall, "geometry:section", "edge %zu of the section of %s by %s is in no wall", i, Str(a.m).c_str(), Str(p.m).c_str());
            }
          }
        }
        Sut s;
        poly.reset();
        break;
      }
      default: {
        if (!(a.m[0] < a.m[3] && a.m[1] < a.m[4] && a.m[2] < a.m[5]) || Bits(a.m) > 330) break;
        std::unique_ptr<std::vector<MutableConvexPolygon<>>> walls;
        bool ok = Run([&] { walls.reset(new std::vector<MutableConvexPolygon<>>(a.v->GetWalls())); });
        if (ok) {
          ++checked;
          SIM_CHECK(walls->size() == 6, "geometry:walls", "%zu walls", walls->size());
          geom::Mesh mesh = FromPolygons(*walls);
          std::string bad = geom::CheckFacets(mesh, true);
          SIM_CHECK(bad.empty(), "geometry:walls", "%s", bad.c_str());
          SIM_CHECK(geom::BoundaryHash(mesh) == 0, "geometry:walls", "the walls are not closed");
          cpp_int vol = 6 * (a.m[3] - a.m[0]) * (a.m[4] - a.m[1]) * (a.m[5] - a.m[2]), den = a.m[6] * a.m[6] * a.m[6];
          SIM_CHECK(geom::FieldMul(geom::VolumeHash(mesh), geom::FieldOf(Words(den))) == geom::FieldOf(Words(vol)), "geometry:walls", "the walls enclose another volume than %s", Str(a.m).c_str());
          for (const auto& w : *walls)
            for (size_t i = 0; i < w.vertex_count(); ++i) SIM_CHECK(BoxPart(a.m, Read(w.vertex(i))) == 0, "geometry:walls", "a wall of %s has a vertex off it", Str(a.m).c_str());
        }
        Sut s;
        walls.reset();
        break;
      }
    }
  }
  void RatioOp() {
    Rng rng(static_cast<uint64_t>(op->arg(1)));
    cpp_int n = RandomInt(rng, static_cast<int>(rng.Below(5))), d = RandomInt(rng, static_cast<int>(rng.Below(4))), e = RandomInt(rng, static_cast<int>(rng.Below(4)));
    if (rng.Chance(1, 3)) n = d * RandomInt(rng, 1);
    if (d == 0) d = -2;
    if (e == 0) e = 3;
    geom::Num nw = Words(n), dw = Words(d), ew = Words(e);
    for (int up = 0; up < 2; ++up) {
      std::unique_ptr<BigInt> got;
      bool ok = Run([&] { BigInt bn = ToBig(nw), bd = ToBig(dw), be = ToBig(ew); got.reset(new BigInt(up ? rational::RoundUp(bn, bd, be) : rational::RoundDown(bn, bd, be))); });
      if (ok) {
        ++checked;
        cpp_int g = Value(*got);
        // g/e against n/d, and g one step closer.
        int s = Sgn(e) * Sgn(d), at = Sgn(g * d - n * e) * s;
        cpp_int h = up ? cpp_int(g - Sgn(e)) : cpp_int(g + Sgn(e));
        int next = Sgn(h * d - n * e) * s;
        SIM_CHECK(up ? at >= 0 && next < 0 : at <= 0 && next > 0, "geometry:rounding", "%s of %s/%s to a denominator of %s is %s", up ? "rounding up" : "rounding down", Str({n}).c_str(), Str({d}).c_str(), Str({e}).c_str(), Str({g}).c_str());
      }
      Sut s;
      got.reset();
    }
    cpp_int n2 = rng.Chance(1, 2) ? RandomInt(rng, static_cast<int>(rng.Below(5))) : n * e, d2 = rng.Chance(1, 2) ? e : d * e;
    geom::Num n2w = Words(n2), d2w = Words(d2);
    int want = Sgn(n * d2 - n2 * d) * Sgn(d) * Sgn(d2);
    Expect(want < 0, "rational order", {n, d}, {n2, d2}, [&] { return rational::IsLessThan(ToBig(nw), ToBig(dw), ToBig(n2w), ToBig(d2w)); });
    Expect(want == 0, "rational equality", {n, d}, {n2, d2}, [&] { return rational::Equals(ToBig(nw), ToBig(dw), ToBig(n2w), ToBig(d2w)); });
  }

  void Step(const Op& o) {
    op = &o;
    fm = static_cast<int>(static_cast<uint64_t>(o.arg(6)) % 6);
    how = static_cast<int>(static_cast<uint64_t>(o.arg(5)) % 4);
    int sub = static_cast<int>(static_cast<uint64_t>(o.arg(0)) % 64);
    switch (o.code) {
      case kSet: {
        Rng rng(static_cast<uint64_t>(o.arg(2)));
        switch (sub % kKinds) {
          case kV2: Set(v2, rng); break;
          case kV3: Set(v3, rng); break;
          case kP2: Set(p2, rng); break;
          case kP3: Set(p3, rng); break;
          case kH2: Set(h2, rng); break;
          case kH3: Set(h3, rng); break;
          case kS2: Set(s2, rng); break;
          case kS3: Set(s3, rng); break;
          case kL: Set(l, rng); break;
          default: Set(b, rng); break;
        }
        break;
      }
      case kCopy:
        switch (sub % kKinds) {
          case kV2: CopyOp(v2); break;
          case kV3: CopyOp(v3); break;
          case kP2: CopyOp(p2); break;
          case kP3: CopyOp(p3); break;
          case kH2: CopyOp(h2); break;
          case kH3: CopyOp(h3); break;
          case kS2: CopyOp(s2); break;
          case kS3: CopyOp(s3); break;
          case kL: CopyOp(l); break;
          default: CopyOp(b); break;
        }
        break;
      case kVec: VecOp(sub % 36); break;
      case kPoint: PointOp(sub % 27); break;
      case kPlane: PlaneOp(sub % 24); break;
      case kLine: LineOp(sub % 14); break;
      case kOrder: OrderOp(sub % 8); break;
      case kBox: BoxOp(sub % 8); break;
      case kRatio: RatioOp(); break;
    }
    Each(Same{kNames[o.code - kOpFirstHarness]});
  }
};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5, 1, 0x80}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  const bool faults = rng.Chance(1, 3);
  // Swarm: a few kinds of objects and operations per run.
  std::vector<int> codes, kinds;
  for (int c = kCopy; c < kEnd; ++c) if (rng.Chance(1, 2)) codes.push_back(c);
  if (codes.empty()) codes.push_back(kOrder);
  for (int k = 0; k < kKinds; ++k) if (rng.Chance(1, 2)) kinds.push_back(k);
  if (kinds.empty()) kinds.push_back(kH3);
  int n = static_cast<int>(rng.Range(30, thorough ? 300 : 120));
  for (int i = 0; i < n; ++i) {
    int code = i < 10 || rng.Chance(1, 3) ? kSet : codes[rng.Below(codes.size())];
    std::vector<int64_t> a;
    if (code == kSet) {
      int k = rng.Chance(3, 4) ? kinds[rng.Below(kinds.size())] : static_cast<int>(rng.Below(kKinds));
      a = {k, rng.Range(0, kPool - 1), rng.Range(0, 1 << 30), 0, 0, rng.Range(0, 3)};
    } else if (code == kCopy) {
      a = {kinds[rng.Below(kinds.size())], rng.Range(0, kPool - 1), rng.Range(0, kPool - 1), rng.Range(0, 4), 0, 0};
    } else {
      a = {rng.Range(0, 63), rng.Range(0, kPool - 1), rng.Range(0, kPool - 1), rng.Range(0, kPool - 1), rng.Range(0, 1 << 30), rng.Range(0, 3)};
    }
    if (faults && rng.Chance(1, 3)) {
      int fm = rng.Pick({(int)kAfNth, (int)kAfNth, (int)kAfFrom, (int)kAfWindow, (int)kAfRandom, (int)kAfSize});
      a.push_back(fm);
      a.push_back(fm == kAfSize ? rng.Pick({1, 20, 40, 100}) : rng.Pick({1, 1, 2, 2, 3, 4, 6, 9, 14}));
      a.push_back(rng.Range(1, 3));
    }
    Op o;
    o.code = code;
    o.a = a;
    plan.ops.push_back(o);
  }
}

void Execute(const Plan& plan) {
  Session z;
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness || op.code >= kEnd) continue;
    CurrentOp(static_cast<int>(oi));
    int before = z.checked;
    z.Step(op);
    if (z.checked > before) { Signature(Mix(static_cast<uint64_t>(op.code) * 64 + static_cast<uint64_t>(op.arg(0)) % 64) ^ Mix(static_cast<uint64_t>(op.arg(op.code == kSet ? 2 : 4)))); }
    Event(Mix(static_cast<uint64_t>(z.checked) + z.fired_total));
  }
  uint64_t h = 0;
  for (auto& c : z.h3) if (c.known) for (const cpp_int& n : c.m) h = Mix(h ^ geom::FieldOf(Words(n)));
  State(h);
  if (z.checked > 10) NonTrivial();
}

}  // namespace

const sim::Harness sim::harness = {
  "C16", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut Vector2/3, Point2/3, HomoPoint2/3, HalfSpace2/3, PluckerLine, AABB, rational helpers, orderings, BigInt",
  "allocator replaced by the simulated heap with injected failures; oracle: boost::multiprecision::cpp_int evaluation of the defining formulas",
  "non-trivial: more than 10 answers were compared with the exact ones",
  100000000, true, 30000, 400000, false};
