// Conversions between the code under test and the exact geometry library, and
// a type-erased filter so that set expressions can be built at run time from
// the repository's own filter templates. Included by harnesses only.
#ifndef SIM_GLUE_H_
#define SIM_GLUE_H_

#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "geom.h"
#include "sim.h"
#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/mutable_convex_polygon.h"

namespace sim {

inline walnut::BigInt ToBig(const geom::Num& n) {
  if (n.empty()) return walnut::BigInt(0);
  walnut::BigInt r(static_cast<int64_t>(n.back()));
  for (size_t i = n.size() - 1; i-- > 0;) {
    r = (r << 32) + walnut::BigInt(static_cast<int64_t>(n[i] >> 32));
    r = (r << 32) + walnut::BigInt(static_cast<int64_t>(n[i] & 0xffffffffull));
  }
  return r;
}
inline geom::Num FromBig(const walnut::BigInt& v) {
  geom::Num n;
  size_t words = v.used_words();
  if (words < 1 || words > 100000) { Host h; Violation("bigint:bad-size", "used_words=%zu", words); }
  Host h;
  n.reserve(words);
  for (size_t i = 0; i < words; ++i) n.push_back(v.word(i).low_uint64());
  return n;
}
inline walnut::HomoPoint3 ToPoint(const geom::Pt& p) {
  return walnut::HomoPoint3(ToBig(p.x), ToBig(p.y), ToBig(p.z), ToBig(p.w));
}
inline geom::Pt FromPoint(const walnut::HomoPoint3& p) {
  return {FromBig(p.x()), FromBig(p.y()), FromBig(p.z()), FromBig(p.w())};
}
inline walnut::HalfSpace3 ToPlane(const geom::Plane& p) {
  return walnut::HalfSpace3(ToBig(p.a), ToBig(p.b), ToBig(p.c), ToBig(p.d));
}
inline geom::Plane FromPlane(const walnut::HalfSpace3& h) {
  return {FromBig(h.x()), FromBig(h.y()), FromBig(h.z()), FromBig(h.d())};
}
// The array constructor is taken for some facets of 3 to 5 vertices, where the
// polygon type has one. Which facets is a function of their first coordinate.
template <typename Polygon, size_t n>
typename std::enable_if<std::is_constructible<Polygon, walnut::HalfSpace3&&, int,
                                              walnut::HomoPoint3 (&&)[n]>::value,
                        bool>::type
ToPolygonArray(const geom::Facet& f, Polygon* out, int) {
  if (f.pts.size() != n) return false;
  walnut::HomoPoint3 v[n];
  for (size_t i = 0; i < n; ++i) v[i] = ToPoint(f.pts[i]);
  *out = Polygon(ToPlane(f.plane), f.drop, std::move(v));
  return true;
}
template <typename Polygon, size_t n>
bool ToPolygonArray(const geom::Facet&, Polygon*, long) {
  return false;
}
// Call in Sut mode.
template <typename Polygon = walnut::MutableConvexPolygon<>>
Polygon ToPolygon(const geom::Facet& f) {
  if (!f.pts.empty() && !f.pts[0].x.empty() && (f.pts[0].x[0] & 1)) {
    Polygon p;
    if (ToPolygonArray<Polygon, 3>(f, &p, 0) || ToPolygonArray<Polygon, 4>(f, &p, 0) ||
        ToPolygonArray<Polygon, 5>(f, &p, 0)) {
      return p;
    }
  }
  std::vector<walnut::HomoPoint3> v;
  v.reserve(f.pts.size());
  for (const geom::Pt& p : f.pts) v.push_back(ToPoint(p));
  return Polygon(ToPlane(f.plane), f.drop, v);
}
// Call in Host mode.
template <typename Polygon>
geom::Facet FromPolygon(const Polygon& p) {
  geom::Facet f;
  f.plane = FromPlane(p.plane());
  f.drop = p.drop_dimension();
  for (size_t i = 0; i < p.vertex_count(); ++i) f.pts.push_back(FromPoint(p.vertex(i)));
  return f;
}
template <typename Container>
geom::Mesh FromPolygons(const Container& c) {
  geom::Mesh m;
  for (const auto& p : c) m.push_back(FromPolygon(p));
  return m;
}
// Vertices really on the plane etc. without the strict convexity demand.
template <typename Polygon>
std::string CheckEdges(const Polygon& p) {
  // The line of every edge joins its vertex to the next.
  size_t n = p.vertex_count();
  for (size_t i = 0; i < n; ++i) {
    geom::Pt a = FromPoint(p.vertex(i)), b = FromPoint(p.vertex((i + 1) % n));
    const auto& l = p.edge(i).line();
    uint64_t d[3] = {geom::FieldOf(FromBig(l.d().x())), geom::FieldOf(FromBig(l.d().y())), geom::FieldOf(FromBig(l.d().z()))};
    uint64_t m[3] = {geom::FieldOf(FromBig(l.m().x())), geom::FieldOf(FromBig(l.m().y())), geom::FieldOf(FromBig(l.m().z()))};
    auto onl = [&](const geom::Pt& q) {
      // q x d == m w
      uint64_t c[3] = {geom::FieldOf(q.x), geom::FieldOf(q.y), geom::FieldOf(q.z)}, w = geom::FieldOf(q.w);
      for (int k = 0; k < 3; ++k) {
        int u = (k + 1) % 3, v = (k + 2) % 3;
        if (geom::FieldSub(geom::FieldMul(c[u], d[v]), geom::FieldMul(c[v], d[u])) != geom::FieldMul(m[k], w)) return false;
      }
      return true;
    };
    if (!onl(a) || !onl(b)) return "the line of edge " + std::to_string(i) + " misses its vertices";
    // Direction from a to b.
    geom::Num dn[3] = {FromBig(l.d().x()), FromBig(l.d().y()), FromBig(l.d().z())};
    const geom::Num* ac[3] = {&a.x, &a.y, &a.z};
    const geom::Num* bc[3] = {&b.x, &b.y, &b.z};
    bool any = false;
    for (int k = 0; k < 3; ++k) {
      int s = geom::SignOf(dn[k]);
      geom::Num diff = geom::Add(geom::Mul(*bc[k], a.w), geom::Neg(geom::Mul(*ac[k], b.w)));
      int e = geom::SignOf(diff);
      if ((geom::SignOf(a.w) < 0) != (geom::SignOf(b.w) < 0)) e = -e;
      if (s) any = true;
      if (e && s != e) return "the line of edge " + std::to_string(i) + " points the wrong way";
    }
    if (!any) return "the line of edge " + std::to_string(i) + " has no direction";
  }
  return "";
}

// ------------------------------------------------------------ filters
using Infos = std::vector<walnut::BSPContentInfo>;
struct AnyFilter {
  std::shared_ptr<std::function<std::pair<bool, bool>(const Infos&)>> f;
  std::pair<bool, bool> operator()(const Infos& i) { return (*f)(i); }
};
template <typename F>
AnyFilter Any(F f) {
  AnyFilter a;
  a.f = std::make_shared<std::function<std::pair<bool, bool>(const Infos&)>>(
      [f](const Infos& i) mutable { return f(i); });
  return a;
}

// Set expression in prefix form, encoded in 64-bit integers: see Decode.
struct Expr {
  enum Kind { kPoly, kInv, kOdd, kAnd, kOr, kSub, kXor, kUnionIds, kIntersectIds, kSubtractIds };
  Kind kind = kPoly;
  int id = 0;
  std::vector<int> ids;
  std::vector<Expr> kids;

  // Truth value for winding numbers by id.
  bool Eval(const std::vector<int>& w) const {
    auto at = [&](int i) { return i < static_cast<int>(w.size()) ? w[i] : 0; };
    switch (kind) {
      case kPoly: return at(id) > 0;
      case kInv: return at(id) >= 0;
      case kOdd: return at(id) & 1;
      case kAnd: case kSub: return kids[0].Eval(w) && kids[1].Eval(w);
      case kOr: return kids[0].Eval(w) || kids[1].Eval(w);
      case kXor: return kids[0].Eval(w) != kids[1].Eval(w);
      case kUnionIds: for (int i : ids) if (at(i) > 0) return true; return false;
      case kIntersectIds: for (int i : ids) if (at(i) <= 0) return false; return true;
      case kSubtractIds:
        if (at(ids[0]) <= 0) return false;
        for (size_t i = 1; i < ids.size(); ++i) if (at(ids[i]) < 0) return false;
        return true;
    }
    return false;
  }
  // Never turns from true to false when a winding number grows.
  bool Monotone() const {
    if (kind == kOdd || kind == kXor) return false;
    for (const Expr& k : kids) if (!k.Monotone()) return false;
    return true;
  }
  void Ids(std::vector<bool>& used) const {
    auto mark = [&](int i) { if (static_cast<int>(used.size()) <= i) used.resize(i + 1); used[i] = true; };
    if (kind <= kOdd) mark(id);
    for (int i : ids) mark(i);
    for (const Expr& k : kids) k.Ids(used);
  }
  AnyFilter Build() const {
    using namespace walnut;
    switch (kind) {
      default:
      case kPoly: return Any(PolygonFilter(id));
      case kInv: return Any(InvertedPolygonFilter(id));
      case kOdd: return Any(OddPolygonFilter(id));
      case kAnd: return Any(MakeIntersectionFilter(kids[0].Build(), kids[1].Build()));
      case kOr: return Any(MakeUnionFilter(kids[0].Build(), kids[1].Build()));
      case kSub: return Any(MakeSubtractionFilter(kids[0].Build(), kids[1].Build()));
      case kXor: return Any(MakeXORFilter(kids[0].Build(), kids[1].Build()));
      case kUnionIds: return Any(UnionIdsFilter(std::vector<BSPContentId>(ids.begin(), ids.end())));
      case kIntersectIds: return Any(IntersectIdsFilter(std::vector<BSPContentId>(ids.begin(), ids.end())));
      case kSubtractIds: return Any(SubtractIdsFilter(std::vector<BSPContentId>(ids.begin(), ids.end())));
    }
  }
  std::string Str() const {
    static const char* n[] = {"p", "inv", "odd", "and", "or", "sub", "xor", "unionids", "intersectids", "subtractids"};
    std::string s = n[kind];
    s += "(";
    if (kind <= kOdd) s += std::to_string(id);
    for (int i : ids) s += std::to_string(i) + " ";
    for (const Expr& k : kids) s += k.Str() + " ";
    return s + ")";
  }
};
// Random expression over ids. inverted[i]: solid i is stored inside out.
inline Expr RandomExpr(Rng& rng, const std::vector<int>& ids, const std::vector<bool>& inverted, int depth, bool monotone = false) {
  Expr e;
  if (depth <= 0 || ids.size() == 1 || rng.Chance(1, 6)) {
    e.id = ids[rng.Below(ids.size())];
    bool inv = inverted[e.id];
    int r = static_cast<int>(rng.Below(8));
    e.kind = r == 0 && !monotone ? Expr::kOdd : (inv != (r == 1)) ? Expr::kInv : Expr::kPoly;
    return e;
  }
  int r = static_cast<int>(rng.Below(12));
  if (r < 3) {
    std::vector<int> pos, neg;
    for (int i : ids) (inverted[i] ? neg : pos).push_back(i);
    auto subset = [&](std::vector<int> v) {
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.Below(i)]);
      v.resize(1 + rng.Below(v.size()));
      return v;
    };
    if (r == 2 && !pos.empty() && !neg.empty()) {
      e.kind = Expr::kSubtractIds;
      e.ids = subset(neg);
      e.ids.insert(e.ids.begin(), pos[rng.Below(pos.size())]);
      return e;
    }
    if (!pos.empty()) {
      e.kind = r == 0 ? Expr::kUnionIds : Expr::kIntersectIds;
      e.ids = subset(pos);
      return e;
    }
  }
  e.kind = rng.Pick({Expr::kAnd, Expr::kOr, monotone ? Expr::kOr : Expr::kXor, Expr::kSub});
  e.kids.push_back(RandomExpr(rng, ids, inverted, depth - 1, monotone));
  e.kids.push_back(RandomExpr(rng, ids, inverted, depth - 1, monotone));
  return e;
}

}  // namespace sim

#endif
