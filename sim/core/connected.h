// Checks on the output of ConnectingVisitor. Included by harnesses only.
#ifndef SIM_CONNECTED_H_
#define SIM_CONNECTED_H_

#include <cmath>
#include <map>

#include "world.h"
#include "walnut/connecting_visitor.h"

namespace sim {

using CPoly = walnut::ConnectingVisitorOutputPolygon<>;

struct LinkStats {
  size_t edges = 0, unpartnered = 0;
};

// Checks the partner links of polys[0..n). Every link must be reciprocal and
// join opposite, overlapping edges; with `same_segment` partners must run over
// exactly the same segment. Polygons without vertices may be present.
template <typename P>
LinkStats CheckLinks(const std::vector<P>& polys, bool same_segment, const char* prefix) {
  std::string c = prefix;
  LinkStats st;
  std::map<const void*, std::pair<size_t, size_t>> where;
  for (size_t i = 0; i < polys.size(); ++i)
    for (size_t j = 0; j < polys[i].vertex_count(); ++j) where[static_cast<const void*>(static_cast<const typename P::ConnectedEdgeRep*>(&polys[i].edge(j)))] = {i, j};
  for (size_t i = 0; i < polys.size(); ++i) {
    size_t n = polys[i].vertex_count();
    SIM_CHECK(n == 0 || n >= 3, (c + ":facet").c_str(), "facet %zu has %zu vertices", i, n);
    for (size_t j = 0; j < n; ++j) {
      const auto& e = polys[i].edge(j);
      ++st.edges;
      SIM_CHECK(&e.polygon() == &polys[i], (c + ":owner").c_str(), "edge %zu of facet %zu names another facet as its own", j, i);
      const typename P::ConnectedEdgeRep* p = e.partner();
      if (!p) { ++st.unpartnered; continue; }
      auto it = where.find(p);
      SIM_CHECK(it != where.end(), (c + ":dangling").c_str(), "the partner of edge %zu of facet %zu is not an edge of the output", j, i);
      SIM_CHECK(p->partner() == static_cast<const typename P::ConnectedEdgeRep*>(&e), (c + ":reciprocal").c_str(), "edge %zu of facet %zu: the partner of its partner is another edge", j, i);
      size_t pi = it->second.first, pj = it->second.second;
      SIM_CHECK(pi != i, (c + ":self").c_str(), "edge %zu of facet %zu is partnered within its own facet", j, i);
      geom::Pt a = FromPoint(e.vertex()), b = FromPoint(polys[i].vertex((j + 1) % n));
      geom::Pt pa = FromPoint(polys[pi].vertex(pj)), pb = FromPoint(polys[pi].vertex((pj + 1) % polys[pi].vertex_count()));
      if (same_segment) {
        SIM_CHECK(geom::PointKey(a) == geom::PointKey(pb) && geom::PointKey(b) == geom::PointKey(pa), (c + ":segment").c_str(),
                  "edge %zu of facet %zu runs %s -> %s, its partner %s -> %s", j, i, geom::ToString(a).c_str(), geom::ToString(b).c_str(), geom::ToString(pa).c_str(), geom::ToString(pb).c_str());
      } else {
        SIM_CHECK(geom::SegmentsOppose(a, b, pa, pb), (c + ":segment").c_str(),
                  "edge %zu of facet %zu runs %s -> %s, its partner %s -> %s", j, i, geom::ToString(a).c_str(), geom::ToString(b).c_str(), geom::ToString(pa).c_str(), geom::ToString(pb).c_str());
      }
    }
  }
  return st;
}

// Where more than two facets meet in a segment, partners must bound the same
// wedge of the inside: turning from a facet towards its inside, the partner is
// the first facet met. Angles come from the planes in long double; groups with
// nearly equal angles are skipped.
template <typename P>
void CheckWedges(const std::vector<P>& polys, const char* prefix) {
  std::string c = prefix;
  struct Half { size_t i, j; bool forward; long double angle; };
  std::map<std::pair<uint64_t, uint64_t>, std::vector<Half>> groups;
  for (size_t i = 0; i < polys.size(); ++i) {
    size_t n = polys[i].vertex_count();
    std::vector<uint64_t> keys;
    for (size_t j = 0; j < n; ++j) keys.push_back(geom::PointKey(FromPoint(polys[i].vertex(j))));
    for (size_t j = 0; j < n; ++j) {
      uint64_t a = keys[j], b = keys[(j + 1) % n];
      groups[{std::min(a, b), std::max(a, b)}].push_back({i, j, a < b, 0});
    }
  }
  for (auto& g : groups) {
    std::vector<Half>& h = g.second;
    if (h.size() <= 2) continue;
    // Direction of the segment, from its lower key to its higher key.
    const P& p0 = polys[h[0].i];
    geom::Pt a = FromPoint(p0.vertex(h[0].j)), b = FromPoint(p0.vertex((h[0].j + 1) % p0.vertex_count()));
    long double dir[3], x[3], y[3], len = 0;
    geom::Direction(a, b, dir);
    for (long double& d : dir) { if (!h[0].forward) d = -d; len += d * d; }
    for (long double& d : dir) d /= sqrtl(len);
    int ax = fabsl(dir[0]) < 0.6L ? 0 : fabsl(dir[1]) < 0.6L ? 1 : 2;
    long double e[3] = {0, 0, 0};
    e[ax] = 1;
    auto cross = [](const long double* u, const long double* v, long double* r) {
      for (int k = 0; k < 3; ++k) r[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3];
    };
    cross(dir, e, x);
    cross(dir, x, y);
    for (Half& q : h) {
      geom::Plane pl = FromPlane(polys[q.i].plane());
      long double nrm[3] = {geom::ToLong(pl.a), geom::ToLong(pl.b), geom::ToLong(pl.c)}, in[3], d[3];
      long double nl = sqrtl(nrm[0] * nrm[0] + nrm[1] * nrm[1] + nrm[2] * nrm[2]);
      for (int k = 0; k < 3; ++k) { nrm[k] /= nl; d[k] = q.forward ? dir[k] : -dir[k]; }
      cross(nrm, d, in);  // into the facet
      long double u = 0, v = 0;
      for (int k = 0; k < 3; ++k) { u += in[k] * x[k]; v += in[k] * y[k]; }
      q.angle = atan2l(v, u);
    }
    std::sort(h.begin(), h.end(), [](const Half& p, const Half& q) { return p.angle < q.angle; });
    // x, y, dir is right handed, so angles grow counter-clockwise around dir.
    // A forward facet has its inside clockwise of it.
    const long double kTurn = 2 * 3.14159265358979323846264338327950288L;
    auto gap = [&](size_t k) {
      long double d = h[(k + 1) % h.size()].angle - h[k].angle;
      return k + 1 == h.size() ? d + kTurn : d;
    };
    size_t cut = 0;
    for (size_t k = 0; k < h.size(); ++k) if (gap(k) > gap(cut)) cut = k;
    if (cut + 1 < h.size()) {
      for (size_t k = 0; k <= cut; ++k) h[k].angle += kTurn;
      std::rotate(h.begin(), h.begin() + static_cast<long>(cut) + 1, h.end());
    }
    // Coincident sheets: a gap of thickness zero, whose insides lie away from
    // each other.
    bool close = false;
    for (size_t k = 0; k + 1 < h.size(); ++k) {
      if (gap(k) >= 1e-9L) continue;
      if ((k + 2 < h.size() && gap(k + 1) < 1e-9L) || h[k].forward == h[k + 1].forward) { close = true; break; }
      if (!h[k].forward) std::swap(h[k], h[k + 1]);
      ++k;
    }
    if (close) { Probe("wedge-angles-too-close"); continue; }
    Probe("wedge-groups");
    for (size_t k = 0; k < h.size(); ++k) {
      const Half& q = h[k];
      const Half& want = h[q.forward ? (k + h.size() - 1) % h.size() : (k + 1) % h.size()];
      const auto* partner = polys[q.i].edge(q.j).partner();
      SIM_CHECK(partner == static_cast<const typename P::ConnectedEdgeRep*>(&polys[want.i].edge(want.j)), (c + ":wedge").c_str(),
                "%zu facets meet in a segment; facet %zu is not partnered with facet %zu, the first one through the inside", h.size(), q.i, want.i);
    }
  }
}

}  // namespace sim

#endif
