// C15: cell border queries on trees with any history of splits, additions and
// traversals, against an exact convex clipper.
// sim-mode: asan
#include <map>
#include <memory>

#include "connected.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kAdd, kSplit, kTraverse, kQuery, kFaultyQuery, kReset, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "add", "split", "traverse", "query", "faulty_query", "reset"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, 2, true);
  // Grows one cell deeper and deeper, or splits anywhere.
  int64_t main_path = rng.Range(0, 1 << 20);
  bool deep = rng.Chance(1, 2), axis = rng.Chance(1, 4);
  auto split = [&]() {
    int64_t style = axis ? rng.Pick({0, 4, 0, 4, 2}) : rng.Range(0, 7);
    plan.Add(kSplit, {deep && rng.Chance(3, 4) ? main_path : rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), style});
  };
  auto args = [&](int code) {
    // path seed, length, box seed, box style, box detail, walls, iterator kind
    int64_t path = deep && rng.Chance(2, 3) ? main_path : rng.Range(0, 1 << 20);
    plan.Add(code, {path, rng.Chance(2, 3) ? 100 : rng.Range(0, 8), rng.Range(0, 1 << 30), rng.Range(0, 7), rng.Range(0, 63), rng.Chance(2, 3), rng.Range(0, 3),
                    rng.Range(1, 3), rng.Chance(1, 3) ? rng.Range(1, 30) : rng.Range(1, 3000), rng.Range(1, 5)});
  };
  int n = static_cast<int>(rng.Range(1, thorough ? 24 : 12));
  for (int i = 0; i < n; ++i) {
    switch (rng.Below(12)) {
      case 0: case 1: case 2: case 3: case 4: split(); break;
      case 5: plan.Add(kAdd, {rng.Range(1, 12), rng.Range(0, 3)}); break;
      case 6: if (rng.Chance(1, 4)) plan.Add(kTraverse, {rng.Range(0, 1 << 30), rng.Range(0, 2), rng.Range(0, 5)}); else split(); break;
      case 7: if (rng.Chance(1, 6)) plan.Add(kReset, {}); else split(); break;
      case 8: args(kFaultyQuery); break;
      default: args(kQuery);
    }
  }
  for (int i = 0; i < 3; ++i) args(kQuery);
}

size_t Kd(int64_t v) {
  static const size_t k[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
  return k[static_cast<uint64_t>(v) % 6];
}

geom::Plane Opposite(const geom::Plane& p) { return {geom::Neg(p.a), geom::Neg(p.b), geom::Neg(p.c), geom::Neg(p.d)}; }

// ------------------------------------------------------------- rationals
struct Rat { geom::Num n, d; };   // d > 0
Rat MakeRat(const geom::Num& n, const geom::Num& d) {
  if (geom::SignOf(d) < 0) return {geom::Neg(n), geom::Neg(d)};
  return {n, d};
}
int Cmp(const Rat& a, const Rat& b) { return geom::SignOf(geom::Add(geom::Mul(a.n, b.d), geom::Neg(geom::Mul(b.n, a.d)))); }
Rat Plus(const Rat& a, const Rat& b) { return {geom::Add(geom::Mul(a.n, b.d), geom::Mul(b.n, a.d)), geom::Mul(a.d, b.d)}; }
Rat Half(const Rat& a) { return {a.n, geom::Mul(a.d, geom::FromI64(2))}; }
Rat Neg(const Rat& a) { return {geom::Neg(a.n), a.d}; }

struct Box {
  Rat lo[3], hi[3];
  geom::Num min[3], max[3], den;
  void Finish(int64_t scale) {
    den = geom::FromI64(scale);
    for (int i = 0; i < 3; ++i) { den = geom::Mul(den, lo[i].d); den = geom::Mul(den, hi[i].d); }
    for (int i = 0; i < 3; ++i) {
      auto over = [&](const Rat& r, bool skip_hi) {
        geom::Num v = geom::Mul(r.n, geom::FromI64(scale));
        for (int j = 0; j < 3; ++j) {
          if (!(j == i && !skip_hi)) v = geom::Mul(v, lo[j].d);
          if (!(j == i && skip_hi)) v = geom::Mul(v, hi[j].d);
        }
        return v;
      };
      min[i] = over(lo[i], false);
      max[i] = over(hi[i], true);
    }
  }
  geom::Plane Wall(int i) const {   // 0-2 low sides, 3-5 high sides, outward
    geom::Plane p{geom::FromI64(0), geom::FromI64(0), geom::FromI64(0), geom::FromI64(0)};
    geom::Num* n[3] = {&p.a, &p.b, &p.c};
    *n[i % 3] = i < 3 ? geom::Neg(den) : den;
    p.d = i < 3 ? geom::Neg(min[i]) : max[i - 3];
    return p;
  }
};

// --------------------------------------------------------- exact clipping
struct Poly {
  struct F { int plane; std::vector<geom::Pt> pts; std::vector<int> adj; };   // edge i lies on adj[i]
  std::vector<geom::Plane> planes;
  std::vector<F> f;
  bool ok = true;

  explicit Poly(const Box& b) {
    for (int i = 0; i < 6; ++i) planes.push_back(b.Wall(i));
    for (int i = 0; i < 6; ++i) {
      int u = (i % 3 + 1) % 3, v = (i % 3 + 2) % 3;
      // u x v points along +i.
      int loop[4] = {u, v, u + 3, v + 3};   // walls met counter-clockwise: low u, low v, high u, high v
      F g;
      g.plane = i;
      for (int k = 0; k < 4; ++k) {
        geom::Pt p;
        if (!geom::Meet3(planes[i], planes[loop[k]], planes[loop[(k + 1) % 4]], p)) ok = false;
        g.pts.push_back(p);
        g.adj.push_back(loop[(k + 1) % 4]);
      }
      if (i < 3) {
        std::reverse(g.pts.begin(), g.pts.end());
        // Edge k now runs from old 3-k to old 2-k.
        std::vector<int> a;
        for (int k = 0; k < 4; ++k) a.push_back(g.adj[static_cast<size_t>((2 - k + 4) % 4)]);
        g.adj = a;
      }
      f.push_back(g);
    }
  }
  // Keeps the negative side.
  void Clip(const geom::Plane& c) {
    int id = static_cast<int>(planes.size());
    planes.push_back(c);
    bool pos = false, neg = false;
    std::vector<std::vector<int>> side;
    for (const F& g : f) {
      std::vector<int> s;
      for (const geom::Pt& p : g.pts) { s.push_back(geom::PlaneSide(c, p)); if (s.back() > 0) pos = true; if (s.back() < 0) neg = true; }
      side.push_back(s);
    }
    if (!pos) return;
    if (!neg) { f.clear(); return; }
    std::vector<F> out;
    struct Seg { geom::Pt from, to; int adj; };
    std::vector<Seg> cap;
    for (size_t k = 0; k < f.size(); ++k) {
      const F& g = f[k];
      const std::vector<int>& s = side[k];
      if (std::find(s.begin(), s.end(), -1) == s.end()) continue;
      F h;
      h.plane = g.plane;
      size_t n = g.pts.size();
      for (size_t i = 0; i < n; ++i) {
        size_t j = (i + 1) % n;
        auto cross = [&]() {
          geom::Pt p;
          if (!geom::Meet3(planes[static_cast<size_t>(g.plane)], planes[static_cast<size_t>(g.adj[i])], c, p)) ok = false;
          return p;
        };
        if (s[i] <= 0) {
          // The edge that leaves a kept vertex.
          bool leaves = s[i] == 0 && s[j] >= 0;
          h.pts.push_back(g.pts[i]);
          h.adj.push_back(leaves ? id : g.adj[i]);
          if (s[i] < 0 && s[j] > 0) { h.pts.push_back(cross()); h.adj.push_back(id); }
        } else if (s[j] < 0) {
          h.pts.push_back(cross());
          h.adj.push_back(g.adj[i]);
        }
      }
      for (size_t i = 0; i < h.pts.size(); ++i)
        if (h.adj[i] == id) cap.push_back({h.pts[(i + 1) % h.pts.size()], h.pts[i], g.plane});
      out.push_back(h);
    }
    F g;
    g.plane = id;
    std::map<uint64_t, size_t> at;
    for (size_t i = 0; i < cap.size(); ++i) at[geom::PointKey(cap[i].from)] = i;
    size_t i = 0;
    for (size_t n = 0; n < cap.size(); ++n) {
      g.pts.push_back(cap[i].from);
      g.adj.push_back(cap[i].adj);
      auto it = at.find(geom::PointKey(cap[i].to));
      if (it == at.end()) { ok = false; break; }
      i = it->second;
    }
    if (i != 0 || cap.size() < 3) ok = false;
    out.push_back(g);
    f.swap(out);
  }
  geom::Mesh ToMesh() const {
    geom::Mesh m;
    for (const F& g : f) {
      geom::Facet x;
      x.plane = planes[static_cast<size_t>(g.plane)];
      x.pts = g.pts;
      m.push_back(x);
    }
    return m;
  }
};

// A value of everything a tree holds.
void Fold(uint64_t& h, const BigInt& v) {
  Host g;
  geom::Num n = FromBig(v);
  h = Mix(h ^ HashBytes(n.data(), n.size() * 8));
}
template <typename N>
void TreeHash(const N& n, uint64_t& h) {
  h = Mix(h + 1 + n.IsLeaf());
  for (const BSPContentInfo& i : n.content_info_by_id()) h = Mix(h ^ static_cast<uint64_t>(i.pwn) ^ (i.has_interior_polygons << 20) ^ (i.has_border_polygons << 40));
  for (const auto* v : {&n.contents(), &n.border_contents()}) {
    h = Mix(h + v->size());
    for (const auto& p : *v) {
      h = Mix(h ^ p.id ^ Mix(p.vertex_count()));
      for (size_t i = 0; i < p.vertex_count(); ++i) {
        Fold(h, p.vertex(i).x()); Fold(h, p.vertex(i).y()); Fold(h, p.vertex(i).z()); Fold(h, p.vertex(i).w());
      }
    }
  }
  if (n.IsLeaf()) return;
  Fold(h, n.split().x()); Fold(h, n.split().y()); Fold(h, n.split().z()); Fold(h, n.split().d());
  TreeHash(*n.negative_child(), h);
  TreeHash(*n.positive_child(), h);
}

struct Session {
  World w;
  std::unique_ptr<Tree> tree;
  int queries = 0, nonempty = 0;

  void Fix() { if (!w.streamed) w.FixStream(0, 0); }

  void Path(int64_t seed, int64_t len, std::vector<bool>& path, std::vector<geom::Plane>& planes) {
    Rng rng(static_cast<uint64_t>(seed));
    const Node* n = &tree->root;
    // Every choice as in SplitLeaf, so that a path seed names a cell.
    for (int64_t i = 0; i < len && i < 14 && !n->IsLeaf(); ++i) {
      geom::Plane p = FromPlane(n->split());
      bool positive = !rng.Chance(1, 2);
      path.push_back(positive);
      planes.push_back(positive ? Opposite(p) : p);
      n = positive ? n->positive_child() : n->negative_child();
    }
  }

  bool MakeBox(const Op& op, const std::vector<geom::Plane>& planes, Box& b) {
    Rng rng(static_cast<uint64_t>(op.arg(2)));
    int style = static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 8);
    std::vector<const geom::Mesh*> ms = w.Meshes();
    auto comp = [](const geom::Pt& p, int i) { return MakeRat(i == 0 ? p.x : i == 1 ? p.y : p.z, p.w); };
    std::vector<Rat> cand[3];
    for (const geom::Mesh* m : ms)
      for (int k = 0; k < 4; ++k) {
        const geom::Facet& f = (*m)[rng.Below(m->size())];
        const geom::Pt& p = f.pts[rng.Below(f.pts.size())];
        for (int i = 0; i < 3; ++i) cand[i].push_back(comp(p, i));
      }
    std::vector<Rat> flat[3];
    for (const geom::Plane& p : planes) {
      const geom::Num* n[3] = {&p.a, &p.b, &p.c};
      for (int i = 0; i < 3; ++i)
        if (geom::SignOf(*n[i]) && !geom::SignOf(*n[(i + 1) % 3]) && !geom::SignOf(*n[(i + 2) % 3])) flat[i].push_back(MakeRat(p.d, *n[i]));
    }
    // A vertex of the arrangement of the path planes.
    geom::Pt corner;
    bool have_corner = false;
    if (planes.size() >= 3)
      for (int t = 0; t < 6 && !have_corner; ++t)
        have_corner = geom::Meet3(planes[rng.Below(planes.size())], planes[rng.Below(planes.size())], planes[rng.Below(planes.size())], corner);
    auto size = [&]() { int e = static_cast<int>(rng.Range(0, 12)); return Rat{geom::FromI64(rng.Range(1, 40) * (1ll << (e > 6 ? e - 6 : 0))), geom::FromI64(1ll << (e < 6 ? 6 - e : 0))}; };
    geom::Pt centre = ms.empty() ? geom::Pt{geom::FromI64(0), geom::FromI64(0), geom::FromI64(0), geom::FromI64(1)} : geom::RandomPoint(ms, rng);
    if (!ms.empty() && rng.Chance(1, 2)) centre = geom::NearVertex(*ms[rng.Below(ms.size())], rng, static_cast<int>(rng.Range(1, 8)));
    double scene = 1;
    for (const geom::Mesh* m : ms) scene = std::max(scene, geom::ApproxSize(*m));
    for (int i = 0; i < 3; ++i) {
      Rat c = comp(centre, i);
      // The size of the scene as a power of two, times a factor.
      Rat unit = size();
      if (cand[i].size() >= 2 && Cmp(cand[i][0], cand[i].back()) != 0) {
        Rat d = Plus(cand[i][0], Neg(cand[i].back()));
        if (geom::SignOf(d.n) < 0) d = Neg(d);
        unit = {geom::Mul(unit.n, d.n), geom::Mul(geom::Mul(unit.d, d.d), geom::FromI64(16))};
      } else {
        unit.n = geom::Mul(unit.n, geom::FromI64(static_cast<int64_t>(std::min(scene, 1e15)) / 64 + 1));
      }
      b.lo[i] = Plus(c, Neg(unit));
      b.hi[i] = Plus(c, unit);
      switch (style) {
        case 0: {   // everything
          Rat big{geom::FromI64(static_cast<int64_t>(std::min(scene, 1e15)) * 64 + 7), geom::FromI64(1)};
          b.lo[i] = Plus(c, Neg(big));
          b.hi[i] = Plus(c, big);
          break;
        }
        case 1: break;   // somewhere
        case 2: case 3:  // vertex coordinates
          if (cand[i].size() >= 2) { b.lo[i] = cand[i][rng.Below(cand[i].size())]; b.hi[i] = cand[i][rng.Below(cand[i].size())]; }
          break;
        case 4: case 5:  // walls on path planes
          if (!flat[i].empty()) {
            const Rat& r = flat[i][rng.Below(flat[i].size())];
            if (rng.Chance(1, 2)) { b.lo[i] = r; b.hi[i] = rng.Chance(1, 4) ? flat[i][rng.Below(flat[i].size())] : Plus(r, unit); }
            else { b.hi[i] = r; b.lo[i] = Plus(r, Neg(unit)); }
          }
          break;
        case 6:          // a corner at a vertex of the path planes
          if (have_corner) {
            Rat r = comp(corner, i);
            if (rng.Chance(1, 2)) { b.lo[i] = r; b.hi[i] = Plus(r, unit); } else { b.hi[i] = r; b.lo[i] = Plus(r, Neg(unit)); }
          }
          break;
        case 7: {        // around a vertex of the path planes, small
          if (have_corner) {
            Rat r = comp(corner, i);
            Rat small = unit;
            for (int k = static_cast<int>(rng.Below(8)); k > 0; --k) small = Half(small);
            b.lo[i] = Plus(r, Neg(small));
            b.hi[i] = Plus(r, small);
          }
          break;
        }
      }
      if (Cmp(b.lo[i], b.hi[i]) > 0) std::swap(b.lo[i], b.hi[i]);
      if (Cmp(b.lo[i], b.hi[i]) == 0) b.hi[i] = Plus(b.lo[i], unit);
    }
    b.Finish(rng.Pick({1, 1, 1, 3, 1 << 20}));
    return true;
  }

  template <typename It>
  void Run(It begin, It end, const AABB& aabb, bool walls, std::vector<CPoly>& connected, std::vector<MutableConvexPolygon<>>& plain) {
    const Tree& t = *tree;
    if (walls) connected = t.GetNodeBorder(begin, end, aabb);
    else plain = t.GetNodeBorderNoBoundWalls(begin, end, aabb);
  }

  void Query(const Op& op, bool faulty) {
    Fix();
    std::vector<bool> path;
    std::vector<geom::Plane> planes;
    Path(op.arg(0), op.arg(1), path, planes);
    Box b;
    if (!MakeBox(op, planes, b)) return;
    Poly poly(b);
    for (const geom::Plane& p : planes) if (!poly.f.empty()) poly.Clip(p);
    SIM_CHECK(poly.ok, "harness:clip", "the reference clipper failed");
    geom::Mesh want = poly.ToMesh();
    {
      std::string bad = geom::CheckFacets(want, true);
      SIM_CHECK(bad.empty() && geom::BoundaryHash(want) == 0, "harness:clip", "the reference clipper failed: %s", bad.c_str());
    }
    const bool walls = op.arg(5) & 1;
    uint64_t before = 0;
    TreeHash(tree->root, before);
    std::vector<CPoly> connected;
    std::vector<MutableConvexPolygon<>> plain;
    Trace("query depth=%zu box style=%lld walls=%d expect %zu facets", path.size(), static_cast<long long>(op.arg(3)), walls, want.size());
    bool failed = false;
    uint64_t fired = 0;
    {
      Sut s;
      AABB aabb(Vector3(ToBig(b.min[0]), ToBig(b.min[1]), ToBig(b.min[2])), Vector3(ToBig(b.max[0]), ToBig(b.max[1]), ToBig(b.max[2])), ToBig(b.den));
      if (rngbit(op, 0)) aabb = AABB(Vector3(ToBig(geom::Neg(b.min[0])), ToBig(geom::Neg(b.min[1])), ToBig(geom::Neg(b.min[2]))), Vector3(ToBig(geom::Neg(b.max[0])), ToBig(geom::Neg(b.max[1])), ToBig(geom::Neg(b.max[2]))), ToBig(geom::Neg(b.den)));
      bool flags[16];
      std::copy(path.begin(), path.end(), flags);
      std::vector<int> ints(path.begin(), path.end());
      if (faulty) ArmAllocFault(static_cast<int>(op.arg(7)), static_cast<uint64_t>(op.arg(8)), static_cast<uint64_t>(op.arg(9)));
      try {
        switch (static_cast<uint64_t>(op.arg(6)) % 3) {
          case 0: Run(path.begin(), path.end(), aabb, walls, connected, plain); break;
          case 1: Run(flags, flags + path.size(), aabb, walls, connected, plain); break;
          default: Run(ints.cbegin(), ints.cend(), aabb, walls, connected, plain); break;
        }
      } catch (const std::bad_alloc&) {
        failed = true;
      }
      if (faulty) fired = DisarmAllocFault();
    }
    SIM_CHECK(!failed || fired, "border:exception", "the query threw without a failed allocation");
    if (faulty && fired) { FaultFired("failed-allocation", fired); Probe(failed ? "query-failed" : "query-survived-faults"); }
    uint64_t after = 0;
    TreeHash(tree->root, after);
    SIM_CHECK(before == after, "border:changed", "the query changed the tree");
    ++queries;
    Signature(Mix(op.arg(0) ^ Mix(op.arg(2) * 8 + op.arg(3))));
    if (failed) {
      Event(Mix(fired));
      return;
    }
    geom::Mesh got;
    if (walls) {
      std::vector<CPoly> kept;
      LinkStats st = CheckLinks(connected, true, "border");
      SIM_CHECK(st.unpartnered == 0, "border:open", "%zu of %zu edges have no partner", st.unpartnered, st.edges);
      for (const CPoly& p : connected) if (p.vertex_count()) got.push_back(FromPolygon(p));
    } else {
      for (const auto& p : plain) {
        // A path plane that misses the box has no part in it.
        if (p.vertex_count()) got.push_back(FromPolygon(p));
        else SIM_CHECK(false, "border:empty-facet", "a facet without vertices was returned");
        std::string bad = CheckEdges(p);
        SIM_CHECK(bad.empty(), "border:edge", "%s", bad.c_str());
      }
    }
    {
      Sut s;
      std::vector<CPoly>().swap(connected);
      std::vector<MutableConvexPolygon<>>().swap(plain);
    }
    std::string bad = geom::CheckFacets(got, false);
    SIM_CHECK(bad.empty(), "border:facet", "%s", bad.c_str());
    // Facet by facet.
    std::map<uint64_t, geom::Mesh> expect, found;
    std::map<uint64_t, bool> on_path;
    for (const geom::Plane& p : planes) on_path[geom::PlaneKey(p)] = true;
    for (const geom::Facet& f : want) {
      uint64_t k = geom::PlaneKey(f.plane);
      if (walls || on_path.count(k)) expect[k].push_back(f);
    }
    for (const geom::Facet& f : got) found[geom::PlaneKey(f.plane)].push_back(f);
    if (walls || !want.empty()) {
      for (auto& f : found)
        SIM_CHECK(expect.count(f.first), "border:extra", "%zu facets on a plane that does not bound the cell in the box (%zu facets expected in all, path of %zu): %s", f.second.size(), want.size(), path.size(), geom::ToString(f.second[0]).c_str());
      for (auto& e : expect)
        SIM_CHECK(found.count(e.first), "border:missing", "the facet %s is missing from the border (path of %zu)", geom::ToString(e.second[0]).c_str(), path.size());
      for (auto& e : expect)
        SIM_CHECK(geom::ChainHash(e.second) == geom::ChainHash(found[e.first]), "border:differs", "%zu facets do not cover exactly %s; first: %s", found[e.first].size(), geom::ToString(e.second[0]).c_str(), geom::ToString(found[e.first][0]).c_str());
    } else {
      // The cell and the box have at most a wall in common.
      for (auto& f : found) {
        bool contact = false;
        for (int i = 0; i < 6; ++i) if (on_path.count(f.first) && geom::PlaneKey(Opposite(b.Wall(i))) == f.first) contact = true;
        SIM_CHECK(contact, "border:not-empty", "%zu facets were returned for a cell that does not overlap the box: %s", f.second.size(), geom::ToString(f.second[0]).c_str());
        Probe("contact-facets");
      }
    }
    if (!want.empty()) { ++nonempty; Probe(walls ? "overlapping-with-walls" : "overlapping-without-walls"); } else Probe("no-overlap");
    if (!want.empty() && !planes.empty() && expect.size() != 6) NonTrivial();
    uint64_t h = geom::ChainHash(got);
    State(h);
    Event(h);
  }
  static bool rngbit(const Op& op, int i) { return (op.arg(4) >> i) & 1; }

  void Traverse(const Op& op) {
    Fix();
    std::vector<int> ids = w.Complete(w.next);
    if (ids.empty()) return;
    Rng rng(static_cast<uint64_t>(op.arg(0)));
    Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 3));
    Sut s;
    AnyFilter f = e.Build();
    CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
    tree->Traverse(v, Kd(op.arg(2)));
    Signature(Mix(op.arg(0) ^ 0x7777));
  }
};

void Execute(const Plan& plan) {
  Session z;
  { Sut s; z.tree.reset(new Tree); }
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!z.w.streamed && z.w.Ids().empty()) z.w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid: if (z.w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2)))); break;
      case kOrder: if (!z.w.streamed) z.w.FixStream(op.arg(0), op.arg(1)); break;
      case kAdd:
        z.Fix();
        Deliver(z.w, *z.tree, static_cast<size_t>(std::max<int64_t>(0, op.arg(0))), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        Signature(Mix(100 + z.w.next));
        break;
      case kSplit:
        z.Fix();
        if (SplitLeaf(z.tree->root, z.w.Meshes(), op.arg(0), op.arg(1), op.arg(2), 12)) Signature(Mix(200 + op.arg(1)));
        break;
      case kTraverse: z.Traverse(op); break;
      case kQuery: z.Query(op, false); break;
      case kFaultyQuery: z.Query(op, true); break;
      case kReset: { z.w.next = 0; Sut s; z.tree->Reset(); break; }
    }
  }
  Sut s;
  z.tree.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C15", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut BSPTree::GetNodeBorder, GetNodeBorderNoBoundWalls, AABB, BSPNode, BSPTraverser, ConnectingVisitor, ConvexPolygon, BigInt",
  "allocator replaced by the simulated heap, failing the chosen allocations; oracle: exact convex clipping of the box by the planes of the path (arbitrary precision), link checks",
  "a run interleaves leaf splits, deliveries, traversals, resets and border queries (some with failing allocations) of random cells and boxes; distinct by seeds of the executed operations",
  400000000ull, true, 12000, 200000};
