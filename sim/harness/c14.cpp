// C14: traversals abandoned by exceptions thrown from callbacks, and edge
// connectors abandoned from the error report; afterwards the same tree, the
// same traverser and the same connector must give the same correct results.
// sim-mode: asan
#include <map>
#include <memory>

#include "connected.h"
#include "walnut/bsp_traverser.h"
#include "walnut/edge_line_connector.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kAdd, kSplit, kAbandon, kTraverse, kConnect, kConnectorAbandon, kConnector, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "add", "split", "abandon", "traverse", "connect", "connector_abandon", "connector"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, thorough ? 4 : 3, true);
  auto add = [&](int64_t n) { plan.Add(kAdd, {n, rng.Range(0, 3)}); };
  auto split = [&]() { plan.Add(kSplit, {rng.Range(0, 1 << 20), rng.Range(0, 1 << 30), rng.Range(0, 7)}); };
  // seed, depth, kd, visitor kind, callback mask, throw at, when
  auto abandon = [&]() {
    static const int64_t masks[] = {63, 63, 63, 1, 2, 4, 8, 16, 32, 32, 6, 14};
    int64_t at = rng.Chance(1, 4) ? rng.Range(1, 4) : rng.Chance(1, 2) ? rng.Range(1, 40) : rng.Range(1, 400);
    plan.Add(kAbandon, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5), rng.Range(0, 7), rng.Pick(masks), at, rng.Range(0, 1)});
  };
  auto check = [&]() {
    plan.Add(rng.Chance(1, 2) ? kTraverse : kConnect, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5), rng.Range(0, 3)});
  };
  auto cabandon = [&]() { plan.Add(kConnectorAbandon, {rng.Range(0, 1 << 30), rng.Range(0, 6), rng.Chance(1, 2) ? 1 : rng.Range(1, 12), rng.Range(0, 3)}); };
  int style = static_cast<int>(rng.Below(4));
  if (style != 0) add(100000);
  int n = static_cast<int>(rng.Range(1, thorough ? 24 : 10));
  for (int i = 0; i < n; ++i) {
    switch (rng.Below(style == 0 ? 8 : 6)) {
      case 0: case 1: case 2: abandon(); break;
      case 3: split(); break;
      case 4: check(); break;
      case 5: if (rng.Chance(1, 2)) { cabandon(); if (rng.Chance(1, 2)) plan.Add(kConnector, {rng.Range(0, 1 << 30)}); } break;
      default: add(rng.Range(1, 15));
    }
  }
  add(100000);
  if (rng.Chance(1, 2)) abandon();
  plan.Add(kTraverse, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5), rng.Range(0, 3)});
  plan.Add(kConnect, {rng.Range(0, 1 << 30), rng.Range(0, 3), rng.Range(0, 5), rng.Range(0, 3)});
  if (rng.Chance(1, 2)) { cabandon(); plan.Add(kConnector, {rng.Range(0, 1 << 30)}); }
}

size_t Kd(int64_t v) {
  static const size_t k[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
  return k[static_cast<uint64_t>(v) % 6];
}

// What the callbacks throw.
struct Abandoned {
  uint64_t token;
  std::string where;
};
// bits of the callback mask
enum { kIsInside = 1, kEnter = 2, kLeave = 4, kAccept = 8, kLeaf = 16, kError = 32 };
struct Bomb {
  int mask = 0;
  int64_t at = 0, seen = 0;
  bool after = false;
  uint64_t token = 0;
  int calls[6] = {};
  void Tick(int kind, bool is_after) {
    if (!mask || is_after != after || !(mask & kind)) return;
    if (++seen != at) return;
    Host h;
    static const char* const names[] = {"is-inside", "enter", "leave", "accept", "enter-leaf", "error-report"};
    int i = __builtin_ctz(static_cast<unsigned>(kind));
    FaultFired((std::string("callback-throws:") + names[i]).c_str());
    Trace("throw from %s (%s)", names[i], after ? "after it ran" : "before it runs");
    mask = 0;
    Sut s;
    throw Abandoned{token, names[i]};
  }
};

// Adds the bomb to a visitor.
template <typename Base>
class Throwing : public Base {
 public:
  using typename Base::PolygonRep;
  template <typename... A>
  explicit Throwing(Bomb& b, A&&... a) : Base(std::forward<A>(a)...), b_(b) {}
  std::pair<bool, bool> IsInside(const std::vector<BSPContentInfo>& info) override {
    b_.Tick(kIsInside, false);
    auto r = Base::IsInside(info);
    b_.Tick(kIsInside, true);
    return r;
  }
  void EnterInteriorNode(bool p, const HalfSpace3& s) override {
    b_.Tick(kEnter, false);
    Base::EnterInteriorNode(p, s);
    b_.Tick(kEnter, true);
  }
  void LeaveInteriorNode(bool p, const HalfSpace3& s) override {
    b_.Tick(kLeave, false);
    Base::LeaveInteriorNode(p, s);
    b_.Tick(kLeave, true);
  }
  void EnterLeafNode() override {
    b_.Tick(kLeaf, false);
    Base::EnterLeafNode();
    b_.Tick(kLeaf, true);
  }
  void Accept(PolygonRep&& p) override {
    b_.Tick(kAccept, false);
    Base::Accept(std::move(p));
    b_.Tick(kAccept, true);
  }
  using Base::Accept;

 private:
  Bomb& b_;
};

using CollTraverser = BSPTraverser<Node, Tree::OutputPolygon>;
using ConnTraverser = BSPTraverser<Node, CPoly>;
using LPoly = ConnectedPolygon<>;
using Edge = LPoly::EdgeRep;
using Connector = EdgeLineConnector<Edge>;

struct Session {
  World w;
  std::unique_ptr<Tree> tree;
  std::unique_ptr<Oracle> oracle;
  std::unique_ptr<CollTraverser> coll;
  std::unique_ptr<ConnTraverser> conn;
  std::unique_ptr<Connector> connector;
  int abandoned = 0, checked = 0;
  bool touching[kMaxIds] = {};   // has coincident sheets, which only a traversal cancels

  void Fix() {
    if (!w.streamed) w.FixStream(0, 0);
    if (!oracle) oracle.reset(new Oracle(w));
  }

  // Runs a traversal. kind bit 0: connecting, bit 1: persistent traverser.
  template <typename V> void Go(V& v, size_t kd, int kind, CollTraverser*) {
    if (kind & 2) coll->Run(tree->root, v, kd); else tree->Traverse(v, kd);
  }
  template <typename V> void Go(V& v, size_t kd, int kind, ConnTraverser*) {
    if (kind & 2) conn->Run(tree->root, v, kd); else tree->Traverse(v, kd);
  }

  void Abandon(const Op& op) {
    Fix();
    std::vector<int> ids = w.Ids();
    if (ids.empty()) return;
    Rng rng(static_cast<uint64_t>(op.arg(0)));
    int kind = static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 8);
    bool connecting = kind & 1;
    // Damaged surfaces (partial loads) are connected, too: they call the error
    // report.
    std::vector<int> done = w.Complete(w.next);
    if (!(kind & 4) || done.empty()) { if (!done.empty() && !(kind & 4)) ids = done; }
    Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4), connecting);
    size_t kd = Kd(op.arg(2));
    Bomb b;
    b.mask = static_cast<int>(op.arg(4) & 63);
    b.at = std::max<int64_t>(1, op.arg(5));
    b.after = op.arg(6) & 1;
    b.token = Mix(op.arg(0) ^ 0x5eed);
    bool armed = b.mask != 0;
    bool fired = false;
    Trace("abandon %s kind=%d mask=%d at=%lld", e.Str().c_str(), kind, b.mask, static_cast<long long>(b.at));
    uint64_t token = b.token;
    {
      Sut s;
      AnyFilter f = e.Build();
      try {
        if (connecting) {
          Throwing<ConnectingVisitor<AnyFilter>> v(b, f, [&](const std::string&) { b.Tick(kError, b.after); });
          Go(v, kd, kind, static_cast<ConnTraverser*>(nullptr));
        } else {
          Throwing<CollectorVisitor<Tree::OutputPolygon, AnyFilter>> v(b, f);
          Go(v, kd, kind, static_cast<CollTraverser*>(nullptr));
        }
      } catch (const Abandoned& a) {
        fired = true;
        Host h;
        SIM_CHECK(a.token == token, "abandon:exception", "another exception arrived");
      }
    }
    SIM_CHECK(!armed || fired == (b.mask == 0), "abandon:swallowed", "the exception thrown from a callback did not reach the caller");
    if (fired) { ++abandoned; Probe(connecting ? "abandoned-connecting" : "abandoned-collecting"); }
    Signature(Mix(op.arg(0) ^ Mix(op.arg(5) * 64 + op.arg(4))));
    Event(Mix(fired * 7 + b.seen));
  }

  void Traverse(const Op& op) {
    Fix();
    std::vector<int> ids = w.Complete(w.next);
    if (ids.empty()) return;
    Rng rng(static_cast<uint64_t>(op.arg(0)));
    Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
    geom::Mesh out;
    {
      Sut s;
      AnyFilter f = e.Build();
      CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
      Go(v, Kd(op.arg(2)), static_cast<int>(op.arg(3) & 2), static_cast<CollTraverser*>(nullptr));
      std::deque<HalfSpace3> planes;
      auto polys = v.TakePolygons(planes);
      Host h;
      out = FromPolygons(polys);
    }
    oracle->CheckSurface(out, e, Mix(op.arg(0)), 20, "abandon", "traversal");
    if (e.Monotone() && (op.arg(3) & 1)) {
      // The same traversal of a fresh tree.
      std::unique_ptr<Tree> t;
      geom::Mesh base;
      { Sut s; t.reset(new Tree); }
      for (int id = 0; id < kMaxIds; ++id) {
        geom::Mesh m = w.Delivered(id, w.next);
        if (m.empty()) continue;
        Sut s;
        std::vector<MutableConvexPolygon<>> v;
        for (const geom::Facet& f : m) v.push_back(ToPolygon(f));
        t->AddContents(static_cast<BSPContentId>(id), v);
      }
      Sut s;
      {
        AnyFilter f = e.Build();
        CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
        t->Traverse(v, Kd(op.arg(2)));
        Host h;
        base = FromPolygons(v.polygons());
      }
      t.reset();
      Host h;
      SIM_CHECK(geom::ChainHash(out) == geom::ChainHash(base), "abandon:differs", "%s: after %d abandoned traversals the surface (%zu facets) differs from that of a fresh tree (%zu facets)", e.Str().c_str(), abandoned, out.size(), base.size());
    }
    Done(op, geom::ChainHash(out));
  }

  void Connect(const Op& op) {
    Fix();
    std::vector<int> ids = w.Complete(w.next);
    if (ids.empty()) return;
    Rng rng(static_cast<uint64_t>(op.arg(0)));
    Expr e = RandomExpr(rng, ids, w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4), true);
    std::vector<CPoly> polys;
    int errors = 0;
    {
      Sut s;
      AnyFilter f = e.Build();
      ConnectingVisitor<AnyFilter> v(f, [&](const std::string&) { ++errors; });
      Go(v, Kd(op.arg(2)), static_cast<int>(op.arg(3) & 2), static_cast<ConnTraverser*>(nullptr));
      v.FilterEmptyPolygons();
      polys = v.TakePolygons();
    }
    SIM_CHECK(errors == 0, "abandon:error", "%s: %d errors reported while connecting closed solids", e.Str().c_str(), errors);
    LinkStats st = CheckLinks(polys, true, "abandon");
    SIM_CHECK(st.unpartnered == 0, "abandon:open", "%s: %zu of %zu edges have no partner", e.Str().c_str(), st.unpartnered, st.edges);
    CheckWedges(polys, "abandon");
    geom::Mesh out = FromPolygons(polys);
    oracle->CheckSurface(out, e, Mix(op.arg(0)), 12, "abandon", "connected traversal");
    Done(op, geom::ChainHash(out));
    Sut s;
    std::vector<CPoly>().swap(polys);
  }
  void Done(const Op& op, uint64_t h) {
    ++checked;
    if (abandoned) { NonTrivial(); Probe("checked-after-abandoning"); }
    Signature(Mix(op.arg(0) + 3));
    State(h);
    Event(h);
  }

  // ---------------------------------------------------------- the connector
  // The facets of one solid, and for every facet plane the edges in it.
  struct Bag {
    std::vector<LPoly> polys;
    struct Group { int drop; geom::Plane plane; uint64_t order; };
    std::vector<Group> groups;
  };
  bool MakeBag(uint64_t seed, Bag& bag) {
    std::vector<int> ids;
    for (int i : w.Ids()) if (!w.overlaps[i] && !touching[i] && w.mesh[i].size() <= 60) ids.push_back(i);
    if (ids.empty()) return false;
    Rng rng(seed);
    const geom::Mesh& in = w.mesh[ids[rng.Below(ids.size())]];
    {
      Sut s;
      std::vector<LPoly> v;
      for (const geom::Facet& f : in) v.emplace_back(ToPolygon(f));
      bag.polys = std::move(v);
    }
    const geom::Mesh m = FromPolygons(bag.polys);
    std::map<uint64_t, size_t> seen;
    for (size_t i = 0; i < m.size(); ++i) {
      if (!seen.emplace(geom::PlaneKeyU(m[i].plane), i).second) continue;
      Bag::Group g;
      const geom::Plane& p = m[i].plane;
      std::vector<int> drops;
      if (geom::SignOf(p.a)) drops.push_back(0);
      if (geom::SignOf(p.b)) drops.push_back(1);
      if (geom::SignOf(p.c)) drops.push_back(2);
      g.drop = drops[rng.Below(drops.size())];
      g.plane = p;
      g.order = rng.Next();
      bag.groups.push_back(std::move(g));
    }
    for (size_t k = bag.groups.size(); k > 1; --k) std::swap(bag.groups[k - 1], bag.groups[rng.Below(k)]);
    return true;
  }
  // The edges of the facets as they are now (connecting splits edges).
  static std::vector<std::pair<size_t, size_t>> EdgesIn(const Bag& bag, const Bag::Group& g) {
    std::vector<std::pair<size_t, size_t>> r;
    Rng rng(g.order);
    for (size_t k = 0; k < bag.polys.size(); ++k) {
      size_t n = bag.polys[k].vertex_count();
      std::vector<bool> on;
      for (size_t e = 0; e < n; ++e) on.push_back(geom::PlaneSide(g.plane, FromPoint(bag.polys[k].vertex(e))) == 0);
      for (size_t e = 0; e < n; ++e) if (on[e] && on[(e + 1) % n]) r.push_back({k, e});
    }
    for (size_t k = r.size(); k > 1; --k) std::swap(r[k - 1], r[rng.Below(k)]);
    return r;
  }
  void ConnectorAbandon(const Op& op) {
    Fix();
    Bag bag;
    if (!MakeBag(static_cast<uint64_t>(op.arg(0)), bag)) return;
    Rng rng(op.arg(0) ^ 0xab);
    Bomb b;
    b.mask = kError;
    b.at = std::max<int64_t>(1, op.arg(2));
    b.token = 77;
    int rate = 2 + static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 7);
    bool fired = false;
    const size_t n = bag.groups.size();
    for (size_t gi = 0; gi < n && gi < 8 && !fired; ++gi) {
      // Connecting an edge again while its former partner is not among the
      // edges is not a legal use, so every try gets fresh facets.
      if (gi) {
        { Sut s; std::vector<LPoly>().swap(bag.polys); }
        bag.groups.clear();
        MakeBag(static_cast<uint64_t>(op.arg(0)), bag);
      }
      const Bag::Group& g = bag.groups[gi];
      std::vector<std::pair<size_t, size_t>> edges = EdgesIn(bag, g);
      Sut s;
      std::vector<Deed<Edge>> deeds;
      for (auto& e : edges) {
        if (rng.Chance(1, rate)) continue;   // lost edges
        deeds.emplace_back(&bag.polys[e.first].edge(e.second));
      }
      try {
        connector->ConnectUnsorted(deeds.begin(), deeds.end(), g.drop, [&](const std::string&) { b.Tick(kError, false); });
      } catch (const Abandoned&) {
        fired = true;
      }
    }
    SIM_CHECK(fired == (b.mask == 0), "abandon:swallowed", "the exception thrown from the error report did not reach the caller");
    if (fired) { ++abandoned; Probe("abandoned-connector"); }
    Signature(Mix(op.arg(0) ^ 0x77));
    Event(b.seen);
    if (op.arg(3) & 1) { Finish(op, bag); Probe("reconnected-after-abandoning"); }
    Sut s;
    std::vector<LPoly>().swap(bag.polys);
  }
  void ConnectorRun(const Op& op) {
    Fix();
    Bag bag;
    if (!MakeBag(static_cast<uint64_t>(op.arg(0)), bag)) return;
    Finish(op, bag);
    Sut s;
    std::vector<LPoly>().swap(bag.polys);
  }
  void Finish(const Op& op, Bag& bag) {
    int errors = 0;
    std::string first;
    for (Bag::Group& g : bag.groups) {
      std::vector<std::pair<size_t, size_t>> edges = EdgesIn(bag, g);
      Sut s;
      std::vector<Deed<Edge>> deeds;
      for (auto& e : edges) deeds.emplace_back(&bag.polys[e.first].edge(e.second));
      connector->ConnectUnsorted(deeds.begin(), deeds.end(), g.drop, [&](const std::string& m) { Host h; if (!errors++) first = m; Trace("error %s", m.c_str()); });
    }
    SIM_CHECK(errors == 0, "abandon:error", "%d errors reported by the connector on a closed solid: %s", errors, first.c_str());
    LinkStats st = CheckLinks(bag.polys, true, "abandon");
    SIM_CHECK(st.unpartnered == 0, "abandon:open", "the connector left %zu of %zu edges of a closed solid without partner", st.unpartnered, st.edges);
    CheckWedges(bag.polys, "abandon");
    Done(op, Mix(st.edges));
  }
};

void Execute(const Plan& plan) {
  Session z;
  { Sut s; z.tree.reset(new Tree); z.coll.reset(new CollTraverser); z.conn.reset(new ConnTraverser); z.connector.reset(new Connector); }
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!z.w.streamed && z.w.Ids().empty()) z.w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid:
        if (z.w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) {
          Signature(Mix(op.arg(1) ^ Mix(op.arg(2))));
          if (static_cast<uint64_t>(op.arg(1)) % geom::kSolidKinds == 11) z.touching[static_cast<uint64_t>(op.arg(0)) % kMaxIds] = true;
        }
        break;
      case kOrder: if (!z.w.streamed) z.w.FixStream(op.arg(0), op.arg(1)); break;
      case kAdd:
        z.Fix();
        Deliver(z.w, *z.tree, static_cast<size_t>(std::max<int64_t>(0, op.arg(0))), static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4));
        Signature(Mix(100 + z.w.next));
        break;
      case kSplit:
        z.Fix();
        if (SplitLeaf(z.tree->root, z.w.Meshes(), op.arg(0), op.arg(1), op.arg(2))) Signature(Mix(200 + op.arg(1)));
        break;
      case kAbandon: z.Abandon(op); break;
      case kTraverse: z.Traverse(op); break;
      case kConnect: z.Connect(op); break;
      case kConnectorAbandon: z.ConnectorAbandon(op); break;
      case kConnector: z.ConnectorRun(op); break;
    }
  }
  Sut s;
  z.tree.reset();
  z.coll.reset();
  z.conn.reset();
  z.connector.reset();
}

}  // namespace

const sim::Harness sim::harness = {
  "C14", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut BSPTree, BSPTraverser, PlanePartitioner, CollectorVisitor, ConnectingVisitor, EdgeLineConnector, Deed, ConvexPolygon, BigInt",
  "allocator replaced by the simulated heap; callers' visitors and error reports are simulated and throw at the chosen callback; oracle: exact winding numbers, link and wedge checks, fresh trees",
  "a run interleaves deliveries, leaf splits, abandoned traversals (collecting or connecting, through the tree or one long-lived traverser, thrown before or after callback k of a chosen kind) and abandoned edge connections with complete ones; distinct by seeds of the executed operations",
  400000000ull, true, 12000, 200000};
