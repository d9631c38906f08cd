// C11: values redirected to one another stay one value, and the vertex mapper
// gives one value to all floating-point representations of a vertex whatever
// the visiting order. Reference model: union-find.
// sim-mode: asan
#include <algorithm>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <vector>

#include "fan.h"
#include "walnut/connected_polygon.h"
#include "walnut/edge_line_connector.h"
#include "walnut/redirectable_value.h"
#include "walnut/vertex_double_point3_mapper.h"

using namespace sim;
using walnut::BigInt;
using walnut::ConnectedPolygon;
using walnut::Deed;
using walnut::DoublePoint3;
using walnut::EdgeLineConnector;
using walnut::HalfSpace3;
using walnut::HomoPoint3;
using walnut::RedirectableValue;

namespace {

constexpr int kPool = 12;

int64_t g_live = 0;
std::set<int64_t>* g_alive = nullptr;
int64_t g_next = 0;

struct Val {
  int64_t id;
  int64_t data = 0;
  int64_t magic = 0x1234567;
  Val() { Born(); }
  explicit Val(int64_t d) : data(d) { Born(); }
  Val(const Val& o) : data(o.data) { Born(); }
  Val& operator=(const Val& o) { data = o.data; return *this; }
  ~Val() {
    Host h;
    SIM_CHECK(magic == 0x1234567 && g_alive->erase(id), "redirect:destroyed-twice",
              "value %lld destroyed although it is not alive", (long long)id);
    magic = 0;
    --g_live;
  }
 private:
  void Born() { Host h; id = ++g_next; g_alive->insert(id); ++g_live; }
};
using RV = RedirectableValue<Val>;

enum { kNew = kOpFirstHarness, kCopy, kRedirect, kSet, kRead, kRedirectCopyOf, kMapPut, kMapMerge, kDropCopy, kMapErase, kTempCopy, kFan, kVisit, kEnd };
const char* const kNames[] = {"new", "copy", "redirect", "set", "read", "redirect_group", "map_put", "map_merge", "drop_copy", "map_erase", "redirect_temporary", "fan", "visit"};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  bool fan = rng.Chance(1, 2);
  if (fan) {
    int fans = static_cast<int>(rng.Range(1, 3));
    for (int f = 0; f < fans; ++f) {
      int n = static_cast<int>(rng.Range(4, 12));
      plan.Add(kFan, {n, rng.Range(0, 1 << 30), rng.Range(1, 8)});
      std::vector<int> order;
      for (int i = 0; i < n * 3; ++i) order.push_back(i);
      for (int i = n * 3 - 1; i > 0; --i) std::swap(order[i], order[rng.Below(i + 1)]);
      for (int e : order) {
        plan.Add(kVisit, {e});
        if (rng.Chance(1, 6)) plan.Add(kVisit, {rng.Range(0, n * 3 - 1)});
        if (rng.Chance(1, 12)) plan.Add(kVisit, {rng.Range(0, n * 3 - 1), rng.Range(1, 3)});
      }
    }
  } else {
    int n = static_cast<int>(rng.Range(6, thorough ? 200 : 60));
    for (int i = 0; i < n; ++i) {
      int code = rng.Pick({(int)kNew, (int)kCopy, (int)kRedirect, (int)kRedirect, (int)kRedirect, (int)kSet,
                           (int)kRead, (int)kRedirectCopyOf, (int)kMapPut, (int)kMapMerge, (int)kMapMerge, (int)kCopy, (int)kDropCopy, (int)kMapErase, (int)kTempCopy});
      if (i < 5) code = kNew;
      int64_t fault = rng.Chance(1, 15) ? rng.Range(1, 2) : 0;
      plan.Add(code, {i < 5 ? i : rng.Range(0, kPool - 1), rng.Range(0, kPool - 1), rng.Range(0, 1 << 16), fault});
    }
  }
}

struct Uf {
  std::map<int64_t, int64_t> parent;
  int64_t Find(int64_t x) { while (parent[x] != x) x = parent[x]; return x; }
  void Merge(int64_t a, int64_t b) { parent[Find(a)] = Find(b); }
};

// ------------------------------------------------------------ redirect pool
struct PoolWorld {
  std::vector<std::unique_ptr<RV>> entries;  // owned until the end
  std::unordered_map<int, RV> map;
  int slot[kPool];
  std::vector<int64_t> node;   // model node per entry
  std::vector<bool> copy;      // the entry never held a value of its own
  std::map<int, int64_t> map_node;
  Uf uf;
  std::map<int64_t, int64_t> data;  // class root -> data (only valid at root)
  int64_t next = 0;
  PoolWorld() { for (int& s : slot) s = -1; }
  ~PoolWorld() { Sut s; map.clear(); for (auto& e : entries) e.reset(); }
  int64_t Fresh(int64_t d) { int64_t n = ++next; uf.parent[n] = n; data[n] = d; return n; }
  // Mutable accesses shorten the chains of redirects, so most checks only look.
  void Check(const char* after, uint64_t style) {
    const bool shorten = style % 4 == 0;
    // Equality operators agree with the groups.
    std::vector<std::pair<const RV*, int64_t>> all;
    for (size_t i = 0; i < entries.size(); ++i) if (entries[i]) all.push_back({entries[i].get(), node[i]});
    for (auto& p : map) all.push_back({&p.second, map_node[p.first]});
    Rng rng(style);
    for (int k = 0; k < 24 && all.size() > 1; ++k) {
      const auto& a = all[k + 1 < static_cast<int>(all.size()) ? static_cast<size_t>(k) : rng.Below(all.size())];
      const auto& b = all[k + 1 < static_cast<int>(all.size()) ? static_cast<size_t>(k) + 1 : rng.Below(all.size())];
      bool same = uf.Find(a.second) == uf.Find(b.second);
      bool eq, ne;
      { Sut s; eq = *a.first == *b.first; ne = *a.first != *b.first; }
      SIM_CHECK(eq == same && ne == !same, "redirect:equality", "after %s: == gives %d and != gives %d for %s entries", after, eq, ne, same ? "related" : "unrelated");
    }
    size_t primaries = 0;
    // One value per class, live, and distinct between classes.
    std::map<int64_t, const Val*> seen;
    std::map<const Val*, int64_t> owner;
    auto one = [&](RV& rv, int64_t n, const char* what, int i) {
      int64_t root = uf.Find(n);
      const Val* v;
      const Val* cv;
      bool prim;
      { Sut s; const RV& crv = rv; cv = &*crv; v = shorten ? &*rv : cv; prim = rv.IsPrimary(); }
      primaries += prim;
      SIM_CHECK(v == cv, "redirect:const-differs", "after %s: %s %d const and mutable access differ", after, what, i);
      SIM_CHECK(v->magic == 0x1234567 && g_alive->count(v->id), "redirect:dead-value", "after %s: %s %d dereferences to a dead value", after, what, i);
      auto it = seen.emplace(root, v);
      SIM_CHECK(it.first->second == v, "redirect:split", "after %s: %s %d was redirected together with another entry but has its own value", after, what, i);
      auto ot = owner.emplace(v, root);
      SIM_CHECK(ot.first->second == root, "redirect:mixed", "after %s: %s %d shares a value with an unrelated entry", after, what, i);
      SIM_CHECK(data[root] < 0 || v->data == data[root], "redirect:lost-write", "after %s: %s %d holds %lld, last written %lld", after, what, i, (long long)v->data, (long long)data[root]);
    };
    for (size_t i = 0; i < entries.size(); ++i)
      if (entries[i]) one(*entries[i], node[i], "entry", static_cast<int>(i));
    for (auto& p : map) one(p.second, map_node[p.first], "map entry", p.first);
    SIM_CHECK(g_live == static_cast<int64_t>(seen.size()), "redirect:value-count",
              "after %s: %lld values alive for %zu groups", after, (long long)g_live, seen.size());
    SIM_CHECK(primaries == seen.size(), "redirect:primaries", "after %s: %zu entries claim to hold the value of one of %zu groups", after, primaries, seen.size());
  }
};

void MergeModel(PoolWorld& w, int64_t from, int64_t to) {
  int64_t ra = w.uf.Find(from), rb = w.uf.Find(to);
  if (ra != rb) {
    w.uf.parent[ra] = rb;  // the value at `to` survives
  }
}

void Execute(const Plan& plan) {
  std::set<int64_t> alive;
  g_alive = &alive;
  g_live = 0;
  g_next = 0;
  int executed = 0;
  {
    PoolWorld w;
    std::unique_ptr<Fan> fan;
    auto factory = [](const DoublePoint3& p) -> Val { return Val(1); };
    int merges = 0;
    auto merger = [&merges](RV& a, RV& b) { ++merges; a.Redirect(b); };
    using Mapper = walnut::VertexDoublePoint3Mapper<decltype(factory), decltype(merger)>;
    std::unique_ptr<Mapper> mapper;
    std::vector<bool> visited;
    auto finish_fan = [&]() {
      if (!fan) return;
      bool all = true;
      for (int i = 0; i < fan->n; ++i) all = all && visited[i * 3];
      if (all) {
        // Every edge leaving the centre has been mapped: one value.
        const Val* first = nullptr;
        for (int i = 0; i < fan->n; ++i) {
          DoublePoint3 p;
          const Val* v = nullptr;
          {
            Sut s;
            p = fan->centers[i].GetDoublePoint3();
            auto it = mapper->map.find(p);
            if (it != mapper->map.end()) v = &*it->second;
          }
          SIM_CHECK(v != nullptr, "mapper:missing", "representation %d of the centre is not in the map", i);
          if (i == 0) first = v;
          SIM_CHECK(v == first, "mapper:split-vertex", "representations of one vertex (triangles 0 and %d of %d) have different exported points", i, fan->n);
          SIM_CHECK(v->magic == 0x1234567, "redirect:dead-value", "triangle %d", i);
        }
        // The ring vertices keep their own values.
        std::set<const Val*> ring;
        int mapped = 0;
        for (int i = 0; i < fan->n; ++i)
          for (int k = 1; k < 3; ++k) {
            Sut s;
            auto it = mapper->map.find(fan->tris[i].vertex(k).GetDoublePoint3());
            Host h;
            if (it == mapper->map.end()) continue;
            ++mapped;
            const Val* v;
            { Sut s2; v = &*it->second; }
            SIM_CHECK(v != first, "mapper:merged-unrelated", "a ring vertex shares the centre's exported point");
            ring.insert(v);
          }
        Probe("fan-complete");
        if (merges) Probe("fan-with-merges");
      }
      Sut s;
      mapper.reset();
      fan.reset();
    };
    for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
      const Op& op = plan.ops[oi];
      if (op.code < kOpFirstHarness) continue;
      CurrentOp(static_cast<int>(oi));
      const char* name = kNames[op.code - kOpFirstHarness];
      if (op.code == kFan) {
        finish_fan();
        int n = 4 + static_cast<int>(static_cast<uint64_t>(op.arg(0)) % 9);
        if (op.arg(0) >= 4 && op.arg(0) <= 12) n = static_cast<int>(op.arg(0));
        merges = 0;
        visited.assign(n * 3, false);
        Sut s;
        fan.reset(new Fan);
        BuildFan(*fan, n, op.arg(1), 1 + static_cast<int>(static_cast<uint64_t>(op.arg(2)) % 8));
        mapper.reset(new Mapper(factory, merger));
        ++executed;
        continue;
      }
      if (op.code == kVisit) {
        if (!fan) continue;
        int e = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % (fan->n * 3));
        int fault = static_cast<int>(static_cast<uint64_t>(op.arg(1)) % 4);
        if (fault) ArmAllocFault(kAfNth, fault, 1);
        bool threw = false;
        try {
          Sut s;
          auto& r = mapper->Map(fan->tris[e / 3].edge(e % 3));
          SIM_CHECK(r.first == fan->tris[e / 3].edge(e % 3).vertex().GetDoublePoint3(), "mapper:wrong-key", "edge %d", e);
        } catch (const std::bad_alloc&) { threw = true; }
        uint64_t fired = DisarmAllocFault();
        if (fired) FaultFired("alloc:nth", fired);
        if (!threw) visited[e] = true;
        ++executed;
        Signature(Mix(e) ^ merges);
        Event(e * 2 + threw);
        continue;
      }
      int si = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % kPool), sj = static_cast<int>(static_cast<uint64_t>(op.arg(1)) % kPool);
      int64_t c = op.arg(2);
      int fault = static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 3);
      if (fault) ArmAllocFault(kAfNth, fault, 1);
      bool did = true;
      int64_t key = c % 16;
      try {
        Sut s;
        switch (op.code) {
          case kNew: {
            std::unique_ptr<RV> n = c & 1 ? std::make_unique<RV>() : std::make_unique<RV>(Val(c));
            Host h;
            w.entries.push_back(std::move(n));
            w.node.push_back(w.Fresh(c & 1 ? 0 : c));
            w.copy.push_back(false);
            w.slot[si] = static_cast<int>(w.entries.size()) - 1;
            break;
          }
          case kCopy: {
            if (w.slot[sj] < 0) { did = false; break; }
            std::unique_ptr<RV> n = c & 1 ? std::make_unique<RV>(*w.entries[w.slot[sj]])
                                         : std::make_unique<RV>(static_cast<const RV&>(*w.entries[w.slot[sj]]));
            Host h;
            w.entries.push_back(std::move(n));
            w.node.push_back(w.node[w.slot[sj]]);
            w.copy.push_back(true);
            w.slot[si] = static_cast<int>(w.entries.size()) - 1;
            break;
          }
          case kRedirect:
            if (w.slot[si] < 0 || w.slot[sj] < 0) { did = false; break; }
            w.entries[w.slot[si]]->Redirect(*w.entries[w.slot[sj]]);
            { Host h; MergeModel(w, w.node[w.slot[si]], w.node[w.slot[sj]]); }
            break;
          case kRedirectCopyOf: {
            // Redirect every slot of a range to one entry.
            if (w.slot[sj] < 0) { did = false; break; }
            for (int k = 0; k < 3; ++k) {
              int q = (si + k) % kPool;
              if (w.slot[q] < 0) continue;
              w.entries[w.slot[q]]->Redirect(*w.entries[w.slot[sj]]);
              Host h; MergeModel(w, w.node[w.slot[q]], w.node[w.slot[sj]]);
            }
            break;
          }
          case kDropCopy: {
            // No other entry may depend on a copy, only on a value's owner.
            int e = w.slot[si];
            if (e < 0 || !w.copy[e]) { did = false; break; }
            w.entries[e].reset();
            Host h;
            for (int& q : w.slot) if (q == e) q = -1;
            Probe("dropped-copy");
            break;
          }
          case kMapErase: {
            if (w.map.erase(static_cast<int>(key)) == 0) { did = false; break; }
            Host h;
            w.map_node.erase(static_cast<int>(key));
            break;
          }
          case kTempCopy: {
            if (w.slot[si] < 0 || w.slot[sj] < 0) { did = false; break; }
            RV& from = *w.entries[w.slot[si]];
            RV& to = *w.entries[w.slot[sj]];
            if (c & 1) { RV t(from); t.Redirect(to); }
            else if (c & 2) { RV t(to); from.Redirect(t); }
            else { RV t(from), t2(t), t3(to), t4(t3); t2.Redirect(t4); }
            Host h;
            MergeModel(w, w.node[w.slot[si]], w.node[w.slot[sj]]);
            break;
          }
          case kSet: {
            if (w.slot[si] < 0) { did = false; break; }
            (*w.entries[w.slot[si]])->data = c;
            Host h;
            w.data[w.uf.Find(w.node[w.slot[si]])] = c;
            break;
          }
          case kRead: {
            if (w.slot[si] < 0) { did = false; break; }
            const RV& r = *w.entries[w.slot[si]];
            if (r->magic != 0x1234567) { Host h; Violation("redirect:dead-value", "read"); }
            break;
          }
          case kMapPut: {
            if (w.slot[sj] < 0) { did = false; break; }
            auto r = w.map.emplace(static_cast<int>(key), *w.entries[w.slot[sj]]);
            Host h;
            if (r.second) w.map_node[static_cast<int>(key)] = w.node[w.slot[sj]];
            break;
          }
          case kMapMerge: {
            auto it = w.map.find(static_cast<int>(key));
            if (it == w.map.end() || w.slot[sj] < 0) { did = false; break; }
            if (c & 256) { w.entries[w.slot[sj]]->Redirect(it->second); Host h; MergeModel(w, w.node[w.slot[sj]], w.map_node[static_cast<int>(key)]); }
            else { it->second.Redirect(*w.entries[w.slot[sj]]); Host h; MergeModel(w, w.map_node[static_cast<int>(key)], w.node[w.slot[sj]]); }
            break;
          }
        }
      } catch (const std::bad_alloc&) { did = true; }
      uint64_t fired = DisarmAllocFault();
      if (fired) FaultFired("alloc:nth", fired);
      if (!did) continue;
      ++executed;
      w.Check(name, Mix(op.arg(2) ^ Mix(oi)));
      Signature(Mix(op.code * 1024 + si * 32 + sj));
      uint64_t h = 0;
      for (size_t i = 0; i < w.node.size(); ++i) h = Mix(h ^ w.uf.Find(w.node[i]));
      State(h);
      Event(h);
    }
    finish_fan();
  }
  SIM_CHECK(g_live == 0, "redirect:value-leak", "%lld values were never destroyed", (long long)g_live);
  if (executed >= 4) NonTrivial();
  { std::set<int64_t>().swap(alive); }
}

}  // namespace

const sim::Harness sim::harness = {
  "C11", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut RedirectableValue, VertexDoublePoint3Mapper, EdgeLineConnector, HomoPoint3::GetDoublePoint3",
  "allocator replaced by the simulated heap; oracle: union-find over entries and vertices",
  "a run is either a seeded history of 6-60 create/copy/redirect/drop operations (also through temporary copies) with failing allocations, or 1-3 closed fans of 4-12 triangles whose centre vertex has up to 8 floating-point representations, mapped in a seeded visiting order; distinct by operation/visit sequence",
  200000000ull, true, 80000, 1000000};
