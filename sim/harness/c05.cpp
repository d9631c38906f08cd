// C05: a failed allocation anywhere in the pipeline surfaces as bad_alloc,
// leaks nothing, leaves inputs alone, and a retry from scratch is correct.
// sim-mode: asan
#include <memory>
#include <new>

#include "connected.h"

using namespace sim;
using namespace walnut;

namespace {

enum { kScene = kOpFirstHarness, kSolid, kOrder, kJob, kFault, kEnd };
const char* const kNames[] = {"scene", "solid", "order", "job", "fault"};

// job: load api, splits (count, seed), expression seed, depth, kd, output mode
// (0 collector, 1 connector, 2 connector with the output copied and moved on,
// 3 border query of a cell), delivery chunk
void AddJob(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kJob, {rng.Range(0, 4), rng.Chance(1, 2) ? 0 : rng.Range(1, thorough ? 8 : 4), rng.Range(0, 1 << 30), rng.Range(0, 1 << 30),
                  rng.Range(0, 2), rng.Range(0, 5), rng.Range(0, 4), rng.Range(1, 60)});
}
void AddFault(Rng& rng, Plan& plan) {
  int mode = static_cast<int>(rng.Pick({kAfNth, kAfNth, kAfNth, kAfWindow, kAfFrom, kAfFrom, kAfRandom, kAfSize}));
  // where: position in 1/2^20 of the allocations of the fault-free job, or of
  // one of its phases (phase 0 = whole job).
  plan.Add(kFault, {mode, rng.Range(0, (1 << 20) - 1), rng.Range(1, 40), rng.Range(0, 4), rng.Range(0, 3)});
}

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  GenerateWorld(rng, plan, kScene, kSolid, kOrder, 3, true);
  AddJob(rng, plan, thorough);
  int n = static_cast<int>(rng.Range(1, thorough ? 16 : 8));
  for (int i = 0; i < n; ++i) {
    AddFault(rng, plan);
    if (rng.Chance(1, 6)) AddJob(rng, plan, thorough);
  }
}

size_t Kd(int64_t v) {
  static const size_t k[] = {6, static_cast<size_t>(-1), 0, 1, 3, 20};
  return k[static_cast<uint64_t>(v) % 6];
}
const char* const kPhase[] = {"whole", "load", "split", "traverse", "export"};

using Polygon = MutableConvexPolygon<>;

struct Job {
  Op op;
  Expr e;
  uint64_t allocs[5] = {};   // per phase, [0] in total
  uint64_t start[5] = {};
  uint64_t hash = 0;
  bool ok = false;
};

struct Session {
  World w;
  std::vector<Polygon> inputs[kMaxIds];
  geom::Mesh input_copy[kMaxIds];
  std::vector<bool> exported;

  // Runs the job. `arm` is called at the start of every phase (1-4).
  template <typename Arm>
  uint64_t Run(Job& j, Tree& tree, Arm arm) {
    const Op& op = j.op;
    // ---- load
    arm(1);
    {
      int api = static_cast<int>(static_cast<uint64_t>(op.arg(0)) % 5);
      if (api == 4) {
        for (int i = 0; i < kMaxIds; ++i) {
          Sut s;
          if (!inputs[i].empty()) tree.AddContents(static_cast<BSPContentId>(i), inputs[i]);
        }
      } else {
        size_t next = 0;
        for (const World::Item& it : w.stream) {
          Sut s;
          if (api & 1) {
            Polygon copy(inputs[it.id][it.facet]);
            tree.AddContent(static_cast<BSPContentId>(it.id), std::move(copy));
          } else {
            tree.AddContent(static_cast<BSPContentId>(it.id), inputs[it.id][it.facet]);
          }
          if (api >= 2 && ++next == static_cast<size_t>(op.arg(7))) SplitLeaf(tree.root, w.Meshes(), op.arg(2), op.arg(3), op.arg(7));
        }
      }
    }
    // ---- split
    arm(2);
    for (int64_t i = 0; i < std::min<int64_t>(op.arg(1), 16); ++i) {
      SplitLeaf(tree.root, w.Meshes(), static_cast<int64_t>(Mix(static_cast<uint64_t>(op.arg(2) + i)) >> 2), static_cast<int64_t>(Mix(static_cast<uint64_t>(op.arg(3) + i)) >> 2), op.arg(2) + i);
    }
    // ---- traverse
    arm(3);
    int mode = static_cast<int>(static_cast<uint64_t>(op.arg(6)) % 5);
    uint64_t hash = 0;
    Sut s;
    AnyFilter f = [&] { Host h; return j.e.Build(); }();
    if (mode <= 1) {
      CollectorVisitor<Tree::OutputPolygon, AnyFilter> v(f);
      tree.Traverse(v, Kd(op.arg(5)));
      arm(4);
      std::deque<HalfSpace3> planes;
      std::vector<Tree::OutputPolygon> out = v.TakePolygons(planes);
      if (mode == 1) {
        // Feed the result into a second tree.
        Tree second;
        second.AddContents(0, out);
        // The result winds 0 and 1 times, or -1 and 0 times if it contains
        // the points at infinity.
        AnyFilter f2 = [&] { Host h; Expr one; one.kind = j.e.Eval(std::vector<int>(kMaxIds, 0)) ? Expr::kInv : Expr::kPoly; return one.Build(); }();
        CollectorVisitor<Tree::OutputPolygon, AnyFilter> v2(f2);
        second.Traverse(v2, Kd(op.arg(5)));
        std::vector<Polygon> flat(v2.polygons().begin(), v2.polygons().end());
        Host h;
        DisarmAllocFaultKeep();
        // Only monotone results are closed oriented surfaces.
        hash = Finish(j, FromPolygons(out));
        if (j.e.Monotone()) SIM_CHECK(geom::ChainHash(FromPolygons(flat)) == hash, "alloc:second-tree", "%s: the surface changed when it was passed through a second tree", j.e.Str().c_str());
      } else {
        std::vector<Polygon> flat(out.begin(), out.end());
        Host h;
        DisarmAllocFaultKeep();
        hash = Finish(j, FromPolygons(flat));
      }
    } else {
      int errors = 0;
      std::function<void(const std::string&)> log = [&errors](const std::string&) { ++errors; };
      ConnectingVisitor<AnyFilter> v(f, log);
      tree.Traverse(v, Kd(op.arg(5)));
      arm(4);
      v.FilterEmptyPolygons();
      std::vector<CPoly> out = v.TakePolygons();
      std::vector<Polygon> copy;
      if (mode == 3) {
        copy.assign(out.begin(), out.end());
        for (Polygon& p : copy) p.SortVertices();
      }
      if (mode == 4) {
        std::vector<CPoly> more;
        for (CPoly& p : out) more.push_back(std::move(p));
        out = std::move(more);
      }
      Host h;
      DisarmAllocFaultKeep();
      LinkStats st = CheckLinks(out, true, "alloc");
      if (j.e.Monotone()) SIM_CHECK(st.unpartnered == 0 && errors == 0, "alloc:open", "%s: %zu edges without partner, %d errors", j.e.Str().c_str(), st.unpartnered, errors);
      hash = Finish(j, mode == 3 ? FromPolygons(copy) : FromPolygons(out));
    }
    return hash;
  }

  uint64_t fired = 0;
  bool armed = false;
  void DisarmAllocFaultKeep() {
    if (armed) { fired += DisarmAllocFault(); armed = false; }
  }
  uint64_t Finish(Job& j, const geom::Mesh& m) {
    if (!j.ok) {
      // The first, fault-free run: compared with the exact answer.
      Oracle o(w);
      o.CheckSurface(m, j.e, Mix(static_cast<uint64_t>(j.op.arg(3))), 24, "alloc", "fault-free job");
    }
    return geom::ChainHash(m);
  }
  void CheckInputs() {
    for (int i = 0; i < kMaxIds; ++i) {
      geom::Mesh m = FromPolygons(inputs[i]);
      SIM_CHECK(m.size() == input_copy[i].size(), "alloc:input", "input mesh %d has %zu facets, had %zu", i, m.size(), input_copy[i].size());
      for (size_t k = 0; k < m.size(); ++k) {
        bool same = m[k].pts.size() == input_copy[i][k].pts.size() && m[k].drop == input_copy[i][k].drop;
        auto eq = [](const geom::Num& a, const geom::Num& b) { return geom::Equal(a, b); };
        const geom::Plane &p = m[k].plane, &q = input_copy[i][k].plane;
        same = same && eq(p.a, q.a) && eq(p.b, q.b) && eq(p.c, q.c) && eq(p.d, q.d);
        for (size_t n = 0; same && n < m[k].pts.size(); ++n) {
          const geom::Pt &a = m[k].pts[n], &b = input_copy[i][k].pts[n];
          same = eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z) && eq(a.w, b.w);
        }
        SIM_CHECK(same, "alloc:input", "facet %zu of input mesh %d was changed", k, i);
      }
    }
  }
};

void Execute(const Plan& plan) {
  Session ss;
  World& w = ss.w;
  Job job;
  bool have = false, inputs = false;
  std::unique_ptr<Tree> tree;
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    switch (op.code) {
      case kScene: if (!w.streamed && w.Ids().empty()) w.SetScene(op.arg(0), op.arg(1)); break;
      case kSolid:
        if (w.AddSolid(op.arg(0), op.arg(1), op.arg(2), op.arg(3), op.arg(4))) Signature(Mix(op.arg(1) ^ Mix(op.arg(2))));
        break;
      case kOrder: if (!w.streamed) w.FixStream(op.arg(0), op.arg(1)); Signature(Mix(op.arg(0) + op.arg(1))); break;
      case kJob: {
        if (!w.streamed) w.FixStream(0, 0);
        if (w.stream.empty()) break;
        if (!inputs) {
          inputs = true;
          for (int i = 0; i < kMaxIds; ++i) {
            { Sut s; for (const geom::Facet& f : w.mesh[i]) ss.inputs[i].push_back(ToPolygon(f)); }
            ss.input_copy[i] = FromPolygons(ss.inputs[i]);
          }
        }
        Signature(Mix(static_cast<uint64_t>(op.arg(3))) ^ op.arg(6));
        Rng rng(static_cast<uint64_t>(op.arg(3)));
        job = Job();
        job.op = op;
        job.e = RandomExpr(rng, w.Ids(), w.Inverted(), static_cast<int>(static_cast<uint64_t>(op.arg(4)) % 3), static_cast<uint64_t>(op.arg(6)) % 5 >= 1);
        Trace("job %s", job.e.Str().c_str());
        { Sut s; tree.reset(new Tree); }
        uint64_t begin = SutAllocCount(), last = begin;
        int phase = 0;
        uint64_t hash = ss.Run(job, *tree, [&](int p) {
          uint64_t now = SutAllocCount();
          if (phase) job.allocs[phase] = now - last;
          phase = p;
          last = now;
          job.start[p] = now - begin;
        });
        job.allocs[phase] = SutAllocCount() - last;
        job.allocs[0] = SutAllocCount() - begin;
        job.hash = hash;
        job.ok = true;
        have = true;
        Event(hash);
        { Sut s; tree.reset(); }
        break;
      }
      case kFault: {
        if (!have) break;
        int phase = static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 5);
        if (job.allocs[phase] == 0) phase = 0;
        int mode = static_cast<int>(op.arg(0));
        if (mode < kAfNth || mode > kAfSize) mode = kAfNth;
        uint64_t n = 1 + ((static_cast<uint64_t>(op.arg(1)) & ((1 << 20) - 1)) * job.allocs[phase] >> 20);
        uint64_t k = static_cast<uint64_t>(std::max<int64_t>(1, op.arg(2)));
        if (mode == kAfRandom) { k = static_cast<uint64_t>(op.arg(1)); n = std::max<uint64_t>(2, job.allocs[phase] / (1 + static_cast<uint64_t>(op.arg(2)) % 8)); }
        if (mode == kAfSize) n = 64ull << (static_cast<uint64_t>(op.arg(2)) % 8);
        Signature(Mix(n) ^ Mix(static_cast<uint64_t>(mode * 8 + phase)));
        // The tree: a fresh one, or the one of the last failed job after Reset.
        bool fresh = !tree || static_cast<uint64_t>(op.arg(4)) % 4 == 0;
        if (fresh) { Sut s; tree.reset(); tree.reset(new Tree); } else { Sut s; tree->Reset(); }
        ss.fired = 0;
        ss.armed = false;
        bool threw = false;
        int in = 0;
        uint64_t hash = 0;
        try {
          hash = ss.Run(job, *tree, [&](int p) {
            in = p;
            if (phase == 0 ? p == 1 : p == phase) { ArmAllocFault(mode, n, k); ss.armed = true; }
          });
        } catch (const std::bad_alloc&) {
          threw = true;
        } catch (const std::exception& e) {
          Host h;
          ss.DisarmAllocFaultKeep();
          Violation("alloc:exception", "a failed allocation surfaced as another exception: %s", e.what());
        } catch (...) {
          Host h;
          ss.DisarmAllocFaultKeep();
          Violation("alloc:exception", "a failed allocation surfaced as another exception");
        }
        ss.DisarmAllocFaultKeep();
        Trace("fault mode %d n %zu in %s: fired %zu, %s in %s", mode, static_cast<size_t>(n), kPhase[phase], static_cast<size_t>(ss.fired), threw ? "bad_alloc" : "completed", kPhase[in]);
        SIM_CHECK(!threw || ss.fired, "alloc:spurious", "bad_alloc was thrown although no allocation failed");
        if (ss.fired) {
          static const char* const kKind[] = {"", "alloc:one", "alloc:window", "alloc:all-later", "alloc:random", "alloc:large"};
          FaultFired(kKind[mode], ss.fired);
          NonTrivial();
          State(Mix(n) ^ job.hash);
        }
        if (threw) Probe((std::string("bad_alloc-in-") + kPhase[in]).c_str());
        if (!threw) SIM_CHECK(hash == job.hash, "alloc:swallowed", "%s: completed with another result although %zu allocations failed", job.e.Str().c_str(), static_cast<size_t>(ss.fired));
        Event(threw ? 1 + static_cast<uint64_t>(in) : hash);
        ss.CheckInputs();
        // Destruction, or a retry on the same tree object after Reset.
        if (static_cast<uint64_t>(op.arg(4)) % 4 == 1) { Sut s; tree.reset(); }
        if (static_cast<uint64_t>(op.arg(4)) % 4 >= 2) {
          { Sut s; tree->Reset(); }
          uint64_t again = ss.Run(job, *tree, [](int) {});
          SIM_CHECK(again == job.hash, "alloc:retry", "%s: the retry from scratch gives another surface", job.e.Str().c_str());
          Probe("retries");
        }
        break;
      }
    }
  }
  Sut s;
  tree.reset();
  for (auto& v : ss.inputs) std::vector<Polygon>().swap(v);
}

}  // namespace

const sim::Harness sim::harness = {
  "C05", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut BSPTree, BSPNode, BSPTraverser, PlanePartitioner, PolygonEventPoint, CollectorVisitor, ConnectingVisitor, EdgeLineConnector, polygons, BigInt words",
  "allocator replaced by the simulated heap, which fails allocations on schedule",
  "a run measures the allocations of a fault-free boolean operation, then repeats it with failures placed at random allocations of a random phase, checking exception, leaks, inputs and the retried result; distinct by job seeds and fault positions",
  900000000ull, true, 6000, 120000};
