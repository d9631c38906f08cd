// C07: deeds follow their objects through any history of moves and loans.
// Reference model: a table of objects (serial numbers) and, per deed object,
// the serial it designates and the deed it was borrowed from.
// sim-mode: asan
#include <algorithm>
#include <memory>
#include <new>
#include <vector>

#include "sim.h"
#include "walnut/connected_polygon.h"
#include "walnut/deed.h"

using namespace sim;
using walnut::Deed;
using walnut::DeedTarget;
using walnut::GenericDeed;

namespace {

constexpr int kBoxes = 6;    // individually allocated objects
constexpr int kVecs = 2;     // containers of objects
constexpr int kDeeds = 10;   // individually allocated deeds
constexpr int kGen = 3;      // deeds of the untyped class
constexpr int kPolys = 4;
constexpr int kEdgeDeeds = 6;

int64_t g_serial = 0;
int g_throw_in = 0;  // copies until one throws

struct CopyFailed {};

struct Box : DeedTarget {
  int64_t serial;
  int64_t payload = 0;
  Box() : serial(++g_serial) {}
  Box(const Box& o) : DeedTarget(o), serial(0), payload(o.payload) {
    if (g_throw_in > 0 && --g_throw_in == 0) throw CopyFailed();
    serial = ++g_serial;
  }
  Box(Box&& o) noexcept : DeedTarget(std::move(o)), serial(o.serial), payload(o.payload) { o.serial = 0; }
  Box& operator=(const Box& o) {
    if (g_throw_in > 0 && --g_throw_in == 0) throw CopyFailed();
    DeedTarget::operator=(o);
    payload = o.payload;
    return *this;
  }
  Box& operator=(Box&& o) {
    DeedTarget::operator=(std::move(o));
    std::swap(serial, o.serial);
    std::swap(payload, o.payload);
    return *this;
  }
};

using Poly = walnut::ConnectedPolygon<>;
using PolyEdge = Poly::EdgeVector::value_type;

enum {
  kNewBox = kOpFirstHarness, kDropBox, kMoveBoxCtor, kMoveBoxAssign,
  kCopyBoxCtor, kCopyBoxAssign, kSwapBox,
  kVecPushMove, kVecPushNew, kVecPushCopy, kVecPop, kVecErase, kVecInsert,
  kVecReverse, kVecRotate, kVecSort, kVecShrink, kVecMoveOut, kVecSwap,
  kVecMoveAssign, kVecClear,
  kTake, kTakeVec, kTakeGen, kReturn, kDropDeed, kNewDeed, kMoveDeedCtor, kMoveDeedAssign,
  kSwapDeed, kLend, kLendGen, kNullDeed,
  kDVecPush, kDVecErase, kDVecSort, kDVecReverse, kDVecTakeOut, kDVecClear,
  kNewPoly, kDropPoly, kMovePolyCtor, kMovePolyAssign, kPolyVecPush, kPolyVecPop,
  kSortPoly, kSplitEdge, kCopyPoly, kTakeEdge, kReturnEdge, kSwapEdgeDeed,
  kEnd
};
const char* const kNames[] = {
  "new_box", "drop_box", "move_box_ctor", "move_box_assign", "copy_box_ctor",
  "copy_box_assign", "swap_box", "vec_push_move", "vec_push_new",
  "vec_push_copy", "vec_pop", "vec_erase", "vec_insert", "vec_reverse",
  "vec_rotate", "vec_sort", "vec_shrink", "vec_move_out", "vec_swap",
  "vec_move_assign", "vec_clear", "take", "take_vec", "take_gen", "return", "drop_deed",
  "new_deed", "move_deed_ctor", "move_deed_assign", "swap_deed", "lend", "lend_gen",
  "null_deed", "dvec_push", "dvec_erase", "dvec_sort", "dvec_reverse",
  "dvec_take_out", "dvec_clear", "new_poly", "drop_poly", "move_poly_ctor",
  "move_poly_assign", "poly_vec_push", "poly_vec_pop", "sort_poly",
  "split_edge", "copy_poly", "take_edge", "return_edge", "swap_edge_deed"};
static_assert(sizeof(kNames) / sizeof(kNames[0]) == kEnd - kOpFirstHarness, "");

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20),
                     rng.Pick({0, 0xff, 0xa5}), rng.Pick({0, 0xff, 0xdd, 500})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  std::vector<int> enabled;
  bool polys = rng.Chance(1, 3);
  int last = polys ? kEnd : kNewPoly;
  for (int c = kOpFirstHarness; c < last; ++c)
    if (rng.Chance(2, 3)) enabled.push_back(c);
  for (int c : {(int)kNewBox, (int)kTake, (int)kTakeVec, (int)kVecPushNew, (int)kLend, (int)kReturn}) enabled.push_back(c);
  if (polys) for (int c : {(int)kNewPoly, (int)kTakeEdge, (int)kPolyVecPush, (int)kNewPoly, (int)kTakeEdge}) enabled.push_back(c);
  bool faults = rng.Chance(1, 2);
  int n = static_cast<int>(rng.Range(10, thorough ? 500 : 150));
  for (int i = 0; i < n; ++i) {
    int code = enabled[rng.Below(enabled.size())];
    int64_t a = rng.Range(0, 63), b = rng.Range(0, 63), c = rng.Range(0, 1 << 16);
    int64_t f = faults && rng.Chance(1, 6) ? rng.Range(1, 3) : 0;
    if (f) plan.Add(code, {a, b, c, f});
    else plan.Add(code, {a, b, c});
  }
}

struct DeedM {  // model of one deed object
  int64_t serial = 0;   // designated object, 0 none
  int lender = -1;      // deed slot it was borrowed from
  bool lent = false;
};

struct EdgeKey { int64_t poly = 0; int64_t vertex = -1; };

struct World {
  std::unique_ptr<Box> box[kBoxes];
  int64_t box_m[kBoxes] = {0};
  std::vector<Box> vec[kVecs];
  std::vector<int64_t> vec_m[kVecs];
  std::unique_ptr<Deed<Box>> deed[kDeeds];
  DeedM deed_m[kDeeds];
  std::unique_ptr<GenericDeed> gen[kGen];
  DeedM gen_m[kGen];
  std::vector<Deed<Box>> dvec;
  std::vector<DeedM> dvec_m;
  bool dvec_known = true;

  std::unique_ptr<Poly> poly[kPolys];
  int64_t poly_m[kPolys] = {0};
  std::vector<Poly> pvec;
  std::vector<int64_t> pvec_m;
  std::unique_ptr<Deed<PolyEdge>> ed[kEdgeDeeds];
  EdgeKey ed_m[kEdgeDeeds];
  int64_t poly_serial = 0;

  ~World() {
    Sut s;
    // Borrowed deeds go first.
    for (bool more = true; more;) {
      more = false;
      for (int i = 0; i < kDeeds; ++i)
        if (deed[i] && !deed_m[i].lent) { Drop(i); more = true; }
      for (int i = 0; i < kGen; ++i)
        if (gen[i] && !gen_m[i].lent) { DropGen(i); more = true; }
      if (!dvec.empty()) { for (DeedM& d : dvec_m) Restored(d); dvec.clear(); more = true; }
    }
    for (auto& d : ed) d.reset();
    for (auto& b : box) b.reset();
    for (auto& v : vec) std::vector<Box>().swap(v);
    std::vector<Deed<Box>>().swap(dvec);
    for (auto& p : poly) p.reset();
    std::vector<Poly>().swap(pvec);
  }
  void Restored(const DeedM& d) {
    if (d.lender < 0) return;
    DeedM& l = LenderModel(d.lender);
    l.lent = false;
    l.serial = d.serial;
  }
  DeedM& LenderModel(int slot) { return slot < 100 ? deed_m[slot] : gen_m[slot - 100]; }
  void Drop(int i) { deed[i].reset(); Restored(deed_m[i]); deed_m[i] = DeedM(); }
  void DropGen(int i) { gen[i].reset(); Restored(gen_m[i]); gen_m[i] = DeedM(); }
  void ObjectDestroyed(int64_t serial) {
    if (!serial) return;
    for (DeedM& d : deed_m) if (!d.lent && d.serial == serial) d.serial = 0;
    for (DeedM& d : gen_m) if (!d.lent && d.serial == serial) d.serial = 0;
    for (DeedM& d : dvec_m) if (d.serial == serial) d.serial = 0;
  }
  // The active deed of an object: -1 none, <100 pool slot, 100.. untyped, 1000.. vector.
  int Active(int64_t serial) {
    for (int i = 0; i < kDeeds; ++i) if (deed[i] && !deed_m[i].lent && deed_m[i].serial == serial) return i;
    for (int i = 0; i < kGen; ++i) if (gen[i] && !gen_m[i].lent && gen_m[i].serial == serial) return 100 + i;
    for (size_t i = 0; i < dvec_m.size(); ++i) if (dvec_m[i].serial == serial) return 1000 + static_cast<int>(i);
    return -1;
  }
  const Box* Find(int64_t serial) {
    for (int i = 0; i < kBoxes; ++i) if (box[i] && box_m[i] == serial) return box[i].get();
    for (int v = 0; v < kVecs; ++v)
      for (size_t i = 0; i < vec_m[v].size(); ++i) if (vec_m[v][i] == serial) return &vec[v][i];
    return nullptr;
  }
  const Poly* FindPoly(int64_t serial) {
    for (int i = 0; i < kPolys; ++i) if (poly[i] && poly_m[i] == serial) return poly[i].get();
    for (size_t i = 0; i < pvec_m.size(); ++i) if (pvec_m[i] == serial) return &pvec[i];
    return nullptr;
  }
  void CheckDeed(const char* after, const char* what, int i, const DeedM& m,
                 const DeedTarget* got_lazy, bool is_lender) {
    SIM_CHECK(is_lender == m.lent, "deed:lent-flag", "after %s: %s %d is_lender=%d, model %d", after, what, i, is_lender, m.lent);
    if (m.lent) return;
    const DeedTarget* want = m.serial ? Find(m.serial) : nullptr;
    SIM_CHECK(got_lazy == want, "deed:wrong-object", "after %s: %s %d designates %p, object %lld is at %p",
              after, what, i, (const void*)got_lazy, (long long)m.serial, (const void*)want);
    if (want) SIM_CHECK(static_cast<const Box*>(want)->serial == m.serial, "deed:wrong-object",
                        "after %s: %s %d: object has serial %lld, expected %lld", after, what, i,
                        (long long)static_cast<const Box*>(want)->serial, (long long)m.serial);
  }
  void CheckAll(const char* after) {
    for (int i = 0; i < kDeeds; ++i)
      if (deed[i]) {
        bool l = deed[i]->is_lender();
        CheckDeed(after, "deed", i, deed_m[i], l ? nullptr : deed[i]->get(), l);
        if (!l) SIM_CHECK(deed[i]->empty() == (deed_m[i].serial == 0) && bool(*deed[i]) == (deed_m[i].serial != 0) &&
                          (*deed[i] == nullptr) == (deed_m[i].serial == 0), "deed:empty", "after %s: deed %d", after, i);
      }
    for (int i = 0; i < kGen; ++i)
      if (gen[i]) { bool l = gen[i]->is_lender(); CheckDeed(after, "untyped deed", i, gen_m[i], l ? nullptr : gen[i]->get(), l); }
    if (dvec_known) {
      SIM_CHECK(dvec.size() == dvec_m.size(), "deed:vector-size", "after %s", after);
      for (size_t i = 0; i < dvec.size(); ++i)
        CheckDeed(after, "stored deed", static_cast<int>(i), dvec_m[i], dvec[i].get(), dvec[i].is_lender());
    }
    for (int i = 0; i < kEdgeDeeds; ++i) {
      if (!ed[i]) continue;
      const EdgeKey& m = ed_m[i];
      const PolyEdge* e = ed[i]->get();
      if (!m.poly) { SIM_CHECK(e == nullptr, "deed:edge", "after %s: edge deed %d should be empty", after, i); continue; }
      const Poly* p = FindPoly(m.poly);
      SIM_CHECK(e != nullptr, "deed:edge", "after %s: edge deed %d lost its edge", after, i);
      SIM_CHECK(e >= p->edges().data() && e < p->edges().data() + p->vertex_count(), "deed:edge",
                "after %s: edge deed %d points outside polygon %lld", after, i, (long long)m.poly);
      SIM_CHECK(e->vertex().x().low_uint64() == static_cast<uint64_t>(m.vertex), "deed:edge",
                "after %s: edge deed %d points to the edge at x=%llu, expected %lld", after, i,
                (unsigned long long)e->vertex().x().low_uint64(), (long long)m.vertex);
      SIM_CHECK(&e->polygon() == p, "deed:edge-polygon", "after %s: edge of deed %d names another polygon", after, i);
    }
  }
  void PolyGone(int64_t serial) {
    for (EdgeKey& k : ed_m) if (k.poly == serial) k = EdgeKey();
  }
};

Poly MakePoly(int64_t base, int n) {
  // A convex polygon in the plane z=0 whose vertices have distinct x.
  static const int xs[6][2] = {{0, 0}, {400, -300}, {1000, -200}, {1200, 100}, {900, 400}, {300, 350}};
  std::vector<walnut::HomoPoint3> v;
  for (int i = 0; i < n; ++i) v.emplace_back(static_cast<int>(base + xs[i][0]), xs[i][1], 0, 1);
  // The constructor starts with the edge from the last vertex.
  return Poly(walnut::HalfSpace3(0, 0, 1, 0), 2, v);
}

void Execute(const Plan& plan) {
  g_serial = 0;
  g_throw_in = 0;
  World w;
  int executed = 0;
  uint64_t fired_total = 0;
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    const uint64_t a = op.arg(0), b = op.arg(1), c = op.arg(2);
    const int fault = static_cast<int>(static_cast<uint64_t>(op.arg(3)) % 4);
    const char* name = kNames[op.code - kOpFirstHarness];
    int bi = a % kBoxes, bj = b % kBoxes, vi = a % kVecs, vj = b % kVecs;
    int di = a % kDeeds, dj = b % kDeeds, gi = b % kGen, pi = a % kPolys, pj = b % kPolys;
    int ei = b % kEdgeDeeds;
    std::vector<Box>& V = w.vec[vi];
    std::vector<int64_t>& VM = w.vec_m[vi];
    bool did = true;
    bool threw = false;
    int64_t before_serial = g_serial;
    bool copies = op.code == kVecPushCopy || op.code == kCopyBoxAssign || op.code == kCopyBoxCtor;
    if (fault) {
      if (copies && fault != 2) g_throw_in = 1;
      else ArmAllocFault(kAfNth, fault, 1);
    }
    auto fresh = [&]() { return g_serial; };
    try {
      Sut s;
      switch (op.code) {
        case kNewBox: {
          std::unique_ptr<Box> n(new Box());
          w.box[bi] = std::move(n);
          w.ObjectDestroyed(w.box_m[bi]);
          w.box_m[bi] = fresh();
          break;
        }
        case kDropBox: w.box[bi].reset(); w.ObjectDestroyed(w.box_m[bi]); w.box_m[bi] = 0; break;
        case kMoveBoxCtor: {  // bi := new Box(move(bj))
          if (!w.box[bj] || bi == bj) { did = false; break; }
          std::unique_ptr<Box> n(new Box(std::move(*w.box[bj])));
          w.box[bi] = std::move(n);
          w.ObjectDestroyed(w.box_m[bi]);
          w.box_m[bi] = w.box_m[bj];
          w.box[bj].reset();
          w.box_m[bj] = 0;
          break;
        }
        case kMoveBoxAssign:
          if (!w.box[bi] || !w.box[bj]) { did = false; break; }
          *w.box[bi] = std::move(*w.box[bj]);
          std::swap(w.box_m[bi], w.box_m[bj]);
          break;
        case kSwapBox:
          if (!w.box[bi] || !w.box[bj]) { did = false; break; }
          std::swap(*w.box[bi], *w.box[bj]);
          std::swap(w.box_m[bi], w.box_m[bj]);
          break;
        case kCopyBoxCtor: {
          if (!w.box[bj]) { did = false; break; }
          std::unique_ptr<Box> n(new Box(*w.box[bj]));
          w.box[bi] = std::move(n);
          w.ObjectDestroyed(w.box_m[bi]);
          w.box_m[bi] = fresh();
          break;
        }
        case kCopyBoxAssign:
          if (!w.box[bi] || !w.box[bj]) { did = false; break; }
          *w.box[bi] = *w.box[bj];
          break;
        case kVecPushMove: {
          if (!w.box[bj] || V.size() > 40) { did = false; break; }
          V.push_back(std::move(*w.box[bj]));
          w.box[bj].reset();
          { Host h; VM.push_back(w.box_m[bj]); }
          w.box_m[bj] = 0;
          break;
        }
        case kVecPushNew:
          if (V.size() > 40) { did = false; break; }
          V.emplace_back();
          { Host h; VM.push_back(fresh()); }
          break;
        case kVecPushCopy:
          if (VM.empty() || V.size() > 40) { did = false; break; }
          V.push_back(V[b % V.size()]);
          { Host h; VM.push_back(fresh()); }
          break;
        case kVecPop:
          if (V.empty()) { did = false; break; }
          V.pop_back(); w.ObjectDestroyed(VM.back()); VM.pop_back();
          break;
        case kVecErase: {
          if (V.empty()) { did = false; break; }
          size_t k = b % V.size();
          V.erase(V.begin() + k);
          w.ObjectDestroyed(VM[k]);
          { Host h; VM.erase(VM.begin() + k); }
          break;
        }
        case kVecInsert: {
          if (V.size() > 40) { did = false; break; }
          size_t k = b % (V.size() + 1);
          V.emplace(V.begin() + k);
          { Host h; VM.insert(VM.begin() + k, fresh()); }
          break;
        }
        case kVecReverse: std::reverse(V.begin(), V.end()); std::reverse(VM.begin(), VM.end()); break;
        case kVecRotate: {
          if (V.empty()) { did = false; break; }
          size_t k = b % V.size();
          std::rotate(V.begin(), V.begin() + k, V.end());
          std::rotate(VM.begin(), VM.begin() + k, VM.end());
          break;
        }
        case kVecSort: {
          uint64_t salt = c;
          std::sort(V.begin(), V.end(), [salt](const Box& x, const Box& y) { return Mix(x.serial ^ salt) < Mix(y.serial ^ salt); });
          std::sort(VM.begin(), VM.end(), [salt](int64_t x, int64_t y) { return Mix(x ^ salt) < Mix(y ^ salt); });
          break;
        }
        case kVecShrink:
          if (b & 1) V.shrink_to_fit(); else V.reserve(V.size() + b % 17);
          break;
        case kVecMoveOut: {
          if (V.empty()) { did = false; break; }
          std::unique_ptr<Box> n(new Box(std::move(V.back())));
          V.pop_back();
          w.box[bj] = std::move(n);
          w.ObjectDestroyed(w.box_m[bj]);
          w.box_m[bj] = VM.back();
          VM.pop_back();
          break;
        }
        case kVecSwap: w.vec[vi].swap(w.vec[vj]); std::swap(w.vec_m[vi], w.vec_m[vj]); break;
        case kVecMoveAssign:
          if (vi == vj) { did = false; break; }
          for (int64_t x : VM) w.ObjectDestroyed(x);
          w.vec[vi] = std::move(w.vec[vj]);
          w.vec[vj].clear();
          { Host h; w.vec_m[vi] = w.vec_m[vj]; w.vec_m[vj].clear(); }
          break;
        case kVecClear: V.clear(); for (int64_t x : VM) w.ObjectDestroyed(x); VM.clear(); break;

        case kTake: case kTakeVec: case kTakeGen: {
          // Take a deed of an object; if it is already owned this borrows.
          Box* target = nullptr;
          int64_t serial = 0;
          if (op.code == kTakeVec) {
            std::vector<Box>& U = w.vec[c % kVecs];
            if (U.empty()) { did = false; break; }
            target = &U[b % U.size()];
            serial = w.vec_m[c % kVecs][b % U.size()];
          } else {
            int k = op.code == kTake ? bj : c % kBoxes;
            if (!w.box[k]) { did = false; break; }
            target = w.box[k].get();
            serial = w.box_m[k];
          }
          int owner = w.Active(serial);
          if (owner >= 1000) { did = false; break; }  // a stored deed has to stay movable
          if (op.code == kTakeGen) {
            if (w.gen[gi]) { did = false; break; }
            w.gen[gi].reset(new GenericDeed(target));
            w.gen_m[gi].serial = serial;
            w.gen_m[gi].lender = owner;
          } else {
            if (w.deed[di]) { did = false; break; }
            w.deed[di].reset(new Deed<Box>(target));
            w.deed_m[di].serial = serial;
            w.deed_m[di].lender = owner;
          }
          if (owner >= 0) { w.LenderModel(owner).lent = true; Probe("implicit-loan"); }
          break;
        }
        case kReturn:
          if (!w.deed[di] || w.deed_m[di].lent) { did = false; break; }
          w.deed[di]->Return();
          w.Restored(w.deed_m[di]);
          w.deed_m[di] = DeedM();
          break;
        case kDropDeed:
          if (b & 1) {
            if (!w.gen[gi] || w.gen_m[gi].lent) { did = false; break; }
            w.DropGen(gi);
          } else {
            if (!w.deed[di] || w.deed_m[di].lent) { did = false; break; }
            w.Drop(di);
          }
          break;
        case kNewDeed:
          if (w.deed[di]) { did = false; break; }
          w.deed[di].reset(new Deed<Box>());
          break;
        case kNullDeed:
          if (w.deed[di]) { did = false; break; }
          w.deed[di].reset(new Deed<Box>(static_cast<Box*>(nullptr)));
          break;
        case kMoveDeedCtor:
          if (w.deed[di] || !w.deed[dj] || w.deed_m[dj].lent) { did = false; break; }
          w.deed[di].reset(new Deed<Box>(std::move(*w.deed[dj])));
          w.deed_m[di] = w.deed_m[dj];
          w.deed_m[dj] = DeedM();
          break;
        case kMoveDeedAssign: case kSwapDeed:
          if (!w.deed[di] || !w.deed[dj] || w.deed_m[di].lent || w.deed_m[dj].lent) { did = false; break; }
          if (op.code == kSwapDeed) w.deed[di]->swap(*w.deed[dj]);
          else *w.deed[di] = std::move(*w.deed[dj]);
          std::swap(w.deed_m[di], w.deed_m[dj]);
          break;
        case kLend:
          if (w.deed[di] || !w.deed[dj] || w.deed_m[dj].lent) { did = false; break; }
          w.deed[di].reset(new Deed<Box>(w.deed[dj]->Lend()));
          w.deed_m[di].serial = w.deed_m[dj].serial;
          w.deed_m[di].lender = dj;
          w.deed_m[dj].lent = true;
          Probe("loan");
          break;
        case kLendGen:
          if (w.gen[gi] || !w.deed[di] || w.deed_m[di].lent) { did = false; break; }
          w.gen[gi].reset(new GenericDeed(static_cast<GenericDeed&>(*w.deed[di]).Lend()));
          w.gen_m[gi].serial = w.deed_m[di].serial;
          w.gen_m[gi].lender = di;
          w.deed_m[di].lent = true;
          break;
        case kDVecPush:
          if (!w.deed[di] || w.deed_m[di].lent || w.dvec.size() > 30) { did = false; break; }
          w.dvec.push_back(std::move(*w.deed[di]));
          { Host h; w.dvec_m.push_back(w.deed_m[di]); }
          w.deed_m[di] = DeedM();
          break;
        case kDVecErase: {
          if (w.dvec.empty()) { did = false; break; }
          size_t k = b % w.dvec.size();
          w.dvec.erase(w.dvec.begin() + k);
          w.Restored(w.dvec_m[k]);
          { Host h; w.dvec_m.erase(w.dvec_m.begin() + k); }
          break;
        }
        case kDVecSort: {
          uint64_t salt = c;
          std::stable_sort(w.dvec.begin(), w.dvec.end(), [salt](const Deed<Box>& x, const Deed<Box>& y) {
            return Mix((x.get() ? x->serial : 0) ^ salt) < Mix((y.get() ? y->serial : 0) ^ salt); });
          Host h;
          std::stable_sort(w.dvec_m.begin(), w.dvec_m.end(), [salt](const DeedM& x, const DeedM& y) {
            return Mix(x.serial ^ salt) < Mix(y.serial ^ salt); });
          break;
        }
        case kDVecReverse:
          std::reverse(w.dvec.begin(), w.dvec.end());
          std::reverse(w.dvec_m.begin(), w.dvec_m.end());
          break;
        case kDVecTakeOut:
          if (w.dvec.empty() || w.deed[di]) { did = false; break; }
          w.deed[di].reset(new Deed<Box>(std::move(w.dvec.back())));
          w.dvec.pop_back();
          w.deed_m[di] = w.dvec_m.back();
          w.dvec_m.pop_back();
          break;
        case kDVecClear: w.dvec.clear(); for (DeedM& d : w.dvec_m) w.Restored(d); w.dvec_m.clear(); break;

        case kNewPoly: {
          std::unique_ptr<Poly> n(new Poly(MakePoly((c % 1000) * 2000, 3 + c % 4)));
          w.poly[pi] = std::move(n);
          w.PolyGone(w.poly_m[pi]);
          w.poly_m[pi] = ++w.poly_serial;
          break;
        }
        case kDropPoly: w.poly[pi].reset(); w.PolyGone(w.poly_m[pi]); w.poly_m[pi] = 0; break;
        case kMovePolyCtor: {
          if (!w.poly[pj] || pi == pj) { did = false; break; }
          std::unique_ptr<Poly> n(new Poly(std::move(*w.poly[pj])));
          w.poly[pi] = std::move(n);
          w.PolyGone(w.poly_m[pi]);
          w.poly_m[pi] = w.poly_m[pj];
          w.poly[pj].reset();
          w.poly_m[pj] = 0;
          break;
        }
        case kMovePolyAssign:
          if (!w.poly[pi] || !w.poly[pj] || pi == pj) { did = false; break; }
          *w.poly[pi] = std::move(*w.poly[pj]);
          w.poly[pj].reset();
          w.PolyGone(w.poly_m[pi]);
          w.poly_m[pi] = w.poly_m[pj];
          w.poly_m[pj] = 0;
          break;
        case kPolyVecPush:
          if (!w.poly[pi] || w.pvec.size() > 20) { did = false; break; }
          w.pvec.push_back(std::move(*w.poly[pi]));
          w.poly[pi].reset();
          { Host h; w.pvec_m.push_back(w.poly_m[pi]); }
          w.poly_m[pi] = 0;
          break;
        case kPolyVecPop: {
          if (w.pvec.empty()) { did = false; break; }
          size_t k = b % w.pvec.size();
          w.pvec.erase(w.pvec.begin() + k);
          w.PolyGone(w.pvec_m[k]);
          { Host h; w.pvec_m.erase(w.pvec_m.begin() + k); }
          break;
        }
        case kSortPoly: if (!w.poly[pi]) { did = false; break; } w.poly[pi]->SortVertices(); break;
        case kCopyPoly: {
          if (!w.poly[pj] || pi == pj) { did = false; break; }
          std::unique_ptr<Poly> n(new Poly(*w.poly[pj]));
          w.poly[pi] = std::move(n);
          w.PolyGone(w.poly_m[pi]);
          w.poly_m[pi] = ++w.poly_serial;
          break;
        }
        case kSplitEdge: {
          // Split at the midpoint (its x differs from every existing vertex).
          if (!w.poly[pi]) { did = false; break; }
          Poly& p = *w.poly[pi];
          size_t k = b % p.vertex_count();
          const walnut::HomoPoint3 &u = p.vertex(k), &v = p.vertex((k + 1) % p.vertex_count());
          int64_t ux = static_cast<int64_t>(u.x().low_uint64()), vx = static_cast<int64_t>(v.x().low_uint64());
          int64_t uy = static_cast<int64_t>(u.y().low_uint64()), vy = static_cast<int64_t>(v.y().low_uint64());
          if ((ux + vx) % 2 || (uy + vy) % 2 || p.vertex_count() > 12) { did = false; break; }
          bool clash = false;
          for (size_t q = 0; q < p.vertex_count(); ++q) clash |= static_cast<int64_t>(p.vertex(q).x().low_uint64()) == (ux + vx) / 2;
          if (clash) { did = false; break; }
          p.SplitEdge(k, walnut::HomoPoint3(static_cast<int>((ux + vx) / 2), static_cast<int>((uy + vy) / 2), 0, 1));
          break;
        }
        case kTakeEdge: {
          bool from_vec = (c & 1) && !w.pvec.empty();
          Poly* p = from_vec ? &w.pvec[a % w.pvec.size()] : w.poly[pi].get();
          int64_t ps = from_vec ? w.pvec_m[a % w.pvec.size()] : w.poly_m[pi];
          if (!p || w.ed[ei]) { did = false; break; }
          size_t k = (c >> 1) % p->vertex_count();
          int64_t vx = static_cast<int64_t>(p->vertex(k).x().low_uint64());
          bool owned = false;
          for (EdgeKey& e : w.ed_m) owned |= e.poly == ps && e.vertex == vx;
          if (owned) { did = false; break; }
          w.ed[ei].reset(new Deed<PolyEdge>(&const_cast<PolyEdge&>(static_cast<const PolyEdge&>(p->edges()[k]))));
          w.ed_m[ei].poly = ps;
          w.ed_m[ei].vertex = vx;
          break;
        }
        case kReturnEdge: if (!w.ed[ei]) { did = false; break; } w.ed[ei].reset(); w.ed_m[ei] = EdgeKey(); break;
        case kSwapEdgeDeed: {
          int ej = a % kEdgeDeeds;
          if (!w.ed[ei] || !w.ed[ej]) { did = false; break; }
          std::swap(*w.ed[ei], *w.ed[ej]);
          std::swap(w.ed_m[ei], w.ed_m[ej]);
          break;
        }
      }
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (const CopyFailed&) {
      threw = true;
      FaultFired("callback:copy-throws");
    }
    g_throw_in = 0;
    uint64_t fired = DisarmAllocFault();
    fired_total += fired;
    if (fired) FaultFired("alloc:nth", fired);
    (void)before_serial;
    if (threw) Probe("op-aborted");
    if (!did) continue;
    // A polygon edit abandoned in the middle of an insertion may leave that
    // polygon in an unspecified state: forget it.
    if (threw && op.code == kSplitEdge) {
      Sut s;
      w.poly[pi].reset();
      w.PolyGone(w.poly_m[pi]);
      w.poly_m[pi] = 0;
    }
    if (threw && op.code == kMovePolyCtor) {}
    ++executed;
    w.CheckAll(name);
    uint64_t h = Mix(op.code) ^ threw;
    for (DeedM& d : w.deed_m) h = Mix(h ^ d.serial * 4 ^ d.lent ^ (d.lender + 2) * 1024);
    Event(h);
    State(h);
    Signature(Mix(op.code * 4096 + di * 64 + dj) ^ threw);
  }
  if (executed >= 5) NonTrivial();
}

}  // namespace

const sim::Harness sim::harness = {
  "C07", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut DeedTarget, GenericDeed, Deed, ConnectedPolygon/ConnectedEdge moves (include/walnut), std::vector",
  "allocator replaced by the simulated heap; oracle: table of object serials and loans",
  "a run is a seeded history of 10-150 moves, relocations, loans, swaps and destructions with allocation and copy failures over pools of objects, deeds, containers and connected polygons; non-trivial: at least 5 operations executed; distinct by operation/operand/outcome sequence",
  100000000ull, true, 60000, 1500000};
