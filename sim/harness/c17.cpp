// C17: coordinates enter as doubles and leave as doubles: sessions that import
// (exactly or quantised), move, merge, export and import again, with failed
// allocations. Reference: boost rationals.
// sim-mode: asan
#include <cfloat>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include <boost/multiprecision/cpp_int.hpp>

#include "glue.h"
#include "walnut/double.h"
#include "walnut/double_point3.h"
#include "walnut/homo_point3.h"

using namespace sim;
using namespace walnut;
using boost::multiprecision::cpp_int;
using boost::multiprecision::cpp_rational;

namespace {

constexpr int kPool = 4;
enum { kImport = kOpFirstHarness, kQuantise, kRoundTrip, kExport, kScale, kAdd, kReimport, kSplit, kInteger, kEnd };
const char* const kNames[] = {"import", "quantise", "round-trip", "export", "scale", "add", "reimport", "split", "integer"};

cpp_int Value(const BigInt& v) {
  geom::Num n = FromBig(v);
  cpp_int r = 0;
  bool neg = static_cast<int64_t>(n.back()) < 0;
  for (size_t i = n.size(); i-- > 0;) { r <<= 64; r |= neg ? ~n[i] : n[i]; }
  if (neg) r = -r - 1;
  return r;
}
geom::Num Words(const cpp_int& v) {
  cpp_int u = v < 0 ? cpp_int(-v - 1) : v;
  geom::Num n;
  while (u != 0) { n.push_back(static_cast<uint64_t>(u & ~uint64_t(0))); u >>= 64; }
  n.push_back(0);
  if (v < 0) for (uint64_t& w : n) w = ~w;
  return n;
}
cpp_rational Pow2(int e) { return e >= 0 ? cpp_rational(cpp_int(1) << e) : cpp_rational(cpp_int(1), cpp_int(1) << -e); }
// The exact value of a finite double, from its bits.
cpp_rational Exact(double d) {
  uint64_t b;
  std::memcpy(&b, &d, 8);
  int e = static_cast<int>(b >> 52 & 0x7ff);
  uint64_t m = b & ((uint64_t(1) << 52) - 1);
  if (e) m |= uint64_t(1) << 52; else e = 1;
  cpp_rational r = cpp_rational(cpp_int(m)) * Pow2(e - 1075);
  return b >> 63 ? cpp_rational(-r) : r;
}
std::string Hex(double d) { char t[64]; snprintf(t, sizeof t, "%a", d); return t; }
double RandomDouble(Rng& rng, int style) {
  switch (style) {
    case 0: return static_cast<double>(rng.Range(-20, 20));
    case 1: return static_cast<double>(rng.Range(-1000, 1000)) / 16;
    case 2: return static_cast<double>(rng.Range(-1000000, 1000000)) * 1e-6;
    case 3: {  // any finite bit pattern
      uint64_t b = rng.Next();
      if ((b >> 52 & 0x7ff) == 0x7ff) b ^= uint64_t(1) << 52;
      double d;
      std::memcpy(&d, &b, 8);
      return d;
    }
    case 4: return rng.Pick({0.0, -0.0, DBL_MIN, -DBL_MIN, DBL_MAX, -DBL_MAX, 4.9406564584124654e-324, -4.9406564584124654e-324, 1.0, -1.0, 0.5, 9007199254740993.0, 4503599627370497.5, -4503599627370495.5, 9223372036854775808.0, -9223372036854775808.0, 0.1});
    case 5: {  // half-way cases
      double d = std::ldexp(static_cast<double>(rng.Range(-9, 9)) + 0.5, static_cast<int>(rng.Range(-60, 60)));
      int t = static_cast<int>(rng.Range(-1, 1));
      return t > 0 ? std::nextafter(d, HUGE_VAL) : t < 0 ? std::nextafter(d, -HUGE_VAL) : d;
    }
    default: return std::ldexp(static_cast<double>(rng.Range(-(int64_t(1) << 53), int64_t(1) << 53)), static_cast<int>(rng.Range(-120, 70)));
  }
}

struct Cell {
  std::unique_ptr<HomoPoint3> p;
  cpp_rational m[3];
};

struct Session {
  Cell cell[kPool];
  const Op* op = nullptr;
  int fm = 0, checked = 0;
  uint64_t fired_total = 0;

  ~Session() { Sut s; for (Cell& c : cell) c.p.reset(); }
  Cell& At(size_t k) { return cell[static_cast<uint64_t>(op->arg(k)) % kPool]; }
  template <typename F> void Run(F f) {
    for (int pass = fm ? 0 : 1; pass < 2; ++pass) {
      bool failed = false;
      uint64_t fired = 0;
      {
        Sut s;
        if (!pass) ArmAllocFault(fm, static_cast<uint64_t>(op->arg(5)), static_cast<uint64_t>(op->arg(6)));
        try { f(); } catch (const std::bad_alloc&) { failed = true; }
        if (!pass) fired = DisarmAllocFault();
      }
      if (fired) { FaultFired("failed-allocation", fired); fired_total += fired; }
      SIM_CHECK(failed == (fired != 0), "convert:exception", "%llu failed allocations, bad_alloc %d", static_cast<unsigned long long>(fired), failed);
      if (!failed) return;
      Probe("retried");
    }
  }
  void Compare(const Cell& c, const char* what) {
    if (!c.p) return;
    cpp_int w = Value(c.p->w());
    SIM_CHECK(w != 0, "convert:zero-denominator", "%s", what);
    const BigInt* v[3] = {&c.p->x(), &c.p->y(), &c.p->z()};
    for (int k = 0; k < 3; ++k) {
      cpp_int n = Value(*v[k]);
      SIM_CHECK(n * denominator(c.m[k]) == numerator(c.m[k]) * w, "convert:value", "after %s coordinate %d is not the exact value", what, k);
    }
  }
  // got is `exact` rounded to a double with an error below one unit in the last place.
  void Near(double got, const cpp_rational& exact, const char* what) {
    if (Tracing()) { Host h; Trace("%s %s exact %s", what, Hex(got).c_str(), (cpp_int(abs(numerator(exact)))).str(0, std::ios_base::hex).c_str()); }
    ++checked;
    SIM_CHECK(!std::isnan(got), "convert:rounding", "%s is no number", what);
    cpp_rational max = Exact(DBL_MAX);
    if (std::isinf(got)) {
      SIM_CHECK(got > 0 ? exact > max : exact < -max, "convert:rounding", "%s overflowed", what);
      return;
    }
    int e;
    std::frexp(std::nextafter(got, got > 0 ? HUGE_VAL : -HUGE_VAL), &e);
    if (e == 0) std::frexp(got, &e);
    cpp_rational ulp = Pow2(got == 0 ? -1074 : std::max(e - 53, -1074)), err = Exact(got) - exact;
    SIM_CHECK(err < ulp && -err < ulp, "convert:rounding", "%s is %s, an error of more than a unit in the last place", what, Hex(got).c_str());
  }
  // The exact value at exponent grain nearest to d.
  bool Nearest(const cpp_rational& got, double d, int grain) {
    cpp_rational g = Pow2(grain), q = got / g;
    if (denominator(q) != 1) return false;
    cpp_rational err = got - Exact(d);
    return 2 * err <= g && -2 * err <= g;
  }
  void Import(Cell& c, const double* d, const char* what) {
    Run([&] {
      if (op->arg(2) & 1) { DoublePoint3 dp(d[0], d[1], d[2]); c.p.reset(new HomoPoint3(HomoPoint3::FromDoublePoint3Exact(dp))); }
      else { if (!c.p) c.p.reset(new HomoPoint3()); *c.p = HomoPoint3::FromDoublesExact(d[0], d[1], d[2]); }
    });
    for (int k = 0; k < 3; ++k) c.m[k] = Exact(d[k]);
    Compare(c, what);
    ++checked;
  }

  void Step(const Op& o) {
    op = &o;
    fm = static_cast<int>(static_cast<uint64_t>(o.arg(4)) % 6);
    Rng rng(static_cast<uint64_t>(o.arg(3)));
    Cell &a = At(0), &b = At(1);
    double d[3];
    int style = static_cast<int>(rng.Below(7));
    for (double& x : d) x = RandomDouble(rng, rng.Chance(1, 5) ? static_cast<int>(rng.Below(7)) : style);
    switch (o.code) {
      case kImport: Import(a, d, "an exact import"); break;
      case kQuantise: {
        int g = rng.Chance(1, 3) ? static_cast<int>(rng.Range(-1100, 1030)) : static_cast<int>(rng.Range(-70, 70));
        if (rng.Chance(1, 10)) g = rng.Pick({std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), -1074, 0});
        Run([&] { if (!a.p) a.p.reset(new HomoPoint3()); *a.p = HomoPoint3::FromDoubles(g, d[0], d[1], d[2]); });
        cpp_int w = Value(a.p->w());
        SIM_CHECK(w > 0, "convert:zero-denominator", "quantised to %d", g);
        const BigInt* v[3] = {&a.p->x(), &a.p->y(), &a.p->z()};
        for (int k = 0; k < 3; ++k) {
          a.m[k] = cpp_rational(Value(*v[k]), w);
          int grain = std::min(std::max(g, -1100), 1100);
          SIM_CHECK(Nearest(a.m[k], d[k], grain), "convert:quantise", "%s rounded to multiples of 2^%d", Hex(d[k]).c_str(), g);
        }
        ++checked;
        Probe(g > 0 ? "grain-above-one" : "grain-below-one");
        break;
      }
      case kRoundTrip: {
        Import(a, d, "an exact import");
        DoublePoint3 r;
        Run([&] { r = a.p->GetDoublePoint3(); });
        const double got[3] = {r.x, r.y, r.z};
        for (int k = 0; k < 3; ++k) SIM_CHECK(got[k] == d[k], "convert:round-trip", "%s came back as %s", Hex(d[k]).c_str(), Hex(got[k]).c_str());
        DoublePoint3 s(d[0], d[1], d[2]);
        SIM_CHECK(r == s && !(r != s) && r.GetHash() == s.GetHash() && std::hash<DoublePoint3>()(r) == std::hash<DoublePoint3>()(s), "convert:hash", "equal double points differ");
        break;
      }
      case kExport: {
        if (!a.p) break;
        DoublePoint3 r;
        Run([&] { r = a.p->GetDoublePoint3(); });
        Near(r.x, a.m[0], "x");
        Near(r.y, a.m[1], "y");
        Near(r.z, a.m[2], "z");
        break;
      }
      case kScale: {  // another representation of the same point
        if (!a.p || Value(a.p->w()) > (cpp_int(1) << 3000) || Value(a.p->w()) < -(cpp_int(1) << 3000)) break;
        cpp_int f = 0;
        while (f == 0) f = rng.Chance(1, 2) ? cpp_int(rng.Range(-50, 50)) : (cpp_int(rng.Range(-50, 50)) << static_cast<int>(rng.Below(200)));
        if (rng.Chance(1, 3)) { f = f * cpp_int(rng.Next()) * cpp_int(rng.Next()) * cpp_int(rng.Next()) + 1; }
        geom::Num w = Words(f);
        Run([&] {
          BigInt k = ToBig(w);
          HomoPoint3 r(a.p->x() * k, a.p->y() * k, a.p->z() * k, a.p->w() * k);
          a.p.reset(new HomoPoint3(std::move(r)));
        });
        break;
      }
      case kAdd: {  // a + b / 3
        if (!a.p || !b.p || &a == &b || Value(a.p->w()) > (cpp_int(1) << 3000) || Value(b.p->w()) > (cpp_int(1) << 3000) || Value(a.p->w()) < -(cpp_int(1) << 3000) || Value(b.p->w()) < -(cpp_int(1) << 3000)) break;
        Run([&] {
          HomoPoint3 r = a.p->AddOffset(b.p->vector_from_origin(), b.p->w() * BigInt(3));
          a.p.reset(new HomoPoint3(std::move(r)));
        });
        for (int k = 0; k < 3; ++k) a.m[k] += b.m[k] / 3;
        Compare(a, "an addition");
        break;
      }
      case kReimport: {
        if (!a.p) break;
        DoublePoint3 r;
        Run([&] { r = a.p->GetDoublePoint3(); });
        if (!std::isfinite(r.x) || !std::isfinite(r.y) || !std::isfinite(r.z)) break;
        double t[3] = {r.x, r.y, r.z};
        Import(b, t, "a second import");
        // From now on nothing is lost.
        Run([&] { r = b.p->GetDoublePoint3(); });
        SIM_CHECK(r.x == t[0] && r.y == t[1] && r.z == t[2], "convert:round-trip", "an exported point changed when imported and exported again");
        break;
      }
      case kSplit: {
        int e = 12345;
        int64_t m = 0;
        Run([&] { m = Decompose(d[0], &e); });
        cpp_rational got = cpp_rational(cpp_int(m)) * Pow2(std::max(-3000, std::min(e, 3000)));
        SIM_CHECK(got == Exact(d[0]), "convert:decompose", "%s is not %lld * 2^%d", Hex(d[0]).c_str(), static_cast<long long>(m), e);
        SIM_CHECK(m == 0 ? e == 0 : (m & 1) != 0, "convert:decompose", "%s: %lld * 2^%d is not reduced", Hex(d[0]).c_str(), static_cast<long long>(m), e);
        ++checked;
        break;
      }
      default: {
        cpp_int v = 0;
        int words = static_cast<int>(rng.Range(1, 18));
        int st = static_cast<int>(rng.Below(3));
        for (int i = 0; i < words; ++i) { v <<= 64; v |= st == 0 ? rng.Next() : rng.Pick({uint64_t(0), ~uint64_t(0), uint64_t(1), uint64_t(1) << 63, (uint64_t(1) << 63) - 1, ~uint64_t(0) << 10, rng.Next()}); }
        v >>= static_cast<int>(rng.Below(64));
        if (rng.Chance(1, 2)) v = -v;
        v += static_cast<int64_t>(rng.Range(-1, 1));
        geom::Num w = Words(v);
        double r = 0;
        long double l = 0;
        Run([&] { const BigInt n = ToBig(w); r = static_cast<double>(n); l = static_cast<long double>(n); });
        Near(r, cpp_rational(v), "an integer");
        // Both words of the long double.
        int e;
        SIM_CHECK(std::isfinite(l), "convert:rounding", "an integer of %d words overflowed", words);
        long double f = std::frexp(l, &e);
        cpp_rational x = cpp_rational(cpp_int(static_cast<int64_t>(std::ldexp(f, 62)))) * Pow2(e - 62);
        long double rest = std::ldexp(f, 62) - static_cast<long double>(static_cast<int64_t>(std::ldexp(f, 62)));
        x += cpp_rational(cpp_int(static_cast<int64_t>(std::ldexp(rest, 20)))) * Pow2(e - 82);
        cpp_rational err = x - cpp_rational(v), ulp = Pow2(e - 62);
        SIM_CHECK(v == 0 ? l == 0 : err < ulp && -err < ulp, "convert:rounding", "%s as a long double", v.str().c_str());
        break;
      }
    }
    for (const Cell& c : cell) Compare(c, kNames[o.code - kOpFirstHarness]);
  }
};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20), rng.Pick({0, 0xff, 0xa5, 1, 0x80}), rng.Pick({0, 0xff, 0xdd})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  const bool faults = rng.Chance(1, 2);
  int n = static_cast<int>(rng.Range(5, thorough ? 80 : 30));
  for (int i = 0; i < n; ++i) {
    int code = i < 2 ? static_cast<int>(kImport) : static_cast<int>(rng.Range(kImport, kEnd - 1));
    if (faults && rng.Chance(1, 2)) {
      int fm = rng.Pick({(int)kAfNth, (int)kAfNth, (int)kAfFrom, (int)kAfWindow, (int)kAfRandom, (int)kAfSize});
      plan.Add(code, {rng.Range(0, kPool - 1), rng.Range(0, kPool - 1), rng.Range(0, 3), rng.Range(0, 1 << 30), fm, fm == kAfSize ? rng.Pick({1, 20, 40, 100}) : rng.Range(1, 8), rng.Range(1, 3)});
    } else {
      plan.Add(code, {rng.Range(0, kPool - 1), rng.Range(0, kPool - 1), rng.Range(0, 3), rng.Range(0, 1 << 30)});
    }
  }
}

void Execute(const Plan& plan) {
  Session z;
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness || op.code >= kEnd) continue;
    CurrentOp(static_cast<int>(oi));
    int before = z.checked;
    z.Step(op);
    if (z.checked > before) Signature(Mix(static_cast<uint64_t>(op.code) * 64 + static_cast<uint64_t>(op.arg(0)) % 64) ^ Mix(static_cast<uint64_t>(op.arg(3))));
    Event(Mix(static_cast<uint64_t>(z.checked) + z.fired_total));
  }
  uint64_t h = 0;
  for (const Cell& c : z.cell) if (c.p) h = Mix(h ^ geom::PointKey(FromPoint(*c.p)));
  State(h);
  if (z.checked > 3) NonTrivial();
}

}  // namespace

const sim::Harness sim::harness = {
  "C17", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut HomoPoint3 conversions, Decompose, DoublePoint3, BigInt conversions and arithmetic",
  "allocator replaced by the simulated heap with injected failures; oracle: boost rationals built from the bits of the doubles",
  "non-trivial: at least four conversions were compared with the exact values",
  4000000, true, 20000, 400000, false};
