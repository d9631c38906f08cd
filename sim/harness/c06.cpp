// C06: big integers stay exact through any operation history and failed
// allocations. Reference model: boost::multiprecision::cpp_int.
// sim-mode: asan
#include <algorithm>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include <boost/multiprecision/cpp_int.hpp>

#include "sim.h"
#include "walnut/big_int.h"
#include "walnut/big_uint.h"

using namespace sim;
using walnut::BigInt;
using walnut::BigUInt;
using walnut::BigUIntWord;
using boost::multiprecision::cpp_int;

namespace {

constexpr int kPool = 8;
constexpr int kUPool = 4;

enum {
  kSetSmall = kOpFirstHarness, kSetPow, kSetWords, kCopyCtor, kCopyAssign,
  kMoveAssign, kMoveCtor, kSwap, kAdd, kSub, kMul, kDiv, kMod, kDivRem,
  kAddMul, kSubMul, kAddEq, kSubEq, kMulEq, kDivEq, kInc, kDec, kNegate,
  kUnaryMinus, kAbs, kGetAbs, kShl, kCompare, kGcd, kAddEqInt, kSubEqInt,
  kMulInt, kAddInt, kSubInt, kDivInt, kMaxValue, kMinValue, kDeterminant,
  kToString, kVecPush, kVecErase, kVecSort, kVecInsert, kAssignWord, kMulEqInt,
  kUFromAbs, kUShl, kUSub, kUMul, kUDivRem, kUCompare, kUToInt, kUAddShifted,
  kUSubShifted, kUShr, kUAssign, kPredicates, kIntMul, kMulWord, kVecReserve,
  kEnd
};
const char* const kNames[] = {
  "set_small", "set_pow", "set_words", "copy_ctor", "copy_assign",
  "move_assign", "move_ctor", "swap", "add", "sub", "mul", "div", "mod",
  "div_rem", "add_mul", "sub_mul", "add_eq", "sub_eq", "mul_eq", "div_eq",
  "inc", "dec", "negate", "unary_minus", "abs", "get_abs", "shl", "compare",
  "gcd", "add_eq_int", "sub_eq_int", "mul_int", "add_int", "sub_int",
  "div_int", "max_value", "min_value", "determinant", "to_string", "vec_push",
  "vec_erase", "vec_sort", "vec_insert", "assign_word", "mul_eq_int",
  "u_from_abs", "u_shl", "u_sub", "u_mul", "u_div_rem", "u_compare",
  "u_to_int", "u_add_shifted", "u_sub_shifted", "u_shr", "u_assign",
  "predicates", "int_mul", "mul_word", "vec_reserve"};
static_assert(sizeof(kNames) / sizeof(kNames[0]) == kEnd - kOpFirstHarness, "");

// Reads a value without using the arithmetic of the code under test.
cpp_int Value(const BigInt& v) {
  size_t n = v.used_words();
  SIM_CHECK(n >= 1 && n < 100000, "bigint:bad-size", "used_words=%zu", n);
  cpp_int r = 0;
  bool neg = static_cast<int64_t>(v.word(n - 1).low_uint64()) < 0;
  for (size_t i = n; i-- > 0;) {
    uint64_t w = v.word(i).low_uint64();
    if (neg) w = ~w;
    r <<= 64;
    r |= w;
  }
  if (neg) r = -r - 1;
  return r;
}
cpp_int Value(const BigUInt& v) {
  size_t n = v.used_words();
  SIM_CHECK(n >= 1 && n < 100000, "biguint:bad-size", "used_words=%zu", n);
  cpp_int r = 0;
  for (size_t i = n; i-- > 0;) {
    r <<= 64;
    r |= v.word(i).low_uint64();
  }
  return r;
}
std::string Str(const cpp_int& v) {
  std::string s = v.str();
  if (s.size() > 200) s = s.substr(0, 100) + "..." + s.substr(s.size() - 80);
  return s;
}
size_t Bits(const cpp_int& v) {
  if (v == 0) return 0;
  return boost::multiprecision::msb(v < 0 ? cpp_int(-v) : v) + 1;
}

struct Cell {
  std::unique_ptr<BigInt> v;
  cpp_int m;
  bool known = true;  // false: unspecified (moved from, failed assignment)
};
struct UCell {
  std::unique_ptr<BigUInt> v;
  cpp_int m;
  bool known = true;
};

void Generate(Rng& rng, Plan& plan, bool thorough) {
  plan.Add(kOpHeap, {rng.Range(0, 4), rng.Range(0, 1 << 20),
                     rng.Pick({0, 0xff, 0xa5, 1, 0x80, 300, 999}),
                     rng.Pick({0, 0xff, 0xdd, 500})});
  plan.Add(kOpStack, {rng.Range(0, 255)});
  int max_words = rng.Pick({2, 3, 4, 6, 10, 24});
  if (thorough && rng.Chance(1, 20)) max_words = 150;
  bool faults = rng.Chance(1, 2);
  bool alias_bias = rng.Chance(1, 3);
  int n = static_cast<int>(rng.Range(20, thorough ? 400 : 160));
  // Swarm: a random subset of operations is enabled.
  std::vector<int> enabled;
  for (int c = kOpFirstHarness; c < kEnd; ++c)
    if (rng.Chance(2, 3)) enabled.push_back(c);
  enabled.push_back(kSetPow);
  enabled.push_back(kSetWords);
  enabled.push_back(kAdd);
  static const int64_t bits[] = {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 126, 127,
    128, 129, 190, 191, 192, 193, 255, 256, 257, 319, 320, 511, 512, 700};
  for (int i = 0; i < n; ++i) {
    int code;
    if (i < kPool) code = rng.Pick({kSetSmall, kSetPow, kSetPow, kSetWords});
    else if (rng.Chance(1, 5)) code = rng.Pick({kSetSmall, kSetPow, kSetPow, kSetWords});
    else code = enabled[rng.Below(enabled.size())];
    int64_t d = rng.Range(0, kPool - 1), a = rng.Range(0, kPool - 1),
            b = rng.Range(0, kPool - 1);
    if (i < kPool) d = i;
    if (alias_bias && rng.Chance(1, 2)) {
      if (rng.Chance(1, 2)) a = d;
      if (rng.Chance(1, 2)) b = d;
    }
    int64_t x = 0, y = 0;
    switch (code) {
      case kSetSmall: case kAddEqInt: case kSubEqInt: case kMulInt:
      case kAddInt: case kSubInt: case kDivInt: case kAssignWord:
      case kMulEqInt: case kIntMul: case kMulWord: {
        static const int64_t small[] = {0, 1, -1, 2, -2, 3, 10, INT32_MAX,
          INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, INT64_MAX, INT64_MIN,
          INT64_MAX - 1, INT64_MIN + 1, 1ll << 32, -(1ll << 32),
          (1ll << 31), (1ll << 31) + 1, -(1ll << 31) - 1, 1ll << 62};
        x = rng.Chance(1, 2) ? rng.Pick(small)
                             : static_cast<int64_t>(rng.Next() >> rng.Below(64));
        break;
      }
      case kSetPow:
        x = rng.Pick(bits);
        if (x > max_words * 64) x = max_words * 64 - rng.Range(0, 2);
        y = rng.Pick({0, 0, 1, -1, 2, -2, 5});
        b = rng.Range(0, 1);
        break;
      case kSetWords:
        x = rng.Range(1, max_words);
        y = rng.Range(0, 1 << 30);
        break;
      case kShl: case kUShl: case kUAddShifted: case kUSubShifted:
        x = rng.Chance(1, 2) ? rng.Pick(bits) : rng.Range(0, 64 * max_words);
        y = static_cast<int64_t>(rng.Next() >> rng.Below(64));
        break;
      case kMaxValue: case kMinValue:
        x = rng.Chance(1, 2) ? rng.Pick(bits) : rng.Range(0, 64 * max_words);
        break;
      case kUMul:
        x = static_cast<int64_t>(rng.Next() >> rng.Below(64));
        break;
      case kDeterminant:
        x = rng.Range(0, kPool - 1);
        y = rng.Range(0, kPool - 1);
        break;
      default:
        x = rng.Range(0, 63);
        y = rng.Range(0, 63);
        break;
    }
    int64_t fm = 0, fn = 0, fk = 0;
    if (faults && rng.Chance(1, 4)) {
      fm = rng.Pick({(int)kAfNth, (int)kAfNth, (int)kAfNth, (int)kAfFrom,
                     (int)kAfWindow, (int)kAfRandom, (int)kAfSize});
      fn = rng.Pick({1, 1, 1, 2, 2, 3, 4, 6, 9});
      if (fm == kAfSize) fn = rng.Pick({1, 20, 40, 100});
      fk = rng.Range(1, 3);
    }
    if (fm) plan.Add(code, {d, a, b, x, y, fm, fn, fk});
    else plan.Add(code, {d, a, b, x, y});
  }
}

struct World {
  Cell pool[kPool];
  UCell upool[kUPool];
  std::vector<BigInt> vec;       // built by the code under test's moves/copies
  std::vector<cpp_int> vec_m;
  bool vec_known = true;

  World() {
    for (Cell& c : pool) { Sut s; c.v = std::make_unique<BigInt>(); }
    for (UCell& c : upool) { Sut s; c.v = std::make_unique<BigUInt>(); }
  }
  ~World() {
    Sut s;
    for (Cell& c : pool) c.v.reset();
    for (UCell& c : upool) c.v.reset();
    std::vector<BigInt>().swap(vec);
  }
  void CheckAll(const char* after) {
    for (int i = 0; i < kPool; ++i) {
      if (!pool[i].known) continue;
      cpp_int got = Value(*pool[i].v);
      SIM_CHECK(got == pool[i].m, "bigint:wrong-value",
                "after %s: slot %d is %s, exact value %s", after, i,
                Str(got).c_str(), Str(pool[i].m).c_str());
    }
    for (int i = 0; i < kUPool; ++i) {
      if (!upool[i].known) continue;
      cpp_int got = Value(*upool[i].v);
      SIM_CHECK(got == upool[i].m, "biguint:wrong-value",
                "after %s: unsigned slot %d is %s, exact value %s", after, i,
                Str(got).c_str(), Str(upool[i].m).c_str());
    }
    if (vec_known) {
      SIM_CHECK(vec.size() == vec_m.size(), "bigint:vector-size",
                "after %s: %zu elements, expected %zu", after, vec.size(),
                vec_m.size());
      for (size_t i = 0; i < vec.size(); ++i) {
        cpp_int got = Value(vec[i]);
        SIM_CHECK(got == vec_m[i], "bigint:wrong-value",
                  "after %s: vector element %zu is %s, exact value %s", after,
                  i, Str(got).c_str(), Str(vec_m[i]).c_str());
      }
    }
  }
};

int Sign(const cpp_int& v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
int Sign64(int64_t v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }

void Execute(const Plan& plan) {
  World w;
  uint64_t fired_total = 0;
  int executed = 0;
  for (size_t oi = 0; oi < plan.ops.size(); ++oi) {
    const Op& op = plan.ops[oi];
    if (op.code < kOpFirstHarness) continue;
    CurrentOp(static_cast<int>(oi));
    auto idx = [&](size_t k, int n) {
      return static_cast<int>(static_cast<uint64_t>(op.arg(k)) % n);
    };
    int di = idx(0, kPool), ai = idx(1, kPool), bi = idx(2, kPool);
    Cell &d = w.pool[di], &a = w.pool[ai], &b = w.pool[bi];
    UCell &ud = w.upool[di % kUPool], &ua = w.upool[ai % kUPool],
          &ub = w.upool[bi % kUPool];
    const int64_t x = op.arg(3), y = op.arg(4);
    const int fm = static_cast<int>(op.arg(5)) % 6;
    const char* name = kNames[op.code - kOpFirstHarness];

    bool skip = false;
    bool need_a = false, need_b = false, need_d = false, need_ua = false,
         need_ub = false, need_ud = false;
    bool writes_d = true, writes_ud = false, writes_vec = false;
    Cell* writes_extra = nullptr;
    UCell* writes_uextra = nullptr;
    cpp_int md = d.m, mud = ud.m, mextra, muextra;
    std::vector<cpp_int> mvec;
    bool extra_set = false, uextra_set = false;
    // After a move the source is unspecified.
    Cell* moved_from = nullptr;

    switch (op.code) {
      case kSetSmall: case kAssignWord: md = x; break;
      case kSetPow: {
        unsigned e = static_cast<uint64_t>(x) % 4096;
        md = (cpp_int(1) << e) + y;
        if (op.arg(2)) md = -md;
        break;
      }
      case kSetWords: {
        Rng r(y);
        md = 0;
        int n = static_cast<int>(static_cast<uint64_t>(x) % 200) + 1;
        for (int i = 0; i < n; ++i) {
          uint64_t word = r.Next();
          switch (r.Below(5)) {
            case 0: word = 0; break;
            case 1: word = ~0ull; break;
            case 2: word &= 0x8000000000000001ull; break;
          }
          md = (md << 64) | word;
        }
        if (y & 1) md = -md;
        break;
      }
      case kCopyCtor: case kCopyAssign: need_a = true; md = a.m; break;
      case kMoveAssign: case kMoveCtor:
        need_a = true; md = a.m; moved_from = &a;
        // std::move of an object to itself leaves it unspecified
        break;
      case kSwap:
        need_a = need_d = true;
        md = a.m; mextra = d.m; extra_set = true; writes_extra = &a;
        if (&a == &d) { writes_extra = nullptr; extra_set = false; }
        break;
      case kAdd: need_a = need_b = true; md = a.m + b.m; break;
      case kSub: need_a = need_b = true; md = a.m - b.m; break;
      case kMul: need_a = need_b = true;
        if (Bits(a.m) + Bits(b.m) > 16000) skip = true; else md = a.m * b.m;
        break;
      case kDiv: need_a = need_b = true;
        if (b.m == 0) skip = true; else md = a.m / b.m;
        break;
      case kMod: need_a = need_b = true;
        if (b.m == 0) skip = true; else md = a.m % b.m;
        break;
      case kDivRem: {
        // The remainder output must be another object than the operands.
        int ri = static_cast<int>(static_cast<uint64_t>(x) % kPool);
        Cell& r = w.pool[ri];
        need_a = need_b = true;
        if (b.m == 0 || &r == &a || &r == &b || &r == &d) skip = true;
        else {
          md = a.m / b.m; mextra = a.m % b.m; extra_set = true;
          writes_extra = &r;
        }
        break;
      }
      case kAddMul: case kSubMul:
        need_a = need_b = need_d = true;
        if (Bits(a.m) + Bits(b.m) > 16000) skip = true;
        else md = op.code == kAddMul ? cpp_int(d.m + a.m * b.m)
                                     : cpp_int(d.m - a.m * b.m);
        break;
      case kAddEq: need_a = need_d = true; md = d.m + a.m; break;
      case kSubEq: need_a = need_d = true; md = d.m - a.m; break;
      case kMulEq: need_a = need_d = true;
        if (Bits(a.m) + Bits(d.m) > 16000) skip = true; else md = d.m * a.m;
        break;
      case kDivEq: need_a = need_d = true;
        if (a.m == 0) skip = true; else md = d.m / a.m;
        break;
      case kInc: need_d = true; md = d.m + 1; break;
      case kDec: need_d = true; md = d.m - 1; break;
      case kNegate: need_d = true; md = -d.m; break;
      case kUnaryMinus: need_a = true; md = -a.m; break;
      case kAbs: case kGetAbs: need_a = true; md = a.m < 0 ? cpp_int(-a.m) : a.m; break;
      case kShl: need_a = true;
        if (Bits(a.m) > 8000) skip = true;
        else {
          // Bitwise shift of a two's complement number = multiplication.
          md = a.m;
          md *= cpp_int(1) << (static_cast<uint64_t>(x) % 2048);
        }
        break;
      case kCompare: case kPredicates: need_a = need_b = true; writes_d = false; break;
      case kGcd: need_a = need_b = true;
        if (Bits(a.m) > 1024 || Bits(b.m) > 1024) skip = true;
        else md = boost::multiprecision::gcd(a.m, b.m);
        break;
      case kAddEqInt: need_d = true; md = d.m + static_cast<int32_t>(x); break;
      case kSubEqInt: need_d = true; md = d.m - static_cast<int32_t>(x); break;
      case kMulEqInt: need_d = true; md = d.m * static_cast<int32_t>(x);
        if (Bits(md) > 16000) skip = true;
        break;
      case kMulInt: case kIntMul: need_a = true; md = a.m * static_cast<int32_t>(x);
        if (Bits(md) > 16000) skip = true;
        break;
      case kMulWord: need_a = true; md = a.m * x;
        if (Bits(md) > 16000) skip = true;
        break;
      case kAddInt: need_a = true; md = a.m + static_cast<int32_t>(x); break;
      case kSubInt: need_a = true; md = a.m - static_cast<int32_t>(x); break;
      case kDivInt: need_a = true;
        if (static_cast<int32_t>(x) == 0) skip = true;
        else md = a.m / static_cast<int32_t>(x);
        break;
      case kMaxValue: md = (cpp_int(1) << (static_cast<uint64_t>(x) % 4096)) - 1; break;
      case kMinValue: md = -(cpp_int(1) << (static_cast<uint64_t>(x) % 4096)); break;
      case kDeterminant: {
        Cell &c = w.pool[static_cast<uint64_t>(x) % kPool],
             &e = w.pool[static_cast<uint64_t>(y) % kPool];
        need_a = need_b = true;
        if (!c.known || !e.known || Bits(a.m) + Bits(e.m) > 16000 ||
            Bits(b.m) + Bits(c.m) > 16000) skip = true;
        else md = a.m * e.m - b.m * c.m;
        break;
      }
      case kToString: need_a = true; writes_d = false;
        if (Bits(a.m) > 1500) skip = true;
        break;
      case kVecPush:
        need_a = true; writes_d = false; writes_vec = true;
        if (!w.vec_known) { w.vec_m.clear(); }
        if (w.vec_known && w.vec.size() > 24) skip = true;
        break;
      case kVecErase: case kVecSort: writes_d = false; writes_vec = true;
        if (w.vec.empty() || !w.vec_known) skip = true;
        break;
      case kVecInsert: need_a = true; writes_d = false; writes_vec = true;
        if (!w.vec_known || w.vec.size() > 24) skip = true;
        break;
      case kVecReserve: writes_d = false; writes_vec = true;
        if (!w.vec_known) skip = true;
        break;
      case kUFromAbs: need_a = true; writes_d = false; writes_ud = true;
        mud = a.m < 0 ? cpp_int(-a.m) : a.m;
        break;
      case kUShl: need_ua = true; writes_d = false; writes_ud = true;
        if (Bits(ua.m) > 8000) skip = true;
        else mud = ua.m << (static_cast<uint64_t>(x) % 2048);
        break;
      case kUSub: need_ua = need_ub = true; writes_d = false; writes_ud = true;
        if (ua.m < ub.m) skip = true; else mud = ua.m - ub.m;
        break;
      case kUMul: need_ua = true; writes_d = false; writes_ud = true;
        mud = ua.m * static_cast<uint64_t>(x);
        if (Bits(mud) > 16000) skip = true;
        break;
      case kUDivRem: {
        need_ua = need_ub = true; writes_d = false; writes_ud = true;
        UCell& r = w.upool[static_cast<uint64_t>(x) % kUPool];
        if (ub.m == 0 || &r == &ua || &r == &ub || &r == &ud) skip = true;
        else {
          mud = ua.m / ub.m; muextra = ua.m % ub.m; uextra_set = true;
          writes_uextra = &r;
        }
        break;
      }
      case kUCompare: need_ua = need_ub = true; writes_d = false; break;
      case kUToInt: need_ua = true; md = ua.m; break;
      case kUAddShifted: need_ud = true; writes_d = false; writes_ud = true;
        if (Bits(ud.m) > 8000) skip = true;
        else mud = ud.m + (cpp_int(static_cast<uint64_t>(y)) << (static_cast<uint64_t>(x) % 2048));
        break;
      case kUSubShifted: need_ud = need_ua = true; writes_d = false; writes_ud = true;
        if (Bits(ua.m) > 8000 || &ua == &ud) { skip = true; break; }
        mud = ud.m - (ua.m << (static_cast<uint64_t>(x) % 2048));
        if (mud < 0) skip = true;
        break;
      case kUShr: need_ud = true; writes_d = false; writes_ud = true;
        mud = ud.m >> 64;
        break;
      case kUAssign: need_ua = true; writes_d = false; writes_ud = true; mud = ua.m; break;
      default: skip = true;
    }
    if ((need_a && !a.known) || (need_b && !b.known) || (need_d && !d.known) ||
        (need_ua && !ua.known) || (need_ub && !ub.known) ||
        (need_ud && !ud.known))
      skip = true;
    if (skip) continue;
    ++executed;

    // What the code under test is asked to do.
    bool threw = false;
    BigInt* D = d.v.get();
    const BigInt& A = *a.v;
    const BigInt& B = *b.v;
    BigUInt* UD = ud.v.get();
    const BigUInt& UA = *ua.v;
    const BigUInt& UB = *ub.v;
    int cmp[16] = {0};
    std::string text;
    bool flag = false;
    bool weird = false;
    if (fm) ArmAllocFault(fm, op.arg(6), op.arg(7));
    try {
      Sut s;
      switch (op.code) {
        case kSetSmall: *D = BigInt(walnut::BigIntWord{x}); break;
        case kAssignWord: *D = walnut::BigIntWord{x}; break;
        case kSetPow: case kSetWords: {
          // Built from parts with the public operations.
          cpp_int t = md < 0 ? cpp_int(-md) : md;
          std::vector<uint64_t> words;
          { Host h; while (t != 0) { words.push_back(static_cast<uint64_t>(t & cpp_int(~0ull))); t >>= 64; } }
          BigInt r(0);
          for (size_t i = words.size(); i-- > 0;) {
            r = r << 32;
            r += BigInt(static_cast<int64_t>(words[i] >> 32));
            r = r << 32;
            r += BigInt(static_cast<int64_t>(words[i] & 0xffffffffu));
          }
          if (md < 0) r.Negate();
          *D = r;
          { Host h; std::vector<uint64_t>().swap(words); t = 0; }
          break;
        }
        case kCopyCtor: { auto p = std::make_unique<BigInt>(A); d.v = std::move(p); D = d.v.get(); break; }
        case kCopyAssign: *D = A; break;
        case kMoveAssign: *D = std::move(*a.v); break;
        case kMoveCtor: {
          auto p = std::make_unique<BigInt>(std::move(*a.v));
          d.v = std::move(p);
          break;
        }
        case kSwap: std::swap(*D, *a.v); break;
        case kAdd: *D = A + B; break;
        case kSub: *D = A - B; break;
        case kMul: *D = A * B; break;
        case kDiv: *D = A / B; break;
        case kMod: *D = A % B; break;
        case kDivRem: *D = A.DivideRemainder(B, writes_extra->v.get()); break;
        case kAddMul: D->AddMultiply(A, B); break;
        case kSubMul: D->SubtractMultiply(A, B); break;
        case kAddEq: *D += A; break;
        case kSubEq: *D -= A; break;
        case kMulEq: *D *= A; break;
        case kDivEq: *D /= A; break;
        case kInc: ++*D; break;
        case kDec: --*D; break;
        case kNegate: D->Negate(); break;
        case kUnaryMinus: *D = -A; break;
        case kAbs: *D = A.abs(); break;
        case kGetAbs: *D = A.GetAbs(flag); weird = flag != (a.m < 0) && &a != &d; break;
        case kShl: *D = A << (static_cast<uint64_t>(x) % 2048); break;
        case kCompare:
          cmp[0] = A.Compare(B); cmp[1] = A < B; cmp[2] = A <= B; cmp[3] = A > B;
          cmp[4] = A >= B; cmp[5] = A == B; cmp[6] = A != B;
          cmp[7] = A.LessThan(false, B); cmp[8] = A.LessThan(true, B);
          cmp[9] = A.GetHash() == B.GetHash();
          break;
        case kPredicates: {
          int32_t i = static_cast<int32_t>(op.arg(3) ^ (op.arg(4) << 20));
          cmp[0] = A < i; cmp[1] = A <= i; cmp[2] = A > i; cmp[3] = A >= i;
          cmp[4] = A == i; cmp[5] = A != i;
          cmp[6] = Sign64(A.GetSign()); cmp[7] = A.IsZero(); cmp[8] = A.IsNegative();
          cmp[9] = A.GetAbsMult(); cmp[10] = A.GetAbsMult(B);
          cmp[11] = A.HasSameSign(B); cmp[12] = A.HasDifferentSign(B);
          cmp[13] = static_cast<int>(A.SignExtension());
          cmp[14] = A.IsHalfWord();
          cmp[15] = BigInt::AllHalfWords(A, B);
          break;
        }
        case kGcd: *D = A.GetGreatestCommonDivisor(B); break;
        case kAddEqInt: *D += static_cast<walnut::BigIntHalfWord>(x); break;
        case kSubEqInt: *D -= static_cast<walnut::BigIntHalfWord>(x); break;
        case kMulEqInt: *D *= static_cast<int>(x); break;
        case kMulInt: *D = A * static_cast<int>(x); break;
        case kIntMul: *D = static_cast<int>(x) * A; break;
        case kMulWord: *D = A * walnut::BigIntWord{x}; break;
        case kAddInt: *D = A + static_cast<int>(x); break;
        case kSubInt: *D = A - static_cast<int>(x); break;
        case kDivInt: *D = A / static_cast<int>(x); break;
        case kMaxValue: *D = BigInt::max_value(static_cast<uint64_t>(x) % 4096); break;
        case kMinValue: *D = BigInt::min_value(static_cast<uint64_t>(x) % 4096); break;
        case kDeterminant:
          *D = BigInt::Determinant(A, B, *w.pool[static_cast<uint64_t>(x) % kPool].v,
                                   *w.pool[static_cast<uint64_t>(y) % kPool].v);
          break;
        case kToString: {
          std::ostringstream out;
          out.exceptions(std::ios::badbit);
          out << A;
          std::string t = out.str();
          Host h;
          text = std::string(t.c_str());
          break;
        }
        case kVecPush:
          if (!w.vec_known) { w.vec.clear(); w.vec_known = true; }
          w.vec.push_back(A);
          break;
        case kVecErase: w.vec.erase(w.vec.begin() + static_cast<uint64_t>(x) % w.vec.size()); break;
        case kVecSort:
          if (x & 1) std::sort(w.vec.begin(), w.vec.end());
          else std::sort(w.vec.begin(), w.vec.end(), BigInt::FlippableCompare(y & 1));
          break;
        case kVecInsert: w.vec.insert(w.vec.begin() + static_cast<uint64_t>(x) % (w.vec.size() + 1), A); break;
        case kVecReserve: w.vec.reserve(w.vec.size() + static_cast<uint64_t>(x) % 16); if (y & 1) w.vec.shrink_to_fit(); break;
        case kUFromAbs: { BigUInt t = A.GetUIntAbs(&flag); *UD = t; weird = flag != (a.m < 0); break; }
        case kUShl: *UD = UA << (static_cast<uint64_t>(x) % 2048); break;
        case kUSub: *UD = UA.Subtract(UB); break;
        case kUMul: *UD = UA.Multiply(BigUIntWord{static_cast<uint64_t>(x)}); break;
        case kUDivRem: *UD = UA.DivideRemainder(UB, writes_uextra->v.get()); break;
        case kUCompare: cmp[0] = UA >= UB; break;
        case kUToInt: if (x & 1) *D = BigInt(UA); else *D = UA; break;
        case kUAddShifted: UD->AddLeftShifted(BigUIntWord{static_cast<uint64_t>(y)}, static_cast<uint64_t>(x) % 2048); break;
        case kUSubShifted: UD->SubtractLeftShifted(UA, static_cast<uint64_t>(x) % 2048); break;
        case kUShr: UD->ShiftRightWord(); break;
        case kUAssign: *UD = UA; break;
      }
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    uint64_t fired = fm ? DisarmAllocFault() : 0;
    fired_total += fired;
    static const char* const fault_names[] = {"none", "alloc:nth", "alloc:window",
      "alloc:persistent", "alloc:random", "alloc:size-limit"};
    if (fired) FaultFired(fault_names[fm], fired);
    SIM_CHECK(!threw || fired, "alloc:spurious-bad-alloc",
              "%s threw bad_alloc although no allocation failed", name);
    SIM_CHECK(!(fired && !threw) || op.code == kVecSort || op.code == kVecReserve, "alloc:swallowed",
              "%s: %llu allocations failed and no bad_alloc reached the caller",
              name, (unsigned long long)fired);
    SIM_CHECK(!weird || threw, "bigint:wrong-sign-flag", "%s", name);
    if (threw) {
      Probe("op-aborted-by-bad-alloc");
      if (writes_d) d.known = false;
      if (writes_ud) ud.known = false;
      if (writes_extra) writes_extra->known = false;
      if (writes_uextra) writes_uextra->known = false;
      if (moved_from) moved_from->known = false;
      if (writes_vec) w.vec_known = false;
      Event(0xbad);
    } else {
      if (writes_d) { d.m = md; d.known = true; }
      if (writes_ud) { ud.m = mud; ud.known = true; }
      if (extra_set) { writes_extra->m = mextra; writes_extra->known = true; }
      if (uextra_set) { writes_uextra->m = muextra; writes_uextra->known = true; }
      if (moved_from) {
        if (moved_from == &d && op.code == kMoveAssign) d.known = false;
        else if (moved_from != &d) moved_from->known = false;
        Probe("moved-from");
      }
      if (writes_vec) {
        Host h;
        switch (op.code) {
          case kVecPush: w.vec_m.push_back(a.m); break;
          case kVecErase: w.vec_m.erase(w.vec_m.begin() + static_cast<uint64_t>(x) % w.vec_m.size()); break;
          case kVecSort:
            std::sort(w.vec_m.begin(), w.vec_m.end());
            if (!(x & 1) && (y & 1)) std::reverse(w.vec_m.begin(), w.vec_m.end());
            break;
          case kVecInsert: w.vec_m.insert(w.vec_m.begin() + static_cast<uint64_t>(x) % (w.vec_m.size() + 1), a.m); break;
        }
      }
      switch (op.code) {
        case kCompare: {
          int c = a.m < b.m ? -1 : a.m > b.m ? 1 : 0;
          int want[9] = {c, c < 0, c <= 0, c > 0, c >= 0, c == 0, c != 0, c < 0, c > 0};
          for (int i = 0; i < 9; ++i) {
            int got = i == 0 ? Sign64(cmp[0]) : cmp[i];
            SIM_CHECK(got == want[i], "bigint:wrong-comparison",
                      "comparison %d of %s and %s gave %d", i,
                      Str(a.m).c_str(), Str(b.m).c_str(), got);
          }
          SIM_CHECK(c != 0 || cmp[9], "bigint:wrong-hash", "equal values hash differently: %s", Str(a.m).c_str());
          break;
        }
        case kPredicates: {
          int32_t i = static_cast<int32_t>(op.arg(3) ^ (op.arg(4) << 20));
          int c = a.m < i ? -1 : a.m > i ? 1 : 0;
          bool half = a.m >= INT32_MIN && a.m <= INT32_MAX;
          bool halfb = b.m >= INT32_MIN && b.m <= INT32_MAX;
          int an = a.m < 0, bn = b.m < 0;
          int want[16] = {c < 0, c <= 0, c > 0, c >= 0, c == 0, c != 0, Sign(a.m),
            a.m == 0, an, an ? -1 : 1, an != bn ? -1 : 1, an == bn, an != bn,
            an ? -1 : 0, half, half && halfb};
          for (int k = 0; k < 16; ++k)
            SIM_CHECK(cmp[k] == want[k], "bigint:wrong-predicate",
                      "predicate %d of %s (and %s, %d) gave %d", k,
                      Str(a.m).c_str(), Str(b.m).c_str(), i, cmp[k]);
          break;
        }
        case kUCompare:
          SIM_CHECK((cmp[0] != 0) == (ua.m >= ub.m), "biguint:wrong-comparison",
                    "%s >= %s gave %d", Str(ua.m).c_str(), Str(ub.m).c_str(), cmp[0]);
          break;
        case kToString:
          SIM_CHECK(text == a.m.str(), "bigint:wrong-text", "%s printed as %s",
                    Str(a.m).c_str(), text.c_str());
          break;
        case kGcd:
          // The sign of the gcd is not specified.
          if (Value(*d.v) == -d.m) d.m = -d.m;
          break;
      }
    }
    w.CheckAll(name);
    uint64_t h = Mix(op.code) ^ (threw ? 99 : 0);
    for (Cell& c : w.pool) h = Mix(h ^ (c.known ? HashBytes("k", 1) ^ static_cast<uint64_t>(c.m & cpp_int(0xffffffffull)) ^ Bits(c.m) : 7));
    Event(h);
    State(Mix(op.code * 64 + Bits(a.m) / 32 * 1024 + Bits(b.m) / 32 * 65536 + (ai == di) * 3 + (bi == di) * 5 + threw * 11 + (a.m < 0) * 17 + (b.m < 0) * 31));
    Signature(Mix(op.code) ^ Mix(op.arg(0) * 64 + op.arg(1) * 8 + op.arg(2)) ^ (threw ? 5 : 0));
  }
  if (executed >= 5) NonTrivial();
}

}  // namespace

const sim::Harness sim::harness = {
  "C06", kNames, kEnd - kOpFirstHarness, Generate, Execute,
  "walnut BigInt, BigUInt, BigIntWords, BigUIntWord (include/walnut, src/walnut/big_int.cpp)",
  "allocator replaced by the simulated heap; oracle: boost cpp_int",
  "a run is a seeded history of 20-160 operations (aliased operands, moves, vector relocation, allocation faults) on a pool of 8 signed and 4 unsigned integers with boundary-biased values; non-trivial: at least 5 operations executed; distinct by operation/operand/outcome sequence",
  400000000ull, true, 60000, 1500000};
