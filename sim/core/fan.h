// A closed fan of triangles around a vertex that has several homogeneous and
// several floating-point representations. Included by harnesses only.
#ifndef SIM_FAN_H_
#define SIM_FAN_H_

#include <string>
#include <vector>

#include "sim.h"
#include "walnut/connected_polygon.h"
#include "walnut/edge_line_connector.h"

namespace sim {
using walnut::BigInt;
using walnut::ConnectedPolygon;
using walnut::Deed;
using walnut::EdgeLineConnector;
using walnut::HalfSpace3;
using walnut::HomoPoint3;

struct Fan {
  std::vector<ConnectedPolygon<>> tris;
  std::vector<HomoPoint3> centers;
  int n;
};

inline BigInt Odd(Rng& rng, int bits) {
  BigInt r(static_cast<int64_t>(rng.Next() >> 2));
  while (bits > 60) { r = (r << 60) + BigInt(static_cast<int64_t>(rng.Next() >> 4)); bits -= 60; }
  return (r << 1) + BigInt(1);
}

// Call in Sut mode.
inline void BuildFan(Fan& f, int n, uint64_t seed, int reps) {
  Rng rng(seed);
  f.n = n;
  // The centre lies half way between doubles in every coordinate.
  int64_t cx = (1ll << 53) + 2 * rng.Range(0, 1 << 20) + 1;
  int64_t cy = (1ll << 53) + 2 * rng.Range(0, 1 << 20) + 1;
  int64_t cz = (1ll << 53) + 2 * rng.Range(0, 1 << 20) + 1;
  // Sometimes a coordinate is zero, which has a negative floating-point
  // representation as well.
  const bool zero = rng.Chance(1, 4);
  if (zero) { cx = 0; Probe("zero-coordinate"); }
  std::vector<HomoPoint3> distinct;
  int want = reps;
  for (int t = 0; t < 200 && static_cast<int>(distinct.size()) < want; ++t) {
    BigInt s = t == 0 ? BigInt(1) : Odd(rng, 70 + static_cast<int>(rng.Below(150)));
    if (t != 0 && rng.Chance(1, 3)) s = -s;
    HomoPoint3 p(s * BigInt(walnut::BigIntWord{cx}), s * BigInt(walnut::BigIntWord{cy}),
                 s * BigInt(walnut::BigIntWord{cz}), s * BigInt(2));
    bool dup = false;
    for (const HomoPoint3& q : distinct) dup |= q.GetDoublePoint3() == p.GetDoublePoint3();
    if (zero && dup && rng.Chance(1, 4)) dup = false;
    if (!dup) distinct.push_back(p);
  }
  if (distinct.size() > 1) Probe("several-representations");
  if (distinct.size() > 3) Probe("four-or-more-representations");
  for (int i = 0; i < n; ++i) f.centers.push_back(distinct[rng.Below(distinct.size())]);
  // Ring points around the centre, counter-clockwise, in convex fan position.
  std::vector<HomoPoint3> ring;
  static const int dirs[12][2] = {{100, 0}, {87, 50}, {50, 87}, {0, 100}, {-50, 87}, {-87, 50},
                                  {-100, 0}, {-87, -50}, {-50, -87}, {0, -100}, {50, -87}, {87, -50}};
  for (int i = 0; i < n; ++i) {
    int k = n <= 3 ? i * 4 : i * 12 / n;
    ring.emplace_back(cx + dirs[k][0] * 2000, cy + dirs[k][1] * 2000, cz, 2);
  }
  HalfSpace3 plane(BigInt(0), BigInt(0), BigInt(2), BigInt(walnut::BigIntWord{cz}));
  f.tris.reserve(n);
  for (int i = 0; i < n; ++i)
    f.tris.emplace_back(plane, 2, std::vector<HomoPoint3>{ring[i], ring[(i + 1) % n], f.centers[i]});
  std::vector<Deed<ConnectedPolygon<>::EdgeRep>> edges;
  for (auto& t : f.tris) { edges.push_back(&t.edge(0)); edges.push_back(&t.edge(2)); }
  bool errored = false;
  EdgeLineConnector<> connector;
  connector.ConnectUnsorted(edges.begin(), edges.end(), 2, [&](const std::string&) { errored = true; });
  SIM_CHECK(!errored, "mapper:connect-error", "connecting a closed fan of %d triangles reported an error", n);
}

}  // namespace sim

#endif
