// Exact geometry for generators and oracles. Independent of the code under
// test: numbers are exchanged as two's complement little-endian words.
#ifndef SIM_GEOM_H_
#define SIM_GEOM_H_

#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "sim.h"

namespace sim {
namespace geom {

// Two's complement, little endian, sign extended from the top word.
using Num = std::vector<uint64_t>;
Num FromI64(int64_t v);
int SignOf(const Num& n);
std::string ToString(const Num& n);
bool Equal(const Num& a, const Num& b);
Num Mul(const Num& a, const Num& b);
Num Add(const Num& a, const Num& b);
Num Neg(const Num& a);

struct Pt {  // homogeneous
  Num x, y, z, w;
};
struct Plane {  // a x + b y + c z = d; the normal points to the positive side
  Num a, b, c, d;
};
struct Facet {
  Plane plane;
  std::vector<Pt> pts;
  int drop = 2;
};
using Mesh = std::vector<Facet>;

std::string ToString(const Pt& p);
std::string ToString(const Facet& f);

// ------------------------------------------------------------ generators
// A solid is a closed mesh; several components are allowed.
struct Scene {
  // Placement applied to every solid of the scene: an integer matrix, a scale
  // and a translation.
  int64_t m[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  int scale_bits = 0;
  int64_t t[3] = {0, 0, 0};
  int t_bits = 0;
};
Scene MakeScene(uint64_t seed, int style);
// kind: see geom.cpp. The result is oriented counter-clockwise seen from
// outside unless `invert`. Coordinates before placement are small integers,
// so that different solids often share planes, edges and vertices.
constexpr int kSolidKinds = 19;
Mesh MakeSolid(int kind, uint64_t seed, const Scene& scene, bool invert);
const char* SolidKindName(int kind);
// Changes the representation without changing the surface: splits facets,
// scales homogeneous coordinates and planes, rotates vertex order, inserts
// collinear vertices (flags bit 0..3).
void Perturb(Mesh& mesh, uint64_t seed, int flags);
void InvertMesh(Mesh& mesh);
void Shuffle(Mesh& mesh, uint64_t seed);

// ------------------------------------------------------------ analysis
// Empty if fine. strict: no collinear vertices. Checks planarity, convexity,
// orientation against the plane normal, distinct consecutive vertices.
std::string CheckFacet(const Facet& f, bool strict);
std::string CheckFacets(const Mesh& m, bool strict);

// A value that depends only on the signed 2-chain the mesh represents
// (invariant under subdivision and facet order; 0 for the empty chain). Facets
// on the same plane but with opposite orientation are kept apart.
uint64_t ChainHash(const Mesh& m);
// Same, but opposite facets on one plane cancel, so the value is additive:
// a linear image of the 2-chain.
uint64_t ChainHashU(const Mesh& m);
// 0 iff the surface is closed (as a chain).
uint64_t BoundaryHash(const Mesh& m);
// Six times the enclosed volume, in a prime field.
uint64_t VolumeHash(const Mesh& m);
uint64_t FieldAdd(uint64_t a, uint64_t b);
uint64_t FieldSub(uint64_t a, uint64_t b);
uint64_t FieldMul(uint64_t a, uint64_t b);
uint64_t FieldOf(const Num& n);
// Field image of x/w, y/w, z/w hashed together: equal for equal points.
uint64_t PointKey(const Pt& p);
// Equal for planes with the same oriented half-space.
uint64_t PlaneKey(const Plane& p);
uint64_t PlaneKeyU(const Plane& p);  // unoriented
// Sign of a x + b y + c z - d w, adjusted for the sign of w.
int PlaneSide(const Plane& p, const Pt& q);
// Are two directed segments on one line with opposite directions?
bool SamePoint(const Pt& a, const Pt& b);
// a->b and c->d lie on one line, overlap in more than a point and run in
// opposite directions.
bool SegmentsOppose(const Pt& a, const Pt& b, const Pt& c, const Pt& d);
// Twice the area vector component along `plane` normalised... (field image of
// sum of cross products dotted with a fixed random vector).
uint64_t AreaHash(const Mesh& m);
double ApproxSize(const Mesh& m);
long double ToLong(const Num& n);
// b - a, exact before rounding, up to a positive factor.
void Direction(const Pt& a, const Pt& b, long double* d);

// Winding number queries.
struct Prepared;
class Solid {
 public:
  Solid() = default;
  explicit Solid(const Mesh& m);
  // Winding number of the surface at q. Returns false if q could not be
  // decided (q lies on the surface).
  bool Winding(const Pt& q, int& winding) const;
  bool empty() const;
 private:
  std::shared_ptr<const Prepared> p_;
};

// A query point next to a vertex / inside facet of the mesh, displaced by a
// random vector whose length is about size * 2^-bits.
Pt NearVertex(const Mesh& m, Rng& rng, int bits);
Pt NearFacet(const Mesh& m, Rng& rng, int bits, bool other_side);
// A random point in the (slightly enlarged) box around the meshes.
Pt RandomPoint(const std::vector<const Mesh*>& ms, Rng& rng);

// Random plane: through random vertices of the mesh, or axis aligned, or free.
Plane RandomPlane(const std::vector<const Mesh*>& ms, Rng& rng, int style);
Pt Displace(const Pt& p, Rng& rng, long double length);

// Exact constructions.
// Plane through three points; false if they are collinear.
bool PlaneOf(const Pt& p, const Pt& q, const Pt& r, Plane& out);
// (na a + nb b) / (na + nb)
Pt Mix2(const Pt& a, const Pt& b, int64_t na, int64_t nb);
// a + s/den (b - a) + t/den ((b - a) x n), a point in the plane through a, b
// and the direction (b - a) x n; t > 0 lies outside of a counter-clockwise
// polygon with normal n and edge a -> b.
Pt OffEdge(const Pt& a, const Pt& b, const Plane& n, int64_t s, int64_t t, int64_t den);
// Sign of the difference of the components (dim 0-2) of a and b.
int CompareComponent(const Pt& a, const Pt& b, int dim);
// Sign of component dim of p minus num/den.
int CompareComponentTo(const Pt& p, int dim, const Num& num, const Num& den);
// Sign of (a . v) - (b . v).
int CompareAlong(const Pt& a, const Pt& b, const int64_t* v);
Pt Rescale(const Pt& p, int64_t k, int shift);
// The common point of three planes; false if there is no single one.
bool Meet3(const Plane& p, const Plane& q, const Plane& r, Pt& out);

}  // namespace geom
}  // namespace sim

#endif
