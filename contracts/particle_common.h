// Construction of arbitrary particles through the public interface.
#pragma once
#include "common.h"
#include "vector.h"
#include "global.h"
#include "fields.h"
#include "particle.h"
static inline Vector vec1(const char *n) { return Vector(nd_r1(n, 0), nd_r1(n, 1), nd_r1(n, 2)); }
static inline Vector vec2(const char *n, long i) { return Vector(nd_r2(n, i, 0), nd_r2(n, i, 1), nd_r2(n, i, 2)); }
static inline void same(Vector r, Vector e, const char *label) {
  vc_ensures_eq(r.x, e.x, label);
  vc_ensures_eq(r.y, e.y, label);
  vc_ensures_eq(r.z, e.z, label);
}
// the given trajectory: time, position, momentum, acceleration of point i
static inline double gt(long i) { return nd_r1("t", i); }
static inline Vector gx(long i) { return vec2("x", i); }
static inline Vector gp(long i) { return vec2("p", i); }
static inline Vector ga(long i) { return vec2("a", i); }
// store points 0..n-1 (n>=1) into a particle
static inline void fill(ChargedParticle *c, long n) {
  c->initTrajectory(gt(0), gx(0), gp(0), ga(0));
  for (long i = 1; i < n; i++) c->storeTrajectoryPoint(gt(i), gx(i), gp(i), ga(i));
}
// an arbitrary field
struct AnyField : public GeneralField {
  long id;
  AnyField(long i) : id(i) {}
  bool is_external() { return true; }
  ElMagField Field(double t, Vector X) {
    return ElMagField(Vector(nd_f5("Ex", id, t, X.x, X.y, X.z), nd_f5("Ey", id, t, X.x, X.y, X.z), nd_f5("Ez", id, t, X.x, X.y, X.z)),
                      Vector(nd_f5("Bx", id, t, X.x, X.y, X.z), nd_f5("By", id, t, X.x, X.y, X.z), nd_f5("Bz", id, t, X.x, X.y, X.z)));
  }
};
