// L03: dipole fields
#include "particle_common.h"
#include "dipole.h"

static double side(const char *p, const char *n, Vector X) {
  return (X.x - nd_r1(p, 0)) * nd_r1(n, 0) + (X.y - nd_r1(p, 1)) * nd_r1(n, 1) + (X.z - nd_r1(p, 2)) * nd_r1(n, 2);
}
CONTRACT(hard_edge) {
  HardEdgeDipole d(vec1("b"), vec1("p1"), vec1("n1"), vec1("p2"), vec1("n2"));
  Vector X = vec1("x");
  GeneralField *g = &d;
  ElMagField f = g->Field(nd_r("t"), X);
  same(f.E(), Vector(0, 0, 0), "no electric field");
  if (side("p1", "n1", X) < 0 && side("p2", "n2", X) < 0) {
    same(f.B(), vec1("b"), "exactly the configured field inside of both edges");
    vc_cover("inside");
  } else {
    same(f.B(), Vector(0, 0, 0), "no field outside");
    vc_cover("outside");
  }
  same(d.GetB(), vec1("b"), "reported field");
}
CONTRACT(soft_edge_form) {
  SoftEdgeDipole d(vec1("b"), vec1("p1"), vec1("n1"), nd_r("t1"), vec1("p2"), vec1("n2"), nd_r("t2"));
  vc_requires(nd_r("t1") > 0 && nd_r("t2") > 0);
  Vector X = vec1("x");
  GeneralField *g = &d;
  ElMagField f = g->Field(nd_r("t"), X);
  same(f.E(), Vector(0, 0, 0), "no electric field");
  const double pi = 3.14159265358979323846;
  double s = 1.0 - (atan(2.0 * side("p1", "n1", X) / nd_r("t1")) / pi + 0.5) - (atan(2.0 * side("p2", "n2", X) / nd_r("t2")) / pi + 0.5);
  double sc = vec1("b").norm();
  vc_ensures_eqs(f.B().x, nd_r1("b", 0) * s, sc, "field along the configured vector with the edge profile");
  vc_ensures_eqs(f.B().y, nd_r1("b", 1) * s, sc, "field along the configured vector with the edge profile");
  vc_ensures_eqs(f.B().z, nd_r1("b", 2) * s, sc, "field along the configured vector with the edge profile");
  same(d.GetB(), vec1("b"), "reported field");
  vc_cover("end");
}
// strength of a unit field
static double strength(Vector X) {
  SoftEdgeDipole d(Vector(1, 0, 0), vec1("p1"), vec1("n1"), nd_r("t1"), vec1("p2"), vec1("n2"), nd_r("t2"));
  GeneralField *g = &d;
  return g->Field(nd_r("t"), X).B().x;
}
CONTRACT(soft_edge_bounded) {
  vc_requires(nd_r("t1") > 0 && nd_r("t2") > 0);
  double s = strength(vec1("x"));
  vc_ensures(s <= 1 + 1e-12, "at most the nominal field");
  vc_ensures(s >= -1 - 1e-12, "at most the nominal field in the opposite direction");
  vc_cover("end");
}
CONTRACT(soft_edge_monotonic) {
  double t1 = nd_r("t1"), t2 = nd_r("t2");
  vc_requires(t1 > 0 && t2 > 0);
  Vector X = vec1("x"), Y = vec1("y");
  double d1 = side("p1", "n1", X), d2 = side("p2", "n2", X);
  double e1 = side("p1", "n1", Y), e2 = side("p2", "n2", Y);
  vc_requires(d1 <= e1 && d2 <= e2);
  double sx = strength(X), sy = strength(Y);
  vc_assert(2.0 * d1 / t1 <= 2.0 * e1 / t1, "scaled distance from edge 1");
  vc_assert(2.0 * d2 / t2 <= 2.0 * e2 / t2, "scaled distance from edge 2");
  vc_math_atan(2.0 * d1 / t1, 2.0 * e1 / t1);
  vc_math_atan(2.0 * d2 / t2, 2.0 * e2 / t2);
  vc_ensures(sy <= sx + 1e-12, "the field does not rise with the distance outside of the edges");
  vc_cover("end");
}
CONTRACT(soft_edge_inside) {
  double t1 = nd_r("t1"), t2 = nd_r("t2");
  vc_requires(t1 > 0 && t2 > 0);
  Vector X = vec1("x");
  double d1 = 2.0 * side("p1", "n1", X) / t1, d2 = 2.0 * side("p2", "n2", X) / t2;
  vc_requires(d1 < 0 && d2 < 0);
  double s = strength(X);
  vc_math_atan(d1, d1);
  vc_math_atan(d2, d2);
  const double pi = 3.14159265358979323846;
  vc_ensures(s >= 1 + (1 / d1 + 1 / d2) / pi - 1e-12, "deep inside the field approaches the nominal field");
  vc_cover("end");
}
