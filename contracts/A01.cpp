// A01: 3-vector algebra.  Every operation of class Vector against its textbook definition.
#include "common.h"
#include "vector.h"

static Vector vec(const char *n) { return Vector(nd_r1(n, 0), nd_r1(n, 1), nd_r1(n, 2)); }
static void same(Vector r, double x, double y, double z, const char *label) {
  vc_ensures_eq(r.x, x, label);
  vc_ensures_eq(r.y, y, label);
  vc_ensures_eq(r.z, z, label);
}

CONTRACT(vector_linear) {
  Vector a = vec("a"), b = vec("b");
  double s = nd_r("s");
  same(Vector(), 0, 0, 0, "default vector is zero");
  same(VectorZero, 0, 0, 0, "VectorZero");
  same(a + b, a.x + b.x, a.y + b.y, a.z + b.z, "sum");
  same(a - b, a.x - b.x, a.y - b.y, a.z - b.z, "difference");
  same(-a, -a.x, -a.y, -a.z, "negation");
  same(a * s, s * a.x, s * a.y, s * a.z, "scaling");
  same(a.square(), a.x * a.x, a.y * a.y, a.z * a.z, "square");
  vc_ensures_eq(dot(a, b), a.x * b.x + a.y * b.y + a.z * b.z, "dot");
  same(cross(a, b), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross");
  vc_ensures_eq(a.abs2nd(), a.x * a.x + a.y * a.y + a.z * a.z, "abs2nd");
  vc_ensures(a.isNull() == (a.x == 0 && a.y == 0 && a.z == 0), "isNull");
  // the operands are left alone
  same(a, nd_r1("a", 0), nd_r1("a", 1), nd_r1("a", 2), "left operand unchanged");
  same(b, nd_r1("b", 0), nd_r1("b", 1), nd_r1("b", 2), "right operand unchanged");
  vc_cover("end");
}

CONTRACT(vector_inplace) {
  Vector a = vec("a"), b = vec("b"), r;
  double s = nd_r("s");
  r = a; Vector *p = &(r += b);
  same(r, a.x + b.x, a.y + b.y, a.z + b.z, "in-place sum");
  vc_ensures(p == &r, "in-place sum returns its object");
  r = a; p = &(r -= b);
  same(r, a.x - b.x, a.y - b.y, a.z - b.z, "in-place difference");
  vc_ensures(p == &r, "in-place difference returns its object");
  r = a; p = &(r *= s);
  same(r, a.x * s, a.y * s, a.z * s, "in-place scaling");
  vc_ensures(p == &r, "in-place scaling returns its object");
  r = a; r += r;
  same(r, 2 * a.x, 2 * a.y, 2 * a.z, "self sum");
  r = a; r -= r;
  same(r, 0, 0, 0, "self difference");
  same(b, nd_r1("b", 0), nd_r1("b", 1), nd_r1("b", 2), "right operand unchanged");
  vc_cover("end");
}

CONTRACT(vector_division) {
  Vector a = vec("a");
  double s = nd_r("s");
  vc_requires(s != 0);
  same(a / s * s, a.x, a.y, a.z, "division");
  Vector r = a;
  Vector *p = &(r /= s);
  same(r, a.x / s, a.y / s, a.z / s, "in-place division");
  vc_ensures(p == &r, "in-place division returns its object");
  vc_cover("end");
}

CONTRACT(vector_root) {
  Vector a = vec("a");
  vc_requires(a.x >= 0 && a.y >= 0 && a.z >= 0);
  Vector r = a.root();
  same(r.square(), a.x, a.y, a.z, "root squared");
  vc_ensures(r.x >= 0 && r.y >= 0 && r.z >= 0, "root non-negative");
  vc_cover("end");
}

CONTRACT(vector_norm) {
  Vector a = vec("a");
  vc_ensures(a.norm() >= 0, "norm non-negative");
  vc_ensures_eq(a.norm() * a.norm(), dot(a, a), "norm squared");
  vc_requires(!a.isNull());
  double n = a.norm();
  Vector r = a;
  r.normalize();
  vc_ensures_eq(r.abs2nd(), 1.0, "normalized length");
  same(r * n, a.x, a.y, a.z, "normalized direction");
  vc_cover("end");
}

CONTRACT(vector_identities) {
  Vector a = vec("a"), b = vec("b"), c = vec("c");
  Vector k = cross(a, b);
  vc_ensures_eqs(dot(k, a), 0, a.abs2nd() * b.norm(), "cross product orthogonal to left operand");
  vc_ensures_eqs(dot(k, b), 0, b.abs2nd() * a.norm(), "cross product orthogonal to right operand");
  vc_ensures_eqs(dot(k, k), dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b), a.abs2nd() * b.abs2nd(), "Lagrange identity");
  Vector j = cross(b, a);
  same(j + k, 0, 0, 0, "cross product antisymmetric");
  vc_ensures_eqs(dot(a, cross(b, c)), dot(c, k), a.norm() * b.norm() * c.norm(), "triple product cyclic");
  vc_cover("end");
}

// transformation into a right-handed cartesian system
CONTRACT(vector_transform) {
  Vector a = vec("a"), ex = vec("ex"), ey = vec("ey"), ez = vec("ez");
  Vector r = a;
  r.transform(ex, ey, ez);
  same(r, dot(a, ex), dot(a, ey), dot(a, ez), "components along the axes");
  vc_cover("end");
}
// every right-handed orthonormal frame is the image of a non-zero quaternion
CONTRACT(vector_transform_axes) {
  double q0 = nd_r("q0"), q1 = nd_r("q1"), q2 = nd_r("q2"), q3 = nd_r("q3");
  double n = q0 * q0 + q1 * q1 + q2 * q2 + q3 * q3;
  vc_requires(n > 0);
  Vector ex = Vector((q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3) / n, 2 * (q1 * q2 + q0 * q3) / n, 2 * (q1 * q3 - q0 * q2) / n);
  Vector ey = Vector(2 * (q1 * q2 - q0 * q3) / n, (q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3) / n, 2 * (q2 * q3 + q0 * q1) / n);
  Vector ez = cross(ex, ey);
  double u = nd_r("u"), v = nd_r("v"), w = nd_r("w");
  Vector a = ex * u + ey * v + ez * w;
  Vector r = a;
  r.transform(ex, ey, ez);
  double sc = fabs(u) + fabs(v) + fabs(w);
  vc_ensures_eqs(r.x, u, sc, "first coordinate in an orthonormal frame");
  vc_ensures_eqs(r.y, v, sc, "second coordinate in an orthonormal frame");
  vc_ensures_eqs(r.z, w, sc, "third coordinate in an orthonormal frame");
  vc_ensures_eqs(r.abs2nd(), a.abs2nd(), sc * sc, "length preserved");
  vc_cover("end");
}
