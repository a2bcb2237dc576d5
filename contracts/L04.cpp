// L04: undulator fields
#include "particle_common.h"
#include "undulator.h"

static const double pi = 3.14159265358979323846;
// amplitude factor along the device: one period of linear ramp on either side
static double ramp(double z, double l, long n) {
  double h = (n + 1) * l / 2;
  if (z < -h || z >= h) return 0;
  double s = 1;
  if (z < -h + l) s *= (z + h) / l;
  if (z >= h - l) s *= (h - z) / l;
  return s;
}
static double zz(double l, long n) { return vc_engine() ? nd_r1("x", 2) : nd_r1("x", 2) * l * (n + 1); }
static Vector place(double l, long n) {
  double s = vc_engine() ? 1.0 : l;
  // without rounding and overflow any height is fine
  vc_requires(vc_engine() || (fabs(nd_r1("x", 0)) < 5 && fabs(nd_r1("x", 1)) < 5));
  return Vector(nd_r1("x", 0) * s, nd_r1("x", 1) * s, zz(l, n));
}
static PlanarUndulator planar(long n) {
  PlanarUndulator u;
  vc_requires(nd_r("l") > 0);
  u.Setup(nd_r("b"), nd_r("l"), n);
  return u;
}
CONTRACT(planar_field) {
  long n = nd_n("n", 1, 1000000);
  PlanarUndulator u = planar(n);
  double l = nd_r("l"), b = nd_r("b"), k = 2 * pi / l;
  Vector X = place(l, n);
  GeneralField *g = &u;
  ElMagField f = g->Field(nd_r("t"), X);
  double s = ramp(X.z, l, n), sc = fabs(b) * cosh(k * X.y) * 1e4;
  same(f.E(), Vector(0, 0, 0), "no electric field");
  vc_ensures_eq(f.B().x, 0, "no horizontal field");
  vc_ensures_eqs(f.B().y, s * b * sin(k * X.z) * cosh(k * X.y), sc, "vertical field");
  vc_ensures_eqs(f.B().z, s * b * cos(k * X.z) * sinh(k * X.y), sc, "longitudinal field");
  if (X.z < -(n + 1) * l / 2 || X.z >= (n + 1) * l / 2) {
    same(f.B(), Vector(0, 0, 0), "no field beyond the ends");
    vc_cover("outside");
  } else vc_cover("inside");
}
CONTRACT(planar_parameter) {
  long n = nd_n("n", 1, 1000000);
  PlanarUndulator u = planar(n);
  double K = nd_r("b") * nd_r("l") * 299792458.0 / (2 * pi * 510998.95); // e B l / (2 pi m c)
  // mecsquared is given with limited precision
  double s = mecsquared / 510998.95 * (299792458.0 / SpeedOfLight);
  vc_ensures(s > 1 - 1e-6 && s < 1 + 1e-6, "rest energy of the electron");
  vc_ensures_eq(u.GetKpeak() * s, K, "undulator parameter from peak field and period");
  vc_ensures_eq(u.GetKrms() * u.GetKrms() * 2 , u.GetKpeak() * u.GetKpeak(), "rms parameter");
  vc_ensures_eq(u.GetBPeak(), nd_r("b"), "peak field");
  vc_ensures_eq(u.GetLambdaU(), nd_r("l"), "period");
  vc_ensures_eqi(u.GetNPeriods(), n, "number of periods");
  vc_cover("end");
}
// div B and curl B of a field in the region of constant amplitude
template <class U> static void maxwell(U &u, double l, long n, double b) {
  double h = (n + 1) * l / 2;
  Vector X = place(l, n);
  vc_requires(X.z > -h + l && X.z < h - l);
  GeneralField *g = &u;
  double t = nd_r("t");
  double d[3][3];
  if (vc_engine()) {
    Vector B = g->Field(t, X).B();
    d[0][0] = vc_deriv(B.x, X.x); d[0][1] = vc_deriv(B.x, X.y); d[0][2] = vc_deriv(B.x, X.z);
    d[1][0] = vc_deriv(B.y, X.x); d[1][1] = vc_deriv(B.y, X.y); d[1][2] = vc_deriv(B.y, X.z);
    d[2][0] = vc_deriv(B.z, X.x); d[2][1] = vc_deriv(B.z, X.y); d[2][2] = vc_deriv(B.z, X.z);
  } else {
    double e = 1e-5 * l;
    for (int j = 0; j < 3; j++) {
      Vector D(j == 0 ? e : 0, j == 1 ? e : 0, j == 2 ? e : 0);
      Vector B = (g->Field(t, X + D).B() - g->Field(t, X - D).B()) / (2 * e);
      d[0][j] = B.x; d[1][j] = B.y; d[2][j] = B.z;
    }
  }
  double sc = 1e6 * fabs(b) / l * cosh(2 * pi / l * X.y) * cosh(10 * X.y);
  vc_ensures_eqs(d[0][0] + d[1][1] + d[2][2], 0, sc, "divergence-free");
  vc_ensures_eqs(d[2][1] - d[1][2], 0, sc, "curl-free");
  vc_ensures_eqs(d[0][2] - d[2][0], 0, sc, "curl-free");
  vc_ensures_eqs(d[1][0] - d[0][1], 0, sc, "curl-free");
  vc_cover("end");
}
CONTRACT(planar_maxwell) {
  long n = nd_n("n", 2, 1000000);
  PlanarUndulator u = planar(n);
  maxwell(u, nd_r("l"), n, nd_r("b"));
}
static double grad(double l) { return vc_engine() ? nd_r("g") : nd_r("g") / l; }
static TransverseGradientUndulator tgu(long n, double m) {
  TransverseGradientUndulator u;
  double l = nd_r("l");
  vc_requires(l > 0);
  vc_requires(vc_engine() || fabs(nd_r("g")) < 5);
  u.Setup(nd_r("b"), grad(l), m, l, n);
  return u;
}
CONTRACT(gradient_field) {
  long n = nd_n("n", 1, 1000000);
  double m = nd_r("m");
  TransverseGradientUndulator u = tgu(n, m);
  double l = nd_r("l"), b = nd_r("b"), kz = 2 * pi / l, kx = grad(l), ky = sqrt(kx * kx + kz * kz);
  Vector X = place(l, n);
  GeneralField *g = &u;
  ElMagField f = g->Field(nd_r("t"), X);
  double s = ramp(X.z, l, n) * (1 + m * sin(kz * X.z)) * b, sc = fabs(b) * (1 + fabs(m)) * cosh(ky * X.y) * 1e4;
  same(f.E(), Vector(0, 0, 0), "no electric field");
  vc_ensures_eqs(f.B().x, s * kx / ky * cos(kx * X.x) * sinh(ky * X.y) * sin(kz * X.z), sc, "horizontal field");
  vc_ensures_eqs(f.B().y, s * (cosh(kz * X.y) + sin(kx * X.x) * cosh(ky * X.y)) * sin(kz * X.z), sc, "vertical field");
  vc_ensures_eqs(f.B().z, s * (sinh(kz * X.y) + kz / ky * sin(kx * X.x) * sinh(ky * X.y)) * cos(kz * X.z), sc, "longitudinal field");
  if (X.z < -(n + 1) * l / 2 || X.z >= (n + 1) * l / 2) {
    same(f.B(), Vector(0, 0, 0), "no field beyond the ends");
    vc_cover("outside");
  } else vc_cover("inside");
}
CONTRACT(gradient_parameter) {
  long n = nd_n("n", 1, 1000000);
  TransverseGradientUndulator u = tgu(n, nd_r("m"));
  double K = nd_r("b") * nd_r("l") * 299792458.0 / (2 * pi * 510998.95); // e B l / (2 pi m c)
  double s = mecsquared / 510998.95 * (299792458.0 / SpeedOfLight);
  vc_ensures_eq(u.GetKpeak() * s, K, "undulator parameter from peak field and period");
  vc_ensures_eq(u.GetKrms() * u.GetKrms() * 2 , u.GetKpeak() * u.GetKpeak(), "rms parameter");
  vc_ensures_eq(u.GetBPeak(), nd_r("b"), "peak field");
  vc_ensures_eq(u.GetLambdaU(), nd_r("l"), "period");
  vc_ensures_eqi(u.GetNPeriods(), n, "number of periods");
  vc_cover("end");
}
CONTRACT(gradient_maxwell) {
  long n = nd_n("n", 2, 1000000);
  TransverseGradientUndulator u = tgu(n, 0.0);
  maxwell(u, nd_r("l"), n, nd_r("b"));
}
