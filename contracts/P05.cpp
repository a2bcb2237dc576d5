// P05: shifting or mirroring a particle
#include "particle_common.h"

CONTRACT(shift) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  c.setCurrentPoint(nd_r("tc"), vec1("xc"), vec1("pc"), vec1("ac"));
  double q0 = c.Charge, qm0 = c.qm, f = nd_r("f");
  c.qmt2 = nd_r("qmt2");
  Vector d = vec1("d");
  c.Shift(d, f);
  vc_ensures_eq(c.Charge, q0 * f, "charge scaled");
  vc_ensures_eqs(c.qm, qm0 * f, InvRestMass, "charge over mass scaled");
  vc_ensures_eq(c.qmt2, nd_r("qmt2") * f, "half-step factor scaled");
  vc_ensures_eqi(c.getNP(), n, "number of points kept");
  same(c.getPosition(), vec1("xc") + d, "current position displaced");
  same(c.getMomentum(), vec1("pc"), "current momentum kept");
  same(c.getAccel(), vec1("ac"), "current acceleration kept");
  vc_ensures_eq(c.getTime(), nd_r("tc"), "current time kept");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(c.TrajTime(j), gt(j), "times kept");
  same(c.TrajPoint(j), gx(j) + d, "every stored position displaced");
  same(c.TrajMomentum(j), gp(j), "momenta kept");
  same(c.TrajAccel(j), ga(j), "accelerations kept");
  vc_cover("end");
}
static Vector refl(Vector v, Vector n) { return v - n * (2.0 * dot(v, n) / n.abs2nd()); }
CONTRACT(mirror) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  c.setCurrentPoint(nd_r("tc"), vec1("xc"), vec1("pc"), vec1("ac"));
  double q0 = c.Charge, qm0 = c.qm, f = nd_r("f");
  c.qmt2 = nd_r("qmt2");
  Vector o = vec1("o"), nn = vec1("nn");
  vc_requires(!nn.isNull());
  c.Mirror(o, nn, f);
  vc_ensures_eq(c.Charge, q0 * f, "charge scaled");
  vc_ensures_eqs(c.qm, qm0 * f, InvRestMass, "charge over mass scaled");
  vc_ensures_eq(c.qmt2, nd_r("qmt2") * f, "half-step factor scaled");
  vc_ensures_eqi(c.getNP(), n, "number of points kept");
  same(c.getPosition(), o + refl(vec1("xc") - o, nn), "current position reflected");
  same(c.getMomentum(), refl(vec1("pc"), nn), "current momentum reflected");
  same(c.getAccel(), refl(vec1("ac"), nn), "current acceleration reflected");
  vc_ensures_eq(c.getTime(), nd_r("tc"), "current time kept");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(c.TrajTime(j), gt(j), "times kept");
  same(c.TrajPoint(j), o + refl(gx(j) - o, nn), "every stored position reflected");
  same(c.TrajMomentum(j), refl(gp(j), nn), "every stored momentum reflected");
  same(c.TrajAccel(j), refl(ga(j), nn), "every stored acceleration reflected");
  vc_cover("end");
}
CONTRACT(mirror_twice) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  double f = nd_r("f");
  vc_requires(f != 0);
  Vector o = vec1("o"), nn = vec1("nn");
  vc_requires(!nn.isNull());
  c.Mirror(o, nn, f);
  c.Mirror(o, nn, 1.0 / f);
  vc_ensures_eq(c.Charge, nd_r("q"), "charge restored");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  same(c.TrajPoint(j), gx(j), "positions restored");
  same(c.TrajMomentum(j), gp(j), "momenta restored");
  same(c.TrajAccel(j), ga(j), "accelerations restored");
  vc_cover("end");
}
