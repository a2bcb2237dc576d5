// P03: trajectory access is range-checked and returns what was stored
#include "particle_common.h"

CONTRACT(traj_access) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  vc_ensures_eqi(c.getNP(), n, "number of points");
  vc_ensures_eqi(c.Time.size(), n, "times stored");
  vc_ensures_eqi(c.X.size(), n, "positions stored");
  vc_ensures_eqi(c.P.size(), n, "momenta stored");
  vc_ensures_eqi(c.A.size(), n, "accelerations stored");
  int i = (int)nd_i("i", -2147483648L, 2147483647L);
  bool in = (i >= 0 && i < n);
  double t = 0; Vector x, p, a;
  bool ok = true;
  try { t = c.TrajTime(i); } catch (IOexception &) { ok = false; }
  vc_ensures(ok == in, "time access refused exactly outside of the range");
  if (ok) { vc_ensures_eq(t, gt(i), "time"); vc_cover("in range"); }
  ok = true;
  try { x = c.TrajPoint(i); } catch (IOexception &) { ok = false; vc_cover("out of range"); }
  vc_ensures(ok == in, "position access refused exactly outside of the range");
  if (ok) same(x, gx(i), "position");
  ok = true;
  try { p = c.TrajMomentum(i); } catch (IOexception &) { ok = false; }
  vc_ensures(ok == in, "momentum access refused exactly outside of the range");
  if (ok) same(p, gp(i), "momentum");
  ok = true;
  try { a = c.TrajAccel(i); } catch (IOexception &) { ok = false; }
  vc_ensures(ok == in, "acceleration access refused exactly outside of the range");
  if (ok) same(a, ga(i), "acceleration");
}

CONTRACT(init_and_clear) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  vc_ensures_eqi(c.getNP(), 0, "new particle has no trajectory");
  fill(&c, n);
  double t = nd_r("ti");
  Vector x = vec1("xi"), p = vec1("pi"), a = vec1("ai");
  c.initTrajectory(t, x, p, a);
  vc_ensures_eqi(c.getNP(), 1, "one point after initialisation");
  vc_ensures_eqi(c.Time.size(), 1, "one time after initialisation");
  vc_ensures_eqi(c.A.size(), 1, "one acceleration after initialisation");
  vc_ensures_eq(c.TrajTime(0), t, "initial time");
  same(c.TrajPoint(0), x, "initial position");
  same(c.TrajMomentum(0), p, "initial momentum");
  same(c.TrajAccel(0), a, "initial acceleration");
  vc_ensures_eq(c.getTime(), t, "current time initialised");
  same(c.getPosition(), x, "current position initialised");
  same(c.getMomentum(), p, "current momentum initialised");
  same(c.getAccel(), a, "current acceleration initialised");
  c.clearTrajectory();
  vc_ensures_eqi(c.getNP(), 0, "no point after clearing");
  vc_ensures_eqi(c.Time.size() + c.X.size() + c.P.size() + c.A.size(), 0, "no data after clearing");
  int i = (int)nd_i("i", -2147483648L, 2147483647L);
  bool ok = true;
  try { c.TrajTime(i); } catch (IOexception &) { ok = false; }
  vc_ensures(!ok, "any access after clearing is refused");
  vc_cover("end");
}

// the current point can be set without touching the trajectory; pre-allocation does not add points
CONTRACT(set_current) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"), (int)nd_n("pre", 0, 2000000000));
  vc_ensures_eqi(c.getNP(), 0, "pre-allocation adds no points");
  fill(&c, n);
  c.setCurrentPoint(nd_r("ti"), vec1("xi"), vec1("pi"), vec1("ai"));
  vc_ensures_eqi(c.getNP(), n, "setting the current point adds none");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(c.TrajTime(j), gt(j), "times unchanged");
  same(c.TrajPoint(j), gx(j), "positions unchanged");
  same(c.TrajMomentum(j), gp(j), "momenta unchanged");
  same(c.TrajAccel(j), ga(j), "accelerations unchanged");
  vc_ensures_eq(c.getTime(), nd_r("ti"), "current time set");
  same(c.getPosition(), vec1("xi"), "current position set");
  same(c.getMomentum(), vec1("pi"), "current momentum set");
  same(c.getAccel(), vec1("ai"), "current acceleration set");
  vc_cover("end");
}
