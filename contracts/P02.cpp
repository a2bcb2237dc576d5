// P02: one trajectory point per step at equidistant times
#include "particle_common.h"

CONTRACT(init_keeps_history) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  vc_requires(nd_r("m") > 0);
  fill(&c, n);
  AnyField f(1);
  c.InitVay(nd_r("dt"), &f);
  vc_ensures_eqi(c.getNP(), n, "number of points unchanged by setup");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(c.TrajTime(j), gt(j), "times unchanged by setup");
  same(c.TrajPoint(j), gx(j), "positions unchanged by setup");
  same(c.TrajMomentum(j), gp(j), "momenta unchanged by setup");
  if (j < n - 1) { same(c.TrajAccel(j), ga(j), "earlier accelerations unchanged by setup"); vc_cover("earlier point"); }
  else { same(c.TrajAccel(j), c.getAccel(), "last acceleration replaced"); vc_cover("last point"); }
}

CONTRACT(step_appends_one) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  c.dt = nd_r("dt"); c.qm = nd_r("qm"); c.qmt2 = nd_r("qmt2");
  c.t_current = nd_r("tc"); c.X_current = vec1("xc");
  c.VY_p_i1 = vec1("u"); c.VY_gamma_i1 = sqrt(1.0 + c.VY_p_i1.abs2nd());
  AnyField f(1);
  c.StepVay(&f);
  vc_ensures_eqi(c.getNP(), n + 1, "one point added");
  vc_ensures_eqi(c.Time.size(), n + 1, "one time added");
  vc_ensures_eqi(c.X.size(), n + 1, "one position added");
  vc_ensures_eqi(c.P.size(), n + 1, "one momentum added");
  vc_ensures_eqi(c.A.size(), n + 1, "one acceleration added");
  vc_ensures_eq(c.TrajTime(n), c.getTime(), "current time is that of the newest point");
  same(c.TrajPoint(n), c.getPosition(), "current position is that of the newest point");
  same(c.TrajMomentum(n), c.getMomentum(), "current momentum is that of the newest point");
  same(c.TrajAccel(n), c.getAccel(), "current acceleration is that of the newest point");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(c.TrajTime(j), gt(j), "earlier times unchanged");
  same(c.TrajPoint(j), gx(j), "earlier positions unchanged");
  same(c.TrajMomentum(j), gp(j), "earlier momenta unchanged");
  same(c.TrajAccel(j), ga(j), "earlier accelerations unchanged");
  vc_cover("end");
}

CONTRACT(equidistant_times) {
  long n = nd_n("n", 1, 1000000000), m = nd_n("m", 0, 1000000000);
  ChargedParticle c(nd_r("q"), nd_r("mass"));
  vc_requires(nd_r("mass") > 0);
  fill(&c, n);
  AnyField f(1);
  double dt = nd_r("dt");
  c.InitVay(dt, &f);
  for (long i = 0; i < m; i++) c.StepVay(&f);
  vc_ensures_eqi(c.getNP(), n + m, "m steps add m points");
  long k = nd_i("k", 0, 1000000000);
  vc_requires(k <= m);
  double ts = gt(n - 1) + k * dt;
  vc_ensures_eq(c.TrajTime(n - 1 + k), ts, "point k after the start has time t0 + k dt");
  vc_ensures_eq(c.getTime(), gt(n - 1) + m * dt, "current time after m steps");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(c.TrajTime(j), gt(j), "history of times unchanged by tracking");
  same(c.TrajPoint(j), gx(j), "history of positions unchanged by tracking");
  same(c.TrajMomentum(j), gp(j), "history of momenta unchanged by tracking");
  vc_cover("end");
}

CONTRACT(no_trajectory_refused) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  AnyField f(1);
  bool refused = false;
  try { c.InitVay(nd_r("dt"), &f); } catch (RANGEexception &) { refused = true; }
  vc_ensures(refused, "tracking without a trajectory is refused");
  vc_ensures_eqi(c.getNP(), 0, "still no trajectory");
  ChargedParticle d(nd_r("q"), nd_r("m"));
  fill(&d, nd_n("n", 1, 2000000000));
  d.clearTrajectory();
  refused = false;
  try { d.InitVay(nd_r("dt"), &f); } catch (RANGEexception &) { refused = true; }
  vc_ensures(refused, "tracking after clearing the trajectory is refused");
  vc_cover("end");
}
