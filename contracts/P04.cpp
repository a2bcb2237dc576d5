// P04: serialisation and copies of particles
#include "particle_common.h"

// arbitrary tracking state
static void state(ChargedParticle *c, long n) {
  c->dt = nd_r("dt"); c->qm = nd_r("qm"); c->qmt2 = nd_r("qmt2");
  c->VY_p_i1 = vec1("u"); c->VY_gamma_i1 = nd_r("g");
  // the newest point is the current one (as after every tracking step)
  if (n > 0) { c->t_current = gt(n - 1); c->X_current = gx(n - 1); c->P_current = gp(n - 1); c->A_current = ga(n - 1); }
}
static void same_tracking(ChargedParticle *a, ChargedParticle *b) {
  vc_ensures_eq(a->dt, b->dt, "time step restored");
  vc_ensures_eq(a->qm, b->qm, "charge over mass restored");
  vc_ensures_eq(a->qmt2, b->qmt2, "half step factor restored");
  same(a->VY_p_i1, b->VY_p_i1, "half step momentum restored");
  vc_ensures_eq(a->VY_gamma_i1, b->VY_gamma_i1, "half step energy restored");
}
static void same_points(ChargedParticle *d, long n) {
  vc_ensures_eqi(d->getNP(), n, "number of points restored");
  vc_ensures_eqi(d->Time.size(), n, "times restored");
  vc_ensures_eqi(d->X.size(), n, "positions restored");
  vc_ensures_eqi(d->P.size(), n, "momenta restored");
  vc_ensures_eqi(d->A.size(), n, "accelerations restored");
  long j = below(nd_i("j", 0, 1999999999), n);
  vc_requires(j < n);
  vc_ensures_eq(d->TrajTime(j), gt(j), "time of every point restored");
  same(d->TrajPoint(j), gx(j), "position of every point restored");
  same(d->TrajMomentum(j), gp(j), "momentum of every point restored");
  same(d->TrajAccel(j), ga(j), "acceleration of every point restored");
  vc_ensures_eq(d->getTime(), gt(n - 1), "current time is that of the last point");
  same(d->getPosition(), gx(n - 1), "current position is that of the last point");
  same(d->getMomentum(), gp(n - 1), "current momentum is that of the last point");
  same(d->getAccel(), ga(n - 1), "current acceleration is that of the last point");
}
CONTRACT(plain_roundtrip) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  double buf[12];
  c.serialize(buf);
  ChargedParticle d(buf);
  vc_ensures_eq(d.Charge, nd_r("q"), "charge restored");
  vc_ensures_eq(d.Mass, nd_r("m"), "mass restored");
  vc_ensures_eq(d.qm, c.qm, "charge over mass restored");
  vc_ensures_eqi(d.getNP(), 1, "one-point trajectory");
  vc_ensures_eq(d.TrajTime(0), gt(n - 1), "time of the last point");
  same(d.TrajPoint(0), gx(n - 1), "position of the last point");
  same(d.TrajMomentum(0), gp(n - 1), "momentum of the last point");
  same(d.TrajAccel(0), ga(n - 1), "acceleration of the last point");
  vc_ensures_eq(d.getTime(), gt(n - 1), "current time is that of the last point");
  same(d.getPosition(), gx(n - 1), "current position is that of the last point");
  same(d.getMomentum(), gp(n - 1), "current momentum is that of the last point");
  same(d.getAccel(), ga(n - 1), "current acceleration is that of the last point");
  vc_cover("end");
}
CONTRACT(plain_layout) {
  long n = nd_n("n", 0, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  if (n > 0) fill(&c, n);
  double buf[12];
  c.serialize(buf);
  vc_ensures_eq(buf[0], nd_r("q"), "charge first");
  vc_ensures_eq(buf[1], nd_r("m"), "mass second");
  double t = 0; Vector x = VectorZero, p = VectorZero, a = VectorZero;
  if (n > 0) { t = gt(n - 1); x = gx(n - 1); p = gp(n - 1); a = ga(n - 1); vc_cover("points"); }
  else vc_cover("no points");
  vc_ensures_eq(buf[2], t, "time third");
  same(Vector(buf[3], buf[4], buf[5]), x, "then position");
  same(Vector(buf[6], buf[7], buf[8]), p, "then momentum");
  same(Vector(buf[9], buf[10], buf[11]), a, "then acceleration");
}
CONTRACT(full_roundtrip) {
  long n = nd_n("n", 1, 200000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  state(&c, n);
  int size = c.TrajBufSize();
  vc_ensures_eqi(size, 9 + 10 * n, "buffer size");
  double *buf = new double[size];
  c.serializeTraj(buf);
  ChargedParticle d(buf, n, nd_n("pre", 0, 2000000000));
  delete[] buf;
  vc_ensures_eq(d.Charge, nd_r("q"), "charge restored");
  vc_ensures_eq(d.Mass, nd_r("m"), "mass restored");
  same_tracking(&d, &c);
  same_points(&d, n);
  vc_cover("end");
}
// continuing to track the copy gives the trajectory of the original
CONTRACT(full_continues) {
  long n = nd_n("n", 1, 200000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  state(&c, n);
  double *buf = new double[c.TrajBufSize()];
  c.serializeTraj(buf);
  ChargedParticle d(buf, n, 0);
  delete[] buf;
  AnyField f(1);
  c.StepVay(&f);
  d.StepVay(&f);
  vc_ensures_eqi(d.getNP(), c.getNP(), "same number of points");
  vc_ensures_eq(d.TrajTime(n), c.TrajTime(n), "same time after the step");
  same(d.TrajPoint(n), c.TrajPoint(n), "same position after the step");
  same(d.TrajMomentum(n), c.TrajMomentum(n), "same momentum after the step");
  same(d.TrajAccel(n), c.TrajAccel(n), "same acceleration after the step");
  same_tracking(&d, &c);
  vc_cover("end");
}
CONTRACT(full_layout) {
  long n = nd_n("n", 0, 200000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  if (n > 0) fill(&c, n);
  state(&c, n);
  double *buf = new double[9 + 10 * n + 1];
  buf[9 + 10 * n] = nd_r("guard");
  c.serializeTraj(buf);
  vc_ensures_eq(buf[0], nd_r("q"), "charge");
  vc_ensures_eq(buf[1], nd_r("m"), "mass");
  vc_ensures_eq(buf[2], nd_r("dt"), "time step");
  vc_ensures_eq(buf[3], nd_r("qm"), "charge over mass");
  vc_ensures_eq(buf[4], nd_r("qmt2"), "half step factor");
  same(Vector(buf[5], buf[6], buf[7]), vec1("u"), "half step momentum");
  vc_ensures_eq(buf[8], nd_r("g"), "half step energy");
  vc_ensures_eq(buf[9 + 10 * n], nd_r("guard"), "nothing written beyond the announced size");
  if (n > 0) {
    long j = below(nd_i("j", 0, 1999999999), n);
    vc_requires(j < n);
    double *b = buf + 9 + 10 * j;
    vc_ensures_eq(b[0], gt(j), "time of every point");
    same(Vector(b[1], b[2], b[3]), gx(j), "position of every point");
    same(Vector(b[4], b[5], b[6]), gp(j), "momentum of every point");
    same(Vector(b[7], b[8], b[9]), ga(j), "acceleration of every point");
    vc_cover("point");
  }
  vc_cover("end");
}
CONTRACT(probe_layout) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  c.t_current = nd_r("tc"); c.X_current = vec1("xc"); c.P_current = vec1("pc"); c.A_current = vec1("ac");
  c.E_current = vec1("ec"); c.B_current = vec1("bc");
  double buf[17];
  buf[16] = nd_r("guard");
  double *e = c.bufferProbe(buf);
  vc_ensures_eqi(e - buf, 16, "sixteen values");
  vc_ensures_eq(buf[0], nd_r("tc"), "time");
  same(Vector(buf[1], buf[2], buf[3]), vec1("xc"), "position");
  same(Vector(buf[4], buf[5], buf[6]), vec1("pc"), "momentum");
  same(Vector(buf[7], buf[8], buf[9]), vec1("ac"), "acceleration");
  same(Vector(buf[10], buf[11], buf[12]), vec1("ec"), "electric field");
  same(Vector(buf[13], buf[14], buf[15]), vec1("bc"), "magnetic field");
  vc_ensures_eq(buf[16], nd_r("guard"), "nothing written beyond sixteen values");
  vc_cover("end");
}
CONTRACT(copy) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  state(&c, n);
  ChargedParticle d(&c);
  vc_ensures_eq(d.Charge, nd_r("q"), "charge copied");
  vc_ensures_eq(d.Mass, nd_r("m"), "mass copied");
  same_tracking(&d, &c);
  same_points(&d, n);
  // the copy is independent
  d.storeTrajectoryPoint(nd_r("t2"), vec1("x2"), vec1("p2"), vec1("a2"));
  vc_ensures_eqi(c.getNP(), n, "original unaffected by the copy");
  vc_ensures_eqi(c.Time.size(), n, "original unaffected by the copy");
  vc_ensures_eq(c.getTime(), gt(n - 1), "original unaffected by the copy");
  vc_cover("end");
}
