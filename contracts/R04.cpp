// R04: recording the field of a trajectory into the buckets of a trace
#include "trace_common.h"

// Modular contracts of the callees: point i of the trajectory is seen at time t0+dt*u(i) with field f(i)
// (u and f arbitrary; R01 and R02 establish what they are)
static double T0() { return nd_r("t0"); }
static double DT() { return nd_r("dt"); }
static double arrival(long i) {
  double u = nd_r1("u", i);
  // at most 10^9 buckets away from the trace
  vc_requires(u < 1e9 && u > -1e9);
  return T0() + DT() * u;
}
extern "C" double point_time(ChargedParticle *p, int i, Vector x) { return arrival(i); }
extern "C" ElMagField point_field(ChargedParticle *p, int i, Vector x) { return fld("f", i); }

// the time average over bucket e of the field that varies linearly from f1 at t1 to f2 at t2 and is zero else
static double share(double t0, double dt, long e, double t1, double t2, double f1, double f2) {
  double lo = t0 + ((double)e - 0.5) * dt, hi = t0 + ((double)e + 0.5) * dt;
  double a = t1 > lo ? t1 : lo, b = t2 < hi ? t2 : hi;
  if (!(a < b)) return 0;
  double fa = (f1 * (t2 - a) + f2 * (a - t1)) / (t2 - t1), fb = (f1 * (t2 - b) + f2 * (b - t1)) / (t2 - t1);
  return 0.5 * (fa + fb) * (b - a) / dt;
}
static ElMagField spread(double t0, double dt, long e, double t1, double t2, ElMagField f1, ElMagField f2) {
  Vector a = f1.E(), b = f2.E(), c = f1.B(), d = f2.B();
  return ElMagField(Vector(share(t0, dt, e, t1, t2, a.x, b.x), share(t0, dt, e, t1, t2, a.y, b.y), share(t0, dt, e, t1, t2, a.z, b.z)),
                    Vector(share(t0, dt, e, t1, t2, c.x, d.x), share(t0, dt, e, t1, t2, c.y, d.y), share(t0, dt, e, t1, t2, c.z, d.z)));
}
CONTRACT(buckets) {
  vc_replace("ChargedParticle::RetardedTime(int, Vector)", "point_time");
  vc_replace("ChargedParticle::RetardedField(int, Vector)", "point_field");
  long n = nd_n("n", 2, 2000000000), N = nd_n("N", 2, 2000000000), e = below(nd_i("e", 0, 2000000000), N);
  vc_requires(e < N);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  double t0 = T0(), dt = DT();
  vc_requires(dt > 0);
  vc_increasing("u", n);
  Vector x = vec1("o");
  if (vc_engine()) fill(&c, n);
  else
    // points all around the observer, seen at the times chosen
    for (long i = 0; i < n; i++) {
      Vector d = gx(i);
      vc_requires(d.norm() > 0.1);
      d.normalize();
      if (i == 0) c.initTrajectory(arrival(i) - 3 / SpeedOfLight, x + d * 3, gp(i), ga(i));
      else c.storeTrajectoryPoint(arrival(i) - 3 / SpeedOfLight, x + d * 3, gp(i), ga(i));
    }
  FieldTrace f(t0, dt, N);
  loadp(&f, "old", N);
  ElMagField s = fldp("old", e);
  double z = 0;
  for (long i = 0; i < n && !vc_engine(); i++) z += size(c.RetardedField((int)i, x));
  c.integrateFieldTrace(x, &f);
  for (long i = 0; i + 1 < n; i++)
    s += spread(t0, dt, e, c.RetardedTime((int)i, x), c.RetardedTime((int)i + 1, x), c.RetardedField((int)i, x), c.RetardedField((int)i + 1, x));
  psame(sample(&f, e), s, z, "every bucket receives the time average of the field over it");
  vc_ensures_eqi(f.get_N(), N, "sampling kept");
  vc_cover("end");
}
