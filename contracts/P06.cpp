// P06: interpolation of phase space coordinates in time
#include "particle_common.h"

CONTRACT(inside_a_step) {
  long n = nd_n("n", 2, 1000000000);
  vc_increasing("t", n);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  long j = below(nd_i("j", 0, 999999998), n - 1);
  vc_requires(j < n - 1);
  double f = nd_r("f");
  vc_requires(0 < f && f <= 1);
  double t = gt(j) * (1 - f) + gt(j + 1) * f;
  vc_assert(gt(j) < gt(j + 1), "times increase");
  vc_assert(gt(j) < t, "the time is inside of step j");
  vc_assert(t <= gt(j + 1), "the time is inside of step j");
  Vector x, p;
  c.CoordinatesAtTime(t, &x, &p);
  same(x, gx(j) * (1 - f) + gx(j + 1) * f, "position interpolated between the enclosing points");
  same(p, gp(j) * (1 - f) + gp(j + 1) * f, "momentum interpolated between the enclosing points");
  vc_cover("end");
}
CONTRACT(at_the_start) {
  long n = nd_n("n", 1, 1000000000);
  vc_increasing("t", n);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  Vector x, p;
  c.CoordinatesAtTime(gt(0), &x, &p);
  same(x, gx(0), "position of the first point at its time");
  same(p, gp(0), "momentum of the first point at its time");
  vc_cover("end");
}
CONTRACT(outside) {
  long n = nd_n("n", 1, 1000000000);
  vc_increasing("t", n);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  double t = nd_r("time");
  vc_requires(t < gt(0) || t > gt(n - 1));
  Vector x = vec1("old"), p = vec1("old");
  c.CoordinatesAtTime(t, &x, &p);
  same(x, VectorZero, "zero position outside of the trajectory");
  same(p, VectorZero, "zero momentum outside of the trajectory");
  vc_cover("end");
}
CONTRACT(no_trajectory) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  Vector x = vec1("old"), p = vec1("old");
  c.CoordinatesAtTime(nd_r("time"), &x, &p);
  same(x, VectorZero, "zero position without a trajectory");
  same(p, VectorZero, "zero momentum without a trajectory");
  vc_cover("end");
}
