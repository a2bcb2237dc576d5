// R02: fields observed at a given time
#include "lw.h"
#include "trace_common.h"
static const double c0 = 299792458.0;

static double arrival(long i, Vector o) { return gt(i) + (o - gx(i)).norm() / c0; }

CONTRACT(no_trajectory) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  bool refused = false;
  try { c.RetardedField(nd_r("t"), vec1("o")); } catch (RANGEexception &) { refused = true; }
  vc_ensures(refused, "a particle without trajectory has no field");
  vc_cover("end");
}
static double sq(long i) { double s = nd_r1("s", i); return s * s; }
// after the signal of the last point has passed nothing is known
CONTRACT(after_the_end) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  Vector o = vec1("o");
  double t = nd_r("time");
  vc_requires(t > arrival(n - 1, o));
  ElMagField f = c.RetardedField(t, o);
  same(f.E(), Vector(0, 0, 0), "no field from the unknown part of the trajectory");
  same(f.B(), Vector(0, 0, 0), "no field from the unknown part of the trajectory");
  vc_cover("end");
}
// before the first point the particle has moved uniformly
static void before_the_start(long n) {
  double q = nd_r("q");
  ChargedParticle c(q, nd_r("m"));
  // Ro: from the first point to the observer
  Vector o = vec1("o"), p = gp(0), Ro = vec1("ro");
  c.initTrajectory(gt(0), o - Ro, p, ga(0));
  for (long i = 1; i < n; i++) c.storeTrajectoryPoint(gt(i), gx(i), gp(i), ga(i));
  // emission: ct meters of light travel before the first point
  double ct = nd_r("ct");
  vc_requires(ct <= 0);
  Vector b = p / sqrt(1.0 + p.abs2nd());
  double bb = b.abs2nd(), bR = dot(b, Ro), RR = Ro.abs2nd(), R = Ro.norm();
  Vector r = Ro - b * ct;
  double rho = r.norm(), br = dot(b, r), rr = r.abs2nd(), t = gt(0) + (ct + rho) / c0;
  vc_requires(rho > (vc_engine() ? 0 : 1e-3));
  // natively moderate numbers
  vc_requires(vc_engine() || (p.abs2nd() < 100 && ct > -1e3 && rho < 1e3 && fabs(gt(0)) < 1e3));
  // the triangle inequalities of the light cone
  double bb_ = vc_ghost(bb), br_ = vc_ghost(br), rr_ = vc_ghost(rr), rho_ = vc_ghost(rho), bR_ = vc_ghost(bR), RR_ = vc_ghost(RR), R_ = vc_ghost(R);
  double c1 = vc_ghost(cross(b, r).abs2nd()), c2 = vc_ghost(cross(b, Ro).abs2nd());
  vc_assert(bb_ < 1, "slower than light");
  vc_assert(bb_ >= 0, "square");
  vc_assert(c1 >= 0, "square");
  vc_assert(c2 >= 0, "square");
  vc_assert(R_ >= 0, "norm");
  vc_assert(rho_ > 0, "norm");
  vc_assert_eqs(rho_ * rho_, rr_, rr, "norm");
  vc_assert_eqs(R_ * R_, RR_, RR, "norm");
  vc_assert_eqs(br_ * br_ + c1, bb_ * rr_, rr, "Lagrange identity");
  vc_assert_eqs(bR_ * bR_ + c2, bb_ * RR_, RR, "Lagrange identity");
  vc_assert(br_ * br_ <= bb_ * rho_ * rho_, "Cauchy");
  vc_assert(bR_ * bR_ <= R_ * R_, "Cauchy");
  vc_assert(br_ <= rho_, "projection");
  vc_assert(bR_ <= R_, "projection");
  vc_assert_eqs(rho_ * rho_, (R_ - ct) * (R_ - ct) - ct * ct * (1 - bb_) + 2 * ct * (R_ - bR_), RR, "cosine law");
  vc_assert(ct * ct * (1 - bb_) >= 0, "sign");
  vc_assert(ct * (R_ - bR_) <= 0, "sign");
  vc_assert(rho_ * rho_ <= (R_ - ct) * (R_ - ct), "triangle inequality");
  vc_assert(rho_ <= R_ - ct, "triangle inequality");
  vc_assert(rho <= R - ct + (vc_engine() ? 0 : 1e-9 * (R - ct)), "the signal arrives before that of the first point");
  vc_value(ct);
  vc_root(rho - br, "discriminant of the light-cone equation");
  // the last point has not been seen
  if (n > 1) vc_requires(t <= arrival(n - 1, o));
  ElMagField f = c.RetardedField(t, o);
  lw_same(f, lienard_wiechert(q, o - r, p, Vector(0, 0, 0), o), "field of the uniformly moving particle at the retarded point", 1e5);
  vc_cover("end");
}
CONTRACT(before_the_start_of_a_single_point) { before_the_start(1); }
CONTRACT(before_the_start_of_a_trajectory) { before_the_start(nd_n("n", 2, 1000000000)); }
// inside of the trajectory, the source staying on a line through the observer: the arrival time is then
// linear in the position of the source, which is at the same fraction of the step as the time of observation
static void within_a_step_in_line(long n, long j) {
  vc_requires(j < n - 1);
  double q = nd_r("q"), f = unit("f");
  if (vc_engine()) vc_requires(f > 0);
  ChargedParticle c(q, nd_r("m"));
  Vector o = vec1("o"), u(0, 0, 1);
  double U = 1;
  // arrival times increase, as the source is slower than light
  vc_increasing("t", n);
  c.initTrajectory(gt(0) - U / c0 * sq(0), o - u * sq(0), gp(0), ga(0));
  for (long i = 1; i < n; i++) c.storeTrajectoryPoint(gt(i) - U / c0 * sq(i), o - u * sq(i), gp(i), ga(i));
  double s = sq(j) * (1 - f) + sq(j + 1) * f, t = gt(j) * (1 - f) + gt(j + 1) * f;
  vc_requires(s > (vc_engine() ? 0 : 1e-3));
  vc_requires(vc_engine() || (gp(j).abs2nd() < 100 && gp(j + 1).abs2nd() < 100));
  vc_assert(gt(j) < gt(j + 1), "arrival times increase");
  vc_assert(gt(j) < t, "the time is inside of step j");
  vc_assert(t <= gt(j + 1), "the time is inside of step j");
  vc_index(j);
  vc_value(f);
  vc_root(s, "distance");
  ElMagField r = c.RetardedField(t, o);
  lw_same(r, lienard_wiechert(q, o - u * s, gp(j) * (1 - f) + gp(j + 1) * f, ga(j) * (1 - f) + ga(j + 1) * f, o), "field of the source point whose signal arrives at that time", 1e5);
  vc_cover("end");
}
CONTRACT(in_line_within_the_first_step) { within_a_step_in_line(nd_n("n", 2, 1000000000), 0); }
CONTRACT(in_line_within_a_later_step) { within_a_step_in_line(nd_n("n", 2, 1000000000), nd_i("j", 1, 999999998)); }
