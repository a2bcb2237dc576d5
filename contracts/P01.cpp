// P01: one step of the Vay scheme.
#include "particle_common.h"

// arbitrary tracking state of a particle with n stored points
static void tracking(ChargedParticle *c, long n) {
  fill(c, n);
  c->dt = nd_r("dt");
  c->qm = nd_r("qm");
  c->qmt2 = c->qm * 0.5 * c->dt;
  c->t_current = gt(n - 1);
  c->X_current = gx(n - 1);
  c->P_current = gp(n - 1);
  c->A_current = ga(n - 1);
  c->VY_p_i1 = vec1("u");
  c->VY_gamma_i1 = sqrt(1.0 + c->VY_p_i1.abs2nd());
}
struct Six { Vector E, B; };
static Six at(AnyField &f, double t, Vector x) {
  ElMagField e = f.Field(t, x);
  Six s; s.E = e.E(); s.B = e.B();
  return s;
}

// position and time advance, fields sampled at the new point, half-step momentum and acceleration
CONTRACT(step_advance) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  tracking(&c, n);
  AnyField f(1);
  Vector u = c.VY_p_i1;
  double g = sqrt(1.0 + u.abs2nd()), dt = c.dt, qm = c.qm;
  Vector beta = u / g;
  double t1 = gt(n - 1) + dt;
  Vector x1 = gx(n - 1) + beta * (SpeedOfLight * dt);
  c.StepVay(&f);
  vc_ensures_eq(c.getTime(), t1, "time advances by one step");
  vc_ensures_eqs(c.getPosition().x, x1.x, 1e9, "position advances with the velocity");
  vc_ensures_eqs(c.getPosition().y, x1.y, 1e9, "position advances with the velocity");
  vc_ensures_eqs(c.getPosition().z, x1.z, 1e9, "position advances with the velocity");
  // the field is that at the stored trajectory point
  Six s = at(f, c.getTime(), c.getPosition());
  same(c.E_current, s.E, "electric field sampled at the trajectory point");
  same(c.B_current, s.B, "magnetic field sampled at the trajectory point");
  Vector ph = u + (s.E / SpeedOfLight + cross(beta, s.B)) * (qm * dt / 2);
  same(c.getMomentum(), ph, "half step of the momentum");
  Vector bh = ph / sqrt(1.0 + ph.abs2nd());
  same(c.getAccel(), (s.E / SpeedOfLight + cross(bh, s.B)) * qm, "acceleration is the Lorentz force over mass");
  // constants of the tracking
  vc_ensures_eq(c.dt, dt, "time step kept");
  vc_ensures_eq(c.qm, qm, "charge over mass kept");
  vc_ensures_eq(c.qmt2, qm * dt / 2, "half-step factor kept");
  vc_cover("end");
}
// second half: the implicit equation of motion holds for the end-of-step momentum
CONTRACT(step_momentum) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  tracking(&c, 1);
  AnyField f(1);
  double h = c.qmt2;
  c.StepVay(&f);
  Vector u1 = c.VY_p_i1;
  double g1 = c.VY_gamma_i1;
  double sc = (1 + u1.abs2nd()) * (1 + h * h * c.B_current.abs2nd());
  vc_ensures(g1 > 0, "gamma positive");
  vc_ensures_eqs(g1 * g1, 1.0 + u1.abs2nd(), sc, "gamma belongs to the momentum");
  Vector r = u1 - c.P_current - (c.E_current / SpeedOfLight + cross(u1 / g1, c.B_current)) * h;
  vc_ensures_eqs(r.x, 0, sc, "implicit half step of the momentum");
  vc_ensures_eqs(r.y, 0, sc, "implicit half step of the momentum");
  vc_ensures_eqs(r.z, 0, sc, "implicit half step of the momentum");
  vc_cover("end");
}
// without electric field the energy is conserved by every step
struct MagField : public AnyField {
  MagField(long i) : AnyField(i) {}
  ElMagField Field(double t, Vector X) { return ElMagField(VectorZero, AnyField::Field(t, X).B()); }
};
CONTRACT(step_magnetic) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  tracking(&c, 1);
  MagField f(1);
  Vector u = c.VY_p_i1;
  double h = c.qmt2;
  c.StepVay(&f);
  same(c.E_current, VectorZero, "no electric field");
  // both the old and the new gamma^2 are positive roots of x^2 - sigma x - w
  Vector p = c.P_current, tau = c.B_current * h;
  double ut = dot(p, tau);
  double w = vc_ghost(tau.abs2nd() + ut * ut);
  double sigma = vc_ghost(1.0 + p.abs2nd() - tau.abs2nd());
  double G0 = vc_ghost(1.0 + u.abs2nd());
  double G1 = vc_ghost(c.VY_gamma_i1 * c.VY_gamma_i1);
  double sc = 1 + w * w + G0 * G0 + sigma * sigma;
  vc_assert(w >= 0, "w non-negative");
  vc_assert(G0 > 0, "old gamma positive");
  vc_assert(G1 > 0, "new gamma positive");
  vc_assert_eqs(G1 * G1 - sigma * G1 - w, 0, sc, "new gamma solves the equation of the step");
  vc_assert_eqs(G0 * G0 - sigma * G0 - w, 0, sc, "old gamma solves the equation of the step");
  vc_ensures_eqs(G1, G0, sc, "energy conserved in a magnetic field");
  vc_cover("end");
}
// without any field the motion is straight and uniform
struct NoField : public AnyField {
  NoField() : AnyField(0) {}
  ElMagField Field(double, Vector) { return ElMagFieldZero; }
};
CONTRACT(step_free) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  tracking(&c, 1);
  NoField f;
  Vector u = c.VY_p_i1;
  c.StepVay(&f);
  same(c.P_current, u, "free particle keeps its momentum at the stored point");
  same(c.VY_p_i1, u, "free particle keeps its momentum over the step");
  same(c.getAccel(), VectorZero, "free particle is not accelerated");
  vc_cover("end");
}
// setup: the half step forward from the given starting point
CONTRACT(init_vay) {
  long n = nd_n("n", 1, 2000000000);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  vc_requires(nd_r("m") > 0);
  fill(&c, n);
  AnyField f(1);
  double dt = nd_r("dt");
  c.InitVay(dt, &f);
  double qm = nd_r("q") / nd_r("m") * InvRestMass;
  vc_ensures_eq(c.dt, dt, "time step");
  vc_ensures_eqs(c.qm, qm, InvRestMass, "charge over mass");
  double h = c.qm * dt / 2;
  vc_ensures_eqs(c.qmt2, h, InvRestMass, "half-step factor");
  vc_ensures_eq(c.getTime(), gt(n - 1), "tracking starts at the last stored time");
  same(c.getPosition(), gx(n - 1), "tracking starts at the last stored position");
  same(c.getMomentum(), gp(n - 1), "tracking starts with the last stored momentum");
  Six s = at(f, gt(n - 1), gx(n - 1));
  same(c.E_current, s.E, "electric field sampled at the starting point");
  same(c.B_current, s.B, "magnetic field sampled at the starting point");
  vc_cover("end");
}
CONTRACT(init_vay_momentum) {
  ChargedParticle c(nd_r("q"), nd_r("m"));
  vc_requires(nd_r("m") > 0);
  fill(&c, 1);
  AnyField f(1);
  // the scale keeps natively drawn values in the physical range; dt remains any real
  c.InitVay(nd_r("dt") * 1e-11, &f);
  double h = c.qmt2;
  // natively keep away from cancellation in the scheme
  vc_requires(vc_engine() || h * h * c.B_current.abs2nd() < 1e4);
  Vector p = gp(0), u1 = c.VY_p_i1;
  double g1 = c.VY_gamma_i1;
  double sc = (1 + u1.abs2nd()) * (1 + h * h * c.B_current.abs2nd());
  vc_ensures(g1 > 0, "gamma positive");
  vc_ensures_eqs(g1 * g1, 1.0 + u1.abs2nd(), sc, "gamma belongs to the momentum");
  Vector r = u1 - p - (c.E_current / SpeedOfLight + cross(u1 / g1, c.B_current)) * h;
  vc_ensures_eqs(r.x, 0, sc, "implicit half step of the momentum");
  vc_ensures_eqs(r.y, 0, sc, "implicit half step of the momentum");
  vc_ensures_eqs(r.z, 0, sc, "implicit half step of the momentum");
  Vector bh = p / sqrt(1.0 + p.abs2nd());
  Vector a = (c.E_current / SpeedOfLight + cross(bh, c.B_current)) * c.qm;
  vc_ensures_eqs(c.getAccel().x, a.x, InvRestMass, "acceleration is the Lorentz force over mass");
  vc_ensures_eqs(c.getAccel().y, a.y, InvRestMass, "acceleration is the Lorentz force over mass");
  vc_ensures_eqs(c.getAccel().z, a.z, InvRestMass, "acceleration is the Lorentz force over mass");
  vc_cover("end");
}
