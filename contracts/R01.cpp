// R01: the field emitted from a trajectory point
#include "lw.h"

CONTRACT(field_of_a_point) {
  long n = nd_n("n", 1, 2000000000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  double q = nd_r("q");
  ChargedParticle c(q, nd_r("m"));
  fill(&c, n);
  Vector o = vec1("o"), r = o - gx(i);
  vc_requires(r.abs2nd() > (vc_engine() ? 0 : 1e-6));
  // natively moderate energies
  vc_requires(vc_engine() || gp(i).abs2nd() < 1e4);
  ElMagField f = c.RetardedField((int)i, o);
  lw_same(f, lienard_wiechert(q, gx(i), gp(i), ga(i), o), "Lienard-Wiechert field of the source point");
  // geometry of the radiation
  double s = f.E().norm();
  vc_ensures_eqs(dot(f.B(), f.E()) * SpeedOfLight, 0, s * s, "electric and magnetic fields orthogonal");
  vc_ensures_eqs(dot(f.B(), r) * SpeedOfLight, 0, s * r.norm(), "magnetic field transverse to the line of sight");
  vc_cover("end");
}
CONTRACT(arrival) {
  long n = nd_n("n", 1, 2000000000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  fill(&c, n);
  Vector o = vec1("o");
  double t = c.RetardedTime((int)i, o) - gt(i), R2 = (o - gx(i)).abs2nd();
  vc_ensures_eqs(t * t * (SpeedOfLight * SpeedOfLight), R2, (vc_engine() ? 1 : 1e20) * (1 + R2), "signals travel with the speed of light");
  vc_ensures(t >= (vc_engine() ? 0 : -1e-6), "signals arrive after emission");
  vc_cover("end");
}
CONTRACT(refused) {
  long n = nd_n("n", 0, 2000000000), i = nd_i("i", -2147483648L, 2147483647L);
  vc_requires(i < 0 || i >= n);
  ChargedParticle c(nd_r("q"), nd_r("m"));
  if (n > 0) fill(&c, n);
  int k = 0;
  try { c.RetardedTime((int)i, vec1("o")); } catch (IOexception &) { k++; }
  try { c.RetardedField((int)i, vec1("o")); } catch (IOexception &) { k++; }
  vc_ensures(k == 2, "no signal from a point that does not exist");
  vc_cover("end");
}
// a charge at rest produces the Coulomb field
CONTRACT(coulomb) {
  double q = nd_r("q");
  ChargedParticle c(q, nd_r("m"));
  c.initTrajectory(gt(0), gx(0), Vector(0, 0, 0), Vector(0, 0, 0));
  Vector o = vec1("o"), r = o - gx(0);
  double R = r.norm();
  vc_requires(R > (vc_engine() ? 0 : 1e-6));
  ElMagField f = c.RetardedField(0, o);
  double k = q * ElementaryCharge / (4 * Pi * EpsNull), s = fabs(k) / (R * R);
  vc_ensures_eqs(f.E().x * (R * R * R), k * r.x, s * R * R * R, "Coulomb field"); vc_ensures_eqs(f.E().y * (R * R * R), k * r.y, s * R * R * R, "Coulomb field"); vc_ensures_eqs(f.E().z * (R * R * R), k * r.z, s * R * R * R, "Coulomb field");
  vc_ensures_eqs(f.B().x, 0, s / SpeedOfLight, "no magnetic field"); vc_ensures_eqs(f.B().y, 0, s / SpeedOfLight, "no magnetic field"); vc_ensures_eqs(f.B().z, 0, s / SpeedOfLight, "no magnetic field");
  vc_cover("end");
}
