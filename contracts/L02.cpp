// L02: placing a beamline element only shifts it in space and time
#include "particle_common.h"
#include "dipole.h"
#include "undulator.h"
#include "wave.h"

struct AnyLocal : public LocalizedField {
  AnyLocal() : LocalizedField() {}
  AnyLocal(double t, Vector p) : LocalizedField(t, p) {}
  ElMagField LocalField(double t, Vector X) {
    return ElMagField(Vector(nd_f5("Ex", 0, t, X.x, X.y, X.z), nd_f5("Ey", 0, t, X.x, X.y, X.z), nd_f5("Ez", 0, t, X.x, X.y, X.z)),
                      Vector(nd_f5("Bx", 0, t, X.x, X.y, X.z), nd_f5("By", 0, t, X.x, X.y, X.z), nd_f5("Bz", 0, t, X.x, X.y, X.z)));
  }
};
static void equal(ElMagField a, ElMagField b, const char *l) {
  double s = a.E().norm() + a.B().norm() + 1;
  vc_ensures_eqs(a.E().x, b.E().x, s, l); vc_ensures_eqs(a.E().y, b.E().y, s, l); vc_ensures_eqs(a.E().z, b.E().z, s, l);
  vc_ensures_eqs(a.B().x, b.B().x, s, l); vc_ensures_eqs(a.B().y, b.B().y, s, l); vc_ensures_eqs(a.B().z, b.B().z, s, l);
}
CONTRACT(any_element) {
  AnyLocal f(nd_r("t0"), vec1("o"));
  double t = nd_r("t");
  Vector X = vec1("x"), o = vec1("o");
  AnyLocal z;
  GeneralField *g = &f;
  ElMagField r = g->Field(t, X), l = z.LocalField(t - nd_r("t0"), Vector(X.x - o.x, X.y - o.y, X.z - o.z));
  equal(r, l, "field of the local coordinates");
  equal(z.Field(t, X), z.LocalField(t, X), "unplaced elements sit at the origin");
  vc_cover("end");
}
// element a at (t0,o) observed at (t,X) against element b at (t0+dt,o+d) observed at (t+dt,X+d)
static void shifted(LocalizedField *a, LocalizedField *b, double ts = 1.0) {
  // ts: time scale (keeps native rounding of phases small)
  double t0 = nd_r("t0") * ts, dt = nd_r("dt") * ts, t = nd_r("t") * ts;
  Vector o = vec1("o"), d = vec1("d"), X = vec1("x");
  a->t0 = t0; a->origin = o;
  b->t0 = t0 + dt; b->origin = o + d;
  equal(b->Field(t + dt, X + d), a->Field(t, X), "displacing element and observer together changes nothing");
  vc_cover("end");
}
CONTRACT(hard_edge_dipole) {
  HardEdgeDipole a(vec1("b"), vec1("p1"), vec1("n1"), vec1("p2"), vec1("n2")), b(vec1("b"), vec1("p1"), vec1("n1"), vec1("p2"), vec1("n2"));
  shifted(&a, &b);
}
CONTRACT(soft_edge_dipole) {
  HardEdgeDipole dflt;
  SoftEdgeDipole a(vec1("b"), vec1("p1"), vec1("n1"), nd_r("t1"), vec1("p2"), vec1("n2"), nd_r("t2"));
  SoftEdgeDipole b(vec1("b"), vec1("p1"), vec1("n1"), nd_r("t1"), vec1("p2"), vec1("n2"), nd_r("t2"));
  vc_requires(nd_r("t1") > 0 && nd_r("t2") > 0);
  shifted(&a, &b);
}
CONTRACT(planar_undulator) {
  PlanarUndulator a, b;
  double l = nd_r("l");
  vc_requires(l > 0);
  int n = nd_n("n", 1, 1000000);
  a.Setup(nd_r("b"), l, n); b.Setup(nd_r("b"), l, n);
  shifted(&a, &b);
}
CONTRACT(gradient_undulator) {
  TransverseGradientUndulator a, b;
  double l = nd_r("l");
  vc_requires(l > 0);
  int n = nd_n("n", 1, 1000000);
  a.Setup(nd_r("b"), nd_r("g"), nd_r("m"), l, n); b.Setup(nd_r("b"), nd_r("g"), nd_r("m"), l, n);
  shifted(&a, &b);
}
CONTRACT(wave) {
  GaussianWave a, b;
  vc_requires(nd_r("l") > 0 && nd_r("r") > 0);
  vc_requires(nd_r1("x", 2) != nd_r1("o", 2));
  a.Setup(nd_r("l"), std::complex<double>(nd_r("ar"), nd_r("ai")), nd_r("r"));
  b.Setup(nd_r("l"), std::complex<double>(nd_r("ar"), nd_r("ai")), nd_r("r"));
  shifted(&a, &b, 1e-9);
}
CONTRACT(wave_packet) {
  GaussianWavePacket a, b;
  vc_requires(nd_r("l") > 0 && nd_r("r") > 0 && nd_r("tau") > 0);
  vc_requires(nd_r1("x", 2) != nd_r1("o", 2));
  a.Setup(nd_r("l"), std::complex<double>(nd_r("ar"), nd_r("ai")), nd_r("r"), nd_r("tau"));
  b.Setup(nd_r("l"), std::complex<double>(nd_r("ar"), nd_r("ai")), nd_r("r"), nd_r("tau"));
  shifted(&a, &b, 1e-9);
}
// constructors put the element where they are told
CONTRACT(constructors) {
  PlanarUndulator u(vec1("o"));
  same(u.origin, vec1("o"), "undulator position");
  vc_ensures_eq(u.t0, 0, "undulator reference time");
  TransverseGradientUndulator g(vec1("o"));
  same(g.origin, vec1("o"), "gradient undulator position");
  vc_ensures_eq(g.t0, 0, "gradient undulator reference time");
  GaussianWave w(nd_r("t0"), vec1("o"));
  same(w.origin, vec1("o"), "wave position");
  vc_ensures_eq(w.t0, nd_r("t0"), "wave reference time");
  GaussianWavePacket p(nd_r("t0"), vec1("o"));
  same(p.origin, vec1("o"), "wave packet position");
  vc_ensures_eq(p.t0, nd_r("t0"), "wave packet reference time");
  PlanarUndulator u0; TransverseGradientUndulator g0; GaussianWave w0; GaussianWavePacket p0; HardEdgeDipole h0; SoftEdgeDipole s0;
  same(u0.origin, VectorZero, "default position"); same(g0.origin, VectorZero, "default position");
  same(w0.origin, VectorZero, "default position"); same(p0.origin, VectorZero, "default position");
  same(h0.origin, VectorZero, "default position"); same(s0.origin, VectorZero, "default position");
  vc_cover("end");
}
