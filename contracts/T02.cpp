// T02: evaluation of field traces
#include "trace_common.h"
static const long MAXN = 2000000000;

CONTRACT(interpolation) {
  long n = nd_n("n", 0, MAXN), j = nd_n("j", 0, MAXN) - 1;
  double t0 = moderate("t0"), dt = positive("dt"), x = unit("x");
  FieldTrace t(t0, dt, n);
  load(&t, "f", n);
  ElMagField f = t.get_field(t0 + dt * (j + x));
  ElMagField l = j >= 0 && j < n ? fld("f", j) : ElMagFieldZero;
  ElMagField r = j + 1 < n ? fld("f", j + 1) : ElMagFieldZero;
  ElMagField e = l * (1 - x) + r * x;
  double s = (l.E().norm() + r.E().norm() + l.B().norm() + r.B().norm()) * 1e3;
  vc_ensures_eqs(f.E().x, e.E().x, s, "linear interpolation of the samples"); vc_ensures_eqs(f.E().y, e.E().y, s, "linear interpolation of the samples");
  vc_ensures_eqs(f.E().z, e.E().z, s, "linear interpolation of the samples"); vc_ensures_eqs(f.B().x, e.B().x, s, "linear interpolation of the samples");
  vc_ensures_eqs(f.B().y, e.B().y, s, "linear interpolation of the samples"); vc_ensures_eqs(f.B().z, e.B().z, s, "linear interpolation of the samples");
  vc_cover("end");
}
CONTRACT(before) {
  long n = nd_n("n", 0, MAXN);
  double t0 = moderate("t0"), dt = positive("dt"), x = 1 + (vc_engine() ? positive("x") : 1e10 * positive("x"));
  FieldTrace t(t0, dt, n);
  load(&t, "f", n);
  fsame(t.get_field(t0 - dt * x), ElMagFieldZero, "zero before the trace");
  vc_cover("end");
}
CONTRACT(behind) {
  long n = nd_n("n", 0, MAXN);
  double t0 = moderate("t0"), dt = positive("dt"), x = n + (vc_engine() ? nd_r("x") : 1e9 * positive("x"));
  vc_requires(x >= n);
  FieldTrace t(t0, dt, n);
  load(&t, "f", n);
  fsame(t.get_field(t0 + dt * x), ElMagFieldZero, "zero behind the trace");
  vc_cover("end");
}
CONTRACT(energy) {
  long n = nd_n("n", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  double x = 0, y = 0, z = 0, s = 0;
  for (long i = 0; i < n; i++) {
    Vector p = cross(fld("f", i).E(), fld("f", i).B());
    x += p.x; y += p.y; z += p.z;
    s += p.norm();
  }
  Vector p = t.Poynting();
  double c = nd_r("dt") / (4e-7 * 3.14159265358979323846);
  vc_ensures_eqs(p.x, x * c, s * c, "time-integrated energy flow");
  vc_ensures_eqs(p.y, y * c, s * c, "time-integrated energy flow");
  vc_ensures_eqs(p.z, z * c, s * c, "time-integrated energy flow");
  vc_cover("end");
}
static void fscaled(ElMagField r, ElMagField e, double s, const char *l) {
  vc_ensures_eqs(r.E().x, e.E().x, s, l); vc_ensures_eqs(r.E().y, e.E().y, s, l); vc_ensures_eqs(r.E().z, e.E().z, s, l);
  vc_ensures_eqs(r.B().x, e.B().x, s, l); vc_ensures_eqs(r.B().y, e.B().y, s, l); vc_ensures_eqs(r.B().z, e.B().z, s, l);
}
CONTRACT(derivative) {
  long n = nd_n("n", 2, MAXN), k = below(nd_i("k", 0, MAXN), n);
  vc_requires(k < n);
  double dt = positive("dt");
  FieldTrace t(nd_r("t0"), dt, n);
  load(&t, "f", n);
  FieldTrace *d = t.derivative();
  vc_ensures_eqi(d->get_N(), n, "length"); vc_ensures_eq(d->get_t0(), nd_r("t0"), "time base"); vc_ensures_eq(d->get_dt(), dt, "time base");
  long a = k > 0 ? k - 1 : 0, b = k < n - 1 ? k + 1 : n - 1;
  fsame(sample(d, k), (fld("f", b) - fld("f", a)) / ((b - a) * dt), "difference quotient of the neighbouring samples");
  fsame(sample(&t, k), fld("f", k), "original unchanged");
  delete d;
  vc_cover("end");
}
CONTRACT(derivative_short) {
  long n = nd_n("n", 0, 1);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  bool refused = false;
  try { t.derivative(); } catch (IOexception &) { refused = true; }
  vc_ensures(refused, "no derivative of less than 2 samples");
  vc_cover("end");
}
// a constant-slope trace has its slope as derivative, everywhere
CONTRACT(derivative_of_line) {
  long n = nd_n("n", 2, MAXN), k = below(nd_i("k", 0, MAXN), n);
  vc_requires(k < n);
  double dt = positive("dt");
  FieldTrace t(nd_r("t0"), dt, n);
  for (long i = 0; i < n; i++) t.set_field((std::size_t)i, fld("a", 0) + fld("b", 0) * (dt * i));
  FieldTrace *d = t.derivative();
  double s = (fld("a", 0).E().norm() + fld("a", 0).B().norm()) / dt + (fld("b", 0).E().norm() + fld("b", 0).B().norm()) * n;
  fscaled(sample(d, k), fld("b", 0), s, "slope");
  delete d;
  vc_cover("end");
}
CONTRACT(transversal) {
  long n = nd_n("n", 1, MAXN), k = below(nd_i("k", 0, MAXN), n);
  vc_requires(k < n);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  Vector m = vec1("m");
  vc_requires(m.abs2nd() > (vc_engine() ? 0 : 1e-6));
  t.cancel_long_fields(m);
  ElMagField r = sample(&t, k), f = fld("f", k);
  double q = m.abs2nd();
  Vector E = f.E() - m * (dot(f.E(), m) / q), B = f.B() - m * (dot(f.B(), m) / q);
  fscaled(r, ElMagField(E, B), f.E().norm() + f.B().norm(), "component along the normal removed");
  vc_ensures_eqi(t.get_N(), n, "length kept");
  vc_cover("end");
}
CONTRACT(transform) {
  long n = nd_n("n", 1, MAXN), k = below(nd_i("k", 0, MAXN), n);
  vc_requires(k < n);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  Vector x = vec1("x"), y = vec1("y"), z = vec1("z");
  t.transform(x, y, z);
  ElMagField r = sample(&t, k), f = fld("f", k);
  ElMagField e(Vector(dot(f.E(), x), dot(f.E(), y), dot(f.E(), z)), Vector(dot(f.B(), x), dot(f.B(), y), dot(f.B(), z)));
  fscaled(r, e, (f.E().norm() + f.B().norm()) * (x.norm() + y.norm() + z.norm()), "components in the new frame");
  vc_cover("end");
}
CONTRACT(retard) {
  long n = nd_n("n", 1, MAXN), m = nd_n("m", 1, MAXN), k = below(nd_i("k", 0, MAXN), m), j = nd_n("j", 0, MAXN) - 1;
  vc_requires(k < m);
  double t0 = moderate("t0"), dt = positive("dt"), t1 = moderate("t1"), dt1 = positive("dt1"), fr = unit("x");
  // the delay for which target sample k sees the source between its samples j and j+1
  double d = t1 + k * dt1 - t0 - dt * (j + fr);
  FieldTrace t(t0, dt, n), u(t1, dt1, m);
  load(&t, "f", n);
  load(&u, "g", m);
  bool zero = false;
  try { t.retard(d, &u); } catch (IOexception &) { zero = true; }
  ElMagField l = j >= 0 && j < n ? fld("f", j) : ElMagFieldZero;
  ElMagField r = j + 1 < n ? fld("f", j + 1) : ElMagFieldZero;
  ElMagField f = sample(&u, k), e = l * (1 - fr) + r * fr;
  double s = (l.E().norm() + r.E().norm() + l.B().norm() + r.B().norm()) * 1e3;
  fscaled(f, e, s, "field at the earlier time");
  vc_ensures_eqi(u.get_N(), m, "target length kept"); vc_ensures_eq(u.get_t0(), t1, "target time base kept"); vc_ensures_eq(u.get_dt(), dt1, "target time base kept");
  vc_ensures(zero == (u.Poynting().norm() == 0.0), "refused if no energy arrives");
  vc_cover("end");
}
