// arbitrary field traces
#pragma once
#include "particle_common.h"
#include "fieldtrace.h"
static inline ElMagField fld(const char *n, long i) {
  return ElMagField(Vector(nd_r2(n, i, 0), nd_r2(n, i, 1), nd_r2(n, i, 2)), Vector(nd_r2(n, i, 3), nd_r2(n, i, 4), nd_r2(n, i, 5)));
}
static inline void fsame(ElMagField r, ElMagField e, const char *label) {
  same(r.E(), e.E(), label);
  same(r.B(), e.B(), label);
}
// fields of particles, of the order of scale V/m natively
static inline void psame(ElMagField r, ElMagField e, double scale, const char *label) {
  if (vc_engine()) { fsame(r, e, label); return; }
  Vector a = r.E(), b = e.E(), c = r.B() * SpeedOfLight, d = e.B() * SpeedOfLight;
  vc_ensures_eqs(a.x, b.x, scale, label); vc_ensures_eqs(a.y, b.y, scale, label); vc_ensures_eqs(a.z, b.z, scale, label);
  vc_ensures_eqs(c.x, d.x, scale, label); vc_ensures_eqs(c.y, d.y, scale, label); vc_ensures_eqs(c.z, d.z, scale, label);
}
static inline double size(ElMagField f) { return f.E().norm() + f.B().norm() * SpeedOfLight; }
// the contents of a trace before recording (natively of the size of such fields)
static inline ElMagField fldp(const char *n, long i) {
  ElMagField f = fld(n, i);
  return vc_engine() ? f : ElMagField(f.E() * 1e-9, f.B() * (1e-9 / SpeedOfLight));
}
static inline void load(FieldTrace *t, const char *n, long N) {
  for (long i = 0; i < N; i++) t->set_field((std::size_t)i, fld(n, i));
}
static inline void loadp(FieldTrace *t, const char *n, long N) {
  for (long i = 0; i < N; i++) t->set_field((std::size_t)i, fldp(n, i));
}
static inline ElMagField sample(FieldTrace *t, long i) { return t->get_field((std::size_t)i); }
// an arbitrary number with 0 <= x < 1 (natively not too close to the limits)
static inline double unit(const char *n) {
  double x = nd_r(n);
  if (vc_engine()) { vc_requires(0 <= x && x < 1); return x; }
  x = fabs(x);
  return 0.01 + 0.98 * (x - floor(x));
}
// an arbitrary positive number (natively of moderate size)
static inline double positive(const char *n) {
  double x = nd_r(n);
  if (vc_engine()) { vc_requires(x > 0); return x; }
  x = fabs(x);
  return x > 1e-3 && x < 1e3 ? x : 1.0;
}
static inline double moderate(const char *n) {
  double x = nd_r(n);
  return vc_engine() || fabs(x) < 1e3 ? x : 1.0;
}
// sums of many particles may cancel: no digits below those of the largest contribution
static inline double natural(FieldTrace *t) {
  if (vc_engine()) return 1;
  double s = 1e-9;
  for (std::size_t i = 0; i < t->get_N(); i++) s += size(t->get_field(i));
  return s;
}
