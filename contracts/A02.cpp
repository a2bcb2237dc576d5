// A02: field values form a linear space; Poynting vector; homogeneous field
#include "particle_common.h"

static ElMagField any(const char *e, const char *b) { return ElMagField(vec1(e), vec1(b)); }
static void both(ElMagField r, Vector e, Vector b, const char *l) { same(r.E(), e, l); same(r.B(), b, l); }

CONTRACT(parts) {
  ElMagField z;
  both(z, Vector(0, 0, 0), Vector(0, 0, 0), "default field is zero");
  both(ElMagFieldZero, Vector(0, 0, 0), Vector(0, 0, 0), "the zero field constant is zero");
  ElMagField f = any("e", "b");
  both(f, vec1("e"), vec1("b"), "parts are kept");
  ElMagField g = f;
  f.Zero();
  both(f, Vector(0, 0, 0), Vector(0, 0, 0), "Zero() clears both parts");
  both(g, vec1("e"), vec1("b"), "copies are independent");
  vc_cover("end");
}
CONTRACT(pure_forms) {
  ElMagField f = any("e", "b"), g = any("e2", "b2");
  double s = nd_r("s");
  Vector e = vec1("e"), b = vec1("b"), e2 = vec1("e2"), b2 = vec1("b2");
  ElMagField r = f + g;
  both(r, Vector(e.x + e2.x, e.y + e2.y, e.z + e2.z), Vector(b.x + b2.x, b.y + b2.y, b.z + b2.z), "sum by components");
  r = f - g;
  both(r, Vector(e.x - e2.x, e.y - e2.y, e.z - e2.z), Vector(b.x - b2.x, b.y - b2.y, b.z - b2.z), "difference by components");
  r = f * s;
  both(r, Vector(e.x * s, e.y * s, e.z * s), Vector(b.x * s, b.y * s, b.z * s), "multiple by components");
  if (s != 0) {
    r = f / s;
    both(r, Vector(e.x / s, e.y / s, e.z / s), Vector(b.x / s, b.y / s, b.z / s), "quotient by components");
    vc_cover("division");
  }
  both(f, e, b, "operands unchanged");
  both(g, e2, b2, "operands unchanged");
  vc_cover("end");
}
CONTRACT(inplace_forms) {
  ElMagField f = any("e", "b"), g = any("e2", "b2");
  double s = nd_r("s");
  ElMagField r = f;
  ElMagField *p = &(r += g);
  ElMagField x = f + g;
  both(r, x.E(), x.B(), "in-place sum");
  vc_ensures(p == &r, "in-place sum returns the object");
  r = f; p = &(r -= g); x = f - g;
  both(r, x.E(), x.B(), "in-place difference");
  vc_ensures(p == &r, "in-place difference returns the object");
  r = f; p = &(r *= s); x = f * s;
  both(r, x.E(), x.B(), "in-place multiple");
  vc_ensures(p == &r, "in-place multiple returns the object");
  if (s != 0) {
    r = f; p = &(r /= s); x = f / s;
    both(r, x.E(), x.B(), "in-place quotient");
    vc_ensures(p == &r, "in-place quotient returns the object");
    vc_cover("division");
  }
  // aliasing
  r = f; r += r; x = f * 2.0;
  both(r, x.E(), x.B(), "a field added to itself doubles");
  r = f; r -= r;
  both(r, Vector(0, 0, 0), Vector(0, 0, 0), "a field subtracted from itself vanishes");
  both(g, vec1("e2"), vec1("b2"), "other operand unchanged");
  vc_cover("end");
}
CONTRACT(poynting) {
  ElMagField f = any("e", "b");
  Vector e = vec1("e"), b = vec1("b");
  Vector s = f.Poynting();
  double mu0 = 4.0e-7 * 3.14159265358979323846;
  double sc = (e.abs2nd() + b.abs2nd()) / mu0;
  vc_ensures_eqs(s.x, (e.y * b.z - e.z * b.y) / mu0, sc, "x component of ExB/mu0");
  vc_ensures_eqs(s.y, (e.z * b.x - e.x * b.z) / mu0, sc, "y component of ExB/mu0");
  vc_ensures_eqs(s.z, (e.x * b.y - e.y * b.x) / mu0, sc, "z component of ExB/mu0");
  vc_cover("end");
}
CONTRACT(observed) {
  ElMagObs o(nd_r("t"), vec1("e"), vec1("b"));
  vc_ensures_eq(o.Time(), nd_r("t"), "time kept");
  same(o.E(), vec1("e"), "electric part kept");
  same(o.B(), vec1("b"), "magnetic part kept");
  both(o.EB(), vec1("e"), vec1("b"), "field value kept");
  ElMagObs d;
  vc_ensures_eq(d.Time(), 0, "default time");
  both(d.EB(), Vector(0, 0, 0), Vector(0, 0, 0), "default field");
  vc_cover("end");
}
CONTRACT(homogeneous) {
  HomogeneousField h(vec1("e"), vec1("b"));
  both(h.Field(nd_r("t"), vec1("x")), vec1("e"), vec1("b"), "configured field everywhere");
  both(h.Field(nd_r("t2"), vec1("x2")), vec1("e"), vec1("b"), "configured field everywhere, again");
  HomogeneousField z;
  both(z.Field(nd_r("t"), vec1("x")), Vector(0, 0, 0), Vector(0, 0, 0), "default homogeneous field is zero");
  GeneralField *g = &h;
  both(g->Field(nd_r("t"), vec1("x")), vec1("e"), vec1("b"), "configured field through the interface");
  vc_cover("end");
}
