// L01: the field of a lattice is the sum over its elements
#include "particle_common.h"

static void addAny(Lattice *l, long n) { for (long i = 0; i < n; i++) l->addElement(new AnyField(i)); }

CONTRACT(field_is_sum) {
  Lattice *l = new Lattice();
  long n = nd_n("n", 0, 2000000000);
  addAny(l, n);
  vc_ensures_eqi(l->count(), n, "number of elements");
  double t = nd_r("t");
  Vector X = vec1("x");
  ElMagField f = l->Field(t, X);
  double e0 = 0, e1 = 0, e2 = 0, b0 = 0, b1 = 0, b2 = 0;
  for (long i = 0; i < n; i++) {
    e0 += nd_f5("Ex", i, t, X.x, X.y, X.z); e1 += nd_f5("Ey", i, t, X.x, X.y, X.z); e2 += nd_f5("Ez", i, t, X.x, X.y, X.z);
    b0 += nd_f5("Bx", i, t, X.x, X.y, X.z); b1 += nd_f5("By", i, t, X.x, X.y, X.z); b2 += nd_f5("Bz", i, t, X.x, X.y, X.z);
  }
  same(f.E(), Vector(e0, e1, e2), "electric field is the sum over all elements");
  same(f.B(), Vector(b0, b1, b2), "magnetic field is the sum over all elements");
  vc_cover("end");
}
CONTRACT(access) {
  Lattice *l = new Lattice();
  long n = nd_n("n", 0, 2000000000);
  addAny(l, n);
  int i = (int)nd_i("i", -2147483648L, 2147483647L);
  bool in = i >= 0 && i < n, ok = true;
  GeneralField *g = 0;
  try { g = l->at(i); } catch (IOexception &) { ok = false; }
  vc_ensures(ok == in, "access refused exactly outside of the range");
  if (ok) { vc_ensures_eqi(((AnyField *)g)->id, i, "elements in the order of insertion"); vc_cover("element"); }
  vc_ensures_eqi(l->count(), n, "access changes nothing");
  vc_cover("end");
}
CONTRACT(removal) {
  Lattice *l = new Lattice();
  long n = nd_n("n", 0, 2000000000);
  addAny(l, n);
  int i = (int)nd_i("i", -2147483648L, 2147483647L);
  bool in = i >= 0 && i < n, ok = true;
  try { l->remove(i); } catch (IOexception &) { ok = false; }
  vc_ensures(ok == in, "removal refused exactly outside of the range");
  vc_ensures_eqi(l->count(), ok ? n - 1 : n, "one element less, or none when refused");
  long j = nd_i("j", 0, 1999999999);
  vc_requires(j < l->count());
  vc_ensures_eqi(((AnyField *)l->at(j))->id, (ok && j >= i) ? j + 1 : j, "the others stay in order");
  vc_cover("end");
}
CONTRACT(empty) {
  Lattice *l = new Lattice();
  vc_ensures_eqi(l->count(), 0, "a new lattice is empty");
  ElMagField f = l->Field(nd_r("t"), vec1("x"));
  same(f.E(), Vector(0, 0, 0), "no electric field of an empty lattice");
  same(f.B(), Vector(0, 0, 0), "no magnetic field of an empty lattice");
  vc_cover("end");
}
