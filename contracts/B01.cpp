// B01: coordinate distributions
#include "common.h"
#include "global.h"
#include "bunch.h"

static double val(long i, long k) { return nd_r2("c", i, k); }
static Distribution *dist(long dim, long n) {
  Distribution *d = new Distribution((int)dim, (int)n);
  for (long i = 0; i < n; i++)
    for (long k = 0; k < dim; k++) d->setCoordinate((int)i, (int)k, val(i, k));
  return d;
}
struct Shape { long dim, n, i, k; };
// a shape and one of its coordinates
static Shape shape() {
  Shape s;
  s.dim = nd_n("dim", 1, 40000); s.n = nd_n("n", 1, 50000);
  s.i = nd_i("i", 0, 2000000000); s.k = nd_i("k", 0, 2000000000);
  vc_requires(s.i < s.n); vc_requires(s.k < s.dim);
  return s;
}
CONTRACT(create) {
  Shape s = shape();
  Distribution *d = new Distribution((int)s.dim, (int)s.n);
  vc_ensures_eqi(d->getDIM(), s.dim, "dimensions as requested");
  vc_ensures_eqi(d->getNOP(), s.n, "points as requested");
  double v = d->getCoordinate((int)s.i, (int)s.k);
  vc_ensures(v >= -1 && v <= 1, "created coordinates are between -1 and 1");
  vc_cover("end");
}
CONTRACT(access) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n);
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), val(s.i, s.k), "stored coordinates are read back");
  long i = nd_i("i2", -2147483648L, 2147483647L), k = nd_i("k2", -2147483648L, 2147483647L);
  double v = nd_r("v");
  d->setCoordinate((int)i, (int)k, v);
  bool in = i >= 0 && i < s.n && k >= 0 && k < s.dim;
  vc_ensures_eq(d->getCoordinate((int)i, (int)k), in ? v : 0.0, "coordinates outside the shape are refused");
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), i == s.i && k == s.k ? v : val(s.i, s.k), "no other coordinate is touched");
  vc_cover("end");
}
CONTRACT(scale) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n);
  long k = nd_i("k2", -2147483648L, 2147483647L);
  double f = nd_r("f");
  d->scale((int)k, f);
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), k == s.k ? f * val(s.i, s.k) : val(s.i, s.k), "scaling acts on one dimension only");
  vc_cover("end");
}
CONTRACT(correlation) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n);
  long a = nd_i("a", -2147483648L, 2147483647L), b = nd_i("b", -2147483648L, 2147483647L);
  double f = nd_r("f");
  d->addCorrelation((int)a, (int)b, f);
  bool on = a >= 0 && a < s.dim && b == s.k && a != b;
  double e = val(s.i, s.k);
  if (on) e += f * val(s.i, a);
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), e, "correlation changes the dependent coordinate by the stated amount");
  vc_cover("end");
}
CONTRACT(buffer) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n), *g = new Distribution((int)s.dim, (int)s.n);
  long size = s.dim * s.n;
  double *buf = new double[size];
  d->bufferData(buf, (int)size);
  g->fromBuffer(buf, (int)size);
  vc_ensures_eq(g->getCoordinate((int)s.i, (int)s.k), val(s.i, s.k), "every coordinate arrives at its place");
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), val(s.i, s.k), "buffering does not change the source");
  delete[] buf;
  vc_cover("end");
}
CONTRACT(buffer_size) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n);
  long size = nd_i("size", -2147483648L, 2147483647L);
  vc_requires(size != s.dim * s.n);
  double one[1] = {0};
  bool r1 = false, r2 = false;
  try { d->bufferData(one, (int)size); } catch (IOexception) { r1 = true; }
  try { d->fromBuffer(one, (int)size); } catch (IOexception) { r2 = true; }
  vc_ensures(r1 && r2, "buffers of another size are refused");
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), val(s.i, s.k), "a refused buffer changes nothing");
  vc_cover("end");
}
CONTRACT(subset) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n);
  long first = nd_i("first", 0, 2000000000), m = nd_n("m", 1, 50000);
  vc_requires(first + m <= s.n);
  Distribution *g = d->subDist((int)first, (int)m);
  vc_ensures_eqi(g->getDIM(), s.dim, "dimensions kept");
  vc_ensures_eqi(g->getNOP(), m, "points as requested");
  if (s.i < m) vc_ensures_eq(g->getCoordinate((int)s.i, (int)s.k), val(first + s.i, s.k), "the subset starts at the given point");
  vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), val(s.i, s.k), "the source is not changed");
  vc_cover("end");
}
CONTRACT(gaussian) {
  Shape s = shape();
  Distribution *d = dist(s.dim, s.n);
  long k = nd_i("k2", -2147483648L, 2147483647L);
  d->generateGaussian((int)k, 1.0 + nd_r("s") * nd_r("s"));
  if (k != s.k) vc_ensures_eq(d->getCoordinate((int)s.i, (int)s.k), val(s.i, s.k), "only the requested dimension is generated");
  vc_ensures_eqi(d->getNOP(), s.n, "points kept");
  vc_cover("end");
}
CONTRACT(bunch_created) {
  long n = nd_n("n", 1, 1000000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  Distribution *d = dist(7, n);
  Vector x0(nd_r("x0"), nd_r("x1"), nd_r("x2")), p0(nd_r("p0"), nd_r("p1"), nd_r("p2"));
  double t0 = nd_r("t0"), q = nd_r("q"), m = nd_r("m");
  Bunch *b = new Bunch(d, t0, x0, p0, q, m);
  vc_ensures_eqi(b->getNOP(), n, "one particle per point");
  ChargedParticle *p = b->getParticle((int)i);
  vc_ensures_eq(p->getTime(), t0 + val(i, 6), "times are relative to the reference");
  Vector x = p->getPosition(), g = p->getMomentum();
  vc_ensures_eq(x.x, x0.x + val(i, 0), "positions are relative to the reference");
  vc_ensures_eq(x.y, x0.y + val(i, 1), "positions are relative to the reference");
  vc_ensures_eq(x.z, x0.z + val(i, 2), "positions are relative to the reference");
  vc_ensures_eq(g.x, p0.x + val(i, 3), "momenta are relative to the reference");
  vc_ensures_eq(g.y, p0.y + val(i, 4), "momenta are relative to the reference");
  vc_ensures_eq(g.z, p0.z + val(i, 5), "momenta are relative to the reference");
  vc_ensures_eq(p->getCharge(), q * ElementaryCharge, "charge as given");
  vc_cover("end");
}
static double coord(ChargedParticle *p, long k) {
  Vector v = k < 3 ? p->TrajPoint(0) : p->TrajMomentum(0);
  return k % 3 == 0 ? v.x : k % 3 == 1 ? v.y : v.z;
}
CONTRACT(bunch_correlation) {
  long n = nd_n("n", 1, 1000000), i = below(nd_i("i", 0, 2000000000), n), k = nd_i("k", 0, 5);
  vc_requires(i < n);
  long a = nd_i("a", 0, 5), b = nd_i("b", 0, 5);
  double f = nd_r("f");
  Bunch *c = new Bunch(dist(7, n), 0.0, Vector(0, 0, 0), Vector(0, 0, 0), 1.0, 1.0);
  double mean = 0;
  for (long j = 0; j < n; j++) mean += val(j, a);
  mean = mean / (double)n;
  c->addCorrelation((int)a, (int)b, f);
  double e = val(i, k);
  if (k == b && a != b) e += f * (val(i, a) - mean);
  vc_ensures_eq(coord(c->getParticle((int)i), k), e, "only the dependent coordinate changes, by the deviation from the mean");
  vc_ensures_eq(c->getParticle((int)i)->getTime(), val(i, 6), "time kept");
  vc_cover("end");
}
CONTRACT(bunch_correlation_refused) {
  long n = nd_n("n", 1, 1000000), i = below(nd_i("i", 0, 2000000000), n), k = nd_i("k", 0, 5);
  vc_requires(i < n);
  long a = nd_i("a", -2147483648L, 2147483647L), b = nd_i("b", -2147483648L, 2147483647L);
  vc_requires(a < 0 || a > 5 || b < 0 || b > 5 || a == b);
  Bunch *c = new Bunch(dist(7, n), 0.0, Vector(0, 0, 0), Vector(0, 0, 0), 1.0, 1.0);
  c->addCorrelation((int)a, (int)b, nd_r("f"));
  vc_ensures_eq(coord(c->getParticle((int)i), k), val(i, k), "coordinates outside the phase space are refused");
  vc_cover("end");
}
