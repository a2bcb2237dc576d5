// B02: statistics of a bunch and of a beam
#include <complex>
#include "trace_common.h"
#include "bunch.h"
#include "beam.h"

static ChargedParticle *member(long i) {
  ChargedParticle *p = new ChargedParticle(nd_r1("q", i), nd_r1("m", i));
  p->initTrajectory(gt(i), gx(i), gp(i), ga(i));
  return p;
}
static long population() { return nd_n("n", 1, 2000000000); }
static Bunch *crowd(long n) {
  Bunch *b = new Bunch();
  for (long i = 0; i < n; i++) b->Add(member(i));
  return b;
}
CONTRACT(members) {
  long n = nd_n("n", 0, 2000000000);
  Bunch *b = new Bunch();
  vc_ensures_eqi(b->getNOP(), 0, "a bunch starts empty");
  for (long i = 0; i < n; i++) b->Add(member(i));
  vc_ensures_eqi(b->getNOP(), n, "every particle is counted");
  long k = nd_i("k", -2147483648L, 2147483647L);
  ChargedParticle *p = b->getParticle((int)k);
  vc_ensures((p != 0) == (k >= 0 && k < n), "particles exist for the indices 0..n-1 only");
  if (k >= 0 && k < n) {
    vc_cover("member");
    same(p->getPosition(), gx(k), "particles keep their order");
    vc_ensures_eq(p->getCharge(), nd_r1("q", k) * ElementaryCharge, "particles keep their order");
  }
  double s = 0;
  for (long i = 0; i < n; i++) s += nd_r1("q", i);
  vc_ensures_eq(b->getTotalCharge(), s * ElementaryCharge, "total charge is the sum over all particles");
  vc_cover("end");
}
CONTRACT(means) {
  long n = population();
  Bunch *b = crowd(n);
  double t = 0;
  Vector x, p;
  for (long i = 0; i < n; i++) { t += gt(i); x += gx(i); p += gp(i); }
  double w = 1.0 / (double)n;
  vc_ensures_eq(b->avgTime(), t * w, "average time");
  same(b->avgPosition(), x * w, "average position");
  same(b->avgMomentum(), p * w, "average momentum");
  vc_cover("end");
}
CONTRACT(deviation) {
  long n = population();
  Bunch *b = crowd(n);
  double w = 1.0 / (double)n, sx = 0, sy = 0, sz = 0;
  double x = 0, y = 0, z = 0;
  for (long i = 0; i < n; i++) { Vector r = gx(i); x += r.x; y += r.y; z += r.z; }
  x *= w; y *= w; z *= w;
  for (long i = 0; i < n; i++) {
    Vector r = gx(i);
    sx += (r.x - x) * (r.x - x); sy += (r.y - y) * (r.y - y); sz += (r.z - z) * (r.z - z);
  }
  same(b->rmsPosition(), Vector(sqrt(sx * w), sqrt(sy * w), sqrt(sz * w)), "standard deviation of the position");
  vc_cover("end");
}
CONTRACT(energies) {
  long n = population();
  Bunch *b = crowd(n);
  double w = 1.0 / (double)n, g = 0, m = 0, s = 0;
  for (long i = 0; i < n; i++) {
    Vector p = gp(i);
    double q = p.x * p.x + p.y * p.y + p.z * p.z;
    g += sqrt(1.0 + q);
    m += sqrt(q);
  }
  m *= w;
  vc_requires(m > 0);
  for (long i = 0; i < n; i++) {
    Vector p = gp(i);
    double d = sqrt(p.x * p.x + p.y * p.y + p.z * p.z) - m;
    s += d * d;
  }
  vc_ensures_eq(b->avgGamma(), g * w, "average relativistic factor");
  vc_ensures_eqs(b->delta(), sqrt(s * w) / m, 1.0, "relative momentum spread");
  vc_cover("end");
}
CONTRACT(bunching) {
  long n = population();
  Bunch *b = crowd(n);
  double f = nd_r("f"), w = 1.0 / (double)n, re = 0, im = 0;
  for (long i = 0; i < n; i++) {
    double ph = 2.0 * Pi * f * gx(i).z / SpeedOfLight;
    re += cos(ph);
    im += sin(ph);
  }
  std::complex<double> r = b->BunchingFactor(f);
  vc_ensures_eqs(r.real(), re * w, 1.0, "mean phase factor, real part");
  vc_ensures_eqs(r.imag(), im * w, 1.0, "mean phase factor, imaginary part");
  vc_cover("end");
}
// Modular contracts: a bunch has any number of particles and any charge
extern "C" int size_of(Bunch *b) { return (int)nd_i1("size", b->NOP, 0, 1000); }
extern "C" double charge_of(Bunch *b) { return nd_r1("charge", b->NOP); }
CONTRACT(beam) {
  vc_replace("Bunch::getNOP()", "size_of");
  vc_replace("Bunch::getTotalCharge()", "charge_of");
  Beam *b = new Beam();
  vc_ensures_eqi(b->getNOB(), 0, "a beam starts empty");
  long n = nd_n("n", 0, 2000000), s = 0;
  double q = 0;
  for (long i = 0; i < n; i++) {
    Bunch *c = new Bunch();
    if (vc_engine()) c->NOP = (int)i;
    else for (long k = 0; k < i % 4; k++) c->Add(member(10 * i + k));
    b->Add(c);
  }
  for (long i = 0; i < n; i++) { s += b->getBunch((int)i)->getNOP(); q += b->getBunch((int)i)->getTotalCharge(); }
  vc_ensures_eqi(b->getNOB(), n, "every bunch is counted");
  vc_ensures_eqi(b->getNOP(), s, "number of particles is the sum over the bunches");
  vc_ensures_eq(b->getTotalCharge(), q, "charge is the sum over the bunches");
  long k = nd_i("k", -2147483648L, 2147483647L);
  vc_ensures((b->getBunch((int)k) != 0) == (k >= 0 && k < n), "bunches exist for the indices 0..n-1 only");
  vc_cover("end");
}
