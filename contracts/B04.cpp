// B04: exchange of tracking steps through buffers
#include "particle_common.h"
#include "bunch.h"
#include "beam.h"

static ChargedParticle *member(long i) {
  ChargedParticle *p = new ChargedParticle(1.0, 1.0);
  p->initTrajectory(gt(i), gx(i), gp(i), ga(i));
  return p;
}
static Bunch *crowd(long n) {
  Bunch *b = new Bunch();
  for (long i = 0; i < n; i++) b->Add(member(i));
  return b;
}
// what is expected at place e of the data of particle i
static double datum(long i, long e) {
  if (e == 0) return gt(i);
  Vector v = e < 4 ? gx(i) : e < 7 ? gp(i) : ga(i);
  long c = (e - 1) % 3;
  return c == 0 ? v.x : c == 1 ? v.y : v.z;
}
CONTRACT(bunch_out) {
  long n = nd_n("n", 0, 200000000), i = below(nd_i("i", 0, 2000000000), n), e = nd_i("e", 0, 9);
  vc_requires(i < n);
  Bunch *b = crowd(n);
  double *buf = new double[10 * n + 1];
  buf[10 * n] = nd_r("beyond");
  double *end = b->bufferStep(buf);
  vc_ensures_eqi(end - buf, 10 * n, "ten values per particle");
  vc_ensures_eq(buf[10 * i + e], datum(i, e), "time, position, momentum and acceleration in order");
  vc_ensures_eq(buf[10 * n], nd_r("beyond"), "nothing is written beyond");
  vc_cover("end");
}
CONTRACT(bunch_in) {
  long n = nd_n("n", 0, 200000000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  Bunch *b = crowd(n);
  double *buf = new double[10 * n];
  for (long k = 0; k < n; k++)
    for (long e = 0; e < 10; e++) buf[10 * k + e] = nd_r2("new", k, e);
  double *end = b->setStepFromBuffer(buf);
  vc_ensures_eqi(end - buf, 10 * n, "ten values per particle");
  ChargedParticle *p = b->getParticle((int)i);
  vc_ensures_eq(p->getTime(), nd_r2("new", i, 0), "time received");
  same(p->getPosition(), Vector(nd_r2("new", i, 1), nd_r2("new", i, 2), nd_r2("new", i, 3)), "position received");
  same(p->getMomentum(), Vector(nd_r2("new", i, 4), nd_r2("new", i, 5), nd_r2("new", i, 6)), "momentum received");
  same(p->getAccel(), Vector(nd_r2("new", i, 7), nd_r2("new", i, 8), nd_r2("new", i, 9)), "acceleration received");
  vc_ensures_eqi(p->getNP(), 2, "the step becomes a trajectory point");
  vc_ensures_eq(p->TrajTime(1), nd_r2("new", i, 0), "time recorded");
  same(p->TrajPoint(1), Vector(nd_r2("new", i, 1), nd_r2("new", i, 2), nd_r2("new", i, 3)), "position recorded");
  same(p->TrajMomentum(1), Vector(nd_r2("new", i, 4), nd_r2("new", i, 5), nd_r2("new", i, 6)), "momentum recorded");
  same(p->TrajAccel(1), Vector(nd_r2("new", i, 7), nd_r2("new", i, 8), nd_r2("new", i, 9)), "acceleration recorded");
  vc_ensures_eq(p->TrajTime(0), gt(i), "the trajectory before is kept");
  vc_cover("end");
}
CONTRACT(bunch_exchange) {
  long n = nd_n("n", 0, 200000000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  Bunch *b = crowd(n), *c = new Bunch((int)n, 1.0, 1.0);
  double *buf = new double[10 * n];
  b->bufferStep(buf);
  c->setStepFromBuffer(buf);
  ChargedParticle *p = c->getParticle((int)i), *q = b->getParticle((int)i);
  vc_ensures_eq(p->getTime(), q->getTime(), "time transferred");
  same(p->getPosition(), q->getPosition(), "position transferred");
  same(p->getMomentum(), q->getMomentum(), "momentum transferred");
  same(p->getAccel(), q->getAccel(), "acceleration transferred");
  vc_cover("end");
}
CONTRACT(coordinates) {
  long n = nd_n("n", 0, 200000000), room = nd_n("room", 0, 200000000), i = nd_i("i", 0, 2000000000), e = nd_i("e", 0, 5);
  long m = room < n ? room : n;
  vc_requires(i < m);
  Bunch *b = crowd(n);
  double *buf = new double[6 * room];
  double *end = b->bufferCoordinates(buf, (int)room);
  vc_ensures_eqi(end - buf, 6 * m, "six values per particle, no more than there is room for");
  vc_ensures_eq(buf[6 * i + e], datum(i, e + 1), "position and momentum in order");
  vc_cover("end");
}
CONTRACT(probe) {
  ChargedParticle *p = member(0);
  p->E_current = vec1("E");
  p->B_current = vec1("B");
  unsigned int size = p->getProbeBufferSize();
  vc_ensures_eqi(size, 16, "sixteen values per probe");
  double buf[17];
  buf[16] = nd_r("beyond");
  double *end = p->bufferProbe(buf);
  vc_ensures_eqi(end - buf, size, "as many values as announced");
  for (long e = 0; e < 10; e++) vc_ensures_eq(buf[e], datum(0, e), "time, position, momentum and acceleration in order");
  same(Vector(buf[10], buf[11], buf[12]), p->E_current, "electric field");
  same(Vector(buf[13], buf[14], buf[15]), p->B_current, "magnetic field");
  vc_ensures_eq(buf[16], nd_r("beyond"), "nothing is written beyond");
  vc_cover("end");
}
// Modular contracts: a bunch of any size takes ten values per particle (bunch_out, bunch_in)
struct Crowd : public Bunch { double *from, *to; };
static long size(long i) { return nd_i1("size", i, 0, 1000); }
extern "C" int size_of(Bunch *b) { return (int)size(b->NOP); }
extern "C" double *write_step(Bunch *b, double *buf) { ((Crowd *)b)->to = buf; return buf + 10 * size(b->NOP); }
extern "C" double *read_step(Bunch *b, double *buf) { ((Crowd *)b)->from = buf; return buf + 10 * size(b->NOP); }
static Beam *beam(long n, bool filled) {
  Beam *b = new Beam();
  for (long i = 0; i < n; i++) {
    Crowd *c = new Crowd();
    c->from = c->to = 0;
    if (vc_engine()) c->NOP = (int)i;
    else for (long k = 0; k < size(i); k++) c->Add(filled ? member(1000 * i + k) : new ChargedParticle(1.0, 1.0));
    b->Add(c);
  }
  return b;
}
CONTRACT(beam_exchange) {
  vc_replace("Bunch::getNOP()", "size_of");
  vc_replace("Bunch::bufferStep(double*)", "write_step");
  vc_replace("Bunch::setStepFromBuffer(double*)", "read_step");
  long n = nd_n("n", 0, 100000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  Beam *b = beam(n, true), *c = beam(n, false);
  c->setNOTS((int)nd_i("before", 0, 1000));
  long total = 0, ahead = 0;
  for (long k = 0; k < n; k++) total += size(k);
  for (long k = 0; k < i; k++) ahead += size(k);
  vc_ensures_eqi(b->getStepBufferSize(), 10 * total, "the announced size is ten values per particle");
  double *buf = new double[10 * total + 1];
  b->bufferStep(buf);
  c->setStepFromBuffer(buf);
  if (vc_engine()) {
    vc_ensures_eqi(((Crowd *)b->getBunch((int)i))->to - buf, 10 * ahead, "the bunches follow each other in the buffer");
    vc_ensures_eqi(((Crowd *)c->getBunch((int)i))->from - buf, 10 * ahead, "the bunches are read where they were written");
  } else for (int k = 0; k < size(i); k++) {
    ChargedParticle *p = b->getBunch((int)i)->getParticle(k), *q = c->getBunch((int)i)->getParticle(k);
    vc_ensures_eq(q->getTime(), p->getTime(), "the bunches are read where they were written");
    same(q->getPosition(), p->getPosition(), "the bunches are read where they were written");
    same(q->getAccel(), p->getAccel(), "the bunches are read where they were written");
  }
  vc_ensures_eqi(c->getNOTS(), nd_i("before", 0, 1000) + 1, "a received step is counted");
  vc_cover("end");
}
