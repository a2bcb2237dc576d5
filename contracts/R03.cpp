// R03: the field of a bunch or a beam is the sum over its particles
#include "trace_common.h"
#include "bunch.h"
#include "beam.h"

// Members are told apart by a tag; what a member contributes is arbitrary (contracts of the callees,
// used for the verifier only: natively the real functions run).
static ElMagField any(long tag, double t, Vector x) {
  return ElMagField(Vector(nd_f5("Ex", tag, t, x.x, x.y, x.z), nd_f5("Ey", tag, t, x.x, x.y, x.z), nd_f5("Ez", tag, t, x.x, x.y, x.z)),
                    Vector(nd_f5("Bx", tag, t, x.x, x.y, x.z), nd_f5("By", tag, t, x.x, x.y, x.z), nd_f5("Bz", tag, t, x.x, x.y, x.z)));
}
extern "C" ElMagField particle_field(ChargedParticle *p, double t, Vector x) { return any(p->Npre, t, x); }
extern "C" ElMagField bunch_field_(Bunch *b, double t, Vector x) { return any(b->NOP, t, x); }
// recording into a trace adds something to every sample and leaves the sampling alone
static void record(long tag, Vector x, FieldTrace *tr) {
  for (std::size_t k = 0; k < tr->get_N(); k++) tr->trace[k] += any(tag, (double)k, x);
}
extern "C" void particle_record(ChargedParticle *p, Vector x, FieldTrace *tr) { record(p->Npre, x, tr); }
extern "C" void bunch_record(Bunch *b, Vector x, FieldTrace *tr) { record(b->NOP, x, tr); }

static ChargedParticle *member(long i) {
  ChargedParticle *p = new ChargedParticle(nd_r1("q", i), 1.0);
  if (vc_engine()) p->Npre = (int)i;
  else {
    p->initTrajectory(-1e-7 + 1e-9 * gt(i), gx(i), gp(i), ga(i));
    for (int k = 1; k < 4; k++) p->storeTrajectoryPoint(p->TrajTime(0) + 1e-8 * k, gx(i), gp(i), ga(i));
  }
  return p;
}
static Bunch *crowd(long i) {
  Bunch *b = new Bunch();
  if (vc_engine()) b->NOP = (int)i;
  else for (long k = 0; k < (i + 1) % 4; k++) b->Add(member(10 * i + k));
  return b;
}
CONTRACT(bunch_field) {
  vc_replace("ChargedParticle::RetardedField(double, Vector)", "particle_field");
  Bunch *b = new Bunch();
  long n = nd_n("n", 0, 2000000000);
  for (long i = 0; i < n; i++) b->Add(member(i));
  double t = vc_engine() ? nd_r("t") : 0;
  Vector x = vec1("x");
  ElMagField f = b->RetardedField(t, x), s;
  double z = 0;
  for (long i = 0; i < n; i++) s += b->getParticle((int)i)->RetardedField(t, x);
  if (!vc_engine()) for (long i = 0; i < n; i++) z += size(b->getParticle((int)i)->RetardedField(t, x));
  psame(f, s, z, "field of the bunch is the sum over its particles");
  vc_cover("end");
}
CONTRACT(beam_field) {
  vc_replace("Bunch::RetardedField(double, Vector)", "bunch_field_");
  Beam *b = new Beam();
  long n = nd_n("n", 0, 2000000000);
  for (long i = 0; i < n; i++) b->Add(crowd(i));
  double t = vc_engine() ? nd_r("t") : 0;
  Vector x = vec1("x");
  ElMagField f = b->RetardedField(t, x), s;
  double z = 0;
  for (long i = 0; i < n; i++) s += b->getBunch((int)i)->RetardedField(t, x);
  if (!vc_engine()) for (long i = 0; i < n; i++) z += size(b->getBunch((int)i)->RetardedField(t, x));
  psame(f, s, z, "field of the beam is the sum over its bunches");
  vc_cover("end");
}
CONTRACT(bunch_trace) {
  vc_replace("ChargedParticle::integrateFieldTrace(Vector, FieldTrace*)", "particle_record");
  Bunch *b = new Bunch();
  long n = nd_n("n", 0, 2000000000), N = nd_n("N", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), N);
  vc_requires(k < N);
  for (long i = 0; i < n; i++) b->Add(member(i));
  Vector x = vec1("x");
  FieldTrace f(-2e-8, 1e-9, N), g(-2e-8, 1e-9, N);
  loadp(&f, "old", N); loadp(&g, "old", N);
  b->integrateFieldTrace(x, &f);
  for (long i = 0; i < n; i++) b->getParticle((int)i)->integrateFieldTrace(x, &g);
  psame(sample(&f, k), sample(&g, k), natural(&g), "trace of the bunch is the sum over its particles");
  vc_ensures_eqi(f.get_N(), N, "sampling kept");
  vc_cover("end");
}
CONTRACT(beam_trace) {
  vc_replace("Bunch::integrateFieldTrace(Vector, FieldTrace*)", "bunch_record");
  Beam *b = new Beam();
  long n = nd_n("n", 0, 2000000000), N = nd_n("N", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), N);
  vc_requires(k < N);
  for (long i = 0; i < n; i++) b->Add(crowd(i));
  Vector x = vec1("x");
  FieldTrace f(-2e-8, 1e-9, N), g(-2e-8, 1e-9, N);
  loadp(&f, "old", N); loadp(&g, "old", N);
  b->integrateFieldTrace(x, &f);
  for (long i = 0; i < n; i++) b->getBunch((int)i)->integrateFieldTrace(x, &g);
  psame(sample(&f, k), sample(&g, k), natural(&g), "trace of the beam is the sum over its bunches");
  vc_ensures_eqi(f.get_N(), N, "sampling kept");
  vc_cover("end");
}
