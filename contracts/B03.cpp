// B03: tracking a beam advances every particle of every bunch in lock-step
#include "particle_common.h"
#include "bunch.h"
#include "beam.h"

// Modular contracts of the callees (verifier only): what one call does to a member depends on the member,
// the time step and the field, and is otherwise arbitrary.
static double id(GeneralField *f) { return (double)((AnyField *)f)->id; }
extern "C" void particle_init(ChargedParticle *p, double dt, GeneralField *f) { p->t_current = nd_f4("pi", p->Charge, p->t_current, dt, id(f)); }
extern "C" void particle_step(ChargedParticle *p, GeneralField *f) { p->t_current += nd_f4("ps", p->Charge, 0, 0, id(f)); }
struct Crowd : public Bunch { double state; };
extern "C" void bunch_init(Bunch *b, double dt, GeneralField *f) { Crowd *c = (Crowd *)b; c->state = nd_f4("bi", (double)b->NOP, c->state, dt, id(f)); }
extern "C" void bunch_step(Bunch *b, GeneralField *f) { ((Crowd *)b)->state += nd_f4("bs", (double)b->NOP, 0, 0, id(f)); }

static ChargedParticle *member(long i) {
  ChargedParticle *p = new ChargedParticle(nd_r1("q", i), 1.0 + nd_r1("m", i) * nd_r1("m", i));
  p->initTrajectory(gt(i), gx(i), gp(i), ga(i));
  return p;
}
static Bunch *crowd(long n) {
  Bunch *b = new Bunch();
  for (long i = 0; i < n; i++) b->Add(member(i));
  return b;
}
static Bunch *numbered(long i) {
  Crowd *b = new Crowd();
  b->state = nd_r1("s", i);
  if (vc_engine()) b->NOP = (int)i;
  else for (long k = 0; k < (i + 1) % 4; k++) b->Add(member(10 * i + k));
  return b;
}
static Beam *beam(long n, double dt) {
  Beam *b = new Beam();
  for (long i = 0; i < n; i++) b->Add(numbered(i));
  b->setTimeStep(dt);
  return b;
}
static void alike(ChargedParticle *a, ChargedParticle *b, const char *label) {
  vc_ensures_eq(a->getTime(), b->getTime(), label);
  same(a->getPosition(), b->getPosition(), label);
  same(a->getMomentum(), b->getMomentum(), label);
}
static void alike(Bunch *a, Bunch *b, const char *label) {
  if (vc_engine()) vc_ensures_eq(((Crowd *)a)->state, ((Crowd *)b)->state, label);
  else for (int k = 0; k < a->getNOP(); k++) alike(a->getParticle(k), b->getParticle(k), label);
}
static double step() { double s = nd_r("dt"); return vc_engine() ? s : 1e-13 * (1 + s * s); }
CONTRACT(bunch_setup) {
  vc_replace("ChargedParticle::InitVay(double, GeneralField*)", "particle_init");
  long n = nd_n("n", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), n);
  vc_requires(k < n);
  Bunch *b = crowd(n), *c = crowd(n);
  AnyField f(nd_i("f", 0, 1000));
  double dt = step();
  b->InitVay(dt, &f);
  for (long i = 0; i < n; i++) c->getParticle((int)i)->InitVay(dt, &f);
  alike(b->getParticle((int)k), c->getParticle((int)k), "every particle is set up once with the same step and field");
  vc_cover("end");
}
CONTRACT(bunch_steps) {
  vc_replace("ChargedParticle::InitVay(double, GeneralField*)", "particle_init");
  vc_replace("ChargedParticle::StepVay(GeneralField*)", "particle_step");
  long n = nd_n("n", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), n), m = nd_n("m", 0, 2000000000);
  vc_requires(k < n);
  Bunch *b = crowd(n), *c = crowd(n);
  AnyField f(nd_i("f", 0, 1000));
  double dt = step();
  b->InitVay(dt, &f);
  for (long i = 0; i < n; i++) c->getParticle((int)i)->InitVay(dt, &f);
  for (long s = 0; s < m; s++) b->StepVay(&f);
  for (long s = 0; s < m; s++)
    for (long i = 0; i < n; i++) c->getParticle((int)i)->StepVay(&f);
  alike(b->getParticle((int)k), c->getParticle((int)k), "every particle makes every step");
  vc_cover("end");
}
CONTRACT(beam_setup) {
  vc_replace("Bunch::InitVay(double, GeneralField*)", "bunch_init");
  long n = nd_n("n", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), n);
  vc_requires(k < n);
  double dt = step();
  Beam *b = beam(n, dt), *c = beam(n, dt);
  AnyField f(nd_i("f", 0, 1000));
  b->setNOTS((int)nd_i("before", 0, 1000));
  b->setTrackingMethod(TRACKING_VAY);
  b->setupTracking(&f);
  for (long i = 0; i < n; i++) c->getBunch((int)i)->InitVay(dt, &f);
  alike(b->getBunch((int)k), c->getBunch((int)k), "every bunch is set up once with the step of the beam");
  vc_ensures_eqi(b->getNOTS(), 0, "the step counter starts at zero");
  vc_cover("end");
}
CONTRACT(beam_steps) {
  vc_replace("Bunch::InitVay(double, GeneralField*)", "bunch_init");
  vc_replace("Bunch::StepVay(GeneralField*)", "bunch_step");
  long n = nd_n("n", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), n), m = nd_n("m", 0, 2000000000);
  vc_requires(k < n);
  double dt = step();
  Beam *b = beam(n, dt), *c = beam(n, dt);
  AnyField f(nd_i("f", 0, 1000));
  b->setTrackingMethod(TRACKING_VAY);
  b->setupTracking(&f);
  for (long i = 0; i < n; i++) c->getBunch((int)i)->InitVay(dt, &f);
  for (long s = 0; s < m; s++) b->doStep(&f);
  for (long s = 0; s < m; s++)
    for (long i = 0; i < n; i++) c->getBunch((int)i)->StepVay(&f);
  alike(b->getBunch((int)k), c->getBunch((int)k), "every bunch makes every step");
  vc_ensures_eqi(b->getNOTS(), m, "the step counter counts the steps");
  vc_cover("end");
}
CONTRACT(refused) {
  vc_replace("Bunch::InitVay(double, GeneralField*)", "bunch_init");
  vc_replace("Bunch::StepVay(GeneralField*)", "bunch_step");
  long n = nd_n("n", 1, 2000000000), k = below(nd_i("k", 0, 2000000000), n);
  vc_requires(k < n);
  double dt = step();
  Beam *b = beam(n, dt), *c = beam(n, dt);
  AnyField f(nd_i("f", 0, 1000));
  long how = nd_i("method", -1, 3);
  // a new beam has no tracking method
  if (how >= 0) {
    vc_requires(how != TRACKING_VAY);
    b->setTrackingMethod((TrackingMethod)how);
  }
  bool r1 = false, r2 = false;
  try { b->setupTracking(&f); } catch (IOexception) { r1 = true; }
  try { b->doStep(&f); } catch (IOexception) { r2 = true; }
  vc_ensures(r1 && r2, "tracking without a known method is refused");
  alike(b->getBunch((int)k), c->getBunch((int)k), "refused tracking moves no particle");
  vc_cover("end");
}
CONTRACT(cleared) {
  long n = nd_n("n", 1, 2000000);
  Beam *b = new Beam();
  for (long i = 0; i < n; i++) b->Add(new Bunch());
  b->setNOTS((int)nd_i("before", 0, 1000));
  b->clear();
  vc_ensures_eqi(b->getNOB(), 0, "a cleared beam is empty");
  vc_ensures_eqi(b->getNOTS(), 0, "a cleared beam has made no steps");
  vc_ensures(b->getBunch(0) == 0, "a cleared beam has no bunch");
  vc_cover("end");
}
