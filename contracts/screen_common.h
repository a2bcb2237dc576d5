// screens of any size, and sources which fill them with something arbitrary
#pragma once
#include "trace_common.h"
#include "bunch.h"
#include "beam.h"
#include "point_observer.h"
#include "screen.h"
#include "snapshot.h"
// What a source contributes at a place (k: number of the sample, or the time itself).  For the verifier this is
// the contract of the callee; natively the fields below are used.
static inline ElMagField any(double k, Vector x) {
  return ElMagField(Vector(nd_f5("Ex", 0, k, x.x, x.y, x.z), nd_f5("Ey", 0, k, x.x, x.y, x.z), nd_f5("Ez", 0, k, x.x, x.y, x.z)),
                    Vector(nd_f5("Bx", 0, k, x.x, x.y, x.z), nd_f5("By", 0, k, x.x, x.y, x.z), nd_f5("Bz", 0, k, x.x, x.y, x.z)));
}
static inline void record(Vector x, FieldTrace *tr) {
  for (std::size_t k = 0; k < tr->get_N(); k++) tr->trace[k] += any((double)k, x);
}
extern "C" void bunch_record(Bunch *b, Vector x, FieldTrace *tr) { record(x, tr); }
extern "C" void beam_record(Beam *b, Vector x, FieldTrace *tr) { record(x, tr); }
extern "C" ElMagField bunch_retarded(Bunch *b, double t, Vector x) { return any(t, x); }
extern "C" ElMagField beam_retarded(Beam *b, double t, Vector x) { return any(t, x); }
// natively: a few moving charges
static inline Bunch *source_bunch() {
  Bunch *b = new Bunch();
  if (vc_engine()) return b;
  for (long i = 0; i < 2; i++) {
    ChargedParticle *p = new ChargedParticle(1e9 * nd_r1("q", i), 1.0);
    p->initTrajectory(-1e-7 + 1e-9 * gt(i), gx(i), gp(i), ga(i));
    for (int k = 1; k < 4; k++) p->storeTrajectoryPoint(p->TrajTime(0) + 1e-8 * k, gx(i), gp(i), ga(i));
    b->Add(p);
  }
  return b;
}
static inline Beam *source_beam() {
  Beam *b = new Beam();
  b->Add(source_bunch());
  return b;
}
