// O02: table files hold every recorded value in its row and column
#include <complex>
#include "mesh_common.h"
#include "sdds_common.h"
#include "point_observer.h"
#include "logger.h"
static ChargedParticle *member(long i, double q) {
  ChargedParticle *p = new ChargedParticle(q, 1.0);
  p->initTrajectory(gt(i), gx(i), gp(i), Vector(0, 0, 0));
  return p;
}
static Bunch *crowd(long j, long m, double q) {
  Bunch *c = new Bunch();
  for (long l = 0; l < m; l++) c->Add(member(100000000 * j + l, q));
  return c;
}
static void phase_space(long row, long i) {
  Vector x = gx(i), p = gp(i);
  vc_requires(p.z != 0);
  cell(row, CT, gt(i), "time of every particle in its row");
  cell(row, CX, x.x, "position of every particle in its row");
  cell(row, CY, x.y, "position of every particle in its row");
  cell(row, CZ, x.z, "position of every particle in its row");
  cell(row, CPX, p.x, "momentum of every particle in its row");
  cell(row, CPY, p.y, "momentum of every particle in its row");
  cell(row, CPZ, p.z, "momentum of every particle in its row");
  double pp = p.x * p.x + p.y * p.y + p.z * p.z;
  cell(row, CP, sqrt(pp), "length of the momentum");
  cell(row, CXP, p.x / p.z, "horizontal angle");
  cell(row, CYP, p.y / p.z, "vertical angle");
  cell(row, CGAMMA, sqrt(1.0 + pp), "relativistic factor");
}
CONTRACT(bunch_table) {
  WRITE_SDDS;
  long m = nd_n("m", 1, 20000000), k = below(nd_i("k", 0, 2000000000), m);
  vc_requires(k < m);
  Bunch *b = crowd(0, m, 1.0);
  vc_ensures_eqi(b->WriteWatchPointSDDS(tablename()), 0, "success is reported");
  table(m);
  phase_space(k, k);
  scalar(NPARTICLES, (double)m, "number of particles");
  vc_cover("end");
}
CONTRACT(beam_table) {
  WRITE_SDDS;
  long n = nd_n("n", 1, 200), m = nd_n("m", 1, 100000), j = below(nd_i("j", 0, 2000000000), n), k = below(nd_i("k", 0, 2000000000), m);
  vc_requires(j < n); vc_requires(k < m);
  Beam *b = new Beam();
  for (long l = 0; l < n; l++) b->Add(crowd(l, m, nd_r("q")));
  vc_ensures_eqi(b->WriteWatchPointSDDS(tablename()), 0, "success is reported");
  table(n * m);
  phase_space(j * m + k, 100000000 * j + k);
  scalar(NPARTICLES, (double)(n * m), "number of particles");
  scalar_[CHARGE] /= ElementaryCharge;
  scalar(CHARGE, (double)n * (double)m * nd_r("q"), "charge of the beam");
  vc_cover("end");
}
CONTRACT(beam_of_three) {
  WRITE_SDDS;
  long m0 = nd_n("m0", 0, 20000000), m1 = nd_n("m1", 0, 20000000), m2 = nd_n("m2", 0, 20000000), j = nd_i("j", 0, 2);
  long m = j == 0 ? m0 : j == 1 ? m1 : m2, k = below(nd_i("k", 0, 2000000000), m);
  vc_requires(k < m);
  Beam *b = new Beam();
  b->Add(crowd(0, m0, 1.0));
  b->Add(crowd(1, m1, 1.0));
  b->Add(crowd(2, m2, 1.0));
  vc_ensures_eqi(b->WriteWatchPointSDDS(tablename()), 0, "success is reported");
  table(m0 + m1 + m2);
  long row = (j > 0 ? m0 : 0) + (j > 1 ? m1 : 0) + k, i = 100000000 * j + k;
  cell(row, CT, gt(i), "time of every particle in its row");
  cell(row, CY, gx(i).y, "position of every particle in its row");
  cell(row, CPZ, gp(i).z, "momentum of every particle in its row");
  scalar(NPARTICLES, (double)(m0 + m1 + m2), "number of particles");
  vc_cover("end");
}
typedef PointObserver<Bunch> Point;
CONTRACT(point_table) {
  WRITE_SDDS;
  long nt = nd_n("nt", 1, 20000000), it = below(nd_i("it", 0, 2000000000), nt);
  vc_requires(it < nt);
  Point *s = new Point(tablename(), vec1("O"), nd_r("t0"), nd_r("dt"), nt);
  for (long i = 0; i < nt; i++) s->setField(i, ElMagField(gx(i), gp(i)));
  s->WriteTimeDomainFieldSDDS();
  table(nt);
  cell(it, CT, nd_r("t0") + it * nd_r("dt"), "time of the sample");
  Vector e = gx(it), b = gp(it);
  cell(it, CEX, e.x, "field of every sample in its row");
  cell(it, CEY, e.y, "field of every sample in its row");
  cell(it, CEZ, e.z, "field of every sample in its row");
  cell(it, CBX, b.x, "field of every sample in its row");
  cell(it, CBY, b.y, "field of every sample in its row");
  cell(it, CBZ, b.z, "field of every sample in its row");
  scalar(NSTEPS, (double)nt, "number of samples");
  scalar(T0, nd_r("t0"), "start time");
  scalar(DT, nd_r("dt"), "time step");
  vc_cover("end");
}

// log of bunch parameters: what is to be logged differs from step to step
static long step_;
static double freq_;
extern "C" double log_time(Bunch *) { return nd_r1("avt", step_); }
extern "C" Vector log_position(Bunch *) { return vec2("avx", step_); }
extern "C" Vector log_momentum(Bunch *) { return vec2("avp", step_); }
extern "C" Vector log_rms(Bunch *) { return vec2("rms", step_); }
extern "C" double log_gamma(Bunch *) { return nd_r1("avg", step_); }
extern "C" double log_delta(Bunch *) { return nd_r1("delta", step_); }
extern "C" std::complex<double> log_bunching(Bunch *, double f) { freq_ = f; return std::complex<double>(nd_r1("re", step_), nd_r1("im", step_)); }
static void logged(bool bunching) {
  WRITE_SDDS;
  vc_replace("Bunch::avgTime()", "log_time");
  vc_replace("Bunch::avgPosition()", "log_position");
  vc_replace("Bunch::avgMomentum()", "log_momentum");
  vc_replace("Bunch::rmsPosition()", "log_rms");
  vc_replace("Bunch::avgGamma()", "log_gamma");
  vc_replace("Bunch::delta()", "log_delta");
  vc_replace("Bunch::BunchingFactor(double)", "log_bunching");
  long n = nd_n("n", 1, 20000000), it = below(nd_i("it", 0, 2000000000), n);
  vc_requires(it < n);
  Bunch *b = crowd(0, vc_engine() ? 1 : 3, nd_r("q"));
  ParameterLogger<Bunch> *log = new ParameterLogger<Bunch>(b, tablename(), 1);
  double f = nd_r("f");
  if (bunching) log->record_bunching(f);
  Vector x, p, r;
  double t = 0, g = 0, d = 0, a = 0;
  for (step_ = 0; step_ < n; step_++) {
    if (!vc_engine())
      for (int i = 0; i < 3; i++) {
        ChargedParticle *q = b->getParticle(i);
        q->clearTrajectory();
        q->initTrajectory(nd_r1("avt", step_), vec2("avx", 3 * step_ + i), vec2("avp", 3 * step_ + i), Vector(0, 0, 0));
      }
    log->update();
    if (!vc_engine() && step_ == it) {
      t = b->avgTime(); x = b->avgPosition(); p = b->avgMomentum(); r = b->rmsPosition(); g = b->avgGamma(); d = b->delta();
      if (bunching) a = abs(b->BunchingFactor(f));
    }
  }
  if (vc_engine()) {
    step_ = it;
    t = log_time(b); x = log_position(b); p = log_momentum(b); r = log_rms(b); g = log_gamma(b); d = log_delta(b);
    if (bunching) {
      vc_ensures_eq(freq_, f, "the bunching is that of the given frequency");
      a = abs(log_bunching(b, f));
    }
  }
  vc_ensures_eqi(log->WriteData(), 0, "success is reported");
  table(n);
  cell(it, CT, t, "average time of every step in its row");
  cell(it, CXAV, x.x, "average position of every step in its row");
  cell(it, CYAV, x.y, "average position of every step in its row");
  cell(it, CZAV, x.z, "average position of every step in its row");
  cell(it, CBGX, p.x, "average momentum of every step in its row");
  cell(it, CBGY, p.y, "average momentum of every step in its row");
  cell(it, CBGZ, p.z, "average momentum of every step in its row");
  cell(it, CGAMMA, g, "average relativistic factor");
  cell(it, CDELTA, d, "momentum spread");
  cell(it, CXRMS, r.x, "size of every step in its row");
  cell(it, CYRMS, r.y, "size of every step in its row");
  cell(it, CZRMS, r.z, "size of every step in its row");
  cell(it, CBF, a, "bunching factor");
  scalar(NSTEPS, (double)n, "number of steps");
  scalar(NPARTS, (double)b->getNOP(), "number of particles");
  scalar_[TOTAL] /= ElementaryCharge;
  scalar(TOTAL, b->getTotalCharge() / ElementaryCharge, "charge of the bunch");
  if (bunching) scalar(FREQUENCY, f, "frequency of the bunching factor");
  else vc_ensures_eqi(set_[FREQUENCY], 0, "no frequency without bunching");
  vc_cover("end");
}
CONTRACT(log_plain) { logged(false); }
CONTRACT(log_with_bunching) { logged(true); }
