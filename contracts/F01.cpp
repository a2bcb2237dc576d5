// F01: the one-dimensional radiation field
#include "trace_common.h"
#include "bunch.h"
#include "beam.h"
#include "fel1d.h"
static const long MAXN = 100000000;
static double DT() { return positive("dt"); }
static double E0(long i) { return nd_r1("E", i); }
static double E1(long i) { return nd_r1("P", i); }
// a field of any content at any place, propagating in any direction
static FEL_1D *grid(long N) {
  FEL_1D *f = new FEL_1D(DT(), (int)N);
  for (long i = 0; i < N; i++) f->field_E[i] = E0(i);
  for (long i = 0; i < N; i++) f->previous_E[i] = E1(i);
  f->head = vec1("head");
  f->time = moderate("time");
  f->prop = vec1("prop");
  f->e_x = vec1("ex");
  f->e_y = vec1("ey");
  return f;
}
static double behind(Vector x) { return dot(vec1("head") - x, vec1("prop")); }
CONTRACT(field) {
  long N = nd_n("N", 2, MAXN), k = nd_i("k", -1000000000, 1000000000);
  FEL_1D *f = grid(N);
  double ds = DT() * SpeedOfLight, s = nd_r("s"), t = f->time + s * DT();
  Vector x = vec1("x");
  if (!vc_engine()) x = f->head - f->prop * ((k + s * 0.5) * ds / dot(f->prop, f->prop));
  double u = behind(x) / ds;
  vc_requires(u > (double)k - 0.5);
  vc_requires(u < (double)k + 0.5);
  vc_assert(rint(u) == (double)k, "the position is in cell k");
  bool now = s <= 0.25 && s >= -0.25, inside = k >= 0 && k < N, refused = false;
  ElMagField r;
  try { r = f->Field(t, x); } catch (IOexception &) { refused = true; }
  vc_ensures(refused == !(now && inside), "positions outside of the window and other times are refused");
  if (!refused) {
    same(r.E(), f->e_x * E0(k), "electric field of the cell at the position");
    same(r.B(), f->e_y * (E0(k) / SpeedOfLight), "magnetic field of the cell at the position");
    vc_cover("inside");
  } else vc_cover("outside");
}
CONTRACT(creation) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N);
  vc_requires(i < N);
  FEL_1D f(DT(), (int)N);
  vc_ensures_eq(f.field_E[i], 0, "a new field is empty");
  vc_ensures_eq(f.previous_E[i], 0, "a new field was empty before");
  vc_ensures_eqi((long)f.field_E.size(), N, "number of cells");
  vc_ensures_eqi((long)f.previous_E.size(), N, "number of cells");
  vc_ensures_eqi((long)f.field_storage.size(), 1, "the initial field is recorded");
  vc_ensures_eqi((long)f.J_storage.size(), 1, "the initial current is recorded");
  vc_ensures_eq(dot(f.prop, f.prop), 1, "the direction of propagation is a unit vector");
  vc_ensures_eq(dot(f.e_x, f.e_x), 1, "the polarisation is a unit vector");
  same(f.e_y, cross(f.prop, f.e_x), "electric field, magnetic field and direction of propagation are perpendicular and right-handed");
  vc_ensures_eq(dot(f.e_x, f.prop), 0, "the electric field is transverse");
  vc_ensures_eq(f.ds, DT() * SpeedOfLight, "cell size");
  same(f.dz, f.prop * (-f.ds), "grid vector");
  vc_cover("end");
}
static double seeded(long i) {
  double t = (double)i * DT() - nd_r("start"), r = t / nd_r("tau");
  return nd_r("A") * cos(2 * Pi * SpeedOfLight / nd_r("lambda") * t) * exp(-0.5 * r * r);
}
CONTRACT(seeding) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N);
  vc_requires(i < N);
  vc_requires(nd_r("tau") != 0); vc_requires(nd_r("lambda") != 0);
  FEL_1D f(DT(), (int)N);
  f.seed(nd_r("A"), nd_r("lambda"), nd_r("tau"), nd_r("start"));
  vc_ensures_eqs(f.field_E[i], seeded(i), 1e3, "the seed is a packet with Gaussian envelope");
  vc_ensures_eq(f.previous_E[i], f.field_E[i], "the seed is a stable packet");
  vc_ensures_eq(f.field_storage[0][i], f.field_E[i], "the seed is recorded");
  vc_ensures_eq(f.J_storage[0][i], 0, "no current is recorded with the seed");
  vc_ensures_eqi((long)f.field_storage.size(), 1, "the seed is recorded once");
  vc_cover("end");
}
// The exact solution of the wave equation on the moving grid without driving currents
static double next(long i) { return i == 0 ? 0 : i == 1 ? E0(0) : E0(i - 2) + E0(i) - E1(i - 2); }
static void moved(FEL_1D *f) {
  same(f->head, vec1("head") + vec1("prop") * (DT() * SpeedOfLight), "the window moves with the speed of light");
  vc_ensures_eqs(f->time, moderate("time") + DT(), 1e3, "the time advances by one step");
  vc_ensures_eqi(f->N_steps, 1, "the step is counted");
}
static Beam *no_particles(double t) {
  Beam *b = new Beam();
  b->setTimeStep(DT());
  return b;
}
CONTRACT(start) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  f->init(no_particles(0));
  vc_ensures_eqs(f->field_E[i], next(i), 1e3, "wave equation");
  vc_ensures_eq(f->previous_E[i], E0(i), "the field before is kept");
  moved(f);
  vc_cover("end");
}
CONTRACT(start_mismatch) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  Beam b;
  double e = nd_r("e");
  b.setTimeStep(DT() * (1 + e));
  bool refused = false;
  try { f->init(&b); } catch (IOexception &) { refused = true; }
  if (e > 1.001e-9 || e < -1.001e-9) {
    vc_ensures(refused, "beams of different time step are refused");
    vc_ensures_eq(f->field_E[i], E0(i), "refused beams have no effect");
    vc_cover("end");
  }
}
static void at(FEL_1D *f, Beam *b, long n) {
  f->time = DT() * (double)n;
  b->setNOTS((int)n);
}
CONTRACT(undriven) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N), n = nd_i("n", 0, 1000000000);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  f->N_steps = (int)n;
  Beam *b = no_particles(0);
  at(f, b, n);
  f->step(b);
  vc_ensures_eqs(f->field_E[i], next(i), 1e3, "wave equation");
  vc_ensures_eq(f->previous_E[i], E0(i), "the field before is kept");
  same(f->head, vec1("head") + vec1("prop") * (DT() * SpeedOfLight), "the window moves with the speed of light");
  vc_ensures_eqs(f->time, DT() * (double)(n + 1), 1e12, "the time advances by one step");
  vc_ensures_eqi(f->N_steps, n + 1, "the step is counted");
  vc_cover("end");
}
// a packet which has not reached the front of the window rides along unchanged: the step preserves it
CONTRACT(riding) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N), n = nd_i("n", 0, 1000000000);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  for (long k = 0; k < N; k++) f->field_E[k] = f->previous_E[k] = k < 2 ? 0 : E0(k);
  Beam *b = no_particles(0);
  at(f, b, n);
  f->step(b);
  vc_ensures_eqs(f->field_E[i], i < 2 ? 0 : E0(i), 1e3, "the packet is at rest in the window");
  vc_ensures_eq(f->previous_E[i], i < 2 ? 0 : E0(i), "the packet was at rest in the window");
  vc_cover("end");
}
// Particles at any place inside of the window at about the current time
static Vector place(long p, long N) {
  if (vc_engine()) return gx(p);
  double s = 0.5 + 0.5 * sin(nd_r1("t", p) * 7 + (double)p), ds = DT() * SpeedOfLight;
  Vector d = vec1("prop");
  return vec1("head") - d * (s * (double)N * ds / dot(d, d));
}
static double when(long p, double now) { return vc_engine() ? gt(p) : now + 0.2 * DT() * sin(gt(p)); }
static ChargedParticle *emitter(long p, long N, double now) {
  ChargedParticle *c = new ChargedParticle(nd_r1("q", p), 1.0);
  double d = behind(place(p, N));
  vc_requires(d >= 0);
  vc_requires(d <= (double)N * (DT() * SpeedOfLight));
  d = d / (DT() * SpeedOfLight);                        // the same in units of the cell size
  vc_requires(d >= 0);
  vc_requires(d <= (double)N);
  vc_requires(fabs(when(p, now) - now) <= 0.25 * DT());
  c->initTrajectory(when(p, now), place(p, N), gp(p), ga(p));
  return c;
}
// size of the optical mode after n steps
static double mode_area(FEL_1D *f, long n) {
  double d = ((double)n * DT() * SpeedOfLight - f->z_waist) / f->z_Rayleigh;
  return 0.5 * Pi * f->w_0 * f->w_0 * (1 + d * d);
}
// The contribution of a particle to the current in cell i: the transverse acceleration of the charge, spread with a
// Gaussian profile over the 21 cells nearest to the particle
static double driving(FEL_1D *f, long p, long i, long n, long N) {
  double ds = DT() * SpeedOfLight, u = behind(place(p, N)) / ds;
  double off = u - (double)i;
  Vector g = gp(p);
  double gamma = sqrt(1 + dot(g, g));
  double far = rint(u) - (double)i;
  if (far > 10 || far < -10) return 0;
  double j = dot(ga(p), vec1("ex")) / gamma * nd_r1("q", p) * ElementaryCharge / mode_area(f, n) / DT() * MuNull * SpeedOfLight * SpeedOfLight;
  return j * exp(-off * off / 8) / (2 * sqrt(2 * Pi));
}
CONTRACT(driven) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N), n = nd_i("n", 0, 1000000000), m = nd_n("m", 1, MAXN);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  f->N_steps = (int)n;
  double now = DT() * (double)n;
  Beam *b = no_particles(0);
  Bunch *c = new Bunch();
  for (long p = 0; p < m; p++) c->Add(emitter(p, N, now));
  b->Add(c);
  at(f, b, n);
  double w0 = f->w_0, J = 0, J1 = 0;
  vc_requires(f->z_Rayleigh != 0); vc_requires(w0 != 0);
  for (long p = 0; p < m; p++) J += driving(f, p, i, n, N);
  if (i > 0)
    for (long p = 0; p < m; p++) J1 += driving(f, p, i - 1, n, N);
  f->step(b);
  vc_ensures_eqs(f->previous_E[i], E0(i) + (i == 0 || i == N - 1 ? 0 : DT() * DT() * J), 1e3, "the current adds to the field before");
  vc_ensures_eqs(f->field_E[i], next(i) + (i < 2 ? 0 : DT() * DT() * J1), 1e3, "wave equation driven by the particles");
  vc_cover("end");
}
// every bunch of the beam contributes
CONTRACT(bunches) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N), n = nd_i("n", 0, 1000000000), m = nd_n("m", 1, 100000);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  f->N_steps = (int)n;
  double now = DT() * (double)n;
  Beam *b = no_particles(0);
  for (long k = 0; k < m; k++) {
    Bunch *c = new Bunch();
    c->Add(emitter(k, N, now));
    b->Add(c);
  }
  at(f, b, n);
  double w0 = f->w_0, J = 0;
  vc_requires(f->z_Rayleigh != 0); vc_requires(w0 != 0);
  for (long k = 0; k < m; k++) J += driving(f, k, i, n, N);
  f->step(b);
  vc_ensures_eqs(f->previous_E[i], E0(i) + (i == 0 || i == N - 1 ? 0 : DT() * DT() * J), 1e3, "the current adds to the field before");
  vc_cover("end");
}
// The field and the current are recorded with the configured interval
CONTRACT(log) {
  long N = nd_n("N", 2, MAXN), i = below(nd_i("i", 0, MAXN), N), n = nd_i("n", 0, 1000000000), every = nd_i("every", 1, 1000000000);
  vc_requires(i < N);
  FEL_1D *f = grid(N);
  f->N_steps = (int)n;
  f->step_Output = (int)every;
  Beam *b = no_particles(0);
  at(f, b, n);
  f->step(b);
  bool due = (n + 1) % every == 0;
  vc_ensures_eqi((long)f->field_storage.size(), due ? 2 : 1, "recorded fields");
  vc_ensures_eqi((long)f->J_storage.size(), due ? 2 : 1, "recorded currents");
  vc_ensures_eq(f->field_storage[0][i], 0, "recorded fields are kept");
  if (due) {
    vc_ensures_eq(f->field_storage[1][i], f->field_E[i], "the field is recorded");
    vc_ensures_eq(f->J_storage[1][i], 0, "the current is recorded");
    vc_cover("due");
  }
  vc_cover("end");
}
// particles and beams out of step are refused
CONTRACT(refused) {
  long N = nd_n("N", 2, MAXN), n = nd_i("n", 0, 1000000), s = nd_i("s", 0, 1000000);
  FEL_1D *f = grid(N);
  Beam *b = no_particles(0);
  at(f, b, n);
  b->setNOTS((int)s);
  Bunch *c = new Bunch();
  c->Add(new ChargedParticle(1.0, 1.0));
  double now = DT() * (double)n, late = nd_r("late"), d = behind(gx(0));
  c->getParticle(0)->initTrajectory(now + late * DT(), gx(0), gp(0), ga(0));
  b->Add(c);
  vc_requires(f->z_Rayleigh != 0); vc_requires(f->w_0 != 0);
  bool wrong = s != n || late > 0.25 || late < -0.25 || d < 0 || d > (double)N * (DT() * SpeedOfLight);
  vc_requires(wrong);
  bool refused = false;
  try { f->step(b); } catch (IOexception &) { refused = true; }
  vc_ensures(refused, "particles outside of the window or at other times are refused");
  vc_cover("end");
}
