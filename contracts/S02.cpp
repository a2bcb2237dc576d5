// S02: buffers of observers carry every pixel and sample to its own place
#include "mesh_common.h"
static const long MAXP = 10000, MAXT = 20000;
static double comp(ElMagField f, long e) {
  Vector v = e < 3 ? f.E() : f.B();
  long c = e % 3;
  return c == 0 ? v.x : c == 1 ? v.y : v.z;
}
static ElMagField content(const char *n, long ix, long iy, long it) {
  long i = ix * 1000000 + iy;
  return ElMagField(Vector(nd_r3(n, i, it, 0), nd_r3(n, i, it, 1), nd_r3(n, i, it, 2)), Vector(nd_r3(n, i, it, 3), nd_r3(n, i, it, 4), nd_r3(n, i, it, 5)));
}
typedef ScreenObserver<Bunch> Screen;
static Screen *screen(long nx, long ny, long nt) {
  return new Screen("out", vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0"), nd_r("dt"), nd_r("dtx"), nd_r("dty"), nt);
}
static void load(Screen *s, const char *n, long nx, long ny, long nt) {
  for (long ix = 0; ix < nx; ix++)
    for (long iy = 0; iy < ny; iy++)
      for (long it = 0; it < nt; it++) s->setField(ix, iy, it, content(n, ix, iy, it));
}
CONTRACT(screen_access) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP), nt = nd_n("nt", 0, MAXT);
  long ix = nd_i("ix", 0, 4000000000), iy = nd_i("iy", 0, 4000000000), it = nd_i("it", 0, 4000000000);
  long jx = below(nd_i("jx", 0, MAXP), nx), jy = below(nd_i("jy", 0, MAXP), ny), jt = below(nd_i("jt", 0, MAXT), nt);
  vc_requires(jx < nx); vc_requires(jy < ny); vc_requires(jt < nt);
  Screen *s = screen(nx, ny, nt);
  fsame(s->getField(jx, jy, jt), ElMagFieldZero, "a new screen is empty");
  load(s, "f", nx, ny, nt);
  fsame(s->getField(jx, jy, jt), content("f", jx, jy, jt), "samples read back");
  bool inside = ix < nx && iy < ny && it < nt;
  int refused = 0;
  try { s->getField(ix, iy, it); } catch (IOexception &) { refused++; }
  try { s->setField(ix, iy, it, fld("g", 0)); } catch (IOexception &) { refused++; }
  vc_ensures_eqi(refused, inside ? 0 : 2, "samples outside of the grid are refused");
  fsame(s->getField(jx, jy, jt), jx == ix && jy == iy && jt == it ? fld("g", 0) : content("f", jx, jy, jt), "only the addressed sample is written");
  vc_cover("end");
}
CONTRACT(screen_out) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP), nt = nd_n("nt", 0, MAXT);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), it = below(nd_i("it", 0, MAXT), nt), e = nd_i("e", 0, 5);
  vc_requires(ix < nx); vc_requires(iy < ny); vc_requires(it < nt);
  Screen *s = screen(nx, ny, nt);
  load(s, "f", nx, ny, nt);
  vc_ensures_eqi(s->getBufferSize(), 6 * nx * ny * nt, "announced size");
  double *buf = s->getBuffer();
  vc_ensures_eq(buf[6 * ((ix * ny + iy) * nt + it) + e], comp(content("f", ix, iy, it), e), "every component at its place");
  fsame(s->getField(ix, iy, it), content("f", ix, iy, it), "the screen keeps its data");
  vc_cover("end");
}
CONTRACT(screen_in) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP), nt = nd_n("nt", 0, MAXT);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), it = below(nd_i("it", 0, MAXT), nt);
  vc_requires(ix < nx); vc_requires(iy < ny); vc_requires(it < nt);
  Screen *s = screen(nx, ny, nt), *t = screen(nx, ny, nt);
  load(s, "f", nx, ny, nt);
  load(t, "g", nx, ny, nt);
  t->fromBuffer(s->getBuffer(), s->getBufferSize());
  fsame(t->getField(ix, iy, it), content("f", ix, iy, it), "every field arrives at its place");
  vc_cover("end");
}
CONTRACT(screen_mismatch) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP), nt = nd_n("nt", 0, MAXT), size = nd_i("size", 0, 1000000000000000);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), it = below(nd_i("it", 0, MAXT), nt);
  vc_requires(ix < nx); vc_requires(iy < ny); vc_requires(it < nt);
  vc_requires(size != 6 * nx * ny * nt);
  Screen *s = screen(nx, ny, nt);
  load(s, "f", nx, ny, nt);
  double none = 0;
  bool refused = false;
  try { s->fromBuffer(&none, size); } catch (IOexception &) { refused = true; }
  vc_ensures(refused, "a buffer of different size is refused");
  fsame(s->getField(ix, iy, it), content("f", ix, iy, it), "refused data have no effect");
  vc_cover("end");
}
typedef SnapshotObserver<Bunch> Snapshot;
static Snapshot *snapshot(long nx, long ny) { return new Snapshot("out", vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0")); }
static void load(Snapshot *s, const char *n, long nx, long ny) {
  for (long ix = 0; ix < nx; ix++)
    for (long iy = 0; iy < ny; iy++) s->setField(ix, iy, content(n, ix, iy, 0));
}
CONTRACT(snapshot_access) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP);
  long ix = nd_i("ix", 0, 4000000000), iy = nd_i("iy", 0, 4000000000);
  long jx = below(nd_i("jx", 0, MAXP), nx), jy = below(nd_i("jy", 0, MAXP), ny);
  vc_requires(jx < nx); vc_requires(jy < ny);
  Snapshot *s = snapshot(nx, ny);
  fsame(s->getField(jx, jy), ElMagFieldZero, "a new snapshot is empty");
  load(s, "f", nx, ny);
  fsame(s->getField(jx, jy), content("f", jx, jy, 0), "fields read back");
  bool inside = ix < nx && iy < ny;
  int refused = 0;
  try { s->getField(ix, iy); } catch (IOexception &) { refused++; }
  try { s->setField(ix, iy, fld("g", 0)); } catch (IOexception &) { refused++; }
  vc_ensures_eqi(refused, inside ? 0 : 2, "pixels outside of the grid are refused");
  fsame(s->getField(jx, jy), jx == ix && jy == iy ? fld("g", 0) : content("f", jx, jy, 0), "only the addressed pixel is written");
  vc_cover("end");
}
CONTRACT(snapshot_out) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), e = nd_i("e", 0, 5);
  vc_requires(ix < nx); vc_requires(iy < ny);
  Snapshot *s = snapshot(nx, ny);
  load(s, "f", nx, ny);
  vc_ensures_eqi(s->getBufferSize(), 6 * nx * ny, "announced size");
  double *buf = s->getBuffer();
  vc_ensures_eq(buf[6 * (ix * ny + iy) + e], comp(content("f", ix, iy, 0), e), "every component at its place");
  fsame(s->getField(ix, iy), content("f", ix, iy, 0), "the snapshot keeps its data");
  vc_cover("end");
}
CONTRACT(snapshot_in) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny);
  vc_requires(ix < nx); vc_requires(iy < ny);
  Snapshot *s = snapshot(nx, ny), *t = snapshot(nx, ny);
  load(s, "f", nx, ny);
  load(t, "g", nx, ny);
  t->fromBuffer(s->getBuffer(), s->getBufferSize());
  fsame(t->getField(ix, iy), content("f", ix, iy, 0), "every field arrives at its place");
  vc_cover("end");
}
CONTRACT(snapshot_mismatch) {
  long nx = nd_n("nx", 0, MAXP), ny = nd_n("ny", 0, MAXP), size = nd_i("size", 0, 1000000000000000);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny);
  vc_requires(ix < nx); vc_requires(iy < ny);
  vc_requires(size != 6 * nx * ny);
  Snapshot *s = snapshot(nx, ny);
  load(s, "f", nx, ny);
  double none = 0;
  bool refused = false;
  try { s->fromBuffer(&none, size); } catch (IOexception &) { refused = true; }
  vc_ensures(refused, "a buffer of different size is refused");
  fsame(s->getField(ix, iy), content("f", ix, iy, 0), "refused data have no effect");
  vc_cover("end");
}
typedef PointObserver<Bunch> Point;
static Point *point(long nt) { return new Point("out", vec1("O"), nd_r("t0"), nd_r("dt"), nt); }
static void load(Point *s, const char *n, long nt) {
  for (long it = 0; it < nt; it++) s->setField(it, fld(n, it));
}
CONTRACT(point_access) {
  long nt = nd_n("nt", 0, 2000000000), it = nd_i("it", 0, 4000000000), jt = below(nd_i("jt", 0, 2000000000), nt);
  vc_requires(jt < nt);
  Point *s = point(nt);
  fsame(s->getField(jt), ElMagFieldZero, "a new observer is empty");
  load(s, "f", nt);
  fsame(s->getField(jt), fld("f", jt), "samples read back");
  int refused = 0;
  try { s->getField(it); } catch (IOexception &) { refused++; }
  try { s->setField(it, fld("g", 0)); } catch (IOexception &) { refused++; }
  vc_ensures_eqi(refused, it < nt ? 0 : 2, "samples outside of the trace are refused");
  fsame(s->getField(jt), jt == it ? fld("g", 0) : fld("f", jt), "only the addressed sample is written");
  vc_cover("end");
}
CONTRACT(point_out) {
  long nt = nd_n("nt", 0, 2000000000), it = below(nd_i("it", 0, 2000000000), nt), e = nd_i("e", 0, 5);
  vc_requires(it < nt);
  Point *s = point(nt);
  load(s, "f", nt);
  vc_ensures_eqi(s->getBufferSize(), 6 * nt, "announced size");
  double *buf = s->getBuffer();
  vc_ensures_eq(buf[6 * it + e], comp(fld("f", it), e), "every component at its place");
  fsame(s->getField(it), fld("f", it), "the observer keeps its data");
  vc_cover("end");
}
CONTRACT(point_in) {
  long nt = nd_n("nt", 0, 2000000000), it = below(nd_i("it", 0, 2000000000), nt), size = nd_i("size", 0, 1000000000000000);
  vc_requires(it < nt);
  Point *s = point(nt), *t = point(nt);
  load(s, "f", nt);
  load(t, "g", nt);
  bool refused = false;
  if (size != 6 * nt) {
    double none = 0;
    try { t->fromBuffer(&none, size); } catch (IOexception &) { refused = true; }
    vc_ensures(refused, "a buffer of different size is refused");
    fsame(t->getField(it), fld("g", it), "refused data have no effect");
  } else {
    t->fromBuffer(s->getBuffer(), s->getBufferSize());
    fsame(t->getField(it), fld("f", it), "every field arrives at its place");
    vc_cover("in");
  }
}
// the particles seen on a snapshot of a beam: what the particle reports at that time is arbitrary
static ElMagField coord(long tag, double t) {
  return ElMagField(Vector(nd_f2("X0", tag, t), nd_f2("X1", tag, t), nd_f2("X2", tag, t)), Vector(nd_f2("P0", tag, t), nd_f2("P1", tag, t), nd_f2("P2", tag, t)));
}
extern "C" void particle_coordinates(ChargedParticle *p, double t, Vector *x, Vector *m) {
  ElMagField c = coord(p->Npre, t);
  *x = c.E();
  *m = c.B();
}
static ChargedParticle *member(long i) {
  ChargedParticle *p = new ChargedParticle(1.0, 1.0);
  if (vc_engine()) p->Npre = (int)i;
  else {
    p->initTrajectory(-10, gx(i), gp(i), Vector(0, 0, 0));
    p->storeTrajectoryPoint(10, gx(i + 1), gp(i + 1), Vector(0, 0, 0));
  }
  return p;
}
CONTRACT(particles) {
  vc_replace("ChargedParticle::CoordinatesAtTime(double, Vector*, Vector*)", "particle_coordinates");
  long n = nd_n("n", 0, 1000), m = nd_n("m", 0, 100000), i = below(nd_i("i", 0, 2000000000), n), k = below(nd_i("k", 0, 2000000000), m), e = nd_i("e", 0, 5);
  vc_requires(i < n); vc_requires(k < m);
  Beam *b = new Beam();
  for (long j = 0; j < n; j++) {
    Bunch *c = new Bunch();
    for (long l = 0; l < m; l++) c->Add(member(100000 * j + l));
    b->Add(c);
  }
  double t = vc_engine() ? nd_r("t0") : nd_r("t0") / 100;
  SnapshotObserver<Beam> *s = new SnapshotObserver<Beam>("out", vec1("O"), vec1("dX"), vec1("dY"), 1, 1, t);
  s->setSource(b);
  vc_ensures_eqi(s->getNumParticles(), n * m, "number of particles in the beam");
  vc_ensures_eqi(s->storeParticlePositions(), n * m, "every particle is recorded");
  Vector x, p;
  b->getBunch((int)i)->getParticle((int)k)->CoordinatesAtTime(t, &x, &p);
  vc_ensures_eq(s->particleBuffer[6 * (i * m + k) + e], comp(ElMagField(x, p), e), "position and momentum at the time of the snapshot in order");
  vc_cover("end");
}
typedef MeshedScreen<Bunch> Mesh;
static ElMagField stored(long i, long it) {
  return ElMagField(Vector(datum(i, it, 0), datum(i, it, 1), datum(i, it, 2)), Vector(datum(i, it, 3), datum(i, it, 4), datum(i, it, 5)));
}
CONTRACT(mesh_out) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples()), e = nd_i("e", 0, 5);
  vc_requires(i < cells()); vc_requires(it < samples());
  Mesh *m = mesh<Bunch>(true);
  vc_ensures_eqi(m->getBufferSize(), 6 * cells() * samples(), "announced size");
  double *buf = m->getBuffer();
  vc_ensures_eq(buf[6 * (i * samples() + it) + e], comp(stored(i, it), e), "every component at its place");
  fsame(sample(m->A[i], it), stored(i, it), "the screen keeps its data");
  vc_cover("end");
}
CONTRACT(mesh_in) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  Mesh *m = mesh<Bunch>(true);
  double *buf = m->getBuffer();
  std::size_t size = m->getBufferSize();
  m->zero();
  m->fromBuffer(buf, size);
  fsame(sample(m->A[i], it), stored(i, it), "every field arrives at its place");
  vc_cover("end");
}
CONTRACT(mesh_mismatch) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples()), size = nd_i("size", 0, 1000000000000000);
  vc_requires(i < cells()); vc_requires(it < samples());
  vc_requires(size != 6 * cells() * samples());
  Mesh *m = mesh<Bunch>(true);
  double none = 0;
  bool refused = false;
  try { m->fromBuffer(&none, size); } catch (IOexception &) { refused = true; }
  vc_ensures(refused, "a buffer of different size is refused");
  fsame(sample(m->A[i], it), stored(i, it), "refused data have no effect");
  vc_cover("end");
}
