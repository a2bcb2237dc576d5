// O01: data files hold every recorded value at its own place
#include "mesh_common.h"
#include "io_common.h"
#include "logger.h"
static const long MAXP = 10000, MAXT = 20000;
static double comp(ElMagField f, long e) {
  Vector v = e < 3 ? f.E() : f.B();
  long c = e % 3;
  return c == 0 ? v.x : c == 1 ? v.y : v.z;
}
static double part(Vector v, long c) { return c == 0 ? v.x : c == 1 ? v.y : v.z; }
static ElMagField content(long ix, long iy, long it) {
  long i = ix * 1000000 + iy;
  return ElMagField(Vector(nd_r3("f", i, it, 0), nd_r3("f", i, it, 1), nd_r3("f", i, it, 2)), Vector(nd_r3("f", i, it, 3), nd_r3("f", i, it, 4), nd_r3("f", i, it, 5)));
}
typedef ScreenObserver<Bunch> Screen;
static Screen *screen(long nx, long ny, long nt) {
  Screen *s = new Screen(filename(), vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0"), nd_r("dt"), nd_r("dtx"), nd_r("dty"), nt);
  for (long ix = 0; ix < nx; ix++)
    for (long iy = 0; iy < ny; iy++)
      for (long it = 0; it < nt; it++) s->setField(ix, iy, it, content(ix, iy, it));
  return s;
}
CONTRACT(screen_file) {
  WRITE_HDF5;
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP), nt = nd_n("nt", 1, MAXT);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), it = below(nd_i("it", 0, MAXT), nt), e = nd_i("e", 0, 5), c = nd_i("c", 0, 2);
  vc_requires(ix < nx); vc_requires(iy < ny); vc_requires(it < nt);
  Screen *s = screen(nx, ny, nt);
  look(POSITION, ix, iy, c);
  look(FIELD, ix, iy, it, e);
  s->WriteTimeDomainFieldHDF5();
  written();
  holds(FIELD, comp(content(ix, iy, it), e), "every field component at its place");
  shape(FIELD, 4, nx, ny, nt, 6, "shape of the field");
  holds(POSITION, part(s->CellPosition(ix, iy), c), "every pixel position at its place");
  shape(POSITION, 3, nx, ny, 3, 1, "shape of the positions");
  attribute(FIELD, T0, nd_r("t0"), "start time");
  attribute(FIELD, DT, nd_r("dt"), "time step");
  attribute(FIELD, NTS, (double)nt, "number of samples");
  attribute(POSITION, NX, (double)nx, "number of pixels");
  attribute(POSITION, NY, (double)ny, "number of pixels");
  vc_cover("end");
}
CONTRACT(screen_frame) {
  WRITE_HDF5;
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP), nt = nd_n("nt", 1, MAXT), i = nd_i("i", 0, 3), c = nd_i("c", 0, 2);
  Screen *s = new Screen(filename(), vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0"), nd_r("dt"), nd_r("dtx"), nd_r("dty"), nt);
  look(SCREEN, i, c);
  s->WriteTimeDomainFieldHDF5();
  written();
  Vector n = cross(vec1("dX"), vec1("dY")) * -1.0;
  n.normalize();
  holds(SCREEN, part(i == 0 ? vec1("O") : i == 1 ? n : i == 2 ? vec1("dX") : vec1("dY"), c), "frame of the screen");
  shape(SCREEN, 2, 4, 3, 1, 1, "shape of the frame");
  attribute(SCREEN, NX, (double)nx, "number of pixels");
  attribute(SCREEN, NY, (double)ny, "number of pixels");
  attribute(SCREEN, NTS, (double)nt, "number of samples");
  attribute(SCREEN, T0, nd_r("t0"), "start time");
  attribute(SCREEN, DT, nd_r("dt"), "time step");
  attribute(SCREEN, DTX, nd_r("dtx"), "delay per pixel");
  attribute(SCREEN, DTY, nd_r("dty"), "delay per pixel");
  vc_cover("end");
}
typedef SnapshotObserver<Beam> Snapshot;
static Snapshot *snapshot(long nx, long ny) {
  Snapshot *s = new Snapshot(filename(), vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0"));
  for (long ix = 0; ix < nx; ix++)
    for (long iy = 0; iy < ny; iy++) s->setField(ix, iy, content(ix, iy, 0));
  return s;
}
CONTRACT(snapshot_file) {
  WRITE_HDF5;
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), e = nd_i("e", 0, 5), c = nd_i("c", 0, 2);
  vc_requires(ix < nx); vc_requires(iy < ny);
  Snapshot *s = snapshot(nx, ny);
  look(POSITION, ix, iy, c);
  look(FIELD, ix, iy, e);
  s->WriteFieldHDF5();
  written();
  holds(FIELD, comp(content(ix, iy, 0), e), "every field component at its place");
  shape(FIELD, 3, nx, ny, 6, 1, "shape of the field");
  holds(POSITION, part(s->CellPosition(ix, iy), c), "every pixel position at its place");
  shape(POSITION, 3, nx, ny, 3, 1, "shape of the positions");
  attribute(FIELD, T0, nd_r("t0"), "time of the snapshot");
  attribute(POSITION, NX, (double)nx, "number of pixels");
  attribute(POSITION, NY, (double)ny, "number of pixels");
  vc_ensures_eqi(count_[COORDINATES], 0, "no particles without having stored them");
  vc_cover("end");
}
// what a particle reports at the time of the snapshot is arbitrary
extern "C" void particle_coordinates(ChargedParticle *p, double t, Vector *x, Vector *m) {
  *x = gx(p->Npre);
  *m = gp(p->Npre);
}
CONTRACT(snapshot_particles) {
  WRITE_HDF5;
  vc_replace("ChargedParticle::CoordinatesAtTime(double, Vector*, Vector*)", "particle_coordinates");
  long n = nd_n("n", 1, 1000000), i = below(nd_i("i", 0, 2000000000), n), e = nd_i("e", 0, 5);
  vc_requires(i < n);
  Beam *b = new Beam();
  Bunch *c = new Bunch();
  for (long k = 0; k < n; k++) {
    ChargedParticle *p = new ChargedParticle(1.0, 1.0);
    if (vc_engine()) p->Npre = (int)k;
    else p->initTrajectory(nd_r("t0"), gx(k), gp(k), Vector(0, 0, 0));
    c->Add(p);
  }
  b->Add(c);
  SnapshotObserver<Beam> *s = new SnapshotObserver<Beam>(filename(), vec1("O"), vec1("dX"), vec1("dY"), 1, 1, nd_r("t0"));
  s->setSource(b);
  s->storeParticlePositions();
  look(COORDINATES, i, e);
  s->WriteFieldHDF5();
  written();
  holds(COORDINATES, part(e < 3 ? gx(i) : gp(i), e % 3), "every particle at its place");
  shape(COORDINATES, 2, n, 6, 1, 1, "shape of the coordinates");
  attribute(COORDINATES, NPART, (double)n, "number of particles");
  vc_cover("end");
}
typedef MeshedScreen<Bunch> Mesh;
CONTRACT(mesh_file) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples()), e = nd_i("e", 0, 5), c = nd_i("c", 0, 2), k = below(nd_i("k", 0, MAXC), corners());
  vc_requires(i < cells()); vc_requires(it < samples()); vc_requires(k < corners());
  Mesh *m = mesh<Bunch>(true);
  WRITE_HDF5;
  look(CORNERS, k, c);
  look(POSITION, i, c);
  look(TRIANGLES, i, c);
  look(TIMES, i);
  look(FIELD, i, it, e);
  m->writeFile(filename());
  written();
  holds(CORNERS, part(corner(k), c), "every vertex at its place");
  shape(CORNERS, 2, corners(), 3, 1, 1, "shape of the vertices");
  attribute(CORNERS, NCP, (double)corners(), "number of vertices");
  holds(POSITION, part(centre(i), c), "every observation point at its place");
  shape(POSITION, 2, cells(), 3, 1, 1, "shape of the observation points");
  attribute(POSITION, NP, (double)cells(), "number of cells");
  holds(TRIANGLES, (double)vertex(i, c), "every triangle at its place");
  shape(TRIANGLES, 2, cells(), 3, 1, 1, "shape of the triangles");
  attribute(TRIANGLES, NTRI, (double)cells(), "number of cells");
  holds(TIMES, start(i), "every start time at its place");
  shape(TIMES, 1, cells(), 1, 1, 1, "shape of the start times");
  attribute(TIMES, NT, (double)samples(), "number of samples");
  attribute(TIMES, DT, mdt(), "time step");
  holds(FIELD, datum(i, it, e), "every field component at its place");
  shape(FIELD, 3, cells(), samples(), 6, 1, "shape of the field");
  vc_cover("end");
}
static Bunch *crowd(long j, long m) {
  Bunch *c = new Bunch();
  for (long l = 0; l < m; l++) {
    ChargedParticle *p = new ChargedParticle(1.0, 1.0);
    p->initTrajectory(0, gx(100000000 * j + l), gp(100000000 * j + l), Vector(0, 0, 0));
    c->Add(p);
  }
  return c;
}
static void watched(Beam *b, long total, long place, long tag) {
  long e = nd_i("e", 0, 5);
  look(ELECTRONS, place, e);
  vc_ensures_eqi(b->WriteWatchPointHDF5(filename()), total, "number of particles");
  written();
  holds(ELECTRONS, part(e < 3 ? gx(tag) : gp(tag), e % 3), "position and momentum of every particle at its place");
  shape(ELECTRONS, 2, total, 6, 1, 1, "shape of the coordinates");
  vc_cover("end");
}
CONTRACT(watch_bunch) {
  WRITE_HDF5;
  long m = nd_n("m", 1, 10000000), k = below(nd_i("k", 0, 2000000000), m);
  vc_requires(k < m);
  Beam *b = new Beam();
  b->Add(crowd(0, m));
  watched(b, m, k, k);
}
CONTRACT(watch_three) {
  WRITE_HDF5;
  long m0 = nd_n("m0", 0, 90000000), m1 = nd_n("m1", 0, 90000000), m2 = nd_n("m2", 0, 90000000), j = nd_i("j", 0, 2);
  long m = j == 0 ? m0 : j == 1 ? m1 : m2, k = below(nd_i("k", 0, 2000000000), m);
  vc_requires(k < m);
  Beam *b = new Beam();
  b->Add(crowd(0, m0));
  b->Add(crowd(1, m1));
  b->Add(crowd(2, m2));
  watched(b, m0 + m1 + m2, (j > 0 ? m0 : 0) + (j > 1 ? m1 : 0) + k, 100000000 * j + k);
}
// logs of the trajectories: what is to be logged differs from step to step
static long calls;
extern "C" double *step_coordinates(Bunch *b, double *buf, int size) {
  for (long k = 0; k < size; k++)
    for (long e = 0; e < 6; e++) buf[6 * k + e] = nd_r3("log", calls, k, e);
  calls++;
  return buf + 6 * size;
}
CONTRACT(trajectories) {
  WRITE_HDF5;
  vc_replace("Bunch::bufferCoordinates(double*, int)", "step_coordinates");
  long m = nd_n("m", 1, 20000), n = nd_n("n", 1, 10000), it = below(nd_i("it", 0, 2000000000), n), k = below(nd_i("k", 0, 2000000000), m), e = nd_i("e", 0, 5);
  vc_requires(it < n); vc_requires(k < m);
  Bunch *b = crowd(0, m);
  TrajectoryLogger<Bunch> *log = new TrajectoryLogger<Bunch>(b, filename(), 1, nd_i("limit", 1, 100));
  long some = m < nd_i("limit", 1, 100) ? m : nd_i("limit", 1, 100);
  vc_requires(k < some);
  for (long s = 0; s < n; s++) {
    if (!vc_engine())
      for (long l = 0; l < m; l++) {
        ChargedParticle *p = b->getParticle(l);
        p->clearTrajectory();
        p->initTrajectory(s, Vector(nd_r3("log", s, l, 0), nd_r3("log", s, l, 1), nd_r3("log", s, l, 2)),
                          Vector(nd_r3("log", s, l, 3), nd_r3("log", s, l, 4), nd_r3("log", s, l, 5)), Vector(0, 0, 0));
      }
    log->update();
  }
  look(TRAJECTORIES, it, k, e);
  log->WriteData();
  written();
  holds(TRAJECTORIES, nd_r3("log", it, k, e), "coordinates of every particle in every step at its place");
  shape(TRAJECTORIES, 3, n, some, 6, 1, "shape of the coordinates");
  attribute(TRAJECTORIES, NTS, (double)n, "number of steps");
  attribute(TRAJECTORIES, NOP, (double)some, "number of particles");
  vc_cover("end");
}
