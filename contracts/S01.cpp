// S01: pixels of screens and snapshots form the configured grid
#include "screen_common.h"
static const long MAXP = 40000, MAXT = 1000000000;

template <class S> static ScreenObserver<S> *screen(long nx, long ny, long nt) {
  return new ScreenObserver<S>("out", vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0"), nd_r("dt"), nd_r("dtx"), nd_r("dty"), nt);
}
static Vector pixel(long ix, long iy) { return vec1("O") + vec1("dX") * (double)ix + vec1("dY") * (double)iy; }
static void close_to(Vector r, Vector e, const char *label) {
  vc_ensures_eqs(r.x, e.x, 1e5, label);
  vc_ensures_eqs(r.y, e.y, 1e5, label);
  vc_ensures_eqs(r.z, e.z, 1e5, label);
}
CONTRACT(screen_grid) {
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP), nt = nd_n("nt", 0, MAXT);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny);
  vc_requires(ix < nx); vc_requires(iy < ny);
  ScreenObserver<Bunch> *s = screen<Bunch>(nx, ny, nt);
  close_to(s->CellPosition(ix, iy), pixel(ix - nx / 2, iy - ny / 2), "pixel position");
  FieldTrace *tr = s->Traces[ix][iy];
  vc_ensures_eqs(tr->get_t0(), nd_r("t0") + nd_r("dtx") * (ix - nx / 2) + nd_r("dty") * (iy - ny / 2), 1e5, "start time of the pixel");
  vc_ensures_eq(tr->get_dt(), nd_r("dt"), "sampling of the pixel");
  vc_ensures_eqi(tr->get_N(), nt, "length of the record of the pixel");
  vc_cover("end");
}
// Every pixel is recorded once, at its own place and with its own trace.
template <class S> static void recorded(S *src) {
  vc_requires(nd_r("dt") > 0);
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP), nt = nd_n("nt", 1, MAXT);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), it = below(nd_i("it", 0, MAXT), nt);
  vc_requires(ix < nx); vc_requires(iy < ny); vc_requires(it < nt);
  ScreenObserver<S> *s = screen<S>(nx, ny, nt);
  s->setSource(src);
  s->integrate();
  FieldTrace tr(s->CellTimeZero(ix, iy), nd_r("dt"), nt);
  src->integrateFieldTrace(s->CellPosition(ix, iy), &tr);
  psame(s->getField(ix, iy, it), sample(&tr, it), natural(&tr), "the pixel records the field at its position");
  vc_cover("end");
}
CONTRACT(screen_bunch) {
  vc_replace("Bunch::integrateFieldTrace(Vector, FieldTrace*)", "bunch_record");
  recorded(source_bunch());
}
CONTRACT(screen_beam) {
  vc_replace("Beam::integrateFieldTrace(Vector, FieldTrace*)", "beam_record");
  recorded(source_beam());
}
CONTRACT(screen_lattice) {
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP), nt = nd_n("nt", 1, MAXT);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny), it = below(nd_i("it", 0, MAXT), nt);
  vc_requires(ix < nx); vc_requires(iy < ny); vc_requires(it < nt);
  Lattice *l = new Lattice();
  l->addElement(new AnyField(0));
  ScreenObserver<Lattice> *s = screen<Lattice>(nx, ny, nt);
  s->setSource(l);
  s->integrate();
  fsame(s->getField(ix, iy, it), l->Field(s->CellTimeZero(ix, iy) + (double)it * nd_r("dt"), s->CellPosition(ix, iy)), "the pixel records the field at its position and time");
  vc_cover("end");
}
template <class S> static SnapshotObserver<S> *snapshot(long nx, long ny) {
  return new SnapshotObserver<S>("out", vec1("O"), vec1("dX"), vec1("dY"), nx, ny, nd_r("t0"));
}
CONTRACT(snapshot_grid) {
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny);
  vc_requires(ix < nx); vc_requires(iy < ny);
  SnapshotObserver<Bunch> *s = snapshot<Bunch>(nx, ny);
  Vector e = vec1("O") + vec1("dX") * (ix - 0.5 * (nx - 1)) + vec1("dY") * (iy - 0.5 * (ny - 1));
  close_to(s->CellPosition(ix, iy), e, "pixel position");
  fsame(s->getField(ix, iy), ElMagFieldZero, "a new snapshot is empty");
  vc_cover("end");
}
template <class S> static void taken(S *src) {
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny);
  vc_requires(ix < nx); vc_requires(iy < ny);
  SnapshotObserver<S> *s = snapshot<S>(nx, ny);
  s->setSource(src);
  s->integrate();
  ElMagField f = src->RetardedField(nd_r("t0"), s->CellPosition(ix, iy));
  psame(s->getField(ix, iy), f, size(f), "the pixel records the field at its position");
  vc_cover("end");
}
CONTRACT(snapshot_bunch) {
  vc_replace("Bunch::RetardedField(double, Vector)", "bunch_retarded");
  taken(source_bunch());
}
CONTRACT(snapshot_beam) {
  vc_replace("Beam::RetardedField(double, Vector)", "beam_retarded");
  taken(source_beam());
}
CONTRACT(snapshot_lattice) {
  long nx = nd_n("nx", 1, MAXP), ny = nd_n("ny", 1, MAXP);
  long ix = below(nd_i("ix", 0, MAXP), nx), iy = below(nd_i("iy", 0, MAXP), ny);
  vc_requires(ix < nx); vc_requires(iy < ny);
  Lattice *l = new Lattice();
  l->addElement(new AnyField(0));
  SnapshotObserver<Lattice> *s = snapshot<Lattice>(nx, ny);
  s->setSource(l);
  s->integrate();
  fsame(s->getField(ix, iy), l->Field(nd_r("t0"), s->CellPosition(ix, iy)), "the pixel records the field at its position");
  vc_cover("end");
}
// The observer at a single point
template <class S> static PointObserver<S> *point(long nt) {
  return new PointObserver<S>("out", vec1("O"), nd_r("t0"), nd_r("dt"), nt);
}
template <class S> static void observed(S *src) {
  vc_requires(nd_r("dt") > 0);
  long nt = nd_n("nt", 1, MAXT), it = below(nd_i("it", 0, MAXT), nt);
  vc_requires(it < nt);
  PointObserver<S> *s = point<S>(nt);
  vc_ensures_eq(s->trace->get_t0(), nd_r("t0"), "start time");
  vc_ensures_eq(s->trace->get_dt(), nd_r("dt"), "sampling");
  vc_ensures_eqi(s->trace->get_N(), nt, "length of the record");
  s->setSource(src);
  s->integrate();
  FieldTrace tr(nd_r("t0"), nd_r("dt"), nt);
  src->integrateFieldTrace(vec1("O"), &tr);
  psame(s->getField(it), sample(&tr, it), natural(&tr), "the field at the position of the observer is recorded");
  vc_cover("end");
}
CONTRACT(point_bunch) {
  vc_replace("Bunch::integrateFieldTrace(Vector, FieldTrace*)", "bunch_record");
  observed(source_bunch());
}
CONTRACT(point_beam) {
  vc_replace("Beam::integrateFieldTrace(Vector, FieldTrace*)", "beam_record");
  observed(source_beam());
}
CONTRACT(point_lattice) {
  long nt = nd_n("nt", 1, MAXT), it = below(nd_i("it", 0, MAXT), nt);
  vc_requires(it < nt);
  Lattice *l = new Lattice();
  l->addElement(new AnyField(0));
  PointObserver<Lattice> *s = point<Lattice>(nt);
  s->setSource(l);
  s->integrate();
  fsame(s->getField(it), l->Field(nd_r("t0") + it * nd_r("dt"), vec1("O")), "the field at the position of the observer is recorded");
  vc_cover("end");
}
