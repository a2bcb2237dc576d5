// S03: screens on triangle meshes
#include "mesh_common.h"
CONTRACT(reading) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  MeshedScreen<Bunch> *m = mesh<Bunch>(true);
  vc_ensures_eqi(m->get_Np(), cells(), "number of cells");
  vc_ensures_eqi(m->get_Nt(), samples(), "number of samples");
  same(m->get_point((int)i), centre(i), "observation point of the cell");
  vc_ensures_eq(m->get_t0((int)i), start(i), "start time of the cell");
  vc_ensures_eq(m->A[i]->get_dt(), mdt(), "sampling of the cell");
  vc_ensures_eq(m->get_dt(), mdt(), "sampling of the screen");
  vc_ensures_eqi(m->A[i]->get_N(), samples(), "length of the record of the cell");
  vc_cover("end");
}
static Vector corner_of(long i, long k) { return corner(vertex(i, k)); }
static Vector edges(long i) { return cross(corner_of(i, 2) - corner_of(i, 0), corner_of(i, 1) - corner_of(i, 0)); }
// every triangle of the mesh has an area
static void proper(long i) {
  Vector a = corner_of(i, 2) - corner_of(i, 0), b = corner_of(i, 1) - corner_of(i, 0);
  double x = a.y * b.z - a.z * b.y, y = a.z * b.x - a.x * b.z, z = a.x * b.y - a.y * b.x;
  vc_requires(x * x + y * y + z * z > (vc_engine() ? 0 : 1e-6));
}
CONTRACT(areas) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells());
  vc_requires(i < cells());
  MeshedScreen<Bunch> *m = mesh<Bunch>(true);
  m->init();
  proper(i);
  Vector e = edges(i);
  vc_ensures_eqs(m->get_area((int)i), 0.5 * e.norm(), 100, "area of a cell");
  double total = 0;
  for (long k = 0; k < cells(); k++) total += 0.5 * edges(k).norm();
  vc_ensures_eqs(m->total_area, total, 1000, "total area");
  Vector n = m->get_normal((int)i);
  vc_ensures_eqs(n.x * e.norm(), e.x, 10, "normal of a cell");
  vc_ensures_eqs(n.y * e.norm(), e.y, 10, "normal of a cell");
  vc_ensures_eqs(n.z * e.norm(), e.z, 10, "normal of a cell");
  vc_ensures_eqs(n.x * n.x + n.y * n.y + n.z * n.z, 1, 1, "unit normal");
  vc_cover("end");
}
// Contract of Vector::normalize() (proved by A01): the vector is multiplied with the reciprocal of its length.
extern "C" void normalized(Vector *v) {
  Vector o = *v;
  v->x = nd_f5("ux", 0, 0, o.x, o.y, o.z);
  v->y = nd_f5("uy", 0, 0, o.x, o.y, o.z);
  v->z = nd_f5("uz", 0, 0, o.x, o.y, o.z);
}
// the result for the given vector; scale is the reciprocal length
static Vector direction(Vector v, double *scale, bool unit_only = false) {
  if (!vc_engine()) {
    *scale = 1 / v.norm();
    v.normalize();
    return v;
  }
  Vector u = v;
  normalized(&u);
  double r = *scale = nd_f5("r", 0, 0, v.x, v.y, v.z), q = v.x * v.x + v.y * v.y + v.z * v.z;
  const char *why = "postcondition of Vector::normalize() (proved by A01)";
  vc_assert(q > 0, "the normalised vector is not zero");
  vc_assume(u.x * u.x + u.y * u.y + u.z * u.z == 1, why);
  if (unit_only) return u;
  vc_assume(r > 0, why);
  vc_assume(r * r * q == 1, why);
  vc_assume(u.x == v.x * r, why);
  vc_assume(u.y == v.y * r, why);
  vc_assume(u.z == v.z * r, why);
  return u;
}
// An orthonormal right-handed frame results from the construction whatever the normal is.
static Vector scaled(const char *n, Vector v, double *scale) {
  double q = v.x * v.x + v.y * v.y + v.z * v.z;
  if (vc_engine()) {
    double r = nd_r(n);
    vc_requires(r > 0);
    vc_requires(r * r * q == 1);
    *scale = r;
  } else {
    vc_requires(q > 1e-6);
    *scale = 1 / sqrt(q);
  }
  return v * *scale;
}
static void lemma(Vector s, Vector t, Vector e, double r) {
  vc_assert_eqs(dot(s, e), 0, 1, "the first axis is tangential");
  vc_assert_eqs(dot(t, e), 0, 1, "the second axis is tangential");
  vc_assert_eqs(dot(s, t), 0, 1, "the axes are perpendicular");
  vc_assert_eqs(dot(s, s), 1, 1, "the first axis is a unit vector");
  vc_assert_eqs(dot(t, t), 1, 1, "the second axis is a unit vector");
  vc_assert_eqs(r, 1, 1, "perpendicular unit vectors have a product of unit length");
  vc_ensures_eqs(dot(cross(s, t), e), 1, 1, "the frame is right-handed");
  vc_cover("end");
}
static Vector unit_vector() {
  Vector e = vec1("e");
  if (vc_engine()) vc_requires(e.x * e.x + e.y * e.y + e.z * e.z == 1);
  else e.normalize();
  return e;
}
CONTRACT(lemma_upright) {
  Vector e = unit_vector();
  double r2, r3;
  Vector s = scaled("r2", cross(Vector(0, 1, 0), e), &r2), t = scaled("r3", cross(e, s), &r3);
  lemma(s, t, e, r3);
}
CONTRACT(lemma_level) {
  Vector e = unit_vector();
  double r2, r3;
  Vector t = scaled("r2", cross(e, Vector(1, 0, 0)), &r2), s = scaled("r3", cross(t, e), &r3);
  lemma(s, t, e, r3);
}
// the code constructs such frames
static void frame(Vector a, Vector b, Vector s, Vector t, Vector e) {
  same(a, s, "the first axis");
  same(b, t, "the second axis");
}
CONTRACT(frames) {
  READ_MESH("h5_exists_all");
  vc_replace("Vector::normalize()", "normalized");
  long i = below(nd_i("i", 0, MAXN), cells());
  vc_requires(i < cells());
  proper(i);
  MeshedScreen<Bunch> *m = mesh<Bunch>(true);
  m->init();
  Vector n = m->get_normal((int)i), a = m->get_xi((int)i), b = m->get_eta((int)i), g;
  for (long k = 0; k < cells(); k++) g += m->get_normal((int)k);
  double r0, r1, r2, r3;
  vc_requires(g.x * g.x + g.y * g.y + g.z * g.z > 0);
  g = direction(g, &r0, true);
  Vector e = direction(edges(i), &r1, true);
  same(n, e, "normal of a cell");
  vc_requires(dot(e, g) > 0.72);                        // about 44 degrees
  if (fabs(g.y) < 0.7) {
    Vector s = direction(cross(Vector(0, 1, 0), e), &r2), t = direction(cross(e, s), &r3);
    frame(a, b, s, t, e);
    vc_cover("upright");
  } else {
    Vector t = direction(cross(e, Vector(1, 0, 0)), &r2), s = direction(cross(t, e), &r3);
    frame(a, b, s, t, e);
    vc_cover("level");
  }
}
static ElMagField stored(long i, long it) {
  return ElMagField(Vector(datum(i, it, 0), datum(i, it, 1), datum(i, it, 2)), Vector(datum(i, it, 3), datum(i, it, 4), datum(i, it, 5)));
}
CONTRACT(fields) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  MeshedScreen<Bunch> *m = mesh<Bunch>(true);
  fsame(sample(m->A[i], it), stored(i, it), "fields of the cell");
  FieldTrace t = m->get_trace((int)i);
  fsame(sample(&t, it), stored(i, it), "record of the cell");
  vc_cover("end");
}
CONTRACT(no_fields) {
  READ_MESH("h5_exists_time");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  MeshedScreen<Bunch> *m = mesh<Bunch>(false);
  fsame(sample(m->A[i], it), ElMagFieldZero, "a new screen is empty");
  vc_cover("end");
}
CONTRACT(no_times) {
  READ_MESH("h5_exists_none");
  if (!vc_engine()) return;
  long i = below(nd_i("i", 0, MAXN), cells());
  vc_requires(i < cells());
  MeshedScreen<Bunch> *m = mesh<Bunch>(false);
  vc_ensures_eqi(m->get_Nt(), 0, "no samples");
  vc_ensures_eqi(m->A[i]->get_N(), 0, "no samples in the record of a cell");
  same(m->get_point((int)i), centre(i), "observation point of the cell");
  vc_cover("end");
}
CONTRACT(clearing) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  MeshedScreen<Bunch> *m = mesh<Bunch>(true);
  m->zero();
  fsame(sample(m->A[i], it), ElMagFieldZero, "a cleared screen is empty");
  vc_cover("end");
}
// Every cell is recorded once, at its own place, in addition to what was there before.
template <class S> static void recorded(S *src) {
  vc_requires(mdt() > 0);
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  MeshedScreen<S> *m = mesh<S>(true);
  m->setSource(src);
  m->integrate();
  FieldTrace tr(start(i), mdt(), samples());
  src->integrateFieldTrace(centre(i), &tr);
  fsame(sample(m->A[i], it), stored(i, it) + sample(&tr, it), "the cell records the field at its observation point");
  vc_cover("end");
}
CONTRACT(mesh_bunch) {
  READ_MESH("h5_exists_all");
  vc_replace("Bunch::integrateFieldTrace(Vector, FieldTrace*)", "bunch_record");
  recorded(source_bunch());
}
CONTRACT(mesh_beam) {
  READ_MESH("h5_exists_all");
  vc_replace("Beam::integrateFieldTrace(Vector, FieldTrace*)", "beam_record");
  recorded(source_beam());
}
CONTRACT(mesh_lattice) {
  READ_MESH("h5_exists_all");
  long i = below(nd_i("i", 0, MAXN), cells()), it = below(nd_i("it", 0, MAXS), samples());
  vc_requires(i < cells()); vc_requires(it < samples());
  Lattice *l = new Lattice();
  l->addElement(new AnyField(0));
  MeshedScreen<Lattice> *m = mesh<Lattice>(true);
  m->setSource(l);
  m->integrate();
  fsame(sample(m->A[i], it), stored(i, it) + l->Field(start(i) + (double)it * mdt(), centre(i)), "the cell records the field at its observation point and time");
  vc_cover("end");
}
// The energy density of a record is something arbitrary here (its formula is T02).
extern "C" Vector any_flow(FieldTrace *t) { return Vector(nd_f5("Sx", 0, 0, 0, 0, t->get_t0()), nd_f5("Sy", 0, 0, 0, 0, t->get_t0()), nd_f5("Sz", 0, 0, 0, 0, t->get_t0())); }
CONTRACT(energy) {
  READ_MESH("h5_exists_all");
  vc_replace("FieldTrace::Poynting()", "any_flow");
  MeshedScreen<Bunch> *m = mesh<Bunch>(true);
  m->init();
  double total = 0;
  for (long k = 0; k < cells(); k++) total += m->get_area((int)k) * dot(m->A[k]->Poynting(), m->get_normal((int)k));
  vc_ensures_eqs(m->totalEnergy(), -total, 1e6, "total energy");
  vc_cover("end");
}
