// B05: bunches read from a table file
#include "mesh_common.h"
#include "SDDS.h"
#include <string.h>
#include <unistd.h>
#include "bunch.h"
// The contract of the SDDS library: the named parameter or column of the page, or nothing if the file does not have it.
static long rows_, lacking_;
static int whole_;
static double total_;
static double *column(long k, const char *n) {
  if (lacking_ == k) return 0;
  double *v = (double *)malloc(sizeof(double) * rows_);
  for (long i = 0; i < rows_; i++) v[i] = nd_r2("file", k, i);
  return v;
}
extern "C" int sdds_input(SDDS_DATASET *, char *) { return lacking_ == 1 ? 0 : 1; }
extern "C" int sdds_read(SDDS_DATASET *) { return 1; }
extern "C" int *sdds_long(SDDS_DATASET *, char *n, int *) {
  if (strcmp(n, "Particles") || lacking_ == 2) return 0;
  whole_ = (int)rows_;
  return &whole_;
}
extern "C" double *sdds_double(SDDS_DATASET *, char *n, double *) {
  if (strcmp(n, "Charge") || lacking_ == 3) return 0;
  total_ = nd_r("charge");
  return &total_;
}
extern "C" double *sdds_doubles(SDDS_DATASET *, char *n) {
  return !strcmp(n, "x") ? column(4, n) : !strcmp(n, "xp") ? column(5, n) : !strcmp(n, "y") ? column(6, n) : !strcmp(n, "yp") ? column(7, n) :
         !strcmp(n, "p") ? column(8, n) : !strcmp(n, "t") ? column(9, n) : 0;
}
#define READ_SDDS                                                                                                  \
  vc_replace("SDDS_InitializeInput", "sdds_input"); vc_replace("SDDS_ReadPage", "sdds_read");                       \
  vc_replace("SDDS_GetParameterAsLong", "sdds_long"); vc_replace("SDDS_GetParameterAsDouble", "sdds_double");       \
  vc_replace("SDDS_GetColumnInDoubles", "sdds_doubles")
// natively a file with this content is written
static char tablename_[300];
static const char *tablename() {
  if (vc_engine()) return new char[nd_n("length", 1, 4096)];  // any name
  // the name of the file may be short or long
  snprintf(tablename_, sizeof tablename_, "/tmp/vc_sdds_%0*d.sdds", rows_ % 2 ? 9 : 140, (int)getpid());
  unlink(tablename_);
  if (lacking_ == 1) return tablename_;
  static const char *const names[] = {"x", "xp", "y", "yp", "p", "t"};
  SDDS_DATASET d;
  SDDS_InitializeOutput(&d, SDDS_BINARY, 1, NULL, NULL, tablename_);
  if (lacking_ != 2) SDDS_DefineSimpleParameter(&d, "Particles", "", SDDS_LONG);
  if (lacking_ != 3) SDDS_DefineSimpleParameter(&d, "Charge", "C", SDDS_DOUBLE);
  for (int k = 0; k < 6; k++)
    if (lacking_ != 4 + k) SDDS_DefineColumn(&d, names[k], names[k], NULL, names[k], NULL, SDDS_DOUBLE, 0);
  SDDS_WriteLayout(&d);
  SDDS_StartPage(&d, rows_);
  if (lacking_ != 2) SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Particles", (int)rows_, NULL);
  if (lacking_ != 3) SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Charge", nd_r("charge"), NULL);
  for (long i = 0; i < rows_; i++)
    for (int k = 0; k < 6; k++)
      if (lacking_ != 4 + k) SDDS_SetRowValues(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, i, names[k], nd_r2("file", 4 + k, i), NULL);
  SDDS_WritePage(&d);
  SDDS_Terminate(&d);
  return tablename_;
}
// the direction of a vector is some function of it: Vector::normalize() is proved by A01
extern "C" void direction_of(Vector *v) {
  double x = v->x, y = v->y, z = v->z;
  *v = Vector(nd_f5("ux", 0, x, y, z, 0), nd_f5("uy", 0, x, y, z, 0), nd_f5("uz", 0, x, y, z, 0));
}
static Vector unit(Vector v) {
  if (vc_engine()) direction_of(&v);
  else v.normalize();
  return v;
}
CONTRACT(reading) {
  READ_SDDS;
  vc_replace("Vector::normalize()", "direction_of");
  long n = nd_n("n", 1, 20000000), i = below(nd_i("i", 0, 2000000000), n);
  vc_requires(i < n);
  rows_ = n;
  lacking_ = 0;
  Vector dir = vec1("dir");
  vc_requires(dir.x * dir.x + dir.y * dir.y + dir.z * dir.z > 0);
  Bunch *b = new Bunch(tablename(), dir);
  if (!vc_engine()) unlink(tablename_);
  vc_ensures_eqi(b->getNOP(), n, "every particle of the file is read");
  ChargedParticle *c = b->getParticle((int)i);
  double q = nd_r("charge") / ElementaryCharge / (double)n;
  vc_ensures_eq(c->getCharge() / ElementaryCharge, -q, "the charge of the file is shared by the particles, as electrons");
  vc_ensures_eqi(c->getNP(), 1, "particles start with one trajectory point");
  vc_ensures_eq(c->getTime(), 0, "particles start at time zero");
  Vector s = unit(dir), x = fabs(s.x) > 0.8 ? Vector(0, 0, 1) : Vector(1, 0, 0);
  x = unit(x - s * dot(x, s));
  Vector y = cross(x, s);
  double p = nd_r2("file", 8, i), mean = 0;
  vc_requires(p >= 0);
  for (long k = 0; k < n; k++) mean += nd_r2("file", 9, k);
  mean /= (double)n;
  Vector d = unit(x * nd_r2("file", 5, i) + y * nd_r2("file", 7, i) + s);
  same(c->getMomentum(), d * p, "momentum by size and angles");
  double beta = p / sqrt(p * p + 1), late = (nd_r2("file", 9, i) - mean) * SpeedOfLight;
  Vector r = x * nd_r2("file", 4, i) + y * nd_r2("file", 6, i) - d * beta * late, got = c->getPosition();
  double scale = fabs(late) + 1e9;
  vc_ensures_eqs(got.x, r.x, scale, "position in the plane, moved by the delay");
  vc_ensures_eqs(got.y, r.y, scale, "position in the plane, moved by the delay");
  vc_ensures_eqs(got.z, r.z, scale, "position in the plane, moved by the delay");
  vc_cover("end");
}
static void incomplete(long what) {
  READ_SDDS;
  rows_ = nd_n("n", 1, 20000000);
  lacking_ = what;
  Bunch *b = new Bunch(tablename(), vec1("dir"));
  if (!vc_engine()) unlink(tablename_);
  vc_ensures_eqi(b->getNOP(), 0, "the bunch is empty if something is missing in the file");
  vc_cover("end");
}
CONTRACT(no_file) { incomplete(1); }
CONTRACT(no_number) { incomplete(2); }
CONTRACT(no_charge) { incomplete(3); }
CONTRACT(no_x) { incomplete(4); }
CONTRACT(no_xp) { incomplete(5); }
CONTRACT(no_y) { incomplete(6); }
CONTRACT(no_yp) { incomplete(7); }
CONTRACT(no_p) { incomplete(8); }
CONTRACT(no_t) { incomplete(9); }
// the axes of the file are an orthonormal system for every direction
CONTRACT(axes) {
  Vector s = vec1("s");
  vc_requires(s.x * s.x + s.y * s.y + s.z * s.z == 1);
  Vector r = fabs(s.x) > 0.8 ? Vector(0, 0, 1) : Vector(1, 0, 0), x = r - s * dot(r, s);
  double l = x.x * x.x + x.y * x.y + x.z * x.z;
  vc_ensures(l > 0.3, "the reference axis is not along the direction");
  vc_ensures_eq(dot(x, s), 0, "horizontal axis across the direction");
  Vector y = cross(x, s);
  vc_ensures_eq(y.x * y.x + y.y * y.y + y.z * y.z, l, "vertical axis of the length of the horizontal one");
  vc_ensures_eq(dot(x, y), 0, "vertical axis across the horizontal one");
  vc_ensures_eq(dot(s, y), 0, "vertical axis across the direction");
  vc_cover("end");
}
