// meshes of any size: the mesh file is arbitrary
#pragma once
#include <hdf5.h>
#include <unistd.h>
#include "screen_common.h"
#include "mesh.h"
static const long MAXC = 1000000, MAXN = 100000;      // corners, cells
static const long MAXS = 200000;                      // samples
static inline long cells() { return nd_n("Np", 0, MAXN); }
static inline long corners() { return nd_n("Ncp", 1, MAXC); }
static inline long samples() { return nd_n("Nt", 0, MAXS); }
static inline double mdt() { return nd_r("dt"); }
static inline Vector corner(long i) { return vec2("c", i); }
static inline Vector centre(long i) { return vec2("o", i); }
static inline long vertex(long i, long k) { return nd_i1("tri", 3 * i + k, 0, corners() - 1); }
static inline double start(long i) { return nd_r1("t0", i); }
static inline double datum(long i, long it, long e) { return nd_r3("file", i, it, e); }
// The contract of the HDF5 library: reading delivers what the file contains.  Handles of datasets are
// distinguished by a letter of their names.
extern "C" hid_t h5_open(hid_t, const char *n, hid_t) { return n[0] == 'M' ? (n[4] == 'C' ? 1 : 2) : n[0] == 'O' ? (n[11] == 'P' ? 3 : 4) : 5; }
extern "C" hid_t h5_attr(hid_t, const char *n) { return n[0] == 'd' ? 4 : n[1] == 'c' ? 1 : n[1] == 'p' ? 2 : 3; }
extern "C" hid_t h5_file(const char *, unsigned, hid_t) { return 1; }
extern "C" int h5_ok(hid_t) { return 0; }
extern "C" int h5_open_lib() { return 0; }
extern "C" int h5_aread(hid_t a, hid_t, void *p) {
  if (a == 4) *(double *)p = mdt();
  else *(int *)p = (int)(a == 1 ? corners() : a == 2 ? cells() : samples());
  return 0;
}
extern "C" int h5_exists_all(hid_t, const char *, hid_t) { return 1; }
extern "C" int h5_exists_time(hid_t, const char *n, hid_t) { return n[0] == 'O'; }
extern "C" int h5_exists_none(hid_t, const char *n, hid_t) { return 0; }
extern "C" int h5_read(hid_t d, hid_t, hid_t, hid_t, hid_t, void *p) {
  double *v = (double *)p;
  if (d == 1)
    for (long i = 0; i < corners(); i++) { v[3 * i] = corner(i).x; v[3 * i + 1] = corner(i).y; v[3 * i + 2] = corner(i).z; }
  else if (d == 3)
    for (long i = 0; i < cells(); i++) { v[3 * i] = centre(i).x; v[3 * i + 1] = centre(i).y; v[3 * i + 2] = centre(i).z; }
  else if (d == 2)
    for (long i = 0; i < cells(); i++) for (long k = 0; k < 3; k++) ((int *)p)[3 * i + k] = (int)vertex(i, k);
  else if (d == 4)
    for (long i = 0; i < cells(); i++) v[i] = start(i);
  else
    for (long i = 0; i < cells(); i++)
      for (long it = 0; it < samples(); it++)
        for (long e = 0; e < 6; e++) v[6 * (i * samples() + it) + e] = datum(i, it, e);
  return 0;
}
// natively the same file is written with the HDF5 library
static void put(hid_t f, const char *n, hid_t type, int nd, const hsize_t *dim, const void *data, int na, const char *const *an, const int *ai, const double *ad) {
  hid_t sp = H5Screate_simple(nd, dim, 0), ds = H5Dcreate2(f, n, type, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), sc = H5Screate(H5S_SCALAR);
  H5Dwrite(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
  for (int i = 0; i < na; i++) {
    hid_t ty = an[i][0] == 'd' ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT, a = H5Acreate2(ds, an[i], ty, sc, H5P_DEFAULT, H5P_DEFAULT);
    H5Awrite(a, ty, an[i][0] == 'd' ? (const void *)ad : (const void *)(ai + i));
    H5Aclose(a);
  }
  H5Dclose(ds);
}
static std::string native_file(bool fields) {
  char name[64];
  snprintf(name, sizeof name, "/tmp/vc_mesh_%d.h5", (int)getpid());
  hid_t f = H5Fcreate(name, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  long nc = corners(), np = cells(), nt = samples();
  std::vector<double> c(3 * nc + 1), o(3 * np + 1), t(np + 1), d(6 * np * nt + 1);
  std::vector<int> tri(3 * np + 1);
  h5_read(1, 0, 0, 0, 0, c.data()); h5_read(3, 0, 0, 0, 0, o.data()); h5_read(2, 0, 0, 0, 0, tri.data());
  h5_read(4, 0, 0, 0, 0, t.data()); h5_read(5, 0, 0, 0, 0, d.data());
  const char *a1[] = {"Ncp"}, *a2[] = {"Np"}, *a4[] = {"Nt", "dt"};
  int i1[] = {(int)nc}, i2[] = {(int)np}, i4[] = {(int)nt, 0};
  double dt = mdt();
  hsize_t d1[] = {(hsize_t)nc, 3}, d2[] = {(hsize_t)np, 3}, d5[] = {(hsize_t)np, (hsize_t)nt, 6};
  put(f, "MeshCornerPoints", H5T_NATIVE_DOUBLE, 2, d1, c.data(), 1, a1, i1, 0);
  put(f, "ObservationPosition", H5T_NATIVE_DOUBLE, 2, d2, o.data(), 1, a2, i2, 0);
  put(f, "MeshTriangles", H5T_NATIVE_INT, 2, d2, tri.data(), 0, 0, 0, 0);
  put(f, "ObservationTime", H5T_NATIVE_DOUBLE, 1, d2, t.data(), 2, a4, i4, &dt);
  if (fields) put(f, "ElMagField", H5T_NATIVE_DOUBLE, 3, d5, d.data(), 0, 0, 0, 0);
  H5Fclose(f);
  return name;
}
#define READ_MESH(EXISTS)                                                                  \
  vc_replace("H5open", "h5_open_lib"); vc_replace("H5Fopen", "h5_file"); vc_replace("H5Fclose", "h5_ok");          \
  vc_replace("H5Dopen2", "h5_open"); vc_replace("H5Dclose", "h5_ok"); vc_replace("H5Aopen_name", "h5_attr");       \
  vc_replace("H5Aclose", "h5_ok"); vc_replace("H5Aread", "h5_aread"); vc_replace("H5Dread", "h5_read");           \
  vc_replace("H5Lexists", EXISTS)
template <class S> static MeshedScreen<S> *mesh(bool fields) {
  if (vc_engine()) return new MeshedScreen<S>("mesh");
  std::string n = native_file(fields);
  MeshedScreen<S> *m = new MeshedScreen<S>(n);
  unlink(n.c_str());
  return m;
}
