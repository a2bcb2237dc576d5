// files written with the HDF5 library, looked at in an arbitrary place
#pragma once
#include <hdf5.h>
#include <string.h>
#include <unistd.h>
// The contract of the HDF5 library: a dataset has the shape of its data space, and its element [i][j][k][l] is the one
// at the row-major position in the memory it was written from; an attribute has the value at the given address.
enum { POSITION = 1, SCREEN, FIELD, COORDINATES, CORNERS, TRIANGLES, TIMES, ELECTRONS, TRAJECTORIES, PROBE, SETS };
enum { NX = 1, NY, NTS, T0, DT, DTX, DTY, NPART, NCP, NP, NT, NOP, NOD, NTRI, ATTS };
static const char *const setname[] = {"", "ObservationPosition", "Screen", "ElMagField", "ParticleCoordinates", "MeshCornerPoints", "MeshTriangles",
                                      "ObservationTime", "electrons", "Trajectories", "Probe"};
static const char *const attname[] = {"", "Nx", "Ny", "NOTS", "t0", "dt", "dtx", "dty", "N_particles", "Ncp", "Np", "Nt", "NOP", "NOD", "Ntri"};
static long spaces_, srank_[32], sdim_[32][4];
static long count_[SETS], rank_[SETS], dim_[SETS][4], place_[SETS][4], space_[SETS], foreign_[SETS];
static double value_[SETS], att_[SETS][ATTS];
static long ints_[SETS], attcount_[SETS][ATTS];
static void look(int set, long i, long j = 0, long k = 0, long l = 0) { place_[set][0] = i; place_[set][1] = j; place_[set][2] = k; place_[set][3] = l; }
static int set_named(const char *n) {
  return !strcmp(n, setname[1]) ? 1 : !strcmp(n, setname[2]) ? 2 : !strcmp(n, setname[3]) ? 3 : !strcmp(n, setname[4]) ? 4 : !strcmp(n, setname[5]) ? 5 :
         !strcmp(n, setname[6]) ? 6 : !strcmp(n, setname[7]) ? 7 : !strcmp(n, setname[8]) ? 8 : !strcmp(n, setname[9]) ? 9 : !strcmp(n, setname[10]) ? 10 : 0;
}
static int att_named(const char *n) {
  return !strcmp(n, attname[1]) ? 1 : !strcmp(n, attname[2]) ? 2 : !strcmp(n, attname[3]) ? 3 : !strcmp(n, attname[4]) ? 4 : !strcmp(n, attname[5]) ? 5 :
         !strcmp(n, attname[6]) ? 6 : !strcmp(n, attname[7]) ? 7 : !strcmp(n, attname[8]) ? 8 : !strcmp(n, attname[9]) ? 9 : !strcmp(n, attname[10]) ? 10 :
         !strcmp(n, attname[11]) ? 11 : !strcmp(n, attname[12]) ? 12 : !strcmp(n, attname[13]) ? 13 : !strcmp(n, attname[14]) ? 14 : 0;
}
extern "C" hid_t h5w_file(const char *, unsigned, hid_t, hid_t) { return 1; }
extern "C" int h5w_ok(hid_t) { return 0; }
extern "C" int h5w_open() { return 0; }
extern "C" hid_t h5w_plist(hid_t) { return 2; }
extern "C" hid_t h5w_scalar(int) { return 3; }
extern "C" hid_t h5w_space(int rank, const hsize_t *d, const hsize_t *) {
  long s = spaces_++;
  srank_[s] = rank;
  sdim_[s][0] = d[0];
  sdim_[s][1] = rank > 1 ? d[1] : 1;
  sdim_[s][2] = rank > 2 ? d[2] : 1;
  sdim_[s][3] = rank > 3 ? d[3] : 1;
  return 10 + s;
}
extern "C" hid_t h5w_dataset(hid_t, const char *n, hid_t type, hid_t space, hid_t, hid_t, hid_t) {
  int k = set_named(n);
  long s = space - 10;
  space_[k] = space;
  rank_[k] = srank_[s];
  dim_[k][0] = sdim_[s][0]; dim_[k][1] = sdim_[s][1]; dim_[k][2] = sdim_[s][2]; dim_[k][3] = sdim_[s][3];
  ints_[k] = k == TRIANGLES;
  if (type != (ints_[k] ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE)) foreign_[k] = 1;
  return 100 + k;
}
extern "C" int h5w_write(hid_t set, hid_t type, hid_t mem, hid_t file, hid_t, const void *p) {
  int k = (int)set - 100;
  if (type != (ints_[k] ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE) || mem != H5S_ALL || (file != space_[k] && file != H5S_ALL)) foreign_[k] = 1;
  long at = ((place_[k][0] * dim_[k][1] + place_[k][1]) * dim_[k][2] + place_[k][2]) * dim_[k][3] + place_[k][3];
  value_[k] = ints_[k] ? (double)((const int *)p)[at] : ((const double *)p)[at];
  count_[k]++;
  return 0;
}
static bool whole(int a) { return a != T0 && a != DT && a != DTX && a != DTY; }
extern "C" hid_t h5w_attr(hid_t set, const char *n, hid_t type, hid_t, hid_t, hid_t) {
  int k = (int)set - 100, a = att_named(n);
  if (type != (whole(a) ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE)) foreign_[k] = 1;
  return 1000 + 100 * k + a;
}
extern "C" int h5w_awrite(hid_t att, hid_t type, const void *p) {
  int k = ((int)att - 1000) / 100, a = ((int)att - 1000) % 100;
  if (type != (whole(a) ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE)) foreign_[k] = 1;
  att_[k][a] = whole(a) ? (double)*(const int *)p : *(const double *)p;
  attcount_[k][a]++;
  return 0;
}
#define WRITE_HDF5                                                                                                        \
  vc_replace("H5open", "h5w_open"); vc_replace("H5Fcreate", "h5w_file"); vc_replace("H5Fclose", "h5w_ok");                  \
  vc_replace("H5Screate", "h5w_scalar"); vc_replace("H5Screate_simple", "h5w_space"); vc_replace("H5Sclose", "h5w_ok");    \
  vc_replace("H5Pcreate", "h5w_plist"); vc_replace("H5Pclose", "h5w_ok"); vc_replace("H5Dcreate2", "h5w_dataset");         \
  vc_replace("H5Dwrite", "h5w_write"); vc_replace("H5Dclose", "h5w_ok"); vc_replace("H5Acreate2", "h5w_attr");             \
  vc_replace("H5Awrite", "h5w_awrite"); vc_replace("H5Aclose", "h5w_ok")
static char filename_[64];
static const char *filename() {
  if (vc_engine()) return "out";
  snprintf(filename_, sizeof filename_, "/tmp/vc_io_%d.h5", (int)getpid());
  return filename_;
}
// natively the file is read back with the HDF5 library
static void written() {
  if (vc_engine()) return;
  hid_t f = H5Fopen(filename_, H5F_ACC_RDONLY, H5P_DEFAULT);
  for (int k = 1; k < SETS && f >= 0; k++) {
    if (H5Lexists(f, setname[k], H5P_DEFAULT) <= 0) continue;
    hid_t s = H5Dopen2(f, setname[k], H5P_DEFAULT), sp = H5Dget_space(s);
    hsize_t d[4] = {1, 1, 1, 1};
    rank_[k] = H5Sget_simple_extent_ndims(sp);
    if (rank_[k] <= 4) H5Sget_simple_extent_dims(sp, d, 0);
    for (int i = 0; i < 4; i++) dim_[k][i] = d[i];
    count_[k] = 1;
    std::vector<double> all(d[0] * d[1] * d[2] * d[3] + 1);
    H5Dread(s, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, all.data());
    std::size_t at = ((place_[k][0] * d[1] + place_[k][1]) * d[2] + place_[k][2]) * d[3] + place_[k][3];
    if (at < all.size()) value_[k] = all[at];
    for (int a = 1; a < ATTS; a++) {
      if (H5Aexists(s, attname[a]) <= 0) continue;
      hid_t h = H5Aopen(s, attname[a], H5P_DEFAULT);
      H5Aread(h, H5T_NATIVE_DOUBLE, &att_[k][a]);
      H5Aclose(h);
      attcount_[k][a] = 1;
    }
    H5Sclose(sp);
    H5Dclose(s);
  }
  if (f >= 0) H5Fclose(f);
  unlink(filename_);
}
static void holds(int set, double value, const char *label) {
  vc_ensures_eqi(count_[set], 1, "the data are in the file, once");
  vc_ensures_eqi(foreign_[set], 0, "type and shape of the data are those of the dataset");
  vc_ensures_eq(value_[set], value, label);
}
static void shape(int set, int rank, long a, long b, long c, long d, const char *label) {
  vc_ensures_eqi(rank_[set], rank, label);
  vc_ensures_eqi(dim_[set][0], a, label);
  vc_ensures_eqi(dim_[set][1], b, label);
  vc_ensures_eqi(dim_[set][2], c, label);
  vc_ensures_eqi(dim_[set][3], d, label);
}
static void attribute(int set, int a, double value, const char *label) {
  vc_ensures(attcount_[set][a] >= 1, label);
  vc_ensures_eq(att_[set][a], value, label);
}
