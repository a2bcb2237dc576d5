// table files written with the SDDS library
#pragma once
#include "SDDS.h"
#include <string.h>
#include <unistd.h>
// The contract of the SDDS library: a value set by the name of its column goes to that column of the given row, a value set
// by the name of a parameter to that parameter; the page is written once, after its values have been set.
enum { COLUMNS = 35, PARAMETERS = 9 };
static const char *const column_[COLUMNS] = {"", "t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma", "Ex", "Ey", "Ez", "Bx", "By", "Bz",
  "x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av", "delta", "x_rms", "y_rms", "z_rms", "BF", "", "", "", "", "", ""};
static const char *const parameter_[PARAMETERS] = {"", "NumberOfParticles", "NumberTimeSteps", "NumberParticles", "Charge", "t0", "dt", "TotalCharge", "BunchingFrequency"};
static long known_[COLUMNS], declared_[PARAMETERS], set_[PARAMETERS], rows_, opened_, laid_, pages_, closed_, alien_;
static double *table_, scalar_[PARAMETERS];
template <int I> static int column_named(const char *n) { return !strcmp(n, column_[I]) ? I : column_named<I - 1>(n); }
template <> int column_named<0>(const char *) { return 0; }
template <int I> static int parameter_named(const char *n) { return !strcmp(n, parameter_[I]) ? I : parameter_named<I - 1>(n); }
template <> int parameter_named<0>(const char *) { return 0; }
static bool counts(int k) { return k >= 1 && k <= 3; }
extern "C" int sdds_output(SDDS_DATASET *, int, int, const char *, const char *, const char *) { opened_++; return 1; }
extern "C" int sdds_parameter(SDDS_DATASET *, const char *n, const char *, int type) {
  int k = parameter_named<PARAMETERS - 1>(n);
  if (type != (counts(k) ? SDDS_LONG : SDDS_DOUBLE)) alien_ = 1;
  declared_[k]++;
  return 1;
}
extern "C" int sdds_column(SDDS_DATASET *, const char *n, const char *, const char *, const char *, const char *, int type, int) {
  if (type != SDDS_DOUBLE) alien_ = 1;
  known_[column_named<28>(n)]++;
  return 0;
}
extern "C" int sdds_layout(SDDS_DATASET *) { laid_++; return 1; }
extern "C" int sdds_page(SDDS_DATASET *, long rows) {
  if (!laid_) alien_ = 1;
  rows_ = rows;
  table_ = new double[COLUMNS * rows];
  return 1;
}
template <int I> static void assign(const void *const *a) {
  const char *n = (const char *)a[2 * I];
  if (n) {
    int k = parameter_named<PARAMETERS - 1>(n);
    scalar_[k] = counts(k) ? (double)*(const int *)(a + 2 * I + 1) : *(const double *)(a + 2 * I + 1);
    set_[k]++;
    assign<I + 1>(a);
  }
}
template <> void assign<4>(const void *const *) {}
extern "C" int va_sdds_set(SDDS_DATASET *, int mode, const void *const *a) {
  if (mode != (SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE) || pages_) alien_ = 1;
  assign<0>(a);
  return 1;
}
template <int I> static void enter(long row, const void *const *a) {
  const char *n = (const char *)a[2 * I];
  if (n) {
    table_[COLUMNS * row + column_named<28>(n)] = *(const double *)(a + 2 * I + 1);
    enter<I + 1>(row, a);
  }
}
template <> void enter<16>(long, const void *const *) {}
extern "C" int va_sdds_row(SDDS_DATASET *, int mode, long row, const void *const *a) {
  vc_assert(row >= 0 && row < rows_, "the row is one of the page");
  if (mode != (SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE) || pages_) alien_ = 1;
  enter<0>(row, a);
  return 1;
}
extern "C" int sdds_write(SDDS_DATASET *) { pages_++; return 1; }
extern "C" int sdds_end(SDDS_DATASET *) { closed_ = pages_; return 1; }
#define WRITE_SDDS                                                                                                          \
  vc_replace("SDDS_InitializeOutput", "sdds_output"); vc_replace("SDDS_DefineSimpleParameter", "sdds_parameter");            \
  vc_replace("SDDS_DefineColumn", "sdds_column"); vc_replace("SDDS_WriteLayout", "sdds_layout");                             \
  vc_replace("SDDS_StartPage", "sdds_page"); vc_replace("SDDS_SetParameters", "va_sdds_set");                                \
  vc_replace("SDDS_SetRowValues", "va_sdds_row"); vc_replace("SDDS_WritePage", "sdds_write"); vc_replace("SDDS_Terminate", "sdds_end")
static char tablename_[64];
static const char *tablename() {
  if (vc_engine()) return "out";
  snprintf(tablename_, sizeof tablename_, "/tmp/vc_sdds_%d.sdds", (int)getpid());
  return tablename_;
}
// natively the file is read back with the library
static void written() {
  if (vc_engine()) return;
  SDDS_DATASET d;
  if (SDDS_InitializeInput(&d, tablename_) == 1) {
    opened_ = 1;
    if (SDDS_ReadPage(&d) == 1) {
      pages_ = closed_ = 1;
      rows_ = SDDS_CountRowsOfInterest(&d);
      table_ = new double[COLUMNS * rows_ + 1];
      for (int c = 1; c < 29; c++)
        if (SDDS_GetColumnIndex(&d, (char *)column_[c]) >= 0) {
          known_[c] = 1;
          double *v = SDDS_GetColumnInDoubles(&d, (char *)column_[c]);
          for (long r = 0; v && r < rows_; r++) table_[COLUMNS * r + c] = v[r];
          free(v);
        }
      for (int k = 1; k < PARAMETERS; k++)
        if (SDDS_GetParameterIndex(&d, (char *)parameter_[k]) >= 0) {
          declared_[k] = set_[k] = 1;
          SDDS_GetParameterAsDouble(&d, (char *)parameter_[k], &scalar_[k]);
        }
    }
    SDDS_Terminate(&d);
  }
  SDDS_ClearErrors();
  unlink(tablename_);
}
static void table(long rows) {
  written();
  vc_ensures_eqi(opened_, 1, "one file is written");
  vc_ensures_eqi(pages_, 1, "the page is written once");
  vc_ensures_eqi(closed_, 1, "the file is finished behind the page");
  vc_ensures_eqi(alien_, 0, "types and order of the calls are those of the library");
  vc_ensures_eqi(rows_, rows, "number of rows");
}
enum { CT = 1, CX, CY, CZ, CPX, CPY, CPZ, CP, CXP, CYP, CGAMMA, CEX, CEY, CEZ, CBX, CBY, CBZ, CXAV, CYAV, CZAV, CBGX, CBGY, CBGZ, CDELTA, CXRMS, CYRMS, CZRMS, CBF };
enum { NPARTICLES = 1, NSTEPS, NPARTS, CHARGE, T0, DT, TOTAL, FREQUENCY };
static void cell(long row, int c, double value, const char *label) {
  vc_ensures_eqi(known_[c], 1, label);
  vc_ensures_eq(table_[COLUMNS * row + c], value, label);
}
static void scalar(int k, double value, const char *label) {
  vc_ensures_eqi(declared_[k], 1, label);
  vc_ensures(set_[k] >= 1, label);
  vc_ensures_eq(scalar_[k], value, label);
}
