// Native meaning of the specification language: inputs are drawn from a seed (or from a
// table of values of a counterexample), a failed postcondition is printed.
#include "vc.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <stdint.h>

struct VcSkip {};
static uint64_t seed = 1;
static int mode = 0;
static std::map<std::string, double> table;
static std::map<std::string, double> seen;
static int failures = 0;
static long checks = 0;
static bool verbose = false;
static std::string first;
static std::map<std::string, bool> increasing;

static uint64_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h;
}
static uint64_t hash_str(const char *s) {
  uint64_t h = 1469598103934665603ULL;
  while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; }
  return h;
}
static double unit(uint64_t h) { return (double)(mix(h) >> 11) / 9007199254740992.0; }
static uint64_t name_hash = 0;
static double real_of(uint64_t h) {
  // a mixture: mostly moderate numbers, some small integers, some zeros, varied magnitude
  double u = unit(h), v = unit(h ^ 0x9e3779b97f4a7c15ULL), s = (mix(h ^ 77) & 1) ? 1.0 : -1.0;
  switch (mode) {
    case 1: return s * (0.1 + v);                       // generic
    case 2: return (double)((long)(v * 7) - 3);         // small integers, zeros
    case 3: return s * std::pow(10.0, 6.0 * v - 3.0);   // wide
    case 4: return s * std::pow(10.0, -5.0 * unit(mix(name_hash))) * (0.3 + v);  // some inputs small as a whole
    default:
      if (u < 0.08) return 0.0;
      if (u < 0.2) return (double)((long)(v * 9) - 4);
      if (u < 0.85) return s * (0.05 + 2.0 * v);
      return s * std::pow(10.0, 4.0 * v - 2.0);
  }
}
static void note(const std::string &k, double v) { if (verbose || seen.size() < 400) seen[k] = v; }
static bool lookup(const std::string &k, double &v) {
  std::map<std::string, double>::iterator i = table.find(k);
  if (i == table.end()) return false;
  v = i->second; return true;
}
static std::string key(const char *n, int c, const long *a) {
  std::string s = n; char b[40];
  for (int i = 0; i < c; i++) { sprintf(b, "%c%ld", i ? ',' : '(', a[i]); s += b; }
  if (c) s += ")";
  return s;
}
static double real_in(const char *n, int c, const long *a) {
  std::string k = key(n, c, a); double v;
  if (!lookup(k, v)) {
    uint64_t h0 = mix(hash_str(n) + 0x1234567 * seed), h = h0;
    for (int i = 0; i < c; i++) h = mix(h ^ (uint64_t)(a[i] + 0x51ed27));
    name_hash = h0 + 31; v = real_of(h);
    if (c == 1 && increasing.count(n)) {
      uint64_t g = mix(hash_str(n) + 0x1234567 * seed);
      double step = std::pow(10.0, 2.0 * unit(g + 5) - 0.7);  // also much longer or shorter than one
      v = (2.0 * unit(g) - 1.0) * 3.0 * (step > 1 ? step : 1.0) + step * (a[0] + 0.9 * unit(h));
    }
  }
  note(k, v); return v;
}
extern "C" {
void vc_increasing(const char *n, long) { increasing[n] = true; }
double nd_r(const char *n) { return real_in(n, 0, 0); }
double nd_r1(const char *n, long i) { long a[1] = {i}; return real_in(n, 1, a); }
double nd_r2(const char *n, long i, long j) { long a[2] = {i, j}; return real_in(n, 2, a); }
double nd_r3(const char *n, long i, long j, long k) { long a[3] = {i, j, k}; return real_in(n, 3, a); }
static long int_in(const std::string &k, uint64_t h, long lo, long hi, bool small) {
  double tv; if (lookup(k, tv)) { long v = (long)tv; if (v < lo || v > hi) throw VcSkip(); note(k, tv); return v; }
  if (lo > hi) throw VcSkip();
  uint64_t r = mix(h); long v;
  unsigned long span = (unsigned long)hi - (unsigned long)lo;
  if (span < 40) v = lo + (long)(r % (span + 1));
  else if (small) v = lo + (long)((r >> 8) % 14);
  else switch (r % 8) {
    case 0: v = lo; break;
    case 1: v = hi; break;
    case 2: v = lo + (long)((r >> 8) % 8); break;
    case 3: v = hi - (long)((r >> 8) % 8); break;
    case 4: case 5: { long z = (long)((r >> 8) % 21) - 10; v = (z < lo || z > hi) ? lo + (long)((r >> 8) % 20) : z; break; }
    case 6: v = lo + (long)((r >> 8) % 6); break;
    default: v = lo + (long)((r >> 4) % (span ? span : 1));
  }
  note(k, (double)v); return v;
}
long nd_i(const char *n, long lo, long hi) { return int_in(n, mix(hash_str(n) + 77777 * seed), lo, hi, false); }
long nd_n(const char *n, long lo, long hi) { return int_in(n, mix(hash_str(n) + 77777 * seed), lo, hi, true); }
long nd_i1(const char *n, long i, long lo, long hi) { long a[1] = {i}; return int_in(key(n, 1, a), mix(hash_str(n) + 77777 * seed + 999983 * (uint64_t)i), lo, hi, false); }
int nd_b(const char *n) { double v; if (!lookup(n, v)) v = (double)(mix(hash_str(n) + 555 * seed) & 1); note(n, v); return v != 0; }
int nd_b1(const char *n, long i) { long a[1] = {i}; std::string k = key(n, 1, a); double v; if (!lookup(k, v)) v = (double)(mix(mix(hash_str(n) + 555 * seed) + (uint64_t)i * 31337) & 1); note(k, v); return v != 0; }
// arbitrary (smooth) functions: random trigonometric polynomials
static double fun(const char *n, long id, int c, const double *x) {
  uint64_t h = mix(hash_str(n) + 4242 * seed + 101 * (uint64_t)id);
  double r = 2.0 * unit(h) - 1.0;
  for (int k = 0; k < 3; k++) {
    double p = 6.0 * unit(h + 10 * k + 1);
    for (int i = 0; i < c; i++) p += (4.0 * unit(h + 100 * k + i + 7) - 2.0) * x[i];
    r += (2.0 * unit(h + 1000 * k + 3) - 1.0) * std::sin(p);
  }
  return r;
}
double nd_f5(const char *n, long id, double t, double x, double y, double z) { double a[4] = {t, x, y, z}; return fun(n, id, 4, a); }
double nd_f4(const char *n, double t, double x, double y, double z) { double a[4] = {t, x, y, z}; return fun(n, 0, 4, a); }
double nd_f2(const char *n, long id, double x) { return fun(n, id, 1, &x); }
double nd_f1(const char *n, double x) { return fun(n, 0, 1, &x); }
void vc_requires(bool c) { if (!c) throw VcSkip(); }
void vc_assume(bool c, const char *) { if (!c) throw VcSkip(); }
static void fail(const char *l, const char *txt) {
  failures++;
  if (first.empty()) first = l;
  if (failures <= 20) printf("FAILED-ENSURES %s %s\n", l, txt);
}
void vc_ensures(bool c, const char *l) { checks++; if (!c) fail(l, ""); }
void vc_ensures_eqs(double a, double b, double s, const char *l) {
  checks++;
  if (a == b) return;
  double tol = 1e-7 * (std::fabs(a) + std::fabs(b)) * 1e-1 + 1e-9 * std::fabs(s);
  if (!(std::fabs(a - b) <= tol)) {
    // the specified value overflows: outside of the real-number semantics of the contract
    if (!std::isfinite(b) || (!std::isfinite(a) && !std::isfinite(s))) return;
    char t[200]; sprintf(t, "got=%.17g expected=%.17g", a, b); fail(l, t);
  }
}
void vc_ensures_eq(double a, double b, const char *l) { vc_ensures_eqs(a, b, 1.0, l); }
void vc_ensures_eqi(long a, long b, const char *l) { checks++; if (a != b) { char t[100]; sprintf(t, "got=%ld expected=%ld", a, b); fail(l, t); } }
void vc_assert(bool c, const char *l) { vc_ensures(c, l); }
void vc_assert_eqs(double a, double b, double s, const char *l) { vc_ensures_eqs(a, b, s, l); }
void vc_root(double v, const char *l) { vc_ensures(v >= -1e-6, l); }
void vc_value(double) {}
void vc_index(long) {}
double vc_ghost(double v) { return v; }
void vc_cover(const char *) {}
void vc_replace(const char *, const char *) {}
double vc_deriv(double, double) { abort(); }
void vc_math_atan(double, double) {}
bool vc_engine() { return false; }
}

typedef void (*harness_t)();
struct Entry { const char *name; harness_t f; };
extern Entry vc_table[];
#include <typeinfo>
#include <cxxabi.h>

int main(int argc, char **argv) {
  // usage: prog harness first_seed n_seeds [table-file]
  const char *want = argv[1];
  unsigned long s0 = strtoul(argv[2], 0, 10), n = strtoul(argv[3], 0, 10);
  if (argc > 4 && argv[4][0]) {
    FILE *f = fopen(argv[4], "r"); char k[300]; double v;
    while (f && fscanf(f, "%299s %lf", k, &v) == 2) table[k] = v;
    if (f) fclose(f);
  }
  harness_t h = 0;
  for (Entry *e = vc_table; e->name; e++) if (!strcmp(e->name, want)) h = e->f;
  if (!h) { printf("NO-HARNESS %s\n", want); return 3; }
  unsigned long ran = 0;
  for (unsigned long s = s0; s < s0 + n; s++) {
    seed = s; mode = s % 5; seen.clear(); first.clear(); increasing.clear(); failures = 0;
    printf("SEED %lu\n", s); fflush(stdout);
    try { h(); ran++; }
    catch (VcSkip &) { continue; }
    catch (...) {
      std::type_info *t = abi::__cxa_current_exception_type();
      char b[200]; snprintf(b, sizeof b, "unexpected exception %s", t ? t->name() : "?"); fail("no-exception", b);
    }
    if (failures) {
      printf("VIOLATED seed=%lu mode=%d label=%s\n", s, mode, first.c_str());
      for (std::map<std::string, double>::iterator i = seen.begin(); i != seen.end(); ++i) printf("INPUT %s %.17g\n", i->first.c_str(), i->second);
      fflush(stdout);
      return 1;
    }
  }
  printf("RAN %lu of %lu CHECKS %ld\n", ran, n, checks);
  return ran ? 0 : 2;
}
