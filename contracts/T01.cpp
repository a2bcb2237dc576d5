// T01: field traces act sample by sample and refuse incompatible partners
#include "trace_common.h"
static const long MAXN = 2000000000;

CONTRACT(storage) {
  long n = nd_n("n", 0, MAXN), i = nd_i("i", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  vc_ensures_eqi(t.get_N(), n, "length");
  vc_ensures_eq(t.get_t0(), nd_r("t0"), "start time");
  vc_ensures_eq(t.get_dt(), nd_r("dt"), "spacing");
  if (i < n) fsame(sample(&t, i), ElMagFieldZero, "a new trace is empty");
  load(&t, "f", n);
  if (i < n) {
    fsame(sample(&t, i), fld("f", i), "samples read back");
    vc_ensures_eqs(t.get_time(i), nd_r("t0") + nd_r("dt") * i, fabs(nd_r("t0")) + fabs(nd_r("dt") * n), "equidistant sample times");
    // one sample is written, nothing else changes
    long j = nd_i("j", 0, MAXN);
    if (j < n) {
      t.set_field((std::size_t)j, fld("g", 0));
      fsame(sample(&t, i), i == j ? fld("g", 0) : fld("f", i), "only the addressed sample is written");
      t.add((std::size_t)j, fld("h", 0));
      fsame(sample(&t, i), i == j ? fld("g", 0) + fld("h", 0) : fld("f", i), "only the addressed sample is added to");
    }
    vc_cover("sample");
  }
  if (n > 0) {
    vc_ensures_eqs(t.get_last_time(), nd_r("t0") + nd_r("dt") * (n - 1), fabs(nd_r("t0")) + fabs(nd_r("dt") * n), "time of the last sample");
    vc_cover("last");
  } else vc_ensures_eq(t.get_last_time(), nd_r("t0"), "last time of an empty trace");
  vc_ensures_eqs(t.get_center_time(), nd_r("t0") + nd_r("dt") * n / 2, fabs(nd_r("t0")) + fabs(nd_r("dt") * n), "centre time");
  t.set_t0(nd_r("t1"));
  vc_ensures_eq(t.get_t0(), nd_r("t1"), "start time set");
  if (i < n) fsame(sample(&t, i), i == nd_i("j", 0, MAXN) ? fld("g", 0) + fld("h", 0) : fld("f", i), "start time does not touch the samples");
  t.zero();
  if (i < n) fsame(sample(&t, i), ElMagFieldZero, "zero erases every sample");
  vc_ensures_eqi(t.get_N(), n, "length kept");
  vc_ensures_eq(t.get_dt(), nd_r("dt"), "spacing kept");
}
CONTRACT(range) {
  long n = nd_n("n", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  long i = nd_i("i", 0, 4000000000000L);
  vc_requires(i >= n);
  int refused = 0;
  try { t.get_field((std::size_t)i); } catch (IOexception &) { refused++; }
  try { t.get_time(i); } catch (IOexception &) { refused++; }
  try { t.set_field((std::size_t)i, fld("g", 0)); } catch (IOexception &) { refused++; }
  try { t.add((std::size_t)i, fld("g", 0)); } catch (IOexception &) { refused++; }
  vc_ensures(refused == 4, "samples outside of the trace are refused");
  long k = nd_i("k", 0, MAXN);
  if (k < n) fsame(sample(&t, k), fld("f", k), "refused access has no effect");
  vc_cover("end");
}
CONTRACT(copies) {
  long n = nd_n("n", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  FieldTrace a(t), b(&t), c(nd_r("t2"), nd_r("dt2"), n);
  load(&c, "g", n);
  c = t;
  t.zero();
  long k = nd_i("k", 0, MAXN);
  if (k < n) {
    fsame(sample(&a, k), fld("f", k), "copied samples");
    fsame(sample(&b, k), fld("f", k), "copied samples from pointer");
    fsame(sample(&c, k), fld("f", k), "assigned samples");
    vc_cover("sample");
  }
  vc_ensures(a.get_N() == (std::size_t)n && b.get_N() == (std::size_t)n && c.get_N() == (std::size_t)n, "copied length");
  vc_ensures_eq(a.get_t0(), nd_r("t0"), "copied time base"); vc_ensures_eq(a.get_dt(), nd_r("dt"), "copied time base");
  vc_ensures_eq(b.get_t0(), nd_r("t0"), "copied time base"); vc_ensures_eq(b.get_dt(), nd_r("dt"), "copied time base");
  vc_ensures_eq(c.get_t0(), nd_r("t0"), "assigned time base"); vc_ensures_eq(c.get_dt(), nd_r("dt"), "assigned time base");
}
CONTRACT(self_assignment) {
  long n = nd_n("n", 1, MAXN), k = below(nd_i("k", 0, MAXN), n);
  vc_requires(k < n);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  FieldTrace &u = t;
  t = u;
  fsame(sample(&t, k), fld("f", k), "assigned to itself");
  vc_ensures_eqi(t.get_N(), n, "length kept");
  vc_cover("end");
}
CONTRACT(assignment_mismatch) {
  long n = nd_n("n", 0, MAXN), m = nd_n("m", 0, MAXN), k = nd_i("k", 0, MAXN);
  vc_requires(n != m);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n), c(nd_r("t2"), nd_r("dt2"), m);
  load(&t, "f", n);
  load(&c, "g", m);
  bool refused = false;
  try { c = t; } catch (IOexception &) { refused = true; }
  vc_ensures(refused, "assignment with different length is refused");
  if (k < m) fsame(sample(&c, k), fld("g", k), "refused assignment has no effect");
  vc_ensures_eqi(c.get_N(), m, "length kept"); vc_ensures_eq(c.get_t0(), nd_r("t2"), "time base kept"); vc_ensures_eq(c.get_dt(), nd_r("dt2"), "time base kept");
  vc_cover("end");
}
CONTRACT(scaling) {
  long n = nd_n("n", 0, MAXN), k = nd_i("k", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  double s = nd_r("s");
  vc_requires(s != 0);
  FieldTrace a = t * s, b = t / s;
  vc_ensures(a.get_N() == (std::size_t)n && b.get_N() == (std::size_t)n, "length");
  vc_ensures_eq(a.get_t0(), nd_r("t0"), "time base"); vc_ensures_eq(a.get_dt(), nd_r("dt"), "time base");
  vc_ensures_eq(b.get_t0(), nd_r("t0"), "time base"); vc_ensures_eq(b.get_dt(), nd_r("dt"), "time base");
  if (k < n) {
    fsame(sample(&a, k), fld("f", k) * s, "every sample multiplied");
    fsame(sample(&b, k), fld("f", k) / s, "every sample divided");
    fsame(sample(&t, k), fld("f", k), "operand unchanged");
    vc_cover("sample");
  }
}
CONTRACT(sums) {
  long n = nd_n("n", 0, MAXN), k = nd_i("k", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n), u(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  load(&u, "g", n);
  FieldTrace a = t + u, b = t - u;
  vc_ensures(a.get_N() == (std::size_t)n && b.get_N() == (std::size_t)n, "length");
  vc_ensures_eq(a.get_t0(), nd_r("t0"), "time base"); vc_ensures_eq(a.get_dt(), nd_r("dt"), "time base");
  vc_ensures_eq(b.get_t0(), nd_r("t0"), "time base"); vc_ensures_eq(b.get_dt(), nd_r("dt"), "time base");
  if (k < n) {
    fsame(sample(&a, k), fld("f", k) + fld("g", k), "sum of the samples");
    fsame(sample(&b, k), fld("f", k) - fld("g", k), "difference of the samples");
    fsame(sample(&t, k), fld("f", k), "first operand unchanged");
  }
  FieldTrace &r = (t += u);
  vc_ensures(&r == &t, "accumulates in place");
  if (k < n) {
    fsame(sample(&t, k), fld("f", k) + fld("g", k), "accumulated samples");
    fsame(sample(&u, k), fld("g", k), "second operand unchanged");
    vc_cover("sample");
  }
}
CONTRACT(mismatch) {
  long n = nd_n("n", 0, MAXN), m = nd_n("m", 0, MAXN), k = nd_i("k", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n), u(nd_r("t1"), nd_r("dt1"), m);
  vc_requires(n != m || nd_r("t0") != nd_r("t1") || nd_r("dt") != nd_r("dt1"));
  load(&t, "f", n);
  load(&u, "g", m);
  int refused = 0;
  try { FieldTrace a = t + u; } catch (IOexception &) { refused++; }
  try { FieldTrace a = t - u; } catch (IOexception &) { refused++; }
  try { t += u; } catch (IOexception &) { refused++; }
  vc_ensures(refused == 3, "incompatible traces are refused");
  if (k < n) fsame(sample(&t, k), fld("f", k), "refused operation has no effect");
  vc_cover("end");
}
CONTRACT(buffers) {
  long n = nd_n("n", 0, 1000000000), k = nd_i("k", 0, MAXN);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n), u(nd_r("t1"), nd_r("dt1"), n);
  load(&t, "f", n);
  ElMagField *buf = new ElMagField[n];
  t.get_buffer(buf, n);
  if (k < n) fsame(buf[k], fld("f", k), "buffer holds the samples in order");
  u.set_buffer(buf, n);
  if (k < n) { fsame(sample(&u, k), fld("f", k), "samples restored from the buffer"); vc_cover("sample"); }
  vc_ensures_eq(u.get_t0(), nd_r("t1"), "time base kept"); vc_ensures_eq(u.get_dt(), nd_r("dt1"), "time base kept");
  delete[] buf;
}
CONTRACT(buffer_mismatch) {
  long n = nd_n("n", 0, 1000000000), m = nd_n("m", 0, 1000000000), k = nd_i("k", 0, MAXN);
  vc_requires(n != m);
  FieldTrace t(nd_r("t0"), nd_r("dt"), n);
  load(&t, "f", n);
  ElMagField *buf = new ElMagField[m];
  int refused = 0;
  try { t.get_buffer(buf, m); } catch (IOexception &) { refused++; }
  try { t.set_buffer(buf, m); } catch (IOexception &) { refused++; }
  vc_ensures(refused == 2, "buffers of different size are refused");
  if (k < n) fsame(sample(&t, k), fld("f", k), "refused transfer has no effect");
  if (k < m) fsame(buf[k], ElMagFieldZero, "refused transfer has no effect on the buffer");
  delete[] buf;
  vc_cover("end");
}
