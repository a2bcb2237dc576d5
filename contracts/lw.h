// Lienard-Wiechert field of a charge q [e] at position x with momentum p = beta*gamma, acceleration a = d(beta*gamma)/dt
#pragma once
#include "particle_common.h"
struct LW { Vector E, B; double s; };
static inline LW lienard_wiechert(double q, Vector x, Vector p, Vector a, Vector obs) {
  double g2 = p.x * p.x + p.y * p.y + p.z * p.z + 1.0, g = sqrt(g2);
  Vector b(p.x / g, p.y / g, p.z / g), r(obs.x - x.x, obs.y - x.y, obs.z - x.z);
  double R = sqrt(r.x * r.x + r.y * r.y + r.z * r.z);
  Vector n(r.x / R, r.y / R, r.z / R);
  // d beta / dt
  double ba = b.x * a.x + b.y * a.y + b.z * a.z;
  Vector d((a.x - b.x * ba) / g, (a.y - b.y * ba) / g, (a.z - b.z * ba) / g);
  double k = 1 - (n.x * b.x + n.y * b.y + n.z * b.z), k3 = k * k * k;
  // n x ((n-b) x d) = (n-b)(n.d) - d (n.(n-b)),  n.(n-b) = k
  double nd = n.x * d.x + n.y * d.y + n.z * d.z;
  double c = 299792458.0, f = q * 1.6021766208e-19 / (4 * 3.14159265358979323846 * 8.854187817e-12);
  double v = f / (g2 * k3 * R * R), w = f / (c * k3 * R);
  LW o;
  o.E = Vector(v * (n.x - b.x) + w * ((n.x - b.x) * nd - d.x * k), v * (n.y - b.y) + w * ((n.y - b.y) * nd - d.y * k),
               v * (n.z - b.z) + w * ((n.z - b.z) * nd - d.z * k));
  o.B = Vector((n.y * o.E.z - n.z * o.E.y) / c, (n.z * o.E.x - n.x * o.E.z) / c, (n.x * o.E.y - n.y * o.E.x) / c);
  // natively the rounding error grows with the cancellation in k
  o.s = (fabs(v) + fabs(w) * (fabs(d.x) + fabs(d.y) + fabs(d.z))) * (1 + 1e-6 * g2 / k);
  return o;
}
// loss: natively lost precision (factor)
static inline void lw_same(ElMagField r, LW e, const char *l, double loss = 1) {
  e.s *= loss;
  vc_ensures_eqs(r.E().x, e.E.x, e.s, l); vc_ensures_eqs(r.E().y, e.E.y, e.s, l); vc_ensures_eqs(r.E().z, e.E.z, e.s, l);
  vc_ensures_eqs(r.B().x, e.B.x, e.s / 299792458.0, l); vc_ensures_eqs(r.B().y, e.B.y, e.s / 299792458.0, l); vc_ensures_eqs(r.B().z, e.B.z, e.s / 299792458.0, l);
}
