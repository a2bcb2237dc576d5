// L05: Gaussian wave and wave packet
#include "particle_common.h"
#include "wave.h"

static const double pi = 3.14159265358979323846;
static void vacuum(ElMagField f, double s) {
  Vector E = f.E(), B = f.B();
  vc_ensures_eq(E.z, 0, "electric field transverse");
  vc_ensures_eq(B.z, 0, "magnetic field transverse");
  vc_ensures_eqs(dot(E, B), 0, s * s, "electric and magnetic fields orthogonal");
  vc_ensures_eqs(E.abs2nd(), B.abs2nd() * (SpeedOfLight * SpeedOfLight), s * s, "|E| = c |B|");
  vc_ensures_eqs(E.y, 0, s, "polarised along x");
  // power flows along +z
  vc_ensures(cross(E, B).z >= 0, "propagates in the positive direction");
}
// the electric field of a paraxial Gaussian mode; q: exponent of the temporal envelope
static double mode(double t, Vector X, double l, double ar, double ai, double zr, double env) {
  double k = 2 * pi / l, w0 = sqrt(l * zr / pi);
  double s2 = 1 + X.z / zr * X.z / zr, r2 = X.x * X.x + X.y * X.y;
  double ph = k * SpeedOfLight * t - k * X.z - k * r2 / 2 * X.z / (X.z * X.z + zr * zr);
  return exp(-r2 / (w0 * w0 * s2) + env) / sqrt(s2) * (ar * cos(ph) - ai * sin(ph));
}
CONTRACT(wave) {
  double l = nd_r("l"), zr = nd_r("r"), ar = nd_r("ar"), ai = nd_r("ai");
  vc_requires(l > 0 && zr > 0);
  Vector X = vec1("x");
  double t = nd_r("t") * 1e-9;
  vc_requires(X.z != 0);
  GaussianWave w;
  w.Setup(l, std::complex<double>(ar, ai), zr);
  GeneralField *g = &w;
  ElMagField f = g->Field(t, X);
  double s = fabs(ar) + fabs(ai);
  vacuum(f, s);
  vc_ensures_eqs(f.E().x, mode(t, X, l, ar, ai, zr, 0), s * 1e6, "paraxial Gaussian mode");
  vc_ensures_eq(w.getWavelength(), l, "wavelength");
  vc_cover("end");
}
CONTRACT(packet) {
  double l = nd_r("l"), zr = nd_r("r"), ar = nd_r("ar"), ai = nd_r("ai"), ts = vc_engine() ? 1 : 1e-9, tau = nd_r("tau") * ts;
  vc_requires(l > 0 && zr > 0 && tau > 0);
  Vector X = vec1("x");
  double t = nd_r("t") * ts;
  vc_requires(X.z != 0);
  GaussianWavePacket w;
  w.Setup(l, std::complex<double>(ar, ai), zr, tau);
  GeneralField *g = &w;
  ElMagField f = g->Field(t, X);
  double s = fabs(ar) + fabs(ai), e = (t - X.z / SpeedOfLight) / tau;
  vacuum(f, s);
  vc_ensures_eqs(f.E().x, mode(t, X, l, ar, ai, zr, -e * e), s * 1e6, "paraxial Gaussian mode with Gaussian envelope");
  vc_ensures_eq(w.getWavelength(), l, "wavelength");
  vc_cover("end");
}
// on axis
CONTRACT(wave_on_axis) {
  double l = nd_r("l"), zr = nd_r("r"), ar = nd_r("ar"), ai = nd_r("ai");
  vc_requires(l > 0 && zr > 0);
  double t = nd_r("t") * 1e-9, z = nd_r("z");
  vc_requires(z != 0);
  GaussianWave w;
  w.Setup(l, std::complex<double>(ar, ai), zr);
  GeneralField *g = &w;
  double ph = 2 * pi / l * (SpeedOfLight * t - z), s = fabs(ar) + fabs(ai);
  vc_ensures_eqs(g->Field(t, Vector(0, 0, z)).E().x, (ar * cos(ph) - ai * sin(ph)) / sqrt(1 + z / zr * z / zr), s * 1e6, "amplitude on axis");
  vc_cover("end");
}
