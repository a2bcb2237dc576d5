"""Planted bugs (input of mkseed.py)."""
S = {}
def seed(sid, file, edits, demo, needs, breaks, inc=None, top='', more=None):
    e = {file: edits}
    e.update(more or {})
    S[sid] = dict(property=sid.split('-')[0], edits=e, demo=demo, needs=needs, breaks=breaks, top=top)
    if inc: S[sid]['inc'] = inc

FLD = ['global.h', 'vector.h', 'fields.h', 'particle.h', 'dipole.h', 'undulator.h', 'wave.h', 'fieldtrace.h']

seed('A01-transform', 'src/vector.cpp', [("  Vector temp = *this;\n  x = dot(temp,ex);\n  y = dot(temp,ey);\n  z = dot(temp,ez);",
  "  x = dot(*this,ex);\n  y = dot(*this,ey);\n  z = dot(*this,ez);")], r'''
  double c = std::cos(0.3), s = std::sin(0.3);
  Vector v(1, 2, 3);
  v.transform(Vector(c, s, 0), Vector(-s, c, 0), Vector(0, 0, 1));
  check(near(v, Vector(c + 2 * s, -s + 2 * c, 3)), "projections onto the axes");
''', "a frame of axes which is rotated against the coordinate axes", "the transformation reads components it has already overwritten")

seed('A02-subtract', 'src/fields.cpp', [("    vecE -= other.vecE;\n    vecB -= other.vecB;", "    vecE -= other.vecE;\n    vecB += other.vecB;")], r'''
  ElMagField a(Vector(1, 2, 3), Vector(4, 5, 6)), b(Vector(1, 1, 1), Vector(1, 2, 3)), d = a - b;
  a -= b;
  check(near(a.E(), d.E()) && near(a.B(), d.B()), "in-place difference");
''', "in-place subtraction of a field with magnetic part", "ElMagField::operator-= adds the magnetic part")

seed('L01-remove', 'src/fields.cpp', [("    elements.erase(elements.begin() + index);", "    // no need to shift all following elements\n    elements[index] = elements.back();\n    elements.pop_back();")], r'''
  Lattice l;
  std::vector<GeneralField*> e;
  for (int i = 0; i < 4; i++) { e.push_back(new HomogeneousField(Vector(i, 0, 0), Vector(0, 0, 0))); l.addElement(e[i]); }
  l.remove(0);
  check(l.count() == 3, "count");
  for (int i = 0; i < 3; i++) check(l.at(i) == e[i + 1], "order of insertion");
''', "removal of an element that is neither the last nor the one before it", "elements are no longer retrieved in the order of insertion")

seed('L02-time', 'src/fields.cpp', [("    return LocalField(t-t0,X-origin);", "    return LocalField(t,X-origin);")], r'''
  GaussianWavePacket a, b(1e-12, Vector(0, 0, 0));
  a.Setup(3e-4, std::complex<double>(1e6, 0), 0.1, 1e-12);
  b.Setup(3e-4, std::complex<double>(1e6, 0), 0.1, 1e-12);
  for (int i = 0; i < 20; i++) {
    double t = i * 0.17e-12;
    Vector x(1e-4, 2e-4, 1e-3);
    check(near(a.Field(t, x).E(), b.Field(t + 1e-12, x).E(), 1e-5), "delayed field");
  }
''', "an element with a reference time different from zero", "the reference time of localised elements is ignored", inc=FLD)

seed('L03-softedge', 'src/dipole.cpp', [("    double at2 = atan(2.0*d2/t_2);", "    double at2 = atan(2.0*d2/t_1);")], r'''
  SoftEdgeDipole d(Vector(0, 1, 0), Vector(0, 0, 0), Vector(0, 0, -1), 0.01, Vector(0, 0, 1), Vector(0, 0, 1), 0.1);
  double x = 0.95, at1 = atan(2 * -x / 0.01), at2 = atan(2 * (x - 1) / 0.1), Pi_ = 3.14159265358979;
  double e = 1 - (at1 / Pi_ + 0.5) - (at2 / Pi_ + 0.5);
  check(near(d.Field(0, Vector(0, 0, x)).B(), Vector(0, e, 0)), "field at the exit edge");
''', "edges with different transition lengths", "the exit edge uses the transition length of the entrance", inc=FLD)

seed('L04-tgu', 'src/undulator.cpp', [("kz/ky * sin(kx * X.x) * sinh(ky * X.y) * cos(kz * X.z);", "ky/kz * sin(kx * X.x) * sinh(ky * X.y) * cos(kz * X.z);")], r'''
  TransverseGradientUndulator u;
  u.Setup(0.5, 60.0, 0.0, 0.1, 20);
  Vector x(0.004, 0.003, 0.013);
  double h = 1e-6, div = 0, s = 0;
  Vector dx[3] = {Vector(h, 0, 0), Vector(0, h, 0), Vector(0, 0, h)};
  for (int i = 0; i < 3; i++) {
    Vector d = (u.Field(0, x + dx[i]).B() - u.Field(0, x - dx[i]).B()) / (2 * h);
    double c = i == 0 ? d.x : i == 1 ? d.y : d.z;
    div += c; s += fabs(c);
  }
  check(fabs(div) < 1e-5 * s, "divergence of the field");
''', "transverse-gradient undulator off axis in both transverse directions", "the longitudinal field component violates div B = 0", inc=FLD)

seed('L05-packet', 'src/wave.cpp', [("	complex<double> dens = w0/w *\n", "	complex<double> dens = pow(w0/w,2.0) *\n")], r'''
  GaussianWavePacket p;
  double l = 1e-3, zr = 0.05, tau = 1e-9, c = 299792458.0;
  p.Setup(l, std::complex<double>(1e6, 0), zr, tau);
  // amplitude at z from the two quadratures of the phase
  double z = 0.1, w = 1 / sqrt(1 + z * z / zr / zr), t = z / c;
  double a = p.Field(t, Vector(0, 0, z)).E().x, b = p.Field(t + l / c / 4, Vector(0, 0, z)).E().x;
  check(near(sqrt(a * a + b * b), 1e6 * w, 1e-3), "amplitude on axis");
''', "observation away from the focus", "the amplitude of wave packets falls with the square of the beam size", inc=FLD)

seed('P01-smallstep', 'src/particle.cpp', [("    VY_p_i1 = (p_prime + t * dot(p_prime, t) + cross(p_prime, t)) / (1 + t.abs2nd());\n    // store the trajectory data",
  "    if (t.abs2nd() > 1e-14)\n        VY_p_i1 = (p_prime + t * dot(p_prime, t) + cross(p_prime, t)) / (1 + t.abs2nd());\n    else\n        VY_p_i1 = p_prime;\n    // store the trajectory data")], r'''
  double B = 1e-6, dt = 1e-12;
  HomogeneousField f(Vector(0, 0, 0), Vector(0, B, 0));
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 10), Vector(0, 0, 0));
  p.InitVay(dt, &f);
  for (int i = 0; i < 1000; i++) p.StepVay(&f);
  double phi = 1.602176e-19 / 9.1093835e-31 * B / sqrt(101.0) * 1000 * dt;
  Vector e = p.TrajMomentum(1000);
  check(near(fabs(atan2(e.x, e.z)), phi, 1e-3), "deflection angle");
''', "a very small rotation angle per time step (weak field or short steps)", "small rotations in the magnetic field are dropped")

seed('P02-accel', 'src/particle.cpp', [("    A.back() = A_current;", "    A.front() = A_current;")], r'''
  HomogeneousField f(Vector(0, 0, 0), Vector(0, 0.1, 0)), g(Vector(0, 0, 0), Vector(0, 0.3, 0));
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 10), Vector(0, 0, 0));
  p.InitVay(1e-13, &f);
  for (int i = 0; i < 5; i++) p.StepVay(&f);
  Vector a0 = p.TrajAccel(0), a5 = p.TrajAccel(5);
  p.InitVay(1e-13, &g);
  check(near(p.TrajAccel(0), a0), "first point unchanged");
  check(near(p.TrajAccel(5), a5 * 3), "acceleration of the last point");
''', "tracking started again on a particle that already has several trajectory points", "starting to track overwrites the acceleration of the first instead of the last point")

seed('P03-clear', 'src/particle.cpp', [("    // no data\n    Time.clear();\n    X.clear();\n    P.clear();\n    A.clear();", "    // no data\n    Time.clear();\n    X.clear();\n    P.clear();")], r'''
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 10), Vector(1, 0, 0));
  p.storeTrajectoryPoint(1, Vector(0, 0, 1), Vector(0, 0, 10), Vector(2, 0, 0));
  p.clearTrajectory();
  p.storeTrajectoryPoint(2, Vector(0, 0, 2), Vector(0, 0, 10), Vector(3, 0, 0));
  check(near(p.TrajAccel(0), Vector(3, 0, 0)), "stored acceleration");
''', "storing points after clearing a trajectory", "accelerations survive clearing the trajectory")

seed('P04-copy', 'src/particle.cpp', [("    VY_p_i1 = origin->VY_p_i1;\n    VY_gamma_i1 = origin->VY_gamma_i1;", "    VY_p_i1 = origin->VY_p_i1;\n    VY_gamma_i1 = sqrt(P_current.abs2nd() + 1.0);")], r'''
  HomogeneousField f(Vector(0, 0, 1e8), Vector(0, 0, 0));
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 1), Vector(0, 0, 0));
  p.InitVay(1e-12, &f);
  for (int i = 0; i < 3; i++) p.StepVay(&f);
  ChargedParticle q(&p);
  p.StepVay(&f); q.StepVay(&f);
  check(near(p.TrajPoint(4), q.TrajPoint(4), 1e-12), "the copy continues like the original");
''', "tracking a copied particle further in an electric field", "the copy continues with a relativistic factor of the wrong time")

seed('P05-normal', 'src/particle.cpp', [("    normal.normalize();\n    // normal distance to mirror plane is added 2x to position\n    Vector dx = normal*dot(origin-X_current,normal);", "    Vector dx = normal*dot(origin-X_current,normal);")], r'''
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(1, 2, 3), Vector(0.1, 0.2, 10), Vector(1, 1, 1));
  p.Mirror(Vector(0, 0, 1), Vector(0, 0, 2), -1);
  check(near(p.TrajPoint(0), Vector(1, 2, -1)), "mirrored position");
''', "a normal vector which does not have unit length", "the distance to the mirror plane is scaled")

seed('P06-start', 'src/particle.cpp', [("    if (time>=t1 && time<=t2)", "    if (time>t1 && time<=t2)")], r'''
  ChargedParticle p(-1, 1);
  p.initTrajectory(1, Vector(1, 2, 3), Vector(0, 0, 10), Vector(0, 0, 0));
  p.storeTrajectoryPoint(2, Vector(1, 2, 4), Vector(0, 0, 10), Vector(0, 0, 0));
  Vector x, m;
  p.CoordinatesAtTime(1, &x, &m);
  check(near(x, Vector(1, 2, 3)), "first point at its own time");
''', "a query exactly at the time of the first point", "the first trajectory point is not found at its own time")

seed('R01-nearfield', 'src/particle.cpp', [("    Vector EField = (N - SourceBeta) / (R*R*bn3rd*gamma2);\n", "    Vector EField;\n    // at large distances there is only the radiation\n    if (R<1000.0) EField = (N - SourceBeta) / (R*R*bn3rd*gamma2);\n")], r'''
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 0), Vector(0, 0, 0));
  Vector e = p.RetardedField(0, Vector(2000, 0, 0)).E();
  check(near(e, Vector(-1.602176e-19 * 8.9875e9 / 4e6, 0, 0), 1e-3), "Coulomb field");
''', "an observer far away from the particle", "the velocity field is dropped at large distances")

seed('R02-doppler', 'src/particle.cpp', [("            SourceT = (t0-bR-sqrt(", "            SourceT = (t0+bR-sqrt(")], r'''
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 1), Vector(0, 0, 0));
  // the field of a uniformly moving charge points away from its present position
  Vector o(0.1, 0, 1);
  double t = 1e-9, b = 1 / sqrt(2.0);
  Vector e = p.RetardedField(t, o).E();
  Vector r = o - Vector(0, 0, b * 299792458.0 * t);
  check(fabs(cross(e, r).norm()) < 1e-6 * e.norm() * r.norm(), "direction of the field");
''', "a moving particle observed before the signal of its first point arrives", "wrong retarded time of the extrapolated trajectory")

seed('T01-base', 'src/fieldtrace.cpp', [('    if (dt != other.dt) throw(IOexception("FieldTrace::operator- - time step mismatch."));\n', '')], r'''
  FieldTrace a(0, 1e-12, 10), b(0, 2e-12, 10);
  bool refused = false;
  try { a - b; } catch (IOexception &) { refused = true; }
  check(refused, "difference of traces with different time step");
''', "difference of two traces of equal length and start time but different time step", "incompatible traces are subtracted", inc=FLD)

seed('T02-derivative', 'src/fieldtrace.cpp', [("    temp->set_field(N-1, (trace[N-1]-trace[N-2])/dt );", "    temp->set_field(N-1, (trace[N-1]-trace[N-2])/(2.0*dt) );")], r'''
  FieldTrace a(0, 0.5, 10);
  for (int i = 0; i < 10; i++) a.set_field(i, ElMagField(Vector(i, 2 * i, 0), Vector(0, 0, -i)));
  FieldTrace *d = a.derivative();
  for (int i = 0; i < 10; i++) check(near(d->get_field((std::size_t)i).E(), Vector(2, 4, 0)), "slope");
''', "the last sample of a derivative", "one-sided difference at the end divided by the wrong interval", inc=FLD)

H5TOP = '''#include <unistd.h>
static std::string scratch() {
  char name[] = "demo_XXXXXX";
  int f = mkstemp(name);
  if (f >= 0) close(f);
  return name;
}
'''
ALL = FLD + ['bunch.h', 'beam.h', 'observer.h', 'screen.h', 'snapshot.h', 'mesh.h', 'point_observer.h', 'fel1d.h']

seed('R03-unseen', 'src/bunch.cpp', [("    for (int i=0; i<NOP; i++)\n        field += P[i]->RetardedField(obs_time, obs_pos);", "    for (int i=0; i<NOP; i++)\n    {\n        // the particles arrive one after the other\n        ElMagField part = P[i]->RetardedField(obs_time, obs_pos);\n        if (part.E().norm()==0.0) break;\n        field += part;\n    }")], r'''
  Bunch b;
  Vector o(1, 2, 3);
  for (int i = 0; i < 3; i++) {
    ChargedParticle *p = new ChargedParticle(i == 1 ? 0 : -1, 1);
    p->initTrajectory(0, Vector(0, 0, 0.1 * i), Vector(0, 0, 1), Vector(0, 0, 0));
    b.Add(p);
  }
  ElMagField sum = b.getParticle(0)->RetardedField(0.0, o) + b.getParticle(2)->RetardedField(0.0, o);
  check(near(b.RetardedField(0, o).E(), sum.E()), "sum of all particles");
''', "a particle without visible field which is followed by others", "the sum over the particles ends at the first one that is not seen", inc=ALL)

seed('R04-overhang', 'src/particle.cpp', [("\t\t        int idx2 = round((ts2-t0)/dt);\n\t\t        if (idx2>nots) idx2=nots;\n\t\t        // handle all fully covered buckets\n\t\t        for (int idx=0;", "\t\t        int idx2 = round((ts2-t0)/dt);\n\t\t        if (idx2>=nots) idx2=nots-1;\n\t\t        // handle all fully covered buckets\n\t\t        for (int idx=0;")], r'''
  ChargedParticle p(-1, 1);
  p.initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 0), Vector(0, 0, 0));
  p.storeTrajectoryPoint(1e-6, Vector(0, 0, 0), Vector(0, 0, 0), Vector(0, 0, 0));
  FieldTrace a(1e-7, 1e-8, 20);
  Vector o(1, 0, 0);
  p.integrateFieldTrace(o, &a);
  Vector e = p.RetardedField(0, o).E();
  for (int i = 0; i < 20; i++) check(near(a.get_field((std::size_t)i).E(), e, 1e-4), "constant field");
''', "a trajectory step which covers the whole trace", "the last bucket is extrapolated to the end of the step", inc=ALL)

seed('B01-fallthrough', 'src/bunch.cpp', [("                case 4: P0.y = dep; break;\n", "                case 4: P0.y = dep;\n")], r'''
  Bunch b;
  for (int i = 0; i < 4; i++) {
    ChargedParticle *p = new ChargedParticle(-1, 1);
    p->initTrajectory(0, Vector(0.1 * i, 0, 0), Vector(1, 2, 3 + i), Vector(0, 0, 0));
    b.Add(p);
  }
  b.addCorrelation(0, 4, 2.0);
  for (int i = 0; i < 4; i++) check(near(b.getParticle(i)->getMomentum(), Vector(1, 2 + 2 * (0.1 * i - 0.15), 3 + i)), "only the dependent coordinate");
''', "a correlation with the vertical momentum as dependent coordinate", "adding a correlation to p_y overwrites p_z", inc=ALL)

seed('B02-spread', 'src/bunch.cpp', [("    double avg = 0.0;\n    for(int i=0; i<NOP; i++)\n        avg += (P[i]->getMomentum()).norm();\n    avg /= NOP;\n", "    double avg = avgMomentum().norm();\n")], r'''
  Bunch b;
  for (int i = 0; i < 2; i++) {
    ChargedParticle *p = new ChargedParticle(-1, 1);
    p->initTrajectory(0, Vector(0, 0, 0), Vector(i ? 1 : -1, 0, 5), Vector(0, 0, 0));
    b.Add(p);
  }
  check(fabs(b.delta()) < 1e-6, "spread of equal momenta");
''', "a bunch with considerable divergence", "the momentum spread is taken about the length of the mean momentum vector", inc=ALL)

seed('B03-empty', 'src/beam.cpp', [("    for(int i=0; i<NOB; i++)\n    {\n        B[i]->StepVay(field);", "    for(int i=0; i<NOB && B[i]->getNOP()>0; i++)\n    {\n        B[i]->StepVay(field);")], r'''
  Beam beam;
  for (int i = 0; i < 3; i++) {
    Bunch *b = new Bunch();
    ChargedParticle *p = new ChargedParticle(-1, 1);
    p->initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 5), Vector(0, 0, 0));
    if (i != 1) b->Add(p);
    beam.Add(b);
  }
  HomogeneousField f(Vector(0, 0, 0), Vector(0, 0, 0));
  beam.setTrackingMethod(TRACKING_VAY);
  beam.setTimeStep(1e-12);
  beam.setupTracking(&f);
  for (int i = 0; i < 5; i++) beam.doStep(&f);
  check(beam.getBunch(0)->getParticle(0)->getNP() == 6, "first bunch");
  check(beam.getBunch(2)->getParticle(0)->getNP() == 6, "last bunch");
''', "an empty bunch in front of another bunch of the beam", "bunches behind an empty one are not tracked", inc=ALL)

seed('B04-current', 'src/bunch.cpp', [("        P[i]->setCurrentPoint(time, X, BG, A);\n", "")], r'''
  Bunch a, b;
  for (int i = 0; i < 3; i++) {
    ChargedParticle *p = new ChargedParticle(-1, 1), *q = new ChargedParticle(-1, 1);
    p->initTrajectory(i, Vector(1, i, 0), Vector(i, 0, 5), Vector(0, 0, i));
    q->initTrajectory(0, Vector(0, 0, 0), Vector(0, 0, 1), Vector(0, 0, 0));
    a.Add(p); b.Add(q);
  }
  double buf[30];
  check(a.bufferStep(buf) == buf + 30 && b.setStepFromBuffer(buf) == buf + 30, "size");
  for (int i = 0; i < 3; i++) {
    check(near(a.getParticle(i)->getPosition(), b.getParticle(i)->getPosition()), "position");
    check(near(a.getParticle(i)->getMomentum(), b.getParticle(i)->getMomentum()), "momentum");
  }
''', "a second exchange or a statistics call right after a step was received", "received steps are appended to the trajectory but are not the current coordinates", inc=ALL)

seed('S01-timezero', 'src/screen.cpp', [("    return t0_obs + dtx_obs*(double)((int)ix-(int)Nx/2) + dty_obs*(double)((int)iy-(int)Ny/2);", "    return t0_obs + dtx_obs*(double)((int)ix-(int)Nx/2) + dty_obs*(double)((int)iy-(int)Nx/2);")], r'''
  ScreenObserver<Lattice> s("x", Vector(0, 0, 0), Vector(1, 0, 0), Vector(0, 1, 0), 3, 6, 1.0, 0.1, 0.01, 0.02, 4);
  for (int i = 0; i < 3; i++)
    for (int k = 0; k < 6; k++)
      check(near(s.Traces[i][k]->get_t0(), 1 + 0.01 * (i - 1) + 0.02 * (k - 3)), "start of the trace");
''', "a screen which is not square, with a delay per pixel in y", "the start time of the pixels is centred with the wrong number of pixels", inc=ALL)

seed('S02-size', 'src/snapshot.cpp', [("    if (size==getBufferSize())", "    if (size>=getBufferSize())")], r'''
  SnapshotObserver<Lattice> s("x", Vector(0, 0, 0), Vector(1, 0, 0), Vector(0, 1, 0), 3, 4, 0.0);
  std::vector<double> b(s.getBufferSize() + 6, 1.0);
  bool refused = false;
  try { s.fromBuffer(b.data(), b.size()); } catch (IOexception &) { refused = true; }
  check(refused, "buffer of another size");
  check(near(s.getField(0, 0).E(), Vector(0, 0, 0)), "no effect");
''', "a buffer of a larger grid", "the data of an observer with more pixels is accepted", inc=ALL)

seed('S03-handed', 'src/mesh.cpp', [("            xi[ip] = cross(eta[ip],normal[ip]);", "            xi[ip] = cross(normal[ip],eta[ip]);")], r'''
  // one triangle facing y, written with the HDF5 library
  double c[9] = {0, 0, 0, 1, 0, 0, 0, 0, 1}, o[3] = {0.3, 0, 0.3}, t[1] = {0};
  int tri[3] = {0, 1, 2}, n3 = 3, n1 = 1, nt = 5;
  double dt = 1e-12;
  hid_t f = H5Fcreate("mesh.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), sc = H5Screate(H5S_SCALAR);
  auto put = [&](const char *name, hid_t type, hsize_t a, hsize_t b, void *d, const char *an, int *av, double *ad) {
    hsize_t dim[2] = {a, b};
    hid_t sp = H5Screate_simple(b ? 2 : 1, dim, 0), ds = H5Dcreate2(f, name, type, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, d);
    if (an) { hid_t x = H5Acreate2(ds, an, H5T_NATIVE_INT, sc, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(x, H5T_NATIVE_INT, av); H5Aclose(x); }
    if (ad) { hid_t x = H5Acreate2(ds, "dt", H5T_NATIVE_DOUBLE, sc, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(x, H5T_NATIVE_DOUBLE, ad); H5Aclose(x); }
    H5Dclose(ds);
  };
  put("MeshCornerPoints", H5T_NATIVE_DOUBLE, 3, 3, c, "Ncp", &n3, 0);
  put("ObservationPosition", H5T_NATIVE_DOUBLE, 1, 3, o, "Np", &n1, 0);
  put("MeshTriangles", H5T_NATIVE_INT, 1, 3, tri, 0, 0, 0);
  put("ObservationTime", H5T_NATIVE_DOUBLE, 1, 0, t, "Nt", &nt, &dt);
  H5Fclose(f);
  MeshedScreen<Lattice> m("mesh.h5");
  m.init();
  check(near(cross(m.xi[0], m.eta[0]), m.normal[0]), "right-handed frame");
''', "a mesh whose cells face the y direction", "the local frames of such meshes are left-handed", inc=ALL + ['hdf5.h'])

seed('F01-grid', 'src/fel1d.cpp', [("            int stop_index = center_index+11;\n            if (stop_index>N_field) stop_index = N_field;", "            int stop_index = center_index+11;\n            // particles close to the tail radiate into the last cells\n            if (stop_index>N_field) { stop_index = N_field; start_index = N_field-11; if (start_index<0) start_index = 0; }")], r'''
  FEL_1D f(1e-12, 40);
  double ds = f.ds;
  Bunch *b = new Bunch();
  ChargedParticle *p = new ChargedParticle(-1, 1);
  p->initTrajectory(f.time, f.head - f.prop * (35 * ds), Vector(0, 0, 5), f.e_x * 1e9);
  b->Add(p);
  Beam beam;
  beam.Add(b);
  f.step(&beam);
  double c = f.previous_E[35];
  check(c != 0, "emission");
  check(near(f.previous_E[27] / c, exp(-64.0 / 8.0), 1e-3), "spread over the cells in front");
''', "a particle within ten cells of the tail of the window", "the emission into the cells in front of the particle is cut off", inc=ALL)

seed('O01-remaining', 'src/beam.cpp', [("        remaining = nop - (bp-buffer)/6;", "        remaining -= (bp-buffer)/6;")], r'''
  Beam b;
  for (int j = 0; j < 3; j++) {
    Bunch *c = new Bunch();
    for (int i = 0; i < 2; i++) {
      ChargedParticle *p = new ChargedParticle(1.0, 1.0);
      p->initTrajectory(0, Vector(j, i, 1), Vector(i, j, 2), Vector(0, 0, 0));
      c->Add(p);
    }
    b.Add(c);
  }
  std::string name = scratch();
  check(b.WriteWatchPointHDF5(name) == 6, "number of particles");
  std::vector<double> d(36, -1);
  hid_t file = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), set = H5Dopen2(file, "electrons", H5P_DEFAULT);
  H5Dread(set, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, d.data());
  H5Dclose(set); H5Fclose(file);
  unlink(name.c_str());
  for (int j = 0; j < 3; j++)
    for (int i = 0; i < 2; i++) {
      double *q = &d[6 * (2 * j + i)];
      check(q[0] == j && q[1] == i && q[2] == 1 && q[3] == i && q[4] == j && q[5] == 2, "particle of a bunch");
    }
''', "a beam of three or more bunches", "the watch point file lacks particles of the third and later bunches", inc=ALL + ['beam.h', 'bunch.h', 'hdf5.h'], top=H5TOP)

seed('O01-slope', 'src/screen.cpp', [("    status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);", "    status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);")], r'''
  std::string name = scratch();
  ScreenObserver<Bunch> s(name, Vector(0, 0, 0), Vector(1, 0, 0), Vector(0, 1, 0), 2, 3, 0.0, 1e-12, 2e-13, 3e-13, 4);
  s.WriteTimeDomainFieldHDF5();
  double x = -1, y = -1;
  hid_t file = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), set = H5Dopen2(file, "Screen", H5P_DEFAULT);
  hid_t a = H5Aopen(set, "dtx", H5P_DEFAULT);
  H5Aread(a, H5T_NATIVE_DOUBLE, &x); H5Aclose(a);
  a = H5Aopen(set, "dty", H5P_DEFAULT);
  H5Aread(a, H5T_NATIVE_DOUBLE, &y); H5Aclose(a);
  H5Dclose(set); H5Fclose(file);
  unlink(name.c_str());
  check(near(x, 2e-13) && near(y, 3e-13), "delays per pixel");
''', "a screen with different delays per pixel in the two directions", "the file reports the delay per pixel of the other direction", inc=ALL + ['hdf5.h'], top=H5TOP)

seed('O02-index', 'src/beam.cpp', [("            index++;\n", ""), ("        int nop = bunch->getNOP();\n        for( int i=0; i<nop; i++)\n        {\n            ChargedParticle *P", "        int nop = bunch->getNOP();\n        for( int i=0; i<nop; i++, index = b*nop+i)\n        {\n            ChargedParticle *P")], r'''
  Beam b;
  int sizes[3] = {2, 3, 1}, row = 0;
  std::vector<Vector> x;
  for (int j = 0; j < 3; j++) {
    Bunch *c = new Bunch();
    for (int i = 0; i < sizes[j]; i++) {
      ChargedParticle *p = new ChargedParticle(1.0, 1.0);
      x.push_back(Vector(j + 1, i + 1, 3));
      p->initTrajectory(0, x.back(), Vector(0.1, 0.2, 2), Vector(0, 0, 0));
      c->Add(p);
    }
    b.Add(c);
  }
  std::string name = scratch();
  check(b.WriteWatchPointSDDS(name) == 0, "written");
  SDDS_DATASET d;
  check(SDDS_InitializeInput(&d, (char *)name.c_str()) == 1 && SDDS_ReadPage(&d) == 1, "readable");
  check(SDDS_CountRowsOfInterest(&d) == 6, "rows");
  double *px = SDDS_GetColumnInDoubles(&d, (char *)"x"), *py = SDDS_GetColumnInDoubles(&d, (char *)"y");
  for (int i = 0; i < 6; i++) check(px && py && px[i] == x[i].x && py[i] == x[i].y, "particle of a row");
  unlink(name.c_str());
''', "a beam of bunches with different numbers of particles", "particles overwrite the rows of others", inc=ALL + ['SDDS.h'], top=H5TOP)

seed('B05-delay', 'src/bunch.cpp', [("        Vector X0 = e_x*xData[i] + e_y*yData[i] + v*(t0-tData[i])*SpeedOfLight;", "        Vector X0 = e_x*xData[i] + e_y*yData[i] + e_s*(beta*(t0-tData[i])*SpeedOfLight);")], r'''
  std::string name = scratch();
  SDDS_DATASET d;
  const char *names[] = {"x", "xp", "y", "yp", "p", "t"};
  double v[2][6] = {{1e-3, 0.3, 2e-3, -0.2, 5.0, 0.0}, {-1e-3, -0.1, 1e-3, 0.4, 6.0, 2e-9}};
  SDDS_InitializeOutput(&d, SDDS_BINARY, 1, NULL, NULL, name.c_str());
  SDDS_DefineSimpleParameter(&d, "Particles", "", SDDS_LONG);
  SDDS_DefineSimpleParameter(&d, "Charge", "C", SDDS_DOUBLE);
  for (int k = 0; k < 6; k++) SDDS_DefineColumn(&d, names[k], names[k], NULL, names[k], NULL, SDDS_DOUBLE, 0);
  SDDS_WriteLayout(&d);
  SDDS_StartPage(&d, 2);
  SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Particles", 2, NULL);
  SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Charge", 1e-12, NULL);
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < 6; k++) SDDS_SetRowValues(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, i, names[k], v[i][k], NULL);
  SDDS_WritePage(&d);
  SDDS_Terminate(&d);
  Bunch b(name.c_str(), Vector(0, 0, 2));
  unlink(name.c_str());
  check(b.getNOP() == 2, "particles");
  for (int i = 0; i < b.getNOP(); i++) {
    ChargedParticle *p = b.getParticle(i);
    Vector m = p->getMomentum(), x = p->getPosition();
    check(near(m.norm(), v[i][4]), "momentum");
    // all particles go back to where they crossed the plane
    double w = (v[i][5] - 1e-9) * SpeedOfLight / sqrt(1 + m.abs2nd());
    Vector r = x + m * w;
    check(fabs(fabs(r.x) - 1e-3) < 1e-9 && fabs(r.z) < 1e-9, "position at the arrival");
  }
''', "a particle with a slope that arrives off the mean arrival time", "early and late particles are moved along the axis, not along their velocity", inc=ALL + ['SDDS.h'], top=H5TOP)
