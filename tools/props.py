#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("A01", "3-vector algebra is exact in every component",
  "Sum, difference, negation, scaling, division by a scalar, element-wise square and root, scalar product, vector product, squared length and length of 3-vectors agree with their textbook definition in every component, and the in-place forms leave exactly the value the pure form returns. Normalising a non-zero vector keeps its direction and gives length one. Transforming into a frame of three axes yields the projections onto those axes, in order.",
  ["inputs"], "all vectors, scalars and axis triples (division by non-zero scalars, normalisation of non-zero vectors)",
  "The tests only reach the vector class through a few fixed physical set-ups; a wrong sign or component that vanishes by symmetry there is never seen.",
  ["src/vector.cpp", "src/vector.h"],
  [("vector operators", "src/vector.cpp"), ("dot, cross, transform", "src/vector.cpp")], ["return values", "x, y, z members"])

p("A02", "Electromagnetic field values form a linear space; Poynting vector is ExB/mu0",
  "Adding, subtracting, scaling and dividing field values acts on the electric and magnetic part component by component, in the pure and in the in-place forms; the default field is zero. The Poynting vector of a field value is the vector product of its electric and magnetic part divided by the vacuum permeability. A homogeneous field returns the same configured value at every time and place.",
  ["inputs"], "all field values, scale factors, times and positions",
  "Tests check one or two numeric field values per scene with tolerances of percents.",
  ["src/fields.cpp", "src/fields.h"],
  [("field operators", "src/fields.cpp"), ("Poynting", "src/fields.cpp"), ("homogeneous field", "src/fields.cpp")])

p("L01", "A lattice's field is the sum of the fields of all its elements",
  "For any collection of field sources gathered in a lattice, the field at any time and place is the sum of what each member returns for that same time and place, each counted exactly once, and an empty lattice has zero field. The number of members equals the number of additions minus removals, members are retrievable by position in the order of insertion, and a position outside the present range is refused with an exception rather than served.",
  ["inputs", "histories"], "every number of elements, every field behaviour of the elements, every (t,x), every index",
  "Tests use lattices with one or two elements; the statement is about any number and any kind of elements.",
  ["src/fields.cpp", "src/fields.h"],
  [("lattice container and superposition", "src/fields.cpp")])

p("L02", "Placing a beamline element only shifts it in space and time",
  "The field of every localised beamline element depends on observation position and time only through their difference to the element's origin and reference time. Displacing an element and the observer together, or delaying both by the same time, leaves the observed field unchanged.",
  ["inputs", "configurations"], "all origins, reference times, observation points, times and element parameters, for all element kinds",
  "Tests place elements at very few positions, nearly always at the origin or on axis.",
  ["src/fields.cpp", "src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp"],
  [("localised field frame shift", "src/fields.cpp"), ("local field models", "src/undulator.cpp, src/dipole.cpp, src/wave.cpp")])

p("L03", "Dipole fields are confined by their edges",
  "A hard-edge dipole yields exactly its configured magnetic field, and no electric field, at points on the inner side of both of its edge planes and zero field elsewhere. A soft-edge dipole yields a purely magnetic field along its configured field vector whose strength falls monotonically with the distance outside of an edge, is at most the nominal value, and tends to the nominal value deep inside.",
  ["inputs", "configurations"], "all edge positions and normals, field vectors and observation points",
  "The magnet test tracks one trajectory through one dipole.",
  ["src/dipole.cpp", "src/dipole.h"], [("dipole local field", "src/dipole.cpp")])

p("L04", "Undulator fields follow the textbook form and satisfy Maxwell's equations",
  "In the region of constant amplitude a planar undulator delivers the field of the analytic planar undulator model with the configured peak field and period, with vanishing divergence and curl everywhere; over one period at each end the amplitude ramps linearly, and outside of the field range the field is zero. The undulator parameter reported equals the standard expression from peak field and period. A transverse-gradient undulator obeys the same with its modulus relation between the three wave numbers.",
  ["inputs", "configurations"], "all peak fields, periods, period numbers and observation points",
  "Tests track single trajectories near the axis of one undulator.",
  ["src/undulator.cpp", "src/undulator.h"], [("undulator local field", "src/undulator.cpp"), ("setup and parameter getters", "src/undulator.cpp")])

p("L05", "Laser and wave fields are transverse with |B| = |E|/c",
  "The Gaussian wave and the Gaussian wave packet give, at every place and time, electric and magnetic fields whose magnitudes are related by the speed of light and which are mutually orthogonal and orthogonal to the direction of propagation. On axis at the focus the electric amplitude is the configured one oscillating at the configured wavelength; away from it the amplitude is scaled by waist over local beam size and the Gaussian radial profile of the local beam size.",
  ["inputs", "configurations"], "all wavelengths, amplitudes, Rayleigh ranges, widths, positions and times",
  "Only a modulator scene with one parameter set is tested.",
  ["src/wave.cpp", "src/wave.h"], [("wave local fields", "src/wave.cpp")])

p("P01", "Each tracking step solves the relativistic Lorentz force step exactly",
  "Every tracking step advances time by one step length and position with the relativistic velocity over that step, and the momentum update satisfies the time-centred Lorentz force equation with the field sampled at the stored trajectory point. In particular in a purely magnetic field a step never changes the particle energy, and without fields momentum stays constant and motion is straight.",
  ["inputs", "histories"], "all particle charges, masses, momenta, step sizes and field values",
  "Tests integrate a few trajectories and compare end points with tolerances.",
  ["src/particle.cpp", "src/particle.h"], [("Vay tracking initialisation and step", "src/particle.cpp")])

p("P02", "Tracking stores one trajectory point per step at equidistant times",
  "Starting tracking keeps all earlier trajectory points and only replaces the acceleration of the last one; every further step appends exactly one point, so that n steps after initialisation add n points at times t0 + k*dt. The particle's current coordinates are those of the newest stored point, earlier points never change, and starting to track a particle without a trajectory is refused.",
  ["inputs", "histories"], "every number of steps and previously stored points, all fields and step sizes",
  "Tests look only at the final point of runs with fixed length.",
  ["src/particle.cpp", "src/beam.cpp", "src/bunch.cpp"], [("trajectory storage", "src/particle.cpp")])

p("P03", "Trajectory access is range-checked and returns what was stored",
  "For every stored trajectory, reading a point by index returns exactly the time, position, momentum and acceleration stored at that index when the index lies in the stored range, and is refused with an exception for every other index, including negative ones. Initialising a trajectory leaves exactly one point and clearing leaves none, regardless of previous history.",
  ["inputs", "histories"], "every trajectory length, content and every integer index",
  "Tests never use an index out of range and check few points.",
  ["src/particle.cpp", "src/particle.h"], [("trajectory getters", "src/particle.cpp")])

p("P04", "A particle survives serialisation unchanged",
  "Restoring a particle from the buffer it was serialised into reproduces charge and mass and, for the plain form, the last trajectory point as a one-point trajectory; for the full form it reproduces all trajectory points and the tracking state, so that continuing to track the copy gives the same trajectory as the original. The number of values written equals the announced buffer size. Copying a particle reproduces its full trajectory.",
  ["inputs", "histories"], "every particle, trajectory length and buffer content",
  "No existing test serialises a particle; MPI transfer relies on it.",
  ["src/particle.cpp", "src/particle.h"], [("serialize/restore", "src/particle.cpp")])

p("P05", "Shifting or mirroring a particle moves its whole trajectory",
  "Shifting a particle adds the displacement to every stored trajectory position and to the current position, leaves times, momenta and accelerations alone and scales the charge by the given factor. Mirroring reflects every stored position about the plane and every momentum and acceleration direction about its normal, again scaling the charge, so that mirroring twice with inverse factors restores the particle.",
  ["inputs", "histories"], "every trajectory length and content, displacement, plane and charge factor",
  "No existing test shifts or mirrors a tracked particle with more than a few points.",
  ["src/particle.cpp"], [("Shift, Mirror", "src/particle.cpp")])

p("P06", "Phase-space interpolation in time is linear and bounded by the trajectory",
  "Asking a particle for its coordinates at a time inside the trajectory returns position and momentum linearly interpolated between the two stored neighbouring points enclosing this time, reproducing a stored point at its own time. For times before the first or after the last stored point, zero is returned.",
  ["inputs", "histories"], "every trajectory with increasing times, every query time",
  "Tests use one or two query times.",
  ["src/particle.cpp"], [("bisection and interpolation", "src/particle.cpp")])

p("R01", "Radiated fields obey the Lienard-Wiechert formula",
  "The field a particle produces at an observation point is the Lienard-Wiechert field of the retarded source point: velocity field plus acceleration field, proportional to the charge. The magnetic field is the vector product of the unit vector from source to observer and the electric field divided by the speed of light.",
  ["inputs"], "all source positions, momenta, accelerations, charges and observation points not on the source",
  "Tests check a static and one uniformly moving or circulating charge.",
  ["src/particle.cpp"], [("retarded field by trajectory index and by time", "src/particle.cpp")])

p("R02", "Observed fields respect causality and the light cone",
  "The field observed at a given time is that emitted from the point of the trajectory whose light signal arrives just then, found to the refinement tolerance of the step. No field is seen from a trajectory whose known signals have not yet arrived by the observation or have all passed.",
  ["inputs", "histories"], "every trajectory with sub-luminal motion, observation point and time",
  "Tests observe a handful of points at late times.",
  ["src/particle.cpp"], [("retarded time search", "src/particle.cpp")])

p("R03", "Bunch and beam fields are the superposition of all particles",
  "The field observed from a bunch is the sum over all its particles and that of a beam the sum over all its bunches, at the same observation point and time, each counted once; the same holds for recorded field traces, which are added to whatever the trace already held.",
  ["inputs", "configurations"], "every number of bunches and particles, every particle state",
  "Tests use a single particle or a single bunch.",
  ["src/bunch.cpp", "src/beam.cpp"], [("bunch and beam field sums", "src/bunch.cpp, src/beam.cpp")])

p("R04", "Field trace integration conserves the time integral of the field",
  "Recording a particle's radiation into a time trace spreads the linearly interpolated field of each trajectory step over the time buckets it overlaps, so that the time integral of the recorded trace equals the time integral of the incoming field for signals inside the trace window. Signals outside of the window are ignored without touching any memory outside of the trace.",
  ["inputs", "histories"], "every pair of arrival times and field values, every trace position, spacing and length",
  "Tests integrate a few traces and compare with a percent tolerance.",
  ["src/particle.cpp", "src/fieldtrace.cpp"], [("bucket distribution", "src/particle.cpp")])

p("T01", "Field traces combine only when compatible, sample by sample",
  "Adding, subtracting and accumulating two field traces acts sample by sample and is refused with an exception if their lengths or their time bases differ; scaling acts on every sample; assignment requires equal length and takes over the time base with the samples. Reading, setting or adding a sample outside the trace is refused without effect, and copying a trace or moving it through a buffer reproduces every sample.",
  ["inputs", "histories"], "every trace length, content, time base and index",
  "Tests touch traces of a single length.",
  ["src/fieldtrace.cpp", "src/fieldtrace.h"], [("FieldTrace operators and buffers", "src/fieldtrace.cpp")])

p("T02", "Trace interpolation, derivative and energy density are consistent",
  "Reading a trace at an arbitrary time returns the linear interpolation of the neighbouring samples, with zero taken for samples outside of the trace; sample times are equidistant from the start time. The time-integrated energy flow of a trace is the sum over samples of the Poynting vector times the sample spacing, and the derivative of a linearly varying trace of at least two samples is its slope at every sample. Retarding a trace to another time base preserves the value at each common time.",
  ["inputs"], "every trace length, content, time base and query time",
  "Tests do not query traces at arbitrary times.",
  ["src/fieldtrace.cpp"], [("get_field, derivative, Poynting, retard", "src/fieldtrace.cpp")])

p("B01", "Coordinate distributions keep their shape, and correlations keep the mean",
  "A distribution holds exactly the configured number of points and dimensions; reading and writing a coordinate acts on that one coordinate only, and indices out of range are refused without effect. Taking a range of points keeps every coordinate in order. Scaling multiplies every coordinate by its factor, adding a correlation changes only the dependent coordinate by the stated amount, and copying through a buffer reproduces every value.",
  ["inputs", "histories"], "every dimension and number of points, index and content",
  "Tests check statistical moments of one generated distribution.",
  ["src/bunch.cpp", "src/bunch.h"], [("Distribution", "src/bunch.cpp")])

p("B02", "Bunch statistics are the charge-blind averages over all particles",
  "Total charge is the sum over particles, averages of time, position and momentum are the arithmetic means over particles, rms values are the standard deviations about those means, and the bunching factor is the complex mean phase factor at the given frequency.",
  ["inputs", "configurations"], "every number of particles and every coordinates",
  "The bunch test checks one configuration.",
  ["src/bunch.cpp", "src/beam.cpp"], [("averages, rms", "src/bunch.cpp")])

p("B03", "Tracking a beam advances every particle of every bunch in lock-step",
  "Setting up and stepping a beam applies the same operation with the same step length and field to each particle of each bunch exactly once per step. The step counter increases by one per step, and stepping with an unknown or unset tracking method is refused.",
  ["inputs", "histories", "configurations"], "every number of bunches and particles, every step count",
  "Tests track one bunch with one particle.",
  ["src/beam.cpp", "src/bunch.cpp"], [("Beam::doStep, Bunch::StepVay", "src/beam.cpp, src/bunch.cpp")])

p("B04", "Exchanging tracking steps through buffers reproduces all coordinates",
  "Buffering the current step of a bunch or beam and writing the buffer into a structurally equal one transfers time, position, momentum and acceleration of every particle to its counterpart, in order, consuming exactly the announced number of values.",
  ["inputs", "configurations"], "every number of bunches and particles and all coordinates",
  "Only MPI runs exercise this; no test does.",
  ["src/bunch.cpp", "src/beam.cpp"], [("step buffers", "src/bunch.cpp, src/beam.cpp")])

p("S01", "Screen pixels form the configured rectangular grid",
  "Pixel positions of screen and snapshot observers are the reference position plus the two pitch vectors times the distance in pixels from the centre of the grid: the pixel of half the number of pixels for the screen, the middle of the grid for the snapshot. Every screen pixel's trace has the configured length, start time and spacing, every snapshot pixel is recorded at the configured time. Recording adds the field of the given source at the position of each screen pixel to what its trace held, and a snapshot holds the field of the source at each pixel. A point observer records its trace at its one position.",
  ["inputs", "configurations"], "every grid size, pitch, position and pixel, every kind of source",
  "Tests use one screen and look at the centre pixel.",
  ["src/screen.cpp", "src/snapshot.cpp", "src/point_observer.cpp"], [("CellPosition, CellTimeZero", "src/screen.cpp, src/snapshot.cpp")])

p("S02", "Observer buffers carry every pixel and sample to its own place",
  "Writing the data of a screen, snapshot or mesh observer to a flat buffer and restoring it into an equal observer reproduces every field component of every pixel and time sample; the buffer holds exactly the announced number of values. Reading or setting a field outside the grid, or restoring a buffer of another size, is refused without effect. A particle snapshot of a beam lists every particle of every bunch at its own place.",
  ["inputs", "configurations"], "every grid size, trace length, content and index",
  "Used for MPI reduction only; no test covers non-square grids.",
  ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/point_observer.cpp"], [("getBuffer, fromBuffer", "src/screen.cpp, src/snapshot.cpp, src/mesh.cpp")])

p("S03", "Mesh screen cells keep their geometry, areas and right-handed frames",
  "A mesh screen takes every vertex, triangle, observation point and start time from its place in the file, with zero start times and fields where the file has none. The normal of a cell follows from the order of its vertices, its area is half the length of the edge vector product, and the local frame of a cell facing the average direction of the mesh is an orthonormal right-handed system whose third axis is this normal. The total area is the sum over the triangles, the energy received is the area-weighted sum of the energy flow through the cells along their normals, and recording adds the field of the given source at the observation point of each cell.",
  ["inputs", "configurations"], "every number of vertices and non-degenerate triangles",
  "No stable test covers the mesh screen.",
  ["src/mesh.cpp", "src/mesh.h"], [("mesh initialisation", "src/mesh.cpp")])

p("F01", "The 1D radiation field is a rigidly slipping plane wave on its grid",
  "The one-dimensional FEL field delivers the grid value of the cell nearest to the co-moving coordinate with electric and magnetic parts mutually orthogonal, transverse to the direction of propagation, and related by the speed of light; positions outside of its window and times off its present step are refused. The seed fills the grid with the configured wave. Advancing it a step moves the window with the speed of light, slips the radiation by this distance and adds the emission of the particles of all bunches, spread over the neighbouring cells. Beams out of step with the field are refused.",
  ["inputs", "histories"], "all grid contents, positions, times and particle states, every number of cells and particles",
  "One scene of the fel1d test is checked with a percent tolerance.",
  ["src/fel1d.cpp", "src/fel1d.h"], [("FEL_1D field and step", "src/fel1d.cpp")])

p("O01", "Data files hold every recorded value at its own place",
  "The HDF5 files written by a screen, a snapshot, a mesh screen, the watch point of a beam and the trajectory log of a bunch hold exactly what was recorded: every observation position, every field component of every pixel and time sample, every mesh vertex and triangle and every coordinate of every particle lies in the dataset of its kind at the place given by its indices. Every dataset has the size of the grid, mesh, beam or log, and the attributes carry the grid size, number of samples, start time and time step and, for the screen, the axes of its frame.",
  ["inputs", "configurations"], "every grid, mesh and trace size, number of bunches' particles, logged step and content",
  "No test reads the written files back.",
  ["src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/beam.cpp", "src/logger.cpp"], [("WriteTimeDomainFieldHDF5 and other writers", "src/screen.cpp, src/snapshot.cpp, src/mesh.cpp, src/beam.cpp, src/logger.cpp")])

p("O02", "Table files hold every recorded value in its row and column",
  "The SDDS tables written at the watch point of a bunch or a beam, by a point observer and by the parameter log of a bunch have one row per particle, time sample or logged step, in order. Every row holds, under the name of the column, the time, position, momentum, its length, the angles and relativistic factor of the particle of that index; the time and the six field components of the sample; or the averages, r.m.s. sizes, spread and bunching factor at the logged step. The parameters carry the number of rows, start time and time step, the number of particles and the total charge in C.",
  ["inputs", "configurations"], "every number of particles, bunches, samples and logged steps and every content",
  "No test reads the written tables back; beams of several bunches are never written.",
  ["src/bunch.cpp", "src/beam.cpp", "src/point_observer.cpp", "src/logger.cpp"], [("WriteWatchPointSDDS, WriteTimeDomainFieldSDDS, ParameterLogger::WriteData", "src/bunch.cpp, src/beam.cpp, src/point_observer.cpp, src/logger.cpp")])

p("B05", "A bunch read from a table file has the particles of the file",
  "Reading an SDDS particle table (x, xp, y, yp, p, t and the parameters Particles and Charge) for a direction of propagation yields one electron-like particle per row, in order, each with the negative charge of the file divided by the number of particles. With the third axis along the given direction and the transverse axes orthonormal to it, its momentum has the length p along the direction with the slopes xp and yp, and its position at time zero is (x, y) in the transverse plane, moved along the velocity by its arrival time before the mean arrival time. If the file, a parameter or a column is missing the bunch is empty. The name of the file may have any length.",
  ["inputs", "configurations"], "every number and content of rows, every direction, every missing item",
  "No test reads a particle file.",
  ["src/bunch.cpp"], [("Bunch(filename, dir)", "src/bunch.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
    print(len(P), "properties")
