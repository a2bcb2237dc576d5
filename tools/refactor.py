"""refactor.py [names]: edits that keep the behaviour, applied to a scratch copy; the checks have to stay quiet"""
import subprocess, sys, os
W = os.environ.get('REFW', '/tmp/w1')   # APPLY=1: only make the copy
R = {}
def r(name, props, *edits): R[name] = (props.split(), edits)

r('lattice-iter', 'L01 S01 S03', ('src/fields.cpp', '''    for (unsigned int i=0; i<elements.size(); i++)
    {
        total += elements.at(i)->Field(t, X);
    };
    return total;''', '''    for (auto it = elements.begin(); it != elements.end(); ++it)
        total += (*it)->Field(t, X);
    return total;'''))
r('lattice-range', 'L01 S01', ('src/fields.cpp', '''    for (unsigned int i=0; i<elements.size(); i++)
    {
        total += elements.at(i)->Field(t, X);
    };
    return total;''', '''    for (GeneralField *element : elements)
    {
        const ElMagField contribution = element->Field(t, X);
        total = total + contribution;
    }
    return total;'''))
r('lattice-while', 'L01', ('src/fields.cpp', '''    for (unsigned int i=0; i<elements.size(); i++)
    {
        total += elements.at(i)->Field(t, X);
    };
    return total;''', '''    size_t left = elements.size();
    while (left > 0)
    {
        left--;
        total += elements[left]->Field(t, X);
    }
    return total;'''))
r('lattice-range-check', 'L01', ('src/fields.cpp', '''    if (index<0) throw(IOexception("Lattice::at() - requested index out of range."));
    if (index>=(int)elements.size()) throw(IOexception("Lattice::at() - requested index out of range."));
    return elements[index];''', '''    const bool valid = (index >= 0) && ((size_t)index < elements.size());
    if (!valid) throw(IOexception("Lattice::at() - requested index out of range."));
    return *(elements.begin()+index);'''))
r('trace-iter', 'T01 T02 R03', ('src/fieldtrace.cpp', '''    FieldTrace temp = *this;
    for (std::size_t i=0; i<temp.N; i++)
        temp.trace[i] *= factor;
    return(temp);''', '''    FieldTrace temp = *this;
    for (ElMagField &sample : temp.trace)
        sample *= factor;
    return temp;'''), ('src/fieldtrace.cpp', '''    Vector sum(0.0,0.0,0.0);
    for (std::size_t i=0; i<N; i++)
        sum += trace[i].Poynting();
    return(sum*dt);''', '''    Vector sum(0.0,0.0,0.0);
    for (std::size_t i=N; i>0; i--)
        sum += trace[i-1].Poynting()*dt;
    return sum;'''))
r('trace-helper', 'T01 T02', ('src/fieldtrace.cpp', '''FieldTrace FieldTrace::operator+ (FieldTrace other)
{
    if (N != other.N) throw(IOexception("FieldTrace::operator+ - size mismatch."));
    if (t0 != other.t0) throw(IOexception("FieldTrace::operator+ - start time mismatch."));
    if (dt != other.dt) throw(IOexception("FieldTrace::operator+ - time step mismatch."));
    FieldTrace temp = *this;
    for (std::size_t i=0; i<N; i++)
        temp.trace[i] = trace[i] + other.trace[i];
    return (temp);
}''', '''static void check_compatible(FieldTrace &a, FieldTrace &b, const char *who)
{
    std::string name(who);
    if (a.get_N() != b.get_N()) throw(IOexception((name + " - size mismatch.").c_str()));
    if (a.get_t0() != b.get_t0()) throw(IOexception((name + " - start time mismatch.").c_str()));
    if (a.get_dt() != b.get_dt()) throw(IOexception((name + " - time step mismatch.").c_str()));
}

FieldTrace FieldTrace::operator+ (FieldTrace other)
{
    check_compatible(*this, other, "FieldTrace::operator+");
    FieldTrace temp(t0, dt, N);
    for (std::size_t i=0; i<N; ++i)
        temp.set_field(i, trace[i] + other.trace[i]);
    return temp;
}'''))
r('trace-buffer-copy', 'T01 S03', ('src/fieldtrace.cpp', '''    ElMagField *buf = buffer;
    for (std::size_t it=0; it<N; it++) *buf++ = get_field(it);''', '''    for (std::size_t it=0; it<N; it++) buffer[it] = trace[it];'''),
  ('src/fieldtrace.cpp', '''    ElMagField *buf = buffer;
    for (std::size_t it=0; it<N; it++) set_field(it, *buf++);''', '''    std::copy(buffer, buffer+N, trace.begin());'''))
r('trace-interp', 'T02', ('src/fieldtrace.cpp', '''    ElMagField f1=ElMagFieldZero;
    if ((index>=0) && (index<(int)N)) f1=trace[(std::size_t)index];
    ElMagField f2=ElMagFieldZero;
    if ((index+1>=0) && (index+1<(int)N)) f2=trace[(std::size_t)(index+1)];
    return(f1*(1.0-frac)+f2*frac);''', '''    auto sample = [this](int i) { return (i>=0 && i<(int)N) ? trace[i] : ElMagFieldZero; };
    ElMagField f1 = sample(index);
    ElMagField f2 = sample(index+1);
    return f1 + (f2-f1)*frac;'''))
r('trace-assign', 'T01', ('src/fieldtrace.cpp', '''    // check for "self assignment" and do nothing in that case
    if (this != &t)
    {
        // check for a size mismatch and throw an exception in that case
        if (N != t.N)
        {
            throw(IOexception("FieldTrace assignment - size mismatch."));
        }
        // copy all data from the other field trace
        else
        {
            t0 = t.t0;
            dt = t.dt;
            // for (int i=0; i<N; i++) trace[i]=t.trace[i];
            trace = t.trace;
        }
    }
    return *this;''', '''    if (this == &t) return *this;
    if (N != t.N) throw(IOexception("FieldTrace assignment - size mismatch."));
    for (std::size_t i=0; i<N; i++) trace[i]=t.trace[i];
    dt = t.dt;
    t0 = t.t0;
    return *this;'''))
r('bunch-iter', 'B02 B03 B04 R03', ('src/bunch.cpp', '''    for(int i=0; i<NOP; i++)
    {
        P[i]->StepVay(field);
    }''', '''    for (ChargedParticle *p : P)
        p->StepVay(field);'''), ('src/bunch.cpp', '''    double charge = 0.0;
    for(int i=0; i<NOP; i++)
    {
        charge += getParticle(i)->getCharge();
    }
    return charge;''', '''    double charge = 0.0;
    for (auto p : P) charge += p->getCharge();
    return charge;'''), ('src/bunch.cpp', '''    for (int i=0; i<NOP; i++)
        P[i]->integrateFieldTrace(ObservationPoint, trace);''', '''    int i = 0;
    while (i != NOP)
    {
        P[i]->integrateFieldTrace(ObservationPoint, trace);
        i++;
    }'''))
r('bunch-avg', 'B02', ('src/bunch.cpp', '''    Vector pos = Vector(0.0, 0.0, 0.0);
    for(int i=0; i<NOP; i++) pos += P[i]->getPosition();
    return pos*(1.0/NOP);''', '''    double x = 0.0, y = 0.0, z = 0.0;
    for(int i=NOP-1; i>=0; i--)
    {
        const Vector p = P[i]->getPosition();
        x += p.x;
        y += p.y;
        z += p.z;
    }
    return Vector(x/NOP, y/NOP, z/NOP);'''), ('src/bunch.cpp', '''        double bg = (P[i]->getMomentum()).norm();
        double g = sqrt(bg*bg+1.0);
        avg += g;
    }
    avg /= NOP;
    return avg;''', '''        avg += sqrt(P[i]->getMomentum().abs2nd()+1.0);
    }
    return avg/NOP;'''))
r('bunch-buffer', 'B04', ('src/bunch.cpp', '''    double *bp = buffer;
    int nop = NOP;
    for(int i=0; i<nop; i++)
    {
        double time = P[i]->getTime();
        Vector X = P[i]->getPosition();
        Vector BG = P[i]->getMomentum();
        Vector A = P[i]->getAccel();
        *bp++ = time;
        *bp++ = X.x;
        *bp++ = X.y;
        *bp++ = X.z;
        *bp++ = BG.x;
        *bp++ = BG.y;
        *bp++ = BG.z;
        *bp++ = A.x;
        *bp++ = A.y;
        *bp++ = A.z;
    }
    return bp;''', '''    auto put = [](double *b, Vector v) { b[0] = v.x; b[1] = v.y; b[2] = v.z; };
    for(int i=0; i<NOP; i++)
    {
        double *bp = buffer + 10*i;
        bp[0] = P[i]->getTime();
        put(bp+1, P[i]->getPosition());
        put(bp+4, P[i]->getMomentum());
        put(bp+7, P[i]->getAccel());
    }
    return buffer + 10*NOP;'''))
r('bunch-corr', 'B01', ('src/bunch.cpp', '''            switch (independent)
            {
                case 0: mean += X0.x; break;
                case 1: mean += X0.y; break;
                case 2: mean += X0.z; break;
                case 3: mean += P0.x; break;
                case 4: mean += P0.y; break;
                case 5: mean += P0.z; break;
            };
''', '''            const double c[6] = { X0.x, X0.y, X0.z, P0.x, P0.y, P0.z };
            mean += c[independent];
'''))
r('dist-rows', 'B01', ('src/bunch.cpp', '''        for (int i=0; i<NOP; i++)
            A[i*DIM+dim] *= factor;''', '''        double *p = A + dim;
        for (int i=0; i<NOP; i++, p += DIM)
            *p *= factor;'''), ('src/bunch.cpp', '''        std::memcpy(buffer,A,bufsize*sizeof(double));
    }
    else
    {
        throw(IOexception("Distribution::bufferData()''', '''        for (int i=0; i<bufsize; i++) buffer[i] = A[i];
    }
    else
    {
        throw(IOexception("Distribution::bufferData()'''))
VAY = '''    Vector p_prime = P_current + E_current / SpeedOfLight * qmt2;
    double gamma2_prime = p_prime.abs2nd() + 1.0;
    Vector tau = B_current * qmt2;
    double u_star = dot(p_prime, tau);
    double tau2 = tau.abs2nd();
    double sigma = gamma2_prime - tau2;
    // eq. (11)
    VY_gamma_i1 = sqrt(0.5 * (sigma + sqrt(sigma * sigma + 4.0 * (tau2 + u_star * u_star))));
    Vector t = tau / VY_gamma_i1;
    // eq. (12)
    VY_p_i1 = (p_prime + t * dot(p_prime, t) + cross(p_prime, t)) / (1 + t.abs2nd());
'''
r('vay-helper', 'P01 P02 P04', ('src/particle.cpp', VAY + '    double gamma_h', '''    vay_half_step(P_current, E_current, B_current, qmt2, VY_gamma_i1, VY_p_i1);
    double gamma_h'''), ('src/particle.cpp', VAY + '    // store', '''    vay_half_step(P_current, E_current, B_current, qmt2, VY_gamma_i1, VY_p_i1);
    // store'''), ('src/particle.cpp', '''#include <math.h>
''', '''#include <math.h>
static void vay_half_step(Vector p_h, Vector E, Vector B, double qmt2, double &gamma, Vector &p)
{
    Vector p_prime = p_h + E * (qmt2 / SpeedOfLight);
    Vector tau = B * qmt2;
    const double u_star = dot(p_prime, tau);
    const double tau2 = tau.abs2nd();
    const double sigma = 1.0 + p_prime.abs2nd() - tau2;
    gamma = sqrt(0.5 * (sigma + sqrt(sigma * sigma + 4.0 * (tau2 + u_star * u_star))));
    Vector t = tau / gamma;
    const double s = 1.0 / (1.0 + t.abs2nd());
    p = (p_prime + t * dot(p_prime, t) + cross(p_prime, t)) * s;
}
'''))
r('vay-order', 'P01 P02', ('src/particle.cpp', '''    t_current += dt;
    X_current += beta_i * SpeedOfLight * dt;
    // compute''', '''    const Vector dX = beta_i * (SpeedOfLight * dt);
    X_current = X_current + dX;
    t_current = t_current + dt;
    // compute'''))
r('particle-store', 'P02 P03 P04', ('src/particle.cpp', '''    Time.push_back(time);
    X.push_back(pos);
    P.push_back(mom);
    A.push_back(acc);
    // keep track of the number of stored trajectory points
    NP++;''', '''    A.push_back(acc);
    P.push_back(mom);
    X.push_back(pos);
    Time.push_back(time);
    NP = (int)Time.size();'''))
r('interp-search', 'P06', ('src/particle.cpp', '''    if (time>=t1 && time<=t2)
    {
	// reduce the interval until the trajectory segment is found
        while (i2 - i1 > 1)
        {
            int i = (i2 + i1) / 2;
            double t = Time[i];
            if (t < time)
            {
                i1 = i;
                t1 = t;
            } else {
                i2 = i;
                t2 = t;
            }
        };''', '''    if (!(time<t1 || time>t2))
    {
        while (i1 + 1 < i2)
        {
            const int mid = i1 + (i2 - i1) / 2;
            if (Time[mid] >= time)
                i2 = mid;
            else
                i1 = mid;
        };
        t1 = Time[i1];
        t2 = Time[i2];'''))
r('liewie-helper', 'R01 R02', ('src/particle.cpp', '''    double scale = Charge*ElementaryCharge/(4.0*Pi*EpsNull);
    double bn3rd = pow(1.0 - dot(SourceBeta, N), 3.0);
    // velocity term
    Vector EField = (N - SourceBeta) / (R*R*bn3rd*gamma2);
    // acceleration term
    EField += cross(N, cross(N - SourceBeta, SourceBetaPrime)) / (R*bn3rd*SpeedOfLight);
    EField *= scale;
    Vector BField = cross(N,EField) / SpeedOfLight;
    return ElMagField(EField, BField);
}

/*!
 * Implementation details:
 * ----------------------
 * 
 * At first''', '''    const double doppler = 1.0 - dot(N, SourceBeta);
    const double bn3rd = doppler*doppler*doppler;
    Vector d = N - SourceBeta;
    Vector near = d / (gamma2*R*R*bn3rd);
    Vector far = cross(N, cross(d, SourceBetaPrime)) / (SpeedOfLight*R*bn3rd);
    Vector EField = (near + far) * (Charge*ElementaryCharge/(4.0*Pi*EpsNull));
    Vector BField = cross(N,EField) / SpeedOfLight;
    return ElMagField(EField, BField);
}

/*!
 * Implementation details:
 * ----------------------
 * 
 * At first'''))
r('beam-iter', 'B02 B03 B04 R03', ('src/beam.cpp', '''    // integrate for all bunches
    for (int i=0; i<NOB; i++)
        field += B[i]->RetardedField(obs_time, obs_pos);
    return field;''', '''    for (Bunch *b : B)
        field += b->RetardedField(obs_time, obs_pos);
    return field;'''), ('src/beam.cpp', '''    NOTS++;
    switch (tracker)
    {
        case TRACKING_NONE:
            throw(IOexception("Beam::doStep - no tracking method provided."));
            break;
        case TRACKING_EULER:
            throw(IOexception("Beam::doStep - EULER tracking method not yet implemented."));
            break;
        case TRACKING_VAY:
            StepVay(field);
            break;
        default:
            throw(IOexception("Beam::doStep - unknown tracking method."));
    }''', '''    if (tracker == TRACKING_NONE)
        throw(IOexception("Beam::doStep - no tracking method provided."));
    if (tracker == TRACKING_EULER)
        throw(IOexception("Beam::doStep - EULER tracking method not yet implemented."));
    if (tracker != TRACKING_VAY)
        throw(IOexception("Beam::doStep - unknown tracking method."));
    NOTS++;
    StepVay(field);'''))
r('screen-loops', 'S01 S02', ('src/screen.cpp', '''        double* bp = buffer;
        for (unsigned int ix = 0; ix < Nx; ix++)
        	for (unsigned int iy = 0; iy < Ny; iy++)
        	    for (unsigned int it = 0; it < NOTS; it++)
        	    {
            		ElMagField field = getField(ix,iy,it);
            		*bp++ = field.E().x;
            		*bp++ = field.E().y;
            		*bp++ = field.E().z;
            		*bp++ = field.B().x;
            		*bp++ = field.B().y;
            		*bp++ = field.B().z;
        	    };''', '''        std::size_t pos = 0;
        for (unsigned int ix = 0; ix < Nx; ix++)
        	for (unsigned int iy = 0; iy < Ny; iy++)
        	    for (unsigned int it = 0; it < NOTS; it++)
        	    {
            		const ElMagField field = Traces[ix][iy]->get_field((std::size_t)it);
            		ElMagField f = field;
            		const Vector e = f.E();
            		const Vector b = f.B();
            		buffer[pos] = e.x;
            		buffer[pos+1] = e.y;
            		buffer[pos+2] = e.z;
            		buffer[pos+3] = b.x;
            		buffer[pos+4] = b.y;
            		buffer[pos+5] = b.z;
            		pos += 6;
        	    };'''), ('src/screen.cpp', '''    // center index is Nx/2 Ny/2 (integer division!)
    return Origin + dX*(double)((int)ix-(int)Nx/2) + dY*(double)((int)iy-(int)Ny/2);''', '''    const int cx = (int)(Nx/2);
    const int cy = (int)(Ny/2);
    Vector pos = Origin;
    pos += dX*(double)((int)ix-cx);
    pos += dY*(double)((int)iy-cy);
    return pos;'''))
r('screen-buffer-index', 'S02', ('src/screen.cpp', '''        double *bp = buffer;
        for (unsigned int ix = 0; ix < Nx; ix++)
        	for (unsigned int iy = 0; iy < Ny; iy++)
        	    for (unsigned int it = 0; it < NOTS; it++)
        	    {
                    Vector E, B;
                    E.x = *bp++;
                    E.y = *bp++;
                    E.z = *bp++;
                    B.x = *bp++;
                    B.y = *bp++;
                    B.z = *bp++;
            		setField(ix,iy,it,ElMagField(E,B));
        	    };''', '''        for (unsigned int ix = 0; ix < Nx; ix++)
        	for (unsigned int iy = 0; iy < Ny; iy++)
        	    for (unsigned int it = 0; it < NOTS; it++)
        	    {
                    const double *bp = buffer + 6*(((std::size_t)ix*Ny+iy)*NOTS+it);
            		setField(ix,iy,it,ElMagField(Vector(bp[0],bp[1],bp[2]),Vector(bp[3],bp[4],bp[5])));
        	    };'''))
r('screen-swap', 'S01', ('src/screen.cpp', '''                for (unsigned int it = 0; it < NOTS; it++)
                {
                    Traces[ix][iy]->add(it,
                        source->Field(CellTimeZero(ix,iy)+(double)it*dt_obs, CellPosition(ix,iy)) );
                }''', '''                const Vector pos = CellPosition(ix,iy);
                FieldTrace *trace = Traces[ix][iy];
                for (unsigned int it = 0; it < NOTS; it++)
                    trace->add(it, source->Field(trace->get_time(it), pos));'''))
r('mesh-tidy', 'S02 S03', ('src/mesh.cpp', '''        tri_ref tri = triangles[ip];
        Vector p1 = triangle_points[tri.p1];
        Vector p2 = triangle_points[tri.p2];
        Vector p3 = triangle_points[tri.p3];
        Vector n = cross( (p3-p1), (p2-p1));
        area[ip] = n.norm()*0.5;
        total_area += area[ip];
        n.normalize();
        normal[ip] = n;''', '''        const tri_ref &tri = triangles[ip];
        const Vector p1 = triangle_points[tri.p1];
        Vector a = triangle_points[tri.p3] - p1;
        Vector b = triangle_points[tri.p2] - p1;
        Vector n = cross(a, b);
        const double len = n.norm();
        area[ip] = 0.5*len;
        n /= len;
        normal[ip] = n;
        total_area = total_area + area[ip];'''), ('src/mesh.cpp', '''        Vector S = A[ip]->Poynting();
        total -= area[ip]*dot(S,normal[ip]);''', '''        const double flow = -dot(normal[ip],A[ip]->Poynting());
        total += flow*area[ip];'''))
r('undulator-tidy', 'L04 L02', ('src/undulator.cpp', 'UNDULATOR', ''))
r('fel-tidy', 'F01', ('src/fel1d.cpp', '''    for (int i=1; i<N_field-1; i++)
        next_E[i+1] = field_E[i-1] + field_E[i+1] - previous_E[i-1] + dt*dt*J_x[i];
    // we also correct the current field (which will be previous in the next step
    // in order not to have the derivative of the induced fields
    for (int i=1; i<N_field-1; i++)
        field_E[i] += dt*dt*J_x[i];
''', '''    const double dt2 = dt*dt;
    for (int i=2; i<N_field; i++)
        next_E[i] = field_E[i-2] + field_E[i] - previous_E[i-2] + dt2*J_x[i-1];
    for (int i=1; i<N_field-1; i++)
        field_E[i] = field_E[i] + dt2*J_x[i];
'''), ('src/fel1d.cpp', '''            for (int i=start_index; i<stop_index; i++)
            {
                J_x[i] += j_x * exp(-pow((delta_z-i*ds),2)/TwoSigmaSquared) / SigmaSqrtTwoPi;
            }''', '''            const double norm = j_x / SigmaSqrtTwoPi;
            for (int i=start_index; i<stop_index; i++)
            {
                const double d = delta_z-i*ds;
                J_x[i] += norm * exp(-d*d/TwoSigmaSquared);
            }'''))
r('trace-record-helper', 'R04', ('src/particle.cpp', '''		        // handle all fully covered buckets
		        for (int idx=0; idx<idx2; idx++)
		        {
		            // center time of the bucket
		            double t_center = t0+idx*dt;
		            field = f1*((ts2-t_center)/dts) + f2*((t_center-ts1)/dts);
		            trace->add(idx,field);
		        };
''', '''		        auto at = [&](double t) { return f1*((ts2-t)/dts) + f2*((t-ts1)/dts); };
		        for (int idx=0; idx<idx2; idx++)
		            trace->add(idx, at(t0+idx*dt));
'''))
r('vector-forms', 'A01 A02 P01', ('src/vector.cpp', '''  Vector temp = *this;
  x = dot(temp,ex);
  y = dot(temp,ey);
  z = dot(temp,ez);''', '''  const Vector old = *this;
  const double nx = dot(old,ex), ny = dot(old,ey), nz = dot(old,ez);
  *this = Vector(nx, ny, nz);'''))

r('bunch-reader-range', 'B05', ('src/bunch.cpp', '''    double sum = 0;
    for(int i=0; i<NOP; i++) sum += tData[i];
    double t0 = sum/NOP;
''', '''    double t0 = 0.0;
    for(int i=NOP-1; i>=0; i--) t0 += tData[i];
    t0 /= NOP;
'''), ('src/bunch.cpp', '''    e_x -= e_s * dot(e_x,e_s);
    e_x.normalize();
    Vector e_y = cross(e_x,e_s);
    std::cout''', '''    const double along = dot(e_s,e_x);
    e_x = e_x - e_s * along;
    e_x.normalize();
    Vector e_y = cross(e_x,e_s);
    std::cout'''), ('src/bunch.cpp', '''        double betagamma = pData[i];
        double beta = sqrt( betagamma*betagamma / (betagamma*betagamma+1.0) );
''', '''        const double betagamma = pData[i];
        const double beta = betagamma / sqrt(betagamma*betagamma+1.0);
'''))
r('bunch-reader-column', 'B05', ('src/bunch.cpp', '''Bunch::Bunch(const char *filename, Vector dir)
{''', '''static double *readColumn(SDDS_DATASET *set, const char *column)
{
    std::string name(column);
    double *data = SDDS_GetColumnInDoubles(set, &name[0]);
    if (data==NULL)
    {
        std::cout << "cannot read " << column << " column" << std::endl;
        SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
    }
    return data;
}

Bunch::Bunch(const char *filename, Vector dir)
{'''), ('src/bunch.cpp', '''    char xName[] = "x";
    double *xData = SDDS_GetColumnInDoubles(&SDDS_dataset, xName);
    if (xData==NULL)
    {
        std::cout << "cannot read x column" << std::endl;
        SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
        return;
    };
''', '''    double *xData = readColumn(&SDDS_dataset, "x");
    if (xData==NULL) return;
'''), ('src/bunch.cpp', '''    char xpName[] = "xp";
    double *xpData = SDDS_GetColumnInDoubles(&SDDS_dataset, xpName);
    if (xpData==NULL)
    {
        std::cout << "cannot read xp column" << std::endl;
        SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
        return;
    };
''', '''    double *xpData = readColumn(&SDDS_dataset, "xp");
    if (xpData==NULL) return;
'''))
r('bunch-reader-particle', 'B05', ('src/bunch.cpp', '''        Vector direction = e_x*xpData[i] + e_y*ypData[i] + e_s;
        direction.normalize();
        // relativistic velocity
        Vector v = direction * beta;
        // we translate the difference in arrival time into a position at t0
        Vector X0 = e_x*xData[i] + e_y*yData[i] + v*(t0-tData[i])*SpeedOfLight;
        Vector P0 = direction * betagamma;
''', '''        Vector direction = e_s + e_x*xpData[i] + e_y*ypData[i];
        direction.normalize();
        const double delay = tData[i]-t0;
        const double drift = beta*SpeedOfLight*delay;
        Vector X0 = e_x*xData[i] + e_y*yData[i] - direction*drift;
        Vector P0 = direction;
        P0 *= betagamma;
'''), ('src/bunch.cpp', '''    for(int i=0; i<NOP; i++)
    {
        ChargedParticle *p = new ChargedParticle(-numElectrons,numElectrons);
        // pData''', '''    P.reserve(NOP);
    for(int i=0; i<NOP; ++i)
    {
        ChargedParticle *p = new ChargedParticle(-numElectrons,numElectrons);
        // pData'''))
r('beam-table-helper', 'O02', ('src/beam.cpp', '''            ChargedParticle *P = bunch->getParticle(i);
            double t = P->getTime();
            Vector X = P->getPosition();
            Vector BG = P->getMomentum();
            if( SDDS_SetRowValues(&data,''', '''            ChargedParticle *P = bunch->getParticle(i);
            const double t = P->getTime();
            const Vector X = P->getPosition();
            Vector BG = P->getMomentum();
            const double bg2 = BG.abs2nd();
            const double slope_x = BG.x/BG.z;
            if( SDDS_SetRowValues(&data,'''), ('src/beam.cpp', '''                "p",BG.norm(),
                "xp",BG.x/BG.z,
''', '''                "p",sqrt(bg2),
                "xp",slope_x,
'''), ('src/beam.cpp', '''"gamma",sqrt(1.0+BG.abs2nd()),
                NULL) != 1
                )
            {
                std::cout << "Bunch::WriteWatchPointSDDS - error writing data columns" << std::endl;
                return 7;
            }
            index++;''', '''"gamma",sqrt(bg2+1.0),
                NULL) != 1
                )
            {
                std::cout << "Bunch::WriteWatchPointSDDS - error writing data columns" << std::endl;
                return 7;
            }
            index += 1;'''))
r('beam-table-flat', 'O02', ('src/beam.cpp', '''    for(int b=0; b<NOB; b++)
    {
        Bunch *bunch = B[b];
        int nop = bunch->getNOP();
        for( int i=0; i<nop; i++)
        {
            ChargedParticle *P = bunch->getParticle(i);
            double t''', '''    for (Bunch *bunch : B)
    {
        for( int i=0; i<bunch->getNOP(); ++i)
        {
            ChargedParticle *P = bunch->getParticle(i);
            double t'''))
r('beam-table-columns', 'O02', ('src/beam.cpp', '''    int index=0;
    for(int b=0; b<NOB; b++)
    {
        Bunch *bunch = B[b];
        int nop = bunch->getNOP();
''', '''    int first=0;
    for(int b=0; b<NOB; b++)
    {
        Bunch *bunch = B[b];
        const int nop = bunch->getNOP();
'''), ('src/beam.cpp', '''SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE, index,
''', '''SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE, first+i,
'''), ('src/beam.cpp', '''            index++;
        }
    }
''', '''        }
        first += nop;
    }
'''), ('src/beam.cpp', '''    if  (
        SDDS_DefineSimpleParameter(&data,"NumberOfParticles","", SDDS_LONG)!=1 ||
        SDDS_DefineSimpleParameter(&data,"Charge","C", SDDS_DOUBLE)!=1
        )
''', '''    const bool defined =
        SDDS_DefineSimpleParameter(&data,"NumberOfParticles","", SDDS_LONG)==1 &&
        SDDS_DefineSimpleParameter(&data,"Charge","C", SDDS_DOUBLE)==1;
    if (!defined)
'''))
r('watch-range', 'O01', ('src/beam.cpp', '''    for(int i=0; i<NOB; i++)
    {
        bp = B[i]->bufferCoordinates(bp, remaining);
        remaining = nop - (bp-buffer)/6;
    }''', '''    for (Bunch *bunch : B)
    {
        bp = bunch->bufferCoordinates(bp, remaining);
        remaining -= bunch->getNOP();
    }'''))
r('watch-vector', 'O01', ('src/beam.cpp', '''    double *buffer = new double[nop*6];
    double *bp = buffer;
    // remaining''', '''    std::vector<double> storage(nop*6);
    double *buffer = storage.data();
    double *bp = buffer;
    // remaining'''), ('src/beam.cpp', '''    std::cout << "writing HDF5 done." << std::endl;
    delete[] buffer;
    return nop;''', '''    std::cout << "writing HDF5 done." << std::endl;
    return nop;'''))
r('log-rows', 'O02', ('src/logger.cpp', '''    for(unsigned int i=0; i<NOTS; i++)
    {
	    if (SDDS_SetRowValues(&data,''', '''    for(size_t i=0; i<NOTS; ++i)
    {
	    const Vector pos = Pos[i];
	    const Vector bg = BG.at(i);
	    if (SDDS_SetRowValues(&data,'''), ('src/logger.cpp', '''	        SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,i,
	        "t",Time[i],
	        "x_av",Pos[i].x,
	        "y_av",Pos[i].y,
	        "z_av",Pos[i].z,
	        "bgx_av",BG[i].x,
''', '''	        SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,(int)i,
	        "t",Time[i],
	        "x_av",pos.x,
	        "y_av",pos.y,
	        "z_av",pos.z,
	        "bgx_av",bg.x,
'''))
r('log-helper', 'O02', ('src/logger.cpp', '''    if  ( SDDS_DefineSimpleParameter(&data,"NumberTimeSteps","", SDDS_LONG) != 1 )
    {
	    cout << "WriteSDDS - error defining parameters\\n";
	    return 2;
    }
    if  ( SDDS_DefineSimpleParameter(&data,"NumberParticles","", SDDS_LONG) != 1 )
    {
	    cout << "WriteSDDS - error defining parameters\\n";
	    return 2;
    }
    if  ( SDDS_DefineSimpleParameter(&data,"TotalCharge","C", SDDS_DOUBLE) != 1 )
''', '''    auto define = [&data](const char *name, const char *unit, int32_t type)
    {
        return SDDS_DefineSimpleParameter(&data,(char*)name,(char*)unit,type) == 1;
    };
    if  ( !define("NumberTimeSteps","",SDDS_LONG) || !define("NumberParticles","",SDDS_LONG)
          || !define("TotalCharge","C",SDDS_DOUBLE) )
'''))
r('traj-memcpy', 'O01', ('src/logger.cpp', '''    double *bp = buffer;
    for(unsigned int i=0; i<NOTS; i++)
    {
        double *source = data[i];
        for (unsigned int k=0; k<6*NOP; k++) *bp++ = *source++;
    }
''', '''    for(unsigned int i=0; i<NOTS; i++)
        for (unsigned int k=0; k<6*NOP; k++) buffer[i*6*NOP+k] = data[i][k];
'''))
r('traj-std-copy', 'O01', ('src/logger.cpp', '''        double *source = data[i];
        for (unsigned int k=0; k<6*NOP; k++) *bp++ = *source++;
''', '''        bp = std::copy(data[i], data[i]+6*NOP, bp);
'''))
r('screen-attr-helper', 'O01', ('src/screen.cpp', '''template <typename SourceT>
void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
{''', '''static void writeIntAttribute(hid_t object, const char *name, void *value)
{
    hid_t space = H5Screate(H5S_SCALAR);
    if (space<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Screate()"));
    hid_t attribute = H5Acreate2(object, name, H5T_NATIVE_INT, space, H5P_DEFAULT, H5P_DEFAULT);
    if (attribute<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2()"));
    if (H5Awrite(attribute, H5T_NATIVE_INT, value)<0)
        throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite()"));
    if (H5Sclose(space)<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose()"));
}

template <typename SourceT>
void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
{'''), ('src/screen.cpp', '''    atts  = H5Screate(H5S_SCALAR);
    if (atts<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Screate(Nx) - old"));
    attr = H5Acreate2(pdset, "Nx", H5T_NATIVE_INT, atts, H5P_DEFAULT, H5P_DEFAULT);
    if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx) - old"));
    status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx) - old"));
    status = H5Sclose (atts);
    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx) - old"));
''', '''    writeIntAttribute(pdset, "Nx", &Nx);
'''), ('src/screen.cpp', '''    double *pbuffer = new double[Nx*Ny*3];
    double *bp = pbuffer;
    for (unsigned int ix = 0; ix < Nx; ix++)
	for (unsigned int iy = 0; iy < Ny; iy++)
	{
	    Vector pos = CellPosition(ix, iy);
	    *bp++ = pos.x;
	    *bp++ = pos.y;
	    *bp++ = pos.z;
	};
''', '''    double *pbuffer = new double[Nx*Ny*3];
    for (unsigned int ix = 0; ix < Nx; ix++)
	for (unsigned int iy = 0; iy < Ny; iy++)
	{
	    const Vector pos = CellPosition(ix, iy);
	    double *cell = pbuffer + 3*(ix*Ny+iy);
	    cell[0] = pos.x;
	    cell[1] = pos.y;
	    cell[2] = pos.z;
	};
'''), ('src/screen.cpp', '''    double *s_buffer = new double[4*3];
    double *s_bp = s_buffer;
    *s_bp++ = Origin.x;
    *s_bp++ = Origin.y;
    *s_bp++ = Origin.z;
    *s_bp++ = normal.x;
    *s_bp++ = normal.y;
    *s_bp++ = normal.z;
    *s_bp++ = dX.x;
    *s_bp++ = dX.y;
    *s_bp++ = dX.z;
    *s_bp++ = dY.x;
    *s_bp++ = dY.y;
    *s_bp++ = dY.z;
''', '''    double *s_buffer = new double[4*3];
    double *s_bp = s_buffer;
    for (const Vector &v : {Origin, normal, dX, dY})
    {
        *s_bp++ = v.x;
        *s_bp++ = v.y;
        *s_bp++ = v.z;
    }
'''))
r('snapshot-flat', 'O01', ('src/snapshot.cpp', '''    double *buffer = new double[Nx*Ny*3];
    double *bp = buffer;
    for (unsigned int ix = 0; ix < Nx; ix++)
	for (unsigned int iy = 0; iy < Ny; iy++)
	{
	    Vector pos = CellPosition(ix, iy);
	    *bp++ = pos.x;
	    *bp++ = pos.y;
	    *bp++ = pos.z;
	};
''', '''    const unsigned int cells = Nx*Ny;
    double *buffer = new double[cells*3];
    for (unsigned int cell = 0; cell < cells; cell++)
    {
	    Vector pos = CellPosition(cell/Ny, cell%Ny);
	    buffer[3*cell+0] = pos.x;
	    buffer[3*cell+1] = pos.y;
	    buffer[3*cell+2] = pos.z;
    };
'''))
r('snapshot-particles', 'O01', ('src/snapshot.cpp', '''    double *bp = particleBuffer;
    if (source)
    {
        int NOB = source->getNOB();
        for (int bunch_index=0; bunch_index<NOB; bunch_index++)
        {
            Bunch *b = source->getBunch(bunch_index);
            int b_NOP = b->getNOP();
            for (int i = 0; i < b_NOP; i++)
            {
                ChargedParticle* p = b->getParticle(i);
                p->CoordinatesAtTime(t_obs, &X, &BG);
                *bp++ = X.x;
                *bp++ = X.y;
                *bp++ = X.z;
                *bp++ = BG.x;
                *bp++ = BG.y;
                *bp++ = BG.z;
            }
        }
''', '''    if (source)
    {
        int index = 0;
        const int NOB = source->getNOB();
        for (int bunch_index=0; bunch_index<NOB; bunch_index++)
        {
            Bunch *b = source->getBunch(bunch_index);
            for (int i = 0; i < b->getNOP(); i++, index++)
            {
                b->getParticle(i)->CoordinatesAtTime(t_obs, &X, &BG);
                double *bp = particleBuffer + 6*index;
                bp[0] = X.x;
                bp[1] = X.y;
                bp[2] = X.z;
                bp[3] = BG.x;
                bp[4] = BG.y;
                bp[5] = BG.z;
            }
        }
'''))
def main():
    os.chdir('/')
    names = sys.argv[1:] or list(R)
    for n in names:
        props, edits = R[n]
        subprocess.run(['rm', '-rf', W], check=True)
        os.makedirs(W)
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s && cp -a lib/SDDS/*.a %s/lib/SDDS/ 2>/dev/null; cp -rn _build %s/' % (W, W, W), shell=True)
        bad = False
        for f, a, b in edits:
            s = open(W + '/' + f).read()
            if s.count(a) != 1:
                print(n, 'edit matches', s.count(a), 'times:', a[:60]); bad = True; break
            open(W + '/' + f, 'w').write(s.replace(a, b))
        if bad: continue
        if os.environ.get('APPLY'): continue
        for p in props:
            o = subprocess.run(['python3-vt', '/verif/engine/run.py', p], capture_output=True, text=True, env=dict(os.environ, VC_REPO=W)).stdout
            l = o.strip().split('\n')
            print(n, p, 'quiet' if 'VIOLATION' not in o else 'ALARM ' + ' ; '.join(x for x in l if 'VIOL' in x), '|', l[-1 if 'VIOL' not in o else 0][:110], flush=True)
main()
