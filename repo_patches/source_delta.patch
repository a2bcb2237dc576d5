From d3256640bf4fe27b2feadaabdb9e5e58d59e7508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 01/15] fix: Shift() and Mirror() must transform the last
 trajectory point, too

Both loops stopped one point short, leaving the final stored point
(which is used by integrateFieldTrace and RetardedField) in place.
---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..49f4b97 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -343,7 +343,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -366,7 +366,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From dcb7be96d774a5cdfd8c58f8e2d3d571515c0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 02/15] fix: FieldTrace::get_field(time) must not overflow the
 sample index for times far from the trace

---
 src/fieldtrace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 9f8b816..ad5dc44 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -173,6 +173,8 @@ void FieldTrace::set_field(std::size_t index, ElMagField f)
 ElMagField FieldTrace::get_field(double time)
 {
     double ref = (time-t0)/dt;
+    // no samples there - the index could exceed the integer range
+    if (ref<-1.0 || ref>=(double)N) return ElMagFieldZero;
     int index = (int)floor(ref);
     double frac = ref-(double)index;
     ElMagField f1=ElMagFieldZero;
-- 
2.43.0


From d374d591d5039b85c4a0c41e116bb0e329c9b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:15 +0000
Subject: [PATCH 03/15] fix: FieldTrace::derivative() read outside of traces
 with less than 2 samples

---
 src/fieldtrace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index ad5dc44..9d2c84c 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -201,6 +201,7 @@ Vector FieldTrace::Poynting()
 
 FieldTrace* FieldTrace::derivative()
 {
+    if (N<2) throw(IOexception("FieldTrace::derivative() - at least 2 samples required."));
     // create a new field trace as a copy
     FieldTrace* temp = new FieldTrace(*this);
     if (temp==0) throw(IOexception("FieldTrace::derivative() - error allocating memory."));
-- 
2.43.0


From 2f38f13d6f620be45c17a2e3030b1fdd2acd6e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 04/15] fix: radiated field of particles accelerated along
 their velocity used d(beta*gamma)/dt as gamma*d(beta)/dt

---
 src/particle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 49f4b97..c9fdb7e 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -578,6 +578,8 @@ ElMagField ChargedParticle::RetardedField(int index,
     double gamma = sqrt(gamma2);
     SourceBeta /= gamma;
     SourceBetaPrime /= gamma;
+    // the stored acceleration is d(beta*gamma)/dt which includes the change of gamma
+    SourceBetaPrime -= SourceBeta*dot(SourceBeta,SourceBetaPrime);
     // now compute the distance and direction to the observer
     Vector RVec = ObservationPoint - SourceX;
     double R = RVec.norm();
@@ -747,6 +749,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             SourceBeta/=gamma;
             SourceBetaPrime = A[i1]*(1.0-frac) + A[i2]*frac;
             SourceBetaPrime/=gamma;
+            // the stored acceleration is d(beta*gamma)/dt which includes the change of gamma
+            SourceBetaPrime -= SourceBeta*dot(SourceBeta,SourceBetaPrime);
         }
         // printf("ChargedParticle::RetardedField - SourceX = (%9.6g, %9.6g, %9.6g)\n",SourceX.x,SourceX.y,SourceX.z);
         // compute the distance and direction to the observer
-- 
2.43.0


From c8e97f1d90dfd14931019619a56443cb323aa65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 05/15] fix: extrapolation of the trajectory for the retarded
 field ignored its start time

---
 src/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index c9fdb7e..7dbaa0d 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -651,7 +651,7 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
             // t is always negative
-            double t0 = obs_time;
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From ab3011ab8cb05bcb887a3420b3340b7a9ea16cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 06/15] fix: buffer sizes of observers wrapped at 32 bit

---
 src/mesh.h          | 2 +-
 src/screen.cpp      | 2 +-
 src/screen.h        | 2 +-
 src/snapshot.cpp    | 2 +-
 src/snapshot.h      | 2 +-
 src/source_screen.h | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..b7b6296 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -162,7 +162,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Np*Nt*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Np*Nt*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freed
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..32aa22f 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -273,7 +273,7 @@ double* ScreenObserver<SourceT>::getBuffer()
 template <typename SourceT>
 void ScreenObserver<SourceT>::fromBuffer(double *buffer, std::size_t size)
 {
-    if (size==Nx*Ny*NOTS*6)
+    if (size==getBufferSize())
     {
         double *bp = buffer;
         for (unsigned int ix = 0; ix < Nx; ix++)
diff --git a/src/screen.h b/src/screen.h
index 1345af6..9ce62b0 100644
--- a/src/screen.h
+++ b/src/screen.h
@@ -150,7 +150,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Nx*Ny*NOTS*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Nx*Ny*NOTS*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freeed
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..774ed98 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -201,7 +201,7 @@ double* SnapshotObserver<SourceT>::getBuffer()
 template <typename SourceT>
 void SnapshotObserver<SourceT>::fromBuffer(double *buffer, std::size_t size)
 {
-    if (size==Nx*Ny*6)
+    if (size==getBufferSize())
     {
         ElMagField field;
         double *bp = buffer;
diff --git a/src/snapshot.h b/src/snapshot.h
index b5181fb..e8d847d 100644
--- a/src/snapshot.h
+++ b/src/snapshot.h
@@ -131,7 +131,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Nx*Ny*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Nx*Ny*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freed
diff --git a/src/source_screen.h b/src/source_screen.h
index 20d2d2f..e81d80c 100644
--- a/src/source_screen.h
+++ b/src/source_screen.h
@@ -105,7 +105,7 @@ public:
      *  the field information of either the traces or one of the derivatives
      *  as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() { return Nx*Ny*NOTS*6; };
+    std::size_t getBufferSize() { return (std::size_t)Nx*Ny*NOTS*6; };
 
     /*! Get the energy flow density vector of one trace
      *  integrated over time
-- 
2.43.0


From 251c7532d5bf1807a2cdf1fc69b5e918800c3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 07/15] fix: arrays allocated with new[] were released with
 delete

---
 src/mesh.cpp          | 20 ++++++++++----------
 src/screen.cpp        |  4 ++--
 src/snapshot.cpp      |  2 +-
 src/source_screen.cpp |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..36ec8e5 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -61,7 +61,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     triangle_points = std::vector<Vector>(Ncp);
     for (int icp=0; icp<Ncp; icp++)
         triangle_points[icp] = pos[icp];
-    delete pos;
+    delete[] pos;
     
     // read the position dataset
     dataset = H5Dopen2(file, "ObservationPosition", H5P_DEFAULT);
@@ -87,7 +87,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     field_points = std::vector<Vector>(Np);
     for (int ip=0; ip<Np; ip++)
         field_points[ip] = pos[ip];
-    delete pos;
+    delete[] pos;
 
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
@@ -113,7 +113,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p3 = *bt++;
         triangles[ip] = tri;
     }
-    delete buf;
+    delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
@@ -173,7 +173,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             if (tr==0) throw(IOexception("MeshedScreen - error allocating memory."));
             A[ip] = tr;
         }
-        delete t0_buf;
+        delete[] t0_buf;
     }
 
     // read the field dataset
@@ -206,7 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             trace->set_buffer(buf,Nt);
             buf += Nt;
         }
-        delete field;
+        delete[] field;
     }
         
     status = H5Fclose (file);
@@ -494,7 +494,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshCornerPoints"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshCornerPoints"));
-    delete cbuffer;
+    delete[] cbuffer;
 
     // write the position dataset
     if (DEBUGLEVEL>=2) cout << "writing mesh center points" << endl;
@@ -552,7 +552,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationPosition"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationPosition"));
-    delete pbuffer;
+    delete[] pbuffer;
 
     // write the mesh triangles
     if (DEBUGLEVEL>=2) cout << "writing mesh triangles" << endl;
@@ -610,7 +610,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshTriangles"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshTriangles"));
-    delete tribuffer;
+    delete[] tribuffer;
 
     // write the timing dataset
     if (DEBUGLEVEL>=2) cout << "writing timing" << endl;
@@ -669,7 +669,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationTime"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationTime"));
-    delete t0buffer;
+    delete[] t0buffer;
 
     // write the fields dataset
     if (DEBUGLEVEL>=2) cout << "writing fields" << endl;
@@ -724,7 +724,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ElMagField"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ElMagField"));
-    delete fbuffer;
+    delete[] fbuffer;
 
     // we are done with the file
     status = H5Fclose (file);
diff --git a/src/screen.cpp b/src/screen.cpp
index 32aa22f..dfa9870 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -483,7 +483,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
 // end NEW
 
@@ -548,7 +548,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Fclose()"));
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index 774ed98..9d6d9ea 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete particleBuffer;
+    if (particlesStored>0) delete[] particleBuffer;
 }
 
 template <>
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..2cabeeb 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -192,7 +192,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
@@ -410,7 +410,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
     // Create dataspace for the field data.
     // Setting maximum size to NULL sets the maximum size to be the current size.
@@ -473,7 +473,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Fclose()"));
-- 
2.43.0


From 1f3912af18439c3863c0938987e04ba11a56a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 08/15] fix: size of the field data of a mesh screen overflowed
 int

---
 src/mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 36ec8e5..35dfc6b 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -163,7 +163,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         // now we have all information to create the field traces
         if (teufel::rank==0)
         {
-            std::cout << "allocating " << (double)(6*Np*Nt) * sizeof(double) / 1e6 << " MB of memory per node";
+            std::cout << "allocating " << 6.0*Np*Nt * sizeof(double) / 1e6 << " MB of memory per node";
             std::cout << std::endl << std::endl;
         }    
         A.resize(Np);
@@ -187,7 +187,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
-        ElMagField* field = new ElMagField[Np*Nt];
+        ElMagField* field = new ElMagField[(std::size_t)Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
             H5T_NATIVE_DOUBLE, 		// mem type id
@@ -682,7 +682,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     dataspace = H5Screate_simple (3, fdims, NULL);
     if (dataspace<0) throw(IOexception("MeshedScreen - error creating dataspace for ElMagField"));
     // buffer the data
-    double *fbuffer = new double[Np*Nt*6];
+    double *fbuffer = new double[(std::size_t)Np*Nt*6];
     if (fbuffer==0) throw(IOexception("MeshedScreen - error allocating memory."));
     double *fbp = fbuffer;
     for (int ip=0; ip<Np; ip++)
-- 
2.43.0


From 1e61d8bbc25e5f57c21a783cc59db802bf0db178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 09/15] fix: cell frames of a mesh screen were undefined for
 normals opposite to the y axis

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 35dfc6b..e4e6611 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From b81cdd042b1d73ef93c5462fcf02add1c102ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 10/15] fix: MeshedScreen::get_dt() truncated the time step to
 an integer

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index b7b6296..e5bc978 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 2b1b55f27ae622bf9845e65aba3180a0329c2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 11/15] fix: FEL_1D(time_step, field_size) set the polarisation
 twice and left the magnetic field direction undefined

---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..5671abf 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From c2625841b1c11ee3ecbb6d5d73e3b7c87d2d6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 12/15] fix: FEL_1D without <log> divided by an uninitialised
 output interval

---
 src/fel1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 5671abf..d3ce4e4 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -109,6 +109,7 @@ FEL_1D::FEL_1D(
         if (st) step_Output = st.as_int();
         createOutput = true;
     } else {
+        step_Output = 1;
         createOutput = false;
     }
     // read the optical mode definition
-- 
2.43.0


From 7039145d427214508c9cae5726c4d2b9dc0d518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 13/15] fix: FEL_1D wrote the grid vector as direction of
 propagation into the output file

---
 src/fel1d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index d3ce4e4..2cf941e 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -440,9 +440,9 @@ void FEL_1D::write_output()
         set_double_attribute("origin.x", &origin.x);
         set_double_attribute("origin.y", &origin.y);
         set_double_attribute("origin.z", &origin.z);
-        set_double_attribute("prop.x", &dz.x);
-        set_double_attribute("prop.y", &dz.y);
-        set_double_attribute("prop.z", &dz.z);
+        set_double_attribute("prop.x", &prop.x);
+        set_double_attribute("prop.y", &prop.y);
+        set_double_attribute("prop.z", &prop.z);
         
         // Close and release resources.
         status = H5Pclose (pdcpl);
-- 
2.43.0


From 5dbb3abe25a40303d53cfe49249f6cc973e66b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 14/15] fix: watch point files give the charge of the beam in C

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..a65306f 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From d251bcae9960d12d01790cd4fbb84be64c4bf126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 15/15] fix: file names of any length when reading particles

---
 src/bunch.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..9e5be50 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -192,11 +192,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::string fn(filename);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, &fn[0]) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
-- 
2.43.0

