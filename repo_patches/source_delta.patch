From 19f82172bd40e072834cef5a13710ecdf5e91047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 01/43] fix: Shift and Mirror also move the last trajectory
 point

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..49f4b97 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -343,7 +343,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -366,7 +366,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From 5e604d82fee7a0e06183f7b96e644d172f222760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 02/43] fix: restoring a particle with no trajectory or no
 pre-allocation from a buffer

---
 src/particle.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 49f4b97..3f60f2a 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -141,6 +141,7 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
     VY_gamma_i1 = *b++;
     // now restore the trajectory data
     clearTrajectory();
+    Npre = 0;
     if (nPre > 0) preAllocate(nPre);
     for (int n=0; n<nTraj; n++)
     {
@@ -160,10 +161,15 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
         double az = *b++;
         A.push_back(Vector(ax,ay,az));
     }
-    t_current = Time.back();
-    X_current = X.back();
-    P_current = P.back();
-    A_current = A.back();
+    if (NP > 0)
+    {
+        t_current = Time.back();
+        X_current = X.back();
+        P_current = P.back();
+        A_current = A.back();
+    }
+    else
+        t_current = 0.0;
 }
 
 ChargedParticle::~ChargedParticle()
-- 
2.43.0


From d47f0d020512458b004c4a0609dc07edc742db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 03/43] fix: back-extrapolated retarded field for trajectories
 not starting at t=0

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 3f60f2a..50f4cce 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -654,8 +654,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
-            // t is always negative
-            double t0 = obs_time;
+            // t is always negative and relative to the start of the trajectory
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From 088d91d097ae61ca733347ebce0312f74a8ba8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 04/43] fix: radiation field uses d(beta)/dt also for
 acceleration along the velocity

---
 src/particle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 50f4cce..0406bb8 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -583,6 +583,8 @@ ElMagField ChargedParticle::RetardedField(int index,
     double gamma2 = betagamma2 + 1.0;
     double gamma = sqrt(gamma2);
     SourceBeta /= gamma;
+    // the stored acceleration is d/dt(beta*gamma)
+    SourceBetaPrime -= SourceBeta * dot(SourceBeta,SourceBetaPrime);
     SourceBetaPrime /= gamma;
     // now compute the distance and direction to the observer
     Vector RVec = ObservationPoint - SourceX;
@@ -752,6 +754,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             SourceBetaPrime = A[i1]*(1.0-frac) + A[i2]*frac;
+            // the stored acceleration is d/dt(beta*gamma)
+            SourceBetaPrime -= SourceBeta * dot(SourceBeta,SourceBetaPrime);
             SourceBetaPrime/=gamma;
         }
         // printf("ChargedParticle::RetardedField - SourceX = (%9.6g, %9.6g, %9.6g)\n",SourceX.x,SourceX.y,SourceX.z);
-- 
2.43.0


From 5a3663be6e1936699819200546d441b7087d999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 05/43] fix: radiation arriving within rounding of the
 observation window edge no longer aborts

---
 src/particle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 0406bb8..a027b9a 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -812,8 +812,7 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2>nots) idx2=nots;
+		        int idx2 = (int)fmax(0.0, fmin(round((ts2-t0)/dt), (double)nots));
 		        // handle all fully covered buckets
 		        for (int idx=0; idx<idx2; idx++)
 		        {
@@ -838,10 +837,9 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step start falls
-		        int idx1 = round((ts1-t0)/dt);
+		        int idx1 = (int)fmax(0.0, fmin(round((ts1-t0)/dt), (double)(nots-1)));
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2>nots) idx2=nots;
+		        int idx2 = (int)fmax(0.0, fmin(round((ts2-t0)/dt), (double)nots));
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
 		        {
-- 
2.43.0


From aeaad8d2725d2bffe7da93fe80b1956d322afecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 06/43] fix: derivative of a field trace with less than two
 samples

---
 src/fieldtrace.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 9f8b816..17525c4 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -202,6 +202,12 @@ FieldTrace* FieldTrace::derivative()
     // create a new field trace as a copy
     FieldTrace* temp = new FieldTrace(*this);
     if (temp==0) throw(IOexception("FieldTrace::derivative() - error allocating memory."));
+    // there is no derivative with less than 2 samples
+    if (N<2)
+    {
+        temp->zero();
+        return(temp);
+    }
     // compute the new data
     temp->set_field(0, (trace[1]-trace[0])/dt );
     for (std::size_t i=1; i<N-1; i++)
-- 
2.43.0


From cdff065c6eff43a4024a1daa469223a8f2871625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 07/43] fix: SDDS import with a file name longer than 98
 characters

---
 src/bunch.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..2d624b1 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -27,6 +27,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cstring>
+#include <string>
 #include "SDDS.h"
 #include "hdf5.h"
 
@@ -192,11 +193,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::string fn(filename);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, &fn[0] ) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
-- 
2.43.0


From 73a6c502d2500dbdce694171c6435e55e5694f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 08/43] fix: SDDS import closes the file

---
 src/bunch.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 2d624b1..5fded3e 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -224,6 +224,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read number of particles" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
     // we only assign a local variable here, so NOP stays zero
@@ -237,6 +238,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read charge" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
     double charge = *chData;
@@ -250,6 +252,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read x column" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
 
@@ -259,6 +262,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read xp column" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
 
@@ -268,6 +272,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read y column" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
 
@@ -277,6 +282,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read yp column" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
 
@@ -286,6 +292,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read p column" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
 
@@ -295,9 +302,13 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "cannot read t column" << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
 
+    // all data has been read into memory
+    SDDS_Terminate(&SDDS_dataset);
+
     NOP = file_NOP;
     // t is the arrival time at a given z-plane
     // compute the mean arrival time of the bunch
-- 
2.43.0


From f8afc0e7b4d14e3b04ca398b595b4908b72fabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 09/43] fix: SDDS import checks the stated particle number
 against the data

---
 src/bunch.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 5fded3e..b37bde6 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -230,6 +230,12 @@ Bunch::Bunch(const char *filename, Vector dir)
     // we only assign a local variable here, so NOP stays zero
     // just in case there may be further errors
     int file_NOP = *nopData;
+    if (file_NOP < 1 || file_NOP > (int)SDDS_RowCount(&SDDS_dataset))
+    {
+        std::cout << "number of particles " << file_NOP << " does not match the number of rows" << std::endl;
+        SDDS_Terminate(&SDDS_dataset);
+        return;
+    };
 
     // the file value is the total charge [C] unsigned value
     char chName[] = "Charge";
-- 
2.43.0


From 5ec44daeb79ff40f476d822dd774cfa71c993130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 10/43] fix: charge written to SDDS watch files is in Coulomb

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..a65306f 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From 9e56b0b9749f0dfe5518e564cf8062bf74c6c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 11/43] fix: close all HDF5 attribute handles so that output
 files are really closed

---
 src/fel1d.cpp         |  4 ++++
 src/logger.cpp        | 10 ++++++++++
 src/screen.cpp        | 24 ++++++++++++++++++++++++
 src/snapshot.cpp      |  8 ++++++++
 src/source_screen.cpp | 22 ++++++++++++++++++++++
 5 files changed, 68 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..ca733a4 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -413,6 +413,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_INT, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
@@ -424,6 +426,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_DOUBLE, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
diff --git a/src/logger.cpp b/src/logger.cpp
index fd43482..71e6e89 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -299,6 +299,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -308,6 +310,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -419,6 +423,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -428,6 +434,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -437,6 +445,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOD)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOD);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOD)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOD)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOD)"));
     
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..0124dc7 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -350,6 +350,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx) - old"));
     // attach scalar attribute Nx
@@ -359,6 +361,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny) - old"));
     // Close and release resources.
@@ -420,6 +424,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -429,6 +435,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -438,6 +446,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -447,6 +457,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -456,6 +468,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -465,6 +479,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -474,6 +490,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -523,6 +541,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -531,6 +551,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -539,6 +561,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // Close and release resources.
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..26bf57f 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -275,6 +275,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr1<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr1)"));
     status = H5Awrite(attr1, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr1)"));
+    status = H5Aclose (attr1);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr1)"));
     status = H5Sclose (atts1);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts1)"));
     hid_t atts2  = H5Screate(H5S_SCALAR);
@@ -283,6 +285,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr2<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr2)"));
     status = H5Awrite(attr2, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr2)"));
+    status = H5Aclose (attr2);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr2)"));
     status = H5Sclose (atts2);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts2)"));
     // Close and release resources.
@@ -329,6 +333,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t_obs);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(t0)"));
     // Close and release resources.
@@ -376,6 +382,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
         if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(N_particles)"));
         status = H5Awrite(attr, H5T_NATIVE_INT, &particlesStored);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(N_particles)"));
+        status = H5Aclose (attr);
+        if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(N_particles)"));
         status = H5Sclose (atts);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(N_particles)"));
         // Close and release resources.
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..0b521a1 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -156,6 +156,8 @@ SourceScreen::SourceScreen(
     if (dims[1] != Ny) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[1] != Ny"));
     if (dims[2] != NOTS) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[2] != NOTS"));
     if (dims[3] != 6) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[3] != 6"));
+    status = H5Sclose(dspace);
+    if (status<0) throw(IOexception("SourceScreen - error closing dataspace of ElMagField"));
     
     // buffer the data
     if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
@@ -346,6 +348,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -355,6 +359,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -364,6 +370,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -374,6 +382,8 @@ void SourceScreen::WriteField(
     double t0_src = 0.0;
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -383,6 +393,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -392,6 +404,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -401,6 +415,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -448,6 +464,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -456,6 +474,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -464,6 +484,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // Close and release resources.
-- 
2.43.0


From d47ff7beaf589a21c6450ef9f4951d408a806575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 12/43] fix: arrays are released with delete[]

---
 src/mesh.cpp          | 20 ++++++++++----------
 src/screen.cpp        |  4 ++--
 src/snapshot.cpp      |  2 +-
 src/source_screen.cpp |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..36ec8e5 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -61,7 +61,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     triangle_points = std::vector<Vector>(Ncp);
     for (int icp=0; icp<Ncp; icp++)
         triangle_points[icp] = pos[icp];
-    delete pos;
+    delete[] pos;
     
     // read the position dataset
     dataset = H5Dopen2(file, "ObservationPosition", H5P_DEFAULT);
@@ -87,7 +87,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     field_points = std::vector<Vector>(Np);
     for (int ip=0; ip<Np; ip++)
         field_points[ip] = pos[ip];
-    delete pos;
+    delete[] pos;
 
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
@@ -113,7 +113,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p3 = *bt++;
         triangles[ip] = tri;
     }
-    delete buf;
+    delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
@@ -173,7 +173,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             if (tr==0) throw(IOexception("MeshedScreen - error allocating memory."));
             A[ip] = tr;
         }
-        delete t0_buf;
+        delete[] t0_buf;
     }
 
     // read the field dataset
@@ -206,7 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             trace->set_buffer(buf,Nt);
             buf += Nt;
         }
-        delete field;
+        delete[] field;
     }
         
     status = H5Fclose (file);
@@ -494,7 +494,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshCornerPoints"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshCornerPoints"));
-    delete cbuffer;
+    delete[] cbuffer;
 
     // write the position dataset
     if (DEBUGLEVEL>=2) cout << "writing mesh center points" << endl;
@@ -552,7 +552,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationPosition"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationPosition"));
-    delete pbuffer;
+    delete[] pbuffer;
 
     // write the mesh triangles
     if (DEBUGLEVEL>=2) cout << "writing mesh triangles" << endl;
@@ -610,7 +610,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshTriangles"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshTriangles"));
-    delete tribuffer;
+    delete[] tribuffer;
 
     // write the timing dataset
     if (DEBUGLEVEL>=2) cout << "writing timing" << endl;
@@ -669,7 +669,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationTime"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationTime"));
-    delete t0buffer;
+    delete[] t0buffer;
 
     // write the fields dataset
     if (DEBUGLEVEL>=2) cout << "writing fields" << endl;
@@ -724,7 +724,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ElMagField"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ElMagField"));
-    delete fbuffer;
+    delete[] fbuffer;
 
     // we are done with the file
     status = H5Fclose (file);
diff --git a/src/screen.cpp b/src/screen.cpp
index 0124dc7..6db9f3f 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -501,7 +501,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
 // end NEW
 
@@ -572,7 +572,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Fclose()"));
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index 26bf57f..809086c 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete particleBuffer;
+    delete[] particleBuffer;
 }
 
 template <>
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 0b521a1..908d11e 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -194,7 +194,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
@@ -426,7 +426,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
     // Create dataspace for the field data.
     // Setting maximum size to NULL sets the maximum size to be the current size.
@@ -495,7 +495,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Fclose()"));
-- 
2.43.0


From 5cb28ccbece2ab2aa52b48bb9f688071fd7b8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 13/43] fix: time step of a meshed screen is reported as a
 floating point number

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..4c50044 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 5cb12204f03e389d24e18b14fdd40612712531e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 14/43] fix: cell coordinate systems of a mesh facing the
 negative y direction

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 36ec8e5..815533d 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From 3af875546831a47c3fccd4c74aabf36212f2fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 15/43] fix: fields of a source screen keep the orientation in
 which they were recorded

---
 src/source_screen.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 908d11e..47e4737 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -183,11 +183,9 @@ SourceScreen::SourceScreen(
     	    FieldTrace* tr = new FieldTrace(CellTimeZero(ix,iy),dt_src,NOTS);
     	    if (tr==0) throw(IOexception("SourceScreen - error allocating memory."));
     	    tr -> set_buffer(b, NOTS);
-    	    // the field data are expressed in screen-local coordinates
-    	    tr -> transform(ex,ey,normal);
     	    // coax the fields to be purely transversal
-    	    // (cancel the z component in the screen-local frame)
-    	    tr -> cancel_long_fields(Vector(0.0,0.0,1.0));
+    	    // (cancel the component normal to the screen)
+    	    tr -> cancel_long_fields(normal);
     	    Traces[ix][iy] = tr;
     	    b+=NOTS;
     	};
-- 
2.43.0


From b43ff18295818217c202f40395c3b03c19d11b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 16/43] fix: orthogonalisation of the grid vectors of a source
 screen

---
 src/source_screen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 47e4737..47c00c1 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -119,7 +119,7 @@ SourceScreen::SourceScreen(
     dX *= dx;
     dy = dY.norm();
     dY -= normal*dot(dY,normal);
-    dY -= dX*dot(dY,dX);
+    dY -= ex*dot(dY,ex);
     dY.normalize();
     ey = dY;
     dY *= dy;
-- 
2.43.0


From 00d005a49cb69d674e6663853e6d3424f1f663cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:19 +0000
Subject: [PATCH 17/43] fix: propagate requires three arguments

---
 src/propagate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index ab8b79d..f9bcc0f 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -62,7 +62,7 @@ int main(int argc, char* argv[])
     std::cout << std::endl;
     std::cout << "Propagate Radiation from Screen to Screen" << std::endl << std::endl;
     
-    if (argc<3)
+    if (argc<4)
     {
         std::cout << "Usage: propagate sourcefile targetfile outfile" << std::endl;
         return 1;
-- 
2.43.0


From 9f34b2607d494b0fc8ab7647807136309dcbc2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:19 +0000
Subject: [PATCH 18/43] fix: propagation from meshes with more than 24 cells
 meeting in one neighbourhood

---
 src/propagate.cpp  | 6 +++---
 src/reflection.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index f9bcc0f..a1d82bc 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -152,8 +152,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -187,7 +187,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 18fa839..3709805 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -234,8 +234,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -269,7 +269,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
-- 
2.43.0


From 6ad120f1b6b03a2738d4636d35a4a64674634ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 19/43] fix: sign of the fields reflected by a screen

---
 src/reflection.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reflection.cpp b/src/reflection.cpp
index 3709805..f537571 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -449,6 +449,8 @@ int main(int argc, char* argv[])
     // **************************************
     // propagate the fields to the target
     // **************************************
+    // The normals of the mirror surface point towards the incident beam, the reflected fields
+    // propagate into the half-space the normals point to.
     
     std::cout << std::endl << "propagating the fields ..." << std::endl;
     // record the start time
@@ -492,7 +494,7 @@ int main(int argc, char* argv[])
                 try
                 {
                     t1.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/R3) * dA;
+                    propagated_trace += component * (dot(RVec,Normal)/R3) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -513,7 +515,7 @@ int main(int argc, char* argv[])
                 {
                     FieldTrace t2 = *source_dA_dt[isource];
                     t2.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
+                    propagated_trace += component * (dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -526,8 +528,7 @@ int main(int argc, char* argv[])
                 {
                     FieldTrace t3 = *source_dA_dn[isource];
                     t3.retard(R/SpeedOfLight, &component);
-                    //! @todo why is this term positive - should be negative
-                    propagated_trace += component * (1.0/R) * dA;
+                    propagated_trace += component * (-1.0/R) * dA;
                 }
                 catch(IOexception const & exc)
                 {
-- 
2.43.0


From 33bbb647d624d3d3240c8c53eb3d5070e5990019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 20/43] fix: calculations inside of undulator and dipole nodes
 are evaluated only once

---
 src/dipole.cpp    | 4 ++--
 src/undulator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index cda844e..968337f 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -47,7 +47,7 @@ HardEdgeDipole::HardEdgeDipole(Vector B, Vector p1, Vector n1, Vector p2, Vector
 HardEdgeDipole::HardEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::HardEdgeDipole - <B> not found."));
@@ -147,7 +147,7 @@ SoftEdgeDipole::SoftEdgeDipole(Vector B, Vector p1, Vector n1, double t1, Vector
 SoftEdgeDipole::SoftEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::SoftEdgeDipole - <B> not found."));
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 88851c8..d5252a4 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -39,7 +39,7 @@ PlanarUndulator::PlanarUndulator(Vector pos) :
 PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::PlanarUndulator - undulator <position> not found."));
@@ -140,7 +140,7 @@ TransverseGradientUndulator::TransverseGradientUndulator(Vector pos) :
 TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
+    // parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::TransverseGradientUndulator - undulator <position> not found."));
-- 
2.43.0


From 26bcca627591384e411643de639084abe2b6509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 21/43] fix: pre-defined calculator constant _mu0

---
 src/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 5b87dfd..d10d1d6 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -48,6 +48,7 @@ InputParser::InputParser(const pugi::xml_node node)
     calc->DefineConst("_h", (double)PlanckH);
     calc->DefineConst("_mec2", (double)mecsquared);
     calc->DefineConst("_eps0", (double)EpsNull);
+    calc->DefineConst("_mu0", (double)MuNull);
     calc->DefineConst("_pi", (double)Pi);
     // evaluate all <calc> nodes present as children of root
     parseCalcChildren(root);
-- 
2.43.0


From 63d371986e921e13380b4153850e77ccecb0a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 22/43] fix: definitions inside of <correlations> are no
 unknown correlations

---
 src/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index d10d1d6..895a92a 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -471,7 +471,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                                 throw(IOexception("InputParser::parseBeam - correlation factor not found."));
                             // std::cout << "correlation " << fac << " " << ind << " -> " << dep << " added" << endl;
                             dist->addCorrelation(ind, dep, fac);
-                        } else {
+                        } else if (ctype != "calc") {
                             throw(IOexception("InputParser::parseBeam - unknown type of correlation."));
                         }
                     };
@@ -568,7 +568,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                                 throw(IOexception("InputParser::parseBeam <SDDS> - correlation factor not found."));
                             // std::cout << "correlation " << fac << " " << ind << " -> " << dep << " added" << endl;
                             bunch->addCorrelation(ind, dep, fac);
-                        } else {
+                        } else if (ctype != "calc") {
                             throw(IOexception("InputParser::parseBeam <SDDS> - unknown type of correlation."));
                         }
                     };
-- 
2.43.0


From c4b399a8f3f7c181ee90958dd2480e3f14866c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 23/43] fix: definitions inside of an <SDDS> node are evaluated

---
 src/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 895a92a..fdacb9e 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -522,6 +522,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 pugi::xml_attribute sddsname = entry.attribute("file");
                 if (!sddsname)
                     throw(IOexception("InputParser::parseBeam - <SDDS> attribute file not found."));   
+                parseCalcChildren(entry);
                 // parse propagation  direction of the input beam
                 Vector dir = Vector(0.0, 0.0, 1.0);
                 pugi::xml_node dirnode = entry.child("dir");
-- 
2.43.0


From 1f6a4082fdd7cc06be390df115385b7355200fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 24/43] fix: polarization vectors of the default FEL_1D field

---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ca733a4..d8a1530 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From 2c72054c96f993cc49260220d23994e218547929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 25/43] fix: FEL_1D field with less than two grid cells is
 rejected

---
 src/fel1d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index d8a1530..b9ae234 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -138,6 +138,9 @@ FEL_1D::FEL_1D(
 void FEL_1D::setup(double ZR, double w0, double z_w)
 {
     // proper orthonormalization of (e_x, e_y, prop) is assumed
+    // the stepping algorithm needs at least two grid cells
+    if (N_field<2)
+        throw(IOexception("FEL1D::setup() - the field must have at least 2 grid cells."));
     dz = prop * (-dt*SpeedOfLight);
     field_E = std::vector<double>(N_field, 0.0);
     previous_E = field_E;
-- 
2.43.0


From 7c4552267151b0b632b7351acaf52ceaf107a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 26/43] fix: logging step zero is rejected

---
 src/fel1d.cpp  | 2 ++
 src/logger.cpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index b9ae234..63d05a7 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -107,6 +107,8 @@ FEL_1D::FEL_1D(
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
         if (st) step_Output = st.as_int();
+        if (step_Output<1)
+            throw(IOexception("InputParser::FEL1D - <log> step must be positive."));
         createOutput = true;
     } else {
         createOutput = false;
diff --git a/src/logger.cpp b/src/logger.cpp
index 71e6e89..e20c7f6 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -42,6 +42,8 @@ ParameterLogger<objectT>::ParameterLogger(objectT *obj, const char *filename, in
     Beam = obj;
     NOTS = 0;
     fn = filename;
+    if (step<1)
+        throw(IOexception("ParameterLogger - step must be positive."));
     stepsize = step;
     include_bunching = false;
     // no need to initalize the (static) fields
@@ -221,6 +223,8 @@ TrajectoryLogger<objectT>::TrajectoryLogger(objectT *obj, const char *filename,
     Beam = obj;
     NOTS = 0;
     FileName = filename;
+    if (step<1)
+        throw(IOexception("TrajectoryLogger - step must be positive."));
     stepsize = step;
     NOP = Beam->getNOP();
     if (NOP>number) NOP=number;
@@ -344,6 +348,8 @@ ProbeLogger<objectT>::ProbeLogger(objectT *obj, const char *filename, unsigned i
     Beam = obj;
     NOTS = 0;
     FileName = filename;
+    if (step<1)
+        throw(IOexception("ProbeLogger - step must be positive."));
     stepsize = step;
     NOP = Beam->getNOP();
     if (NOP>number) NOP=number;
-- 
2.43.0


From d9de694621a8b0ea794fdd6e2b87ff08eb4d73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 27/43] fix: fields observed from the lattice are not
 multiplied by the number of nodes

---
 src/teufel_hybrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..7733e71 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -709,8 +709,10 @@ int main(int argc, char *argv[])
         }
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
+            // the lattice is the same on all nodes and all fields are summed up later on,
+            // so only one node may contribute
             obs->setSource(lattice);
-            obs->integrate();
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From e01952588435f7155f3bf9f39ad669309e8438ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 28/43] fix: FEL_1D without log definition uses an undefined
 output step

---
 src/fel1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 63d05a7..869c099 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -112,6 +112,7 @@ FEL_1D::FEL_1D(
         createOutput = true;
     } else {
         createOutput = false;
+        step_Output = 1;
     }
     // read the optical mode definition
     pugi::xml_node mode = node.child("mode");
-- 
2.43.0


From 978160d983cb7e854dc7708e5440b394b0b20770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 29/43] fix: debug files of a recorded screen are written by
 all nodes at once

---
 src/source_screen.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 47c00c1..697c35f 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -220,8 +220,12 @@ SourceScreen::SourceScreen(
     // when we are done we write the field to files
     // for debugging purpose only
     //! @todo remove this
-    WriteField("SourceScreenTraces_DEBUG.h5", Traces);
-    WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    // all nodes read the screen, but only one may write the files
+    if (teufel::rank==0)
+    {
+        WriteField("SourceScreenTraces_DEBUG.h5", Traces);
+        WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    }
   
 }
 
-- 
2.43.0


From 6131ab1ca013d07a23a05b5882cb3b536def5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 30/43] fix: negative logging step is taken for a very large
 one

---
 src/logger.cpp | 4 ++--
 src/logger.h   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index e20c7f6..f3fb4a8 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -218,7 +218,7 @@ template class ParameterLogger<Bunch>;
 // ********** class TrajectoryLogger **********
 
 template <class objectT>
-TrajectoryLogger<objectT>::TrajectoryLogger(objectT *obj, const char *filename, unsigned int step, unsigned int number)
+TrajectoryLogger<objectT>::TrajectoryLogger(objectT *obj, const char *filename, int step, unsigned int number)
 {
     Beam = obj;
     NOTS = 0;
@@ -343,7 +343,7 @@ template class TrajectoryLogger<Bunch>;
 // ********** class ProbeLogger **********
 
 template <class objectT>
-ProbeLogger<objectT>::ProbeLogger(objectT *obj, const char *filename, unsigned int step, unsigned int number)
+ProbeLogger<objectT>::ProbeLogger(objectT *obj, const char *filename, int step, unsigned int number)
 {
     Beam = obj;
     NOTS = 0;
diff --git a/src/logger.h b/src/logger.h
index 3520fc3..e3dc61f 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -205,7 +205,7 @@ public:
      * \param[in] step the logging frequency in tracking steps.
      * \param[in] limit the maximum number of particles to be logged.
      */
-    TrajectoryLogger(objectT *obj, const char *filename, unsigned int step, unsigned int limit);
+    TrajectoryLogger(objectT *obj, const char *filename, int step, unsigned int limit);
 
     /*! The destructor frees all buffers*/
     virtual ~TrajectoryLogger();
@@ -252,7 +252,7 @@ struct ProbeInfo
     bool requested;
     Beam *beam;
     const char *filename;
-    unsigned int step;
+    int step;
     unsigned int number;
 };
 
@@ -290,7 +290,7 @@ public:
      * \param[in] step the logging frequency in tracking steps.
      * \param[in] limit the maximum number of particles to be logged.
      */
-    ProbeLogger(objectT *obj, const char *filename, unsigned int step, unsigned int limit);
+    ProbeLogger(objectT *obj, const char *filename, int step, unsigned int limit);
 
     /*! The destructor frees all buffers*/
     virtual ~ProbeLogger();
-- 
2.43.0


From d60f37cd669f3e10f03a8d7c33a42d51d4e787ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 31/43] fix: observer grids without or with a negative number
 of cells are rejected

---
 src/parser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index fdacb9e..08ed95f 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -733,6 +733,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                 pugi::xml_attribute nh = hnode.attribute("n");
                 if (!nh)
                     throw(IOexception("InputParser::parseObservers - <snapshot> <hpitch> attribute n not found."));
+                if (nh.as_int()<1)
+                    throw(IOexception("InputParser::parseObservers - <snapshot> <hpitch> attribute n must be positive."));
                 pugi::xml_node vnode = obs.child("vpitch");
                 if (!vnode)
                     throw(IOexception("InputParser::parseObservers - <snapshot> <vpitch> not found."));
@@ -743,6 +745,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                 pugi::xml_attribute nv = vnode.attribute("n");
                 if (!nv)
                     throw(IOexception("InputParser::parseObservers - <snapshot> <vpitch> attribute n not found."));
+                if (nv.as_int()<1)
+                    throw(IOexception("InputParser::parseObservers - <snapshot> <vpitch> attribute n must be positive."));
                 pugi::xml_attribute src = obs.attribute("source");
                 BaseObserver *snapObs;
                 if (src)
@@ -811,6 +815,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                 pugi::xml_attribute nh = hnode.attribute("n");
                 if (!nh)
                     throw(IOexception("InputParser::parseObservers - <screen> <hpitch> attribute n not found."));
+                if (nh.as_int()<1)
+                    throw(IOexception("InputParser::parseObservers - <screen> <hpitch> attribute n must be positive."));
                 pugi::xml_node vnode = obs.child("vpitch");
                 if (!vnode)
                     throw(IOexception("InputParser::parseObservers - <screen> <vpitch> not found."));
@@ -826,6 +832,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                 pugi::xml_attribute nv = vnode.attribute("n");
                 if (!nv)
                     throw(IOexception("InputParser::parseObservers - <screen> <vpitch> attribute n not found."));
+                if (nv.as_int()<1)
+                    throw(IOexception("InputParser::parseObservers - <screen> <vpitch> attribute n must be positive."));
                 pugi::xml_node tnode = obs.child("time");
                 if (!tnode)
                     throw(IOexception("InputParser::parseObservers - <screen> <time> not found."));
@@ -834,6 +842,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                 pugi::xml_attribute nt = tnode.attribute("n");
                 if (!nt)
                     throw(IOexception("InputParser::parseObservers - <screen> <time> attribute n not found."));
+                if (nt.as_int()<1)
+                    throw(IOexception("InputParser::parseObservers - <screen> <time> attribute n must be positive."));
                 pugi::xml_attribute src = obs.attribute("source");
                 BaseObserver *screenObs;
                 if (src)
@@ -934,6 +944,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                 pugi::xml_attribute nt = tnode.attribute("n");
                 if (!nt)
                     throw(IOexception("InputParser::parseObservers - <point> <time> attribute n not found."));
+                if (nt.as_int()<1)
+                    throw(IOexception("InputParser::parseObservers - <point> <time> attribute n must be positive."));
                 pugi::xml_attribute src = obs.attribute("source");
                 if (src)
                 {
-- 
2.43.0


From a91760c753c19f73978a0608dbb5b2347ee6c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 32/43] fix: sizes inconsistent with the data of mesh and
 screen files cause out-of-bounds access

---
 src/mesh.cpp          | 20 ++++++++++++++++++++
 src/source_screen.cpp |  9 +++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 815533d..4a0e3ba 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -27,6 +27,18 @@
 #include <omp.h>
 #include "hdf5.h"
 
+/*! Check that an opened dataset holds exactly the number of values for which we provide memory.
+ *  The sizes are given as attributes, which could be inconsistent with the data.
+ */
+static void checkDatasetSize(hid_t dataset, double expected, const char *message)
+{
+    hid_t dspace = H5Dget_space(dataset);
+    if (dspace<0) throw(IOexception(message));
+    hssize_t available = H5Sget_simple_extent_npoints(dspace);
+    H5Sclose(dspace);
+    if ((double)available != expected) throw(IOexception(message));
+}
+
 template <typename SourceT>
 MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 {
@@ -47,6 +59,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
+    checkDatasetSize(dataset, 3.0*Ncp, "MeshedScreen - dataset MeshCornerPoints size mismatch to attribute Ncp");
     Vector *pos = new Vector[Ncp];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -72,6 +85,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
+    checkDatasetSize(dataset, 3.0*Np, "MeshedScreen - dataset ObservationPosition size mismatch to attribute Np");
     // create and fill a buffer
     pos = new Vector[Np];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
@@ -92,6 +106,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset MeshTriangles"));
+    checkDatasetSize(dataset, 3.0*Np, "MeshedScreen - dataset MeshTriangles size mismatch to number of positions");
     int* buf = new int[3*Np];
     if (buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -111,6 +126,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p1 = *bt++;
         tri.p2 = *bt++;
         tri.p3 = *bt++;
+        if (tri.p1<0 || tri.p1>=Ncp || tri.p2<0 || tri.p2>=Ncp || tri.p3<0 || tri.p3>=Ncp)
+            throw(IOexception("MeshedScreen - dataset MeshTriangles refers to unknown corner points"));
         triangles[ip] = tri;
     }
     delete[] buf;
@@ -149,6 +166,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
+        if (Nt<0) throw(IOexception("MeshedScreen - negative dataset ObservationTime attribute Nt"));
+        checkDatasetSize(dataset, Np, "MeshedScreen - dataset ObservationTime size mismatch to number of positions");
         double* t0_buf = new double[Np];
         if (t0_buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
@@ -187,6 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
+        checkDatasetSize(dataset, 6.0*Np*Nt, "MeshedScreen - dataset ElMagField size mismatch to positions and times");
         ElMagField* field = new ElMagField[Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 697c35f..ea783fe 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -96,6 +96,11 @@ SourceScreen::SourceScreen(
         }
         
     // read the vectors
+    hid_t gspace = H5Dget_space(dataset);
+    if (H5Sget_simple_extent_npoints(gspace) != 4*3)
+        throw(IOexception("SourceScreen - error reading dataset Screen - size is not 4x3"));
+    status = H5Sclose(gspace);
+    if (status<0) throw(IOexception("SourceScreen - error closing dataspace of Screen"));
     double* buf = new double[4*3];
     if (buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -142,8 +147,6 @@ SourceScreen::SourceScreen(
     }    
 
     // read the field dataset
-    ElMagField* field_buf = new ElMagField[getBufferSize()];
-    if (field_buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
     
     // sanity check the field sizes
@@ -160,6 +163,8 @@ SourceScreen::SourceScreen(
     if (status<0) throw(IOexception("SourceScreen - error closing dataspace of ElMagField"));
     
     // buffer the data
+    ElMagField* field_buf = new ElMagField[getBufferSize()];
+    if (field_buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
     status = H5Dread (dataset,
         H5T_NATIVE_DOUBLE, 		// mem type id
-- 
2.43.0


From 40b19bd28f6dc1a6fb593611c2f516161941f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 33/43] fix: reading SDDS watch files with scripts/teufel.py
 fails with a NameError

---
 scripts/teufel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scripts/teufel.py b/scripts/teufel.py
index 53d9666..aedcdf7 100644
--- a/scripts/teufel.py
+++ b/scripts/teufel.py
@@ -279,9 +279,16 @@ class TeufelWatch():
             yp = np.array(data.getColumnData("yp"))
             p = np.array(data.getColumnData("p"))
             watch.z = np.array(data.getColumnData("z"))
-            watch.bgz = p*np.sqrt(1.0-np.square(xp)-np.square(yp))
-            watch.bgx = bgz*xp
-            watch.bgy = bgz*yp
+            if ("px" in data.columnName) and ("py" in data.columnName) and ("pz" in data.columnName):
+                # files written by TEUFEL contain the momentum vector
+                watch.bgx = np.array(data.getColumnData("px"))
+                watch.bgy = np.array(data.getColumnData("py"))
+                watch.bgz = np.array(data.getColumnData("pz"))
+            else:
+                # xp and yp are the slopes px/pz and py/pz
+                watch.bgz = p/np.sqrt(1.0+np.square(xp)+np.square(yp))
+                watch.bgx = watch.bgz*xp
+                watch.bgy = watch.bgz*yp
         watch.NOP = watch.x.shape[0]
         print(f'have read {watch.NOP} particles.')
         # compute more particle properties
-- 
2.43.0


From 6659fed48a0a2d3bf5bc146fd36c9e01bc9ae112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 34/43] fix: frequency axis of the spectra computed by the
 screen scripts is stretched by nf/(nf-1)

---
 scripts/screen.py | 4 ++--
 scripts/teufel.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/screen.py b/scripts/screen.py
index ff0e537..0c2c557 100644
--- a/scripts/screen.py
+++ b/scripts/screen.py
@@ -190,7 +190,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EH)[:nf//2]
@@ -204,7 +204,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EV)[:nf//2]
diff --git a/scripts/teufel.py b/scripts/teufel.py
index aedcdf7..2730298 100644
--- a/scripts/teufel.py
+++ b/scripts/teufel.py
@@ -203,7 +203,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EH)[:nf//2]
@@ -217,7 +217,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EV)[:nf//2]
-- 
2.43.0


From a6059537de0ad292f7ad4c306e661209d6cb0803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 35/43] fix: plot_Watch.py computes wrong momenta from SDDS
 watch files

---
 scripts/plot_Watch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/plot_Watch.py b/scripts/plot_Watch.py
index 4b668a3..45e6be2 100755
--- a/scripts/plot_Watch.py
+++ b/scripts/plot_Watch.py
@@ -101,7 +101,8 @@ if is_sdds:
     yp = np.array(data.getColumnData("yp"))
     p = np.array(data.getColumnData("p"))
     z = np.array(data.getColumnData("z"))
-    bgz = p*np.sqrt(1.0-np.square(xp)-np.square(yp))
+    # xp and yp are the slopes px/pz and py/pz
+    bgz = p/np.sqrt(1.0+np.square(xp)+np.square(yp))
     bgx = bgz*xp
     bgy = bgz*yp
     print(f'have read {x.shape} particles.')
-- 
2.43.0


From 3050b67fd119f252e5c28989c9a41669c423816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 36/43] fix: scripts/MeshedFields.py cannot interpolate at the
 last sample of a trace

---
 scripts/MeshedFields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/MeshedFields.py b/scripts/MeshedFields.py
index 813f2c9..64c7367 100644
--- a/scripts/MeshedFields.py
+++ b/scripts/MeshedFields.py
@@ -392,7 +392,11 @@ def InterpolateTrace(trace,t0,dt,t):
     else:
         index = int(math.floor((t-t0)/dt))
         frac = (t-t0)/dt-index
-        field = trace[index]*(1.0-frac) + trace[index+1]*frac
+        if index+1<NOTS:
+            field = trace[index]*(1.0-frac) + trace[index+1]*frac
+        else:
+            # exactly at the end of the trace
+            field = trace[NOTS-1]
     return field
     
 def ShowTrace(trace,t0,dt):
-- 
2.43.0


From 5a1cd7d02cfec48bb17b94bff735a9a4d275dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 37/43] fix: plot_PointObservation.py draws the fields at the
 recorded times

---
 scripts/plot_PointObservation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_PointObservation.py b/scripts/plot_PointObservation.py
index 9e0e5a2..825ce84 100755
--- a/scripts/plot_PointObservation.py
+++ b/scripts/plot_PointObservation.py
@@ -57,7 +57,7 @@ for file in args.files:
         dt = data.getParameterValue("dt")
         nots = data.getParameterValue("NumberTimeSteps")
         print(r'%d steps starting at t0=%12.3g s step dt=%12.3g s' % (nots,t0,dt))
-        t = (np.linspace(t0, t0+nots*dt, num=nots)+0.5*dt)*1e9
+        t = (t0 + dt*np.arange(nots))*1e9
     else:
         print("unable to read the timing")
         sys.exit()
-- 
2.43.0


From 3dc28ab02bd1cf1718fa047d3e7f7d05e70fe2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 38/43] fix: frequency axis of the plotted spectra was
 stretched by nf/(nf-1)

---
 scripts/plot_MeshedField.py      | 2 +-
 scripts/plot_PointObservation.py | 2 +-
 scripts/plot_Screen_Cross.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/plot_MeshedField.py b/scripts/plot_MeshedField.py
index 750b97a..5aafc75 100755
--- a/scripts/plot_MeshedField.py
+++ b/scripts/plot_MeshedField.py
@@ -61,7 +61,7 @@ print("total pulse energy = %.6g µJ" % (1e6*np.dot(area,Pz)))
 
 nf = screen.Nt
 fmax = 1.0/screen.dt
-f = np.linspace(0.0,fmax,nf)[:nf//2]
+f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
 df=1.0/screen.dt/nf
 print()
 print("trace length = %d" % screen.Nt)
diff --git a/scripts/plot_PointObservation.py b/scripts/plot_PointObservation.py
index 825ce84..1e2f47a 100755
--- a/scripts/plot_PointObservation.py
+++ b/scripts/plot_PointObservation.py
@@ -103,7 +103,7 @@ for file in args.files:
     if args.spectrum:
         nf = nots
         fmax = 1.0/dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/dt/nf
         spectE = np.fft.fft(Ex)[:nf//2]
         spectB = np.fft.fft(By)[:nf//2]
diff --git a/scripts/plot_Screen_Cross.py b/scripts/plot_Screen_Cross.py
index 0692215..038afe6 100755
--- a/scripts/plot_Screen_Cross.py
+++ b/scripts/plot_Screen_Cross.py
@@ -78,7 +78,7 @@ Bz = BVec[:,2]
 nf = screen.nots
 dt = screen.dt
 fmax = 1.0/dt
-f = np.linspace(0.0,fmax,nf)[:nots//2]
+f = np.linspace(0.0,fmax,nf,endpoint=False)[:nots//2]
 df=1.0/screen.dt/nf
 spectE = np.fft.fft(Ex)[:nots//2]
 # print spectE[:30]
-- 
2.43.0


From 3b0702c588f8763eac4955bb6c8cb922a3c12a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 39/43] fix: plot_Screen_Cross.py scales the fit of a
 horizontal cross section with dx

---
 scripts/plot_Screen_Cross.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_Screen_Cross.py b/scripts/plot_Screen_Cross.py
index 038afe6..6c82bf1 100755
--- a/scripts/plot_Screen_Cross.py
+++ b/scripts/plot_Screen_Cross.py
@@ -147,7 +147,7 @@ if plotdir == 'y':
 else:
     Np = Nx
     xp = [screen.screenPos(i,ply)[0] for i in range(Nx)]
-    dp = screen.dy
+    dp = screen.dx
 totamp = np.zeros(Np)
 roiamp = np.zeros(Np)
 Nf = nots//2
-- 
2.43.0


From 4da568be4534d29e0fb726dee1480324d4751110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 40/43] fix: plot_Screen_Cross.py failed or mislabelled the
 frequencies of the spectral map

---
 scripts/plot_Screen_Cross.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/plot_Screen_Cross.py b/scripts/plot_Screen_Cross.py
index 6c82bf1..8113896 100755
--- a/scripts/plot_Screen_Cross.py
+++ b/scripts/plot_Screen_Cross.py
@@ -151,9 +151,9 @@ else:
 totamp = np.zeros(Np)
 roiamp = np.zeros(Np)
 Nf = nots//2
-fp = np.arange(0.0,df*Nf,df)
+fp = df*np.arange(Nf)
 if args.fmax != None:
-    Nf = np.ceil(args.fmax/df).astype('int')
+    Nf = min(Nf, np.ceil(args.fmax/df).astype('int'))
     fp = fp[0:Nf]
 specdens = np.zeros((Np,Nf))
 for ip in range(Np):
@@ -213,7 +213,7 @@ ax1.legend()
 
 fig3 = plt.figure(3,figsize=(12,9))
 ax3 = fig3.add_subplot(111)
-plt.contourf(xp, fp, 1e6*1e12*specdens.transpose(), 15, cmap='CMRmap')
+plt.contourf(xp, 1e-12*fp, 1e6*1e12*specdens.transpose(), 15, cmap='CMRmap')
 plt.title('spectral energy density [$\mu$J/(m$^2$ THz]')
 if plotdir == 'y':
     plt.xlabel('pos y[m]')
-- 
2.43.0


From c7985149b1cf40a767f6bc95ea343868291b15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 41/43] fix: ChargedParticle::Mirror left the momentum of the
 running tracking unmirrored

---
 src/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index a027b9a..4bfcaac 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -372,6 +372,8 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
+    // the momentum carried over to the next tracking step
+    VY_p_i1 -= normal*dot(VY_p_i1,normal)*2.0;
     for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
-- 
2.43.0


From df428c251593344da3cf7c786236120c5f9a8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 42/43] fix: text SDDS files which could not be written
 completely were reported as written

---
 src/logger.cpp         | 6 ++++++
 src/point_observer.cpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index f3fb4a8..c95cb55 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -199,6 +199,12 @@ int ParameterLogger<objectT>::WriteData()
 	    cout << "WriteSDDS - error writing page\n";
 	    return 8;
     }
+    // the library does not report failures to write the buffered text
+    if (fflush(data.layout.fp) != 0 || ferror(data.layout.fp))
+    {
+	    cout << "WriteSDDS - error writing page\n";
+	    return 8;
+    }
     // finalize the file
     if (SDDS_Terminate(&data) !=1 )
     {
diff --git a/src/point_observer.cpp b/src/point_observer.cpp
index 43deb37..6ebde34 100644
--- a/src/point_observer.cpp
+++ b/src/point_observer.cpp
@@ -172,6 +172,9 @@ void PointObserver<SourceT>::WriteTimeDomainFieldSDDS()
     }
     if( SDDS_WritePage(&data) != 1)
     	throw(IOexception("PointObserver::WriteTimeDomainFieldSDDS - error in WritePage()"));
+    // the library does not report failures to write the buffered text
+    if (fflush(data.layout.fp) != 0 || ferror(data.layout.fp))
+    	throw(IOexception("PointObserver::WriteTimeDomainFieldSDDS - error in WritePage()"));
     // finalize the file
     if (SDDS_Terminate(&data) !=1 )
     	throw(IOexception("PointObserver::WriteTimeDomainFieldSDDS - error in Terminate()"));
-- 
2.43.0


From fde81630f2f6e8159021d5fa413d9e5cb26a4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 43/43] fix: a logger or field output that cannot be written
 aborted the run before the observers

---
 src/teufel_hybrid.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index 7733e71..86006cb 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -653,11 +653,18 @@ int main(int argc, char *argv[])
     // write the logged data
     if (teufel::rank == 0)
     {
+        // one file that cannot be written must not prevent the remaining output
         for (int i=0; i<(int)listLoggers.size(); i++)
-            listLoggers.at(i)->WriteData();
+        {
+            try { listLoggers.at(i)->WriteData(); }
+            catch (exception const & e) { cout << e.what() << endl;}
+        }
 
         for (InteractionField* f : interactions)
-            f->write_output();
+        {
+            try { f->write_output(); }
+            catch (exception const & e) { cout << e.what() << endl;}
+        }
     }
 
     // ===============================================================
-- 
2.43.0

