From f70c4a0090f994f6fcb9153a856af85be41413e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 01/38] fix: CountPartCell used the marker count array after
 freeing it (reseed_mode=1)

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..91ff2fb 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2452,7 +2452,6 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                 part_count[kc] += 1;
             }
         }
-        DoodzFree(part_count);
 
         // Identify cells that need a new particle
         int nb_new_parts = 0, new_ind;
@@ -2569,6 +2568,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
         // }
 
         // Freedom
+        DoodzFree(part_count);
         for (kc=0; kc<ncx*ncz; kc++) {
             DoodzFree(part_cell[kc]);
         }
-- 
2.43.0


From c7e90ba511d9f4399092e0d831c8798f09eb11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:24 +0000
Subject: [PATCH 02/38] fix: evaluate compressibility and expansivity on the
 grid every step, also without elasticity (restart lost them)

---
 MDLIB/Main_DOODZ.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 43d9c60..5fb4623 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -509,11 +509,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             InterpCentroidsToVerticesDouble( mesh.sxxd0, mesh.sxxd0_s, &mesh, &input.model );
             InterpCentroidsToVerticesDouble( mesh.szzd0, mesh.szzd0_s, &mesh, &input.model );
             InterpVerticesToCentroidsDouble( mesh.sxz0_n,  mesh.sxz0,  &mesh, &input.model );
-
-            // Interpolate shear modulus
-            ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
         }
 
+        // Interpolate shear modulus, compressibility and expansivity (also needed without elasticity, e.g. after a restart)
+        ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
+
         // Director vector
         if (input.model.anisotropy == 1 ) {
             P2Mastah( &input.model, particles, NULL, &mesh, mesh.d1_n,    mesh.BCp.type, -1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From 2916945efee61ee5e527aace0d93ad877e4d1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 03/38] fix: initialise model.description, which is written to
 every output file

---
 MDLIB/InputOutput.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..01b9399 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1018,6 +1018,8 @@ Input ReadInputFile( char *fileName ) {
     FILE *fin;
     int k, gsel;
 
+    memset( model.description, 0, sizeof(model.description) ); // written to the output files
+
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-- 
2.43.0


From c7998f69d2f10df2963486d5ec9316ae41858652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:16 +0000
Subject: [PATCH 04/38] fix: start each step with the melt fraction carried by
 the markers (a restart used zero melt fraction)

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 5fb4623..509a0fa 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -498,6 +498,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         // Interpolate Melt fraction
         P2Mastah( &input.model, particles, particles.phi,   &mesh, mesh.phi0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
 
+        // Make sure melt fraction is up to date for density and rheology evaluation (also right after a restart)
+        if (input.model.melting == 1 ) ArrayEqualArray( mesh.phi_n, mesh.phi0_n, (mesh.Nx-1)*(mesh.Nz-1) );
+
         // Elasticity - interpolate advected/rotated stresses
         if  (input.model.elastic == 1 ) {
 
-- 
2.43.0


From 2ccac533d26793314b2c7c91cc8ca2baa692c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 05/38] fix: load the previous stress fields of a breakpoint
 back into the arrays they were saved from

---
 MDLIB/InputOutput.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 01b9399..4f21055 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -257,11 +257,11 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     fread( mesh->d0_n, s3, (Nx-1)*(Nz-1), file );
     fread( mesh->phi0_n, s3, (Nx-1)*(Nz-1), file );
     fread( mesh->rho0_n, s3, (Nx-1)*(Nz-1), file );
-    fread( mesh->sxxd, s3, (Nx-1)*(Nz-1), file );
-    fread( mesh->szzd, s3, (Nx-1)*(Nz-1), file );
+    fread( mesh->sxxd0, s3, (Nx-1)*(Nz-1), file );
+    fread( mesh->szzd0, s3, (Nx-1)*(Nz-1), file );
 
     fread( mesh->X0_s, s3, (Nx)*(Nz),     file );
-    fread( mesh->sxz, s3, (Nx)*(Nz),     file );
+    fread( mesh->sxz0, s3, (Nx)*(Nz),     file );
 
     fread( mesh->eta_phys_n, s3, (Nx-1)*(Nz-1), file );
     fread( mesh->eta_phys_s, s3, (Nx)*(Nz),     file );
@@ -434,8 +434,8 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             mesh->d0_n[c]      /= scaling.L;
             mesh->phi0_n[c]    /= 1.0;
             mesh->rho0_n[c]    /= scaling.rho;
-            mesh->sxxd[c]      /= scaling.S;
-            mesh->szzd[c]      /= scaling.S;
+            mesh->sxxd0[c]     /= scaling.S;
+            mesh->szzd0[c]     /= scaling.S;
         }
     }
 
@@ -447,7 +447,7 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             mesh->VE_s[c] /= 1.0;
 
             mesh->X0_s[c]      /= 1.0;
-            mesh->sxz[c]       /= scaling.S;
+            mesh->sxz0[c]      /= scaling.S;
         }
     }
 
-- 
2.43.0


From 0cb6a8b409e312bcba576936f4e7576b6badf7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:54 +0000
Subject: [PATCH 06/38] fix: do not reuse the conductivity of an earlier step
 at nodes without markers (lost by a restart)

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 509a0fa..edbcaf7 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -481,6 +481,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         P2Mastah( &input.model, particles, input.materials.Cp,     &mesh, mesh.Cp,     mesh.BCp.type,  0, 0, interp, cent, 1);
         P2Mastah( &input.model, particles, input.materials.Qr,     &mesh, mesh.Qr,     mesh.BCp.type,  0, 0, interp, cent, 1);
 
+        // Nodes without markers (air): do not keep the conductivity of an earlier step, which is unknown after a restart
+        Initialise1DArrayDouble( mesh.kx, mesh.Nx*(mesh.Nz+1), 0.0 );
+        Initialise1DArrayDouble( mesh.kz, (mesh.Nx+1)*mesh.Nz, 0.0 );
         P2Mastah ( &input.model, particles, input.materials.k_eff, &mesh, mesh.kx, mesh.BCu.type,  0, 0, interp, vxnodes, 1);
         P2Mastah ( &input.model, particles, input.materials.k_eff, &mesh, mesh.kz, mesh.BCv.type,  0, 0, interp, vznodes, 1);
 
-- 
2.43.0


From 13ec69f8244a3e48db4d2ba569a896b0f611e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 07/38] fix: free the solver arrays only when the mechanical
 solver allocated them (mechanical = 0 freed uninitialised pointers)

---
 MDLIB/Main_DOODZ.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index edbcaf7..e4529dc 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1182,26 +1182,28 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             input.model.dt = dt_solve;
         }
 
-        // Free solution arrays
-        SFree( &Stokes );
-        if ( NeedJacobian ) SFree( &Jacob );
-        SFree( &StokesA );
-        SFree( &StokesB );
-        SFree( &StokesC );
-        SFree( &StokesD );
-        if ( NeedJacobian ) {
-            SFree( &JacobA );
-            SFree( &JacobB );
-            SFree( &JacobC );
-            SFree( &JacobD );
-        }
-        DoodzFree( Stokes.eqn_u );
-        DoodzFree( Stokes.eqn_v );
-        DoodzFree( Stokes.eqn_p );
-        if ( NeedJacobian ) {
-            DoodzFree( Jacob.eqn_u );
-            DoodzFree( Jacob.eqn_v );
-            DoodzFree( Jacob.eqn_p );
+        // Free solution arrays (allocated by the mechanical solver only)
+        if (input.model.mechanical == 1 ) {
+            SFree( &Stokes );
+            if ( NeedJacobian ) SFree( &Jacob );
+            SFree( &StokesA );
+            SFree( &StokesB );
+            SFree( &StokesC );
+            SFree( &StokesD );
+            if ( NeedJacobian ) {
+                SFree( &JacobA );
+                SFree( &JacobB );
+                SFree( &JacobC );
+                SFree( &JacobD );
+            }
+            DoodzFree( Stokes.eqn_u );
+            DoodzFree( Stokes.eqn_v );
+            DoodzFree( Stokes.eqn_p );
+            if ( NeedJacobian ) {
+                DoodzFree( Jacob.eqn_u );
+                DoodzFree( Jacob.eqn_v );
+                DoodzFree( Jacob.eqn_p );
+            }
         }
 
         //------------------------------------------------------------------------------------------------------------------------------//
-- 
2.43.0


From 4e5c7dfc705515caa9d801fd3dfc545c5e27674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:36 +0000
Subject: [PATCH 08/38] fix: write breakpoints to a temporary file, check the
 writes and rename (a full disk or a crash left a truncated breakpoint
 unnoticed)

---
 MDLIB/InputOutput.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 4f21055..2cfa558 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -667,11 +667,14 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if( model.delete_breakpoints == -1 ) asprintf(&name, "BreakpointXXXXX.dat");
     else asprintf(&name, "Breakpoint%05d.dat", model.step);
 
-    file = fopen(name, "wb");
+    // Write to a temporary file first, so that an interrupted or failed write never leaves a damaged breakpoint file
+    char *tmp_name;
+    asprintf(&tmp_name, "%s.tmp", name);
+    file = fopen(tmp_name, "wb");
     if ( file == NULL ) {
-        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
+        printf("Error opening %s for writing\nExiting...\n", tmp_name);
         free(name);
-        fclose(file);
+        free(tmp_name);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -843,7 +846,14 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->exz_mean_time  , s3,   model.Nt+1 ,   file );
     fwrite( mesh->Eii_mean_time  , s3,   model.Nt+1 ,   file );
 
-    fclose(file);
+    int failed = ferror(file);
+    if ( fclose(file) != 0 ) failed = 1;
+    if ( failed || rename(tmp_name, name) != 0 ) {
+        printf("Error writing %s\nExiting...\n", name);
+        remove(tmp_name);
+        exit(1);
+    }
+    free(tmp_name);
     free(name);
 
     //---------------------------------------------------------------------------------------------------------//
-- 
2.43.0


From 2690bf5711fc4e74203a3af5e0696dc39b220094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:36 +0000
Subject: [PATCH 09/38] fix: delete the old breakpoint only after the new one
 is complete (renaming it over the new name left a mislabelled breakpoint)

---
 MDLIB/InputOutput.c | 13 +++----------
 MDLIB/Main_DOODZ.c  |  2 +-
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 2cfa558..87c01cd 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -122,19 +122,12 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void DeletePreviousBreakpoint( int step, int writer_step ) {
-    char *name, *command, *new_name;
-    int success;
+    char *name;
     if ((step- 2*writer_step)>1) {
-        asprintf(&new_name, "Breakpoint%05d.dat", step- 0*writer_step);
         asprintf(&name,     "Breakpoint%05d.dat", step- 2*writer_step);
-        asprintf(&command, "mv %s %s", name, new_name );
-        success = system( command );
-        printf("File %s replaced by %s\n", name, new_name);
-        if ( success!=-1 ) printf("File %s was successfully renamed\n", name);
-        else printf("File %s was not successfully renamed\n", name);
+        if ( remove( name ) == 0 ) printf("File %s was successfully deleted\n", name);
+        else printf("File %s was not successfully deleted\n", name);
         free(name);
-        free(new_name);
-        free(command);
     }
 }
 
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index e4529dc..dc305a9 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1217,8 +1217,8 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
             // Breakpoint file
             t_omp = (double)omp_get_wtime();
-            if (input.model.delete_breakpoints == 1 ) DeletePreviousBreakpoint(input.model.step, input.model.writer_step  );
             MakeBreakpointParticles( &particles, &mesh, &topo_chain, &topo_chain_ini, input.model, &topo, &topo_ini, input.scaling );
+            if (input.model.delete_breakpoints == 1 ) DeletePreviousBreakpoint(input.model.step, input.model.writer_step  );
             // UpdateInputFile( inputFileName, input.model.step);
             printf("** Time for Breakpoint file write = %lf sec\n", (omp_get_wtime() - t_omp));
 
-- 
2.43.0


From 8d752940a9a20497f0591db06e163ea697580d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:04 +0000
Subject: [PATCH 10/38] fix: refuse missing or incomplete breakpoint and marker
 files, keep time series aligned when Nt changes on restart

---
 MDLIB/InputOutput.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 87c01cd..42c48e4 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -70,7 +70,6 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     file = fopen(name, "rb");
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-        fclose(file);
         free(name);
         exit(1);
     }
@@ -93,6 +92,10 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     fread( particles->phase, s1, particles->Nb_part, file);
     fread( particles->dual, s1, particles->Nb_part, file);
 
+    if ( feof(file) || ferror(file) ) {
+        printf("Error reading %s, this file is incomplete\nExiting...\n", name);
+        exit(1);
+    }
     fclose(file);
     free(name);
     //---------------------------------------------------------------------------------------------------------//
@@ -152,7 +155,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
@@ -310,23 +312,23 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_cell, s1,  Ncx*Ncz,   file );
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
-        // Timeseries
-        fread( mesh->Time_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Short_time     , s3,   model->Nt+1 ,   file );
-        fread( mesh->Work_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uthermal_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uelastic_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->T_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->P_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->szzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Tii_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->exxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->ezzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->exz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Eii_mean_time  , s3,   model->Nt+1 ,   file );
-
+        // Timeseries: Nt+1 values were stored by the run that wrote the breakpoint, Nt may have been changed since
+        double *series[15] = { mesh->Time_time, mesh->Short_time, mesh->Work_time, mesh->Uthermal_time, mesh->Uelastic_time, mesh->T_mean_time, mesh->P_mean_time,
+                               mesh->sxxd_mean_time, mesh->szzd_mean_time, mesh->sxz_mean_time, mesh->Tii_mean_time, mesh->exxd_mean_time, mesh->ezzd_mean_time, mesh->exz_mean_time, mesh->Eii_mean_time };
+        int  incomplete = feof(file) || ferror(file);
+        long start      = ftell(file);
+        fseek( file, 0, SEEK_END );
+        long nstored    = (ftell(file) - start) / (15*sizeof(double));
+        if ( start + nstored*15*(long)sizeof(double) != ftell(file) || nstored <= model->step ) incomplete = 1;
+        for ( k=0; k<15 && !incomplete; k++ ) {
+            fseek( file, start + k*nstored*sizeof(double), SEEK_SET );
+            size_t nread = nstored < model->Nt+1 ? nstored : model->Nt+1;
+            if ( fread( series[k], sizeof(double), nread, file ) != nread ) incomplete = 1;
+        }
+        if ( incomplete ) {
+            printf("Error reading %s, this file is incomplete\nExiting...\n", name);
+            exit(1);
+        }
 
     fclose(file);
     free(name);
-- 
2.43.0


From eda46fefa0319956b3b91e2a03cf00a26538d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 11/38] fix: refuse incomplete initial-marker, import and
 phase-diagram files instead of using uninitialised values

---
 MDLIB/InputOutput.c | 10 ++++++++--
 MDLIB/Setup.c       | 10 +++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 42c48e4..ed03630 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1424,7 +1424,10 @@ Input ReadInputFile( char *fileName ) {
             char *fname = "PHASE_DIAGRAMS/QuartzCoesite600C.bin";
             if ( fopen(fname, "rb") != NULL ) {
                 FILE* read = fopen(fname, "rb");
-                fread ( model.PD1Drho[k],     sizeof(double), model.PD1DnP[k] , read);
+                if ( fread ( model.PD1Drho[k],     sizeof(double), model.PD1DnP[k] , read) != model.PD1DnP[k] ) {
+                    printf("File %s is incomplete - I will exit here...\n", fname);
+                    exit(1);
+                }
                 fclose(read);
 
                 double p[model.PD1DnP[k]];
@@ -1714,7 +1717,10 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
     if (!fid){
         fprintf(stderr, "\nUnable to open file %s. I will exit here ... \n", bname); exit(2);
     }
-    fread(A, sizeof(double), nb_elems, fid); fclose(fid); free(bname);
+    if (fread(A, sizeof(double), nb_elems, fid) != nb_elems) {
+        fprintf(stderr, "\nFile %s is incomplete. I will exit here ... \n", bname); exit(2);
+    }
+    fclose(fid); free(bname);
     ArrayTimesScalar( A, 1.0/scale, nb_elems );
     return A;
 }
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..a81f599 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -153,7 +153,11 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
         fwrite( particles->x,  sizeof(double), particles->Nb_part, file);
         fwrite( particles->z,  sizeof(double), particles->Nb_part, file);
         fwrite( particles->phase, sizeof(int), particles->Nb_part, file);
-        fclose(file);
+        int failed = ferror(file);
+        if (fclose(file) != 0 || failed) {
+            printf("Error writing file %s !\n Exiting", instance->model.initial_markers_file);
+            exit(1);
+        }
     }
 
     if (instance->model.load_initial_markers == 1) {
@@ -170,6 +174,10 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
         fread( particles->x, sizeof(double), particles->Nb_part, file);
         fread( particles->z, sizeof(double), particles->Nb_part, file);
         fread( particles->phase, sizeof(int), particles->Nb_part, file);
+        if (feof(file) || ferror(file)) {
+            printf("File %s is incomplete: %d particles are needed !\n Exiting", instance->model.initial_markers_file, particles->Nb_part);
+            exit(1);
+        }
         fclose(file);
     }
 
-- 
2.43.0


From ab5fa2e89085a2a44ac848dc36c0a6eae17ce57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 12/38] fix: stop when an HDF5 output file cannot be written
 (errors were ignored and the run reported success)

---
 MDLIB/HDF5Output.c | 52 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/MDLIB/HDF5Output.c b/MDLIB/HDF5Output.c
index 0907c90..baf493c 100755
--- a/MDLIB/HDF5Output.c
+++ b/MDLIB/HDF5Output.c
@@ -94,16 +94,30 @@ void DoubleToFloat(double* FieldD, float* FieldF, int size) {
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
+// Stop when an HDF5 call fails: the output file would silently be incomplete otherwise
+static hid_t CheckHDF5( hid_t ret, const char filename[] ) {
+    if ( ret < 0 ) {
+        printf("Error while writing output file '%s' (disk full, write error?)\nExiting...\n", filename);
+        fflush(stdout);
+        _exit(1); // the exit handler of HDF5 would trip over the broken file
+    }
+    return ret;
+}
+
+/*--------------------------------------------------------------------------------------------------------------------*/
+/*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
+/*--------------------------------------------------------------------------------------------------------------------*/
+
 // The following routines were originally writen by D. A. May, and used in I2VIS //
 void CreateOutputHDF5( const char FileName[] )
 {
 	hid_t       file_id;   /* file identifier */
 
 	/* Create a new file using default properties. */
-	file_id = H5Fcreate( FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+	file_id = CheckHDF5( H5Fcreate( FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), FileName );
 
 	/* Terminate access to the file. */
-	H5Fclose(file_id);
+	CheckHDF5( H5Fclose(file_id), FileName );
 }
 
 /*--------------------------------------------------------------------------------------------------------------------*/
@@ -118,16 +132,16 @@ void AddGroupToHDF5( const char filename[], const char group[] )
 	asprintf( &group_name, "/%s", group );
 
 	/* Open exisiting file */
-	file_id = H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT);
+	file_id = CheckHDF5( H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT), filename );
 
 	/* Create group "ParticleGroup" in the root group using absolute name. */
-	group_id = H5Gcreate(file_id, group_name, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+	group_id = CheckHDF5( H5Gcreate(file_id, group_name, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), filename );
 
 	/* Close group. */
-	H5Gclose(group_id);
+	CheckHDF5( H5Gclose(group_id), filename );
 
 	/* Close the file. */
-	H5Fclose(file_id);
+	CheckHDF5( H5Fclose(file_id), filename );
 
 	free( group_name );
 }
@@ -155,10 +169,10 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	length = dim * np;
 
 	/* Open exisiting file */
-	file_id = H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT);
+	file_id = CheckHDF5( H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT), filename );
 
 	/* Open group "ParticleGroup" */
-	particle_group_id = H5Gopen(file_id, group_name,H5P_DEFAULT);
+	particle_group_id = CheckHDF5( H5Gopen(file_id, group_name,H5P_DEFAULT), filename );
 
 	/*~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~*/
 
@@ -193,26 +207,26 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 
 	if( d_type == 'd' ) {
 		/* Create a dataset within "group". */
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_DOUBLE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_NATIVE_DOUBLE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
 
 		/* Write the particle dataset. */
-		H5Dwrite(coord_dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 	}
 
 	else if( d_type == 'c' ) {
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_CHAR, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_NATIVE_CHAR, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
+        CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 
 	}
 
 	else if( d_type == 'i' ) {
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_STD_I32BE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_STD_I32BE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
+        CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 
 	}
 	else if( d_type == 'f' ) {
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_FLOAT, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_NATIVE_FLOAT, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
+        CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 
 	}
 
@@ -227,7 +241,7 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	//status = H5Sclose(attr_dataspace_id);
 
 	/* Close the particle coord dataset. */
-	H5Dclose(coord_dataset_id);
+	CheckHDF5( H5Dclose(coord_dataset_id), filename );
 
 	/* free(dataset_nameP); */
 	/* } */
@@ -239,10 +253,10 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	H5Pclose(plist);
 
 	/* Close group. */
-	H5Gclose(particle_group_id);
+	CheckHDF5( H5Gclose(particle_group_id), filename );
 
 	/* Close the file. */
-	H5Fclose(file_id);
+	CheckHDF5( H5Fclose(file_id), filename );
 
 	free(group_name);
 	free(dataset_name);
-- 
2.43.0


From de0c154c168ffe0b86763f0ebae5748f1766b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 13/38] fix: stop on read errors of the setup file (endless
 loop) and report a missing phase with a failure status

---
 MDLIB/InputOutput.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index ed03630..8a9d90d 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1028,7 +1028,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
@@ -1729,6 +1728,18 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
+// Read a new line, stop on read errors (the end of file is left to the caller)
+static void ReadLine( char line[], int size, FILE *fin ) {
+    if ( fgets(line, size, fin) == NULL && ferror(fin) ) {
+        printf("Error while reading the setup file\nExiting...\n");
+        exit(1);
+    }
+}
+
+/*--------------------------------------------------------------------------------------------------------------------*/
+/*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
+/*--------------------------------------------------------------------------------------------------------------------*/
+
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
     int h, find=0, bufmax=50, length;
     char *string1, *string2;
@@ -1753,7 +1764,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
+        ReadLine( line, sizeof(line), fin );
 
         if (feof(fin)) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
@@ -1848,7 +1859,7 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
+        ReadLine( line, sizeof(line), fin );
 
         if (feof(fin)) {
             printf("Error: The phase diagram '%s' could not be found in the setup file. I will exit here.\n", FieldName);
@@ -1928,7 +1939,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
+        ReadLine( line, sizeof(line), fin );
         if (feof(fin)) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
@@ -2001,7 +2012,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
+        ReadLine( line, sizeof(line), fin );
         if (feof(fin)) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
@@ -2073,13 +2084,13 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        fgets ( line, sizeof(line), fin );
+        ReadLine( line, sizeof(line), fin );
         if (feof(fin))
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
             rewind (fin);
-            exit(0);
+            exit(1);
         }
 
         // Determine the length of the parameter string in the current line.
@@ -2121,7 +2132,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                 while(subfind == 0)
                 {
                     // Read new line
-                    fgets ( phase_line, sizeof(phase_line), fin );
+                    ReadLine( phase_line, sizeof(phase_line), fin );
                     // Determine the length of the parameter string in the current line.
                     InPar_length = 0;
                     while(phase_line[InPar_length] != ' ')
-- 
2.43.0


From 3ef1465f63631496fdc2e0735b1f8392f8395654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:40 +0000
Subject: [PATCH 14/38] fix: report a failure status when a run aborts
 (stagnation in safe mode, failed local iterations exited with 0)

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 MDLIB/Main_DOODZ.c         | 2 +-
 MDLIB/RheologyDensity.c    | 6 +++---
 MDLIB/RheologyParticles.c  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..a7a88eb 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -243,10 +243,10 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
           break;
         } else if (it == nitmax - 1 && (fabs(r/Eii) > tol) ) {
           printf("Visco-Elastic iterations failed!\n");
-          exit(0);
+          exit(1);
         }
     }
-        if (isnan(r))exit(0);
+        if (isnan(r))exit(1);
 
     // if (centroid==0 && index==65) printf("ani 1 - eta_ve = %2.4e Eii_pwl = %2.4e Eii=%2.4e C_pwl=%2.4e tol=%2.2e\n", eta_ve, *Eii_pwl, Eii, C_pwl, model->eta_tol);
 
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index dc305a9..987db2b 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -836,7 +836,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "nstag value = %02d - max_num_stag = %02d\n", nstag, input.model.max_num_stag);
                     if (nstag== input.model.max_num_stag) {
                         printf( "CheckDoudzOut!!\n");
-                        exit(0);
+                        exit(1);
                     //-----------------------
                     }
                 }
diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..fa5977d 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -104,7 +104,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -276,7 +276,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -658,7 +658,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         gdot    -= F_trial / dFdgdot;
 
       }
-      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(0);}
+      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(1);}
 
       // In case return mapping has failed (because of tension), return to a von Mises minimum stress 
       if (Tiic<0.0) {
diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..62280dd 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -211,7 +211,7 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
         if (strain_inc[c1]<0) {
             printf("negative strain increment\n");
             printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-            exit(0);
+            exit(1);
         }
         
         strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
@@ -697,7 +697,7 @@ void AccumulatedStrain( grid* mesh, scale scaling, params model, markers* partic
             if (strain_inc[c1]<0) {
                 printf("negative strain increment\n");
                 printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-                exit(0);
+                exit(1);
             }
             
             strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
-- 
2.43.0


From 59342e3199ae072e50a1b28ae161e19207530a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:40 +0000
Subject: [PATCH 15/38] fix: keep the model time consistent when safe mode
 reduces the time step of the current step

---
 MDLIB/Main_DOODZ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 987db2b..fd3abdc 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -822,7 +822,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "\e[1;31mReducing the timestep, and restart the iterations cycle...\e[m\n");
                     printf( "Before reduction: input.model.dt =, %2.2e\n", input.model.dt* input.scaling.t);
                     // ----------------------
+                    input.model.time -= input.model.dt; // the step now ends earlier
                     input.model.dt /= input.model.safe_dt_div;
+                    input.model.time += input.model.dt;
                     printf( "Timestep divided by %2.2f => NEW CURRENT input.model.dt =, %2.2e\n", input.model.safe_dt_div, input.model.dt* input.scaling.t);
                     Nmodel.stagnated = 0;
                     // ----------------------
-- 
2.43.0


From db1ca6f0fd24834e8852d9ae6688f396266ce405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:43 +0000
Subject: [PATCH 16/38] fix: set the boundary conditions after a restart with
 mechanical = 0 (thermal and velocity conditions were lost)

---
 MDLIB/Main_DOODZ.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index fd3abdc..ab06bbf 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -412,6 +412,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         printf("Restarting from step number %05d...\n", input.model.step);
         LoadBreakpointParticles( &particles, &mesh, &topo_chain, &topo_chain_ini, &input.model, &topo, &topo_ini, input.scaling  );
         SetGridCoordinates( &mesh, &input.model, input.model.Nx, input.model.Nz ); // Overwrite previous grid
+        if (input.model.mechanical == 0) SetBCs(*setup->SetBCs, &input, &mesh, &topo); // The time loop sets them with mechanical == 1 only
     }
     Initialise1DArrayDouble( mesh.X_n,     (input.model.Nx-1)*(input.model.Nz-1), 0.0 );
     Initialise1DArrayDouble( mesh.X_s,     (input.model.Nx-0)*(input.model.Nz-0), 0.0 );
-- 
2.43.0


From 0f34ee3210188eb72b9b4dc392129e529cf4128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:48 +0000
Subject: [PATCH 17/38] fix: size the temporary matrix arrays of each thread by
 its share of nodes (last thread wrote past the end)

---
 MDLIB/StokesAssemblyDecoupled.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..6b06ef2 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -1250,7 +1250,11 @@ void DomainDecompositionDecoupled( int N, int n_th, int *estart, int *eend, int
 
 void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp, int n_th, int nnz, int neq, int* DD, int **nnzc2 ) {
     
-    int ith;
+    int ith, N = 0;
+    size_t nnz_th;
+    
+    // Number of nodes: the last thread takes the remainder of the division of N by n_th
+    for (ith=0; ith<n_th; ith++) N += DD[ith];
     
     // Temporary parallel Matrix arrays
     *Atemp = DoodzMalloc( sizeof(double*) * n_th );
@@ -1259,9 +1263,10 @@ void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp,
     *nnzc2 = DoodzCalloc( n_th, sizeof(int) );
     
     for (ith=0; ith<n_th; ith++) {
-        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * (int)(nnz/n_th) );
+        nnz_th        = ( (size_t)nnz * DD[ith] ) / N + 1;
+        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * nnz_th );
         (*Itemp)[ith] = DoodzCalloc( (neq+1), sizeof(int) );
-        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * (int)(nnz/n_th) );
+        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * nnz_th );
     }
 }
 
-- 
2.43.0


From 70bd2e63698d62163f942b04e836f78267a8bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 18/38] fix: skip cells with prescribed pressure when the
 solver builds the pressure block (wrote before the start of the arrays)

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index ff70cfe..1393a24 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -723,7 +723,7 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] != 0 && mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1084,7 +1084,7 @@ void KillerSolver( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  SparseM
 
 #pragma omp parallel for shared( whos_incompressible, D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] != 0 && mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block - This relates to physics (0 is incompressible, Beta/dt is compressible)
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1481,7 +1481,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] != 0 && mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             
             //            cPC    = drhodPc ./ (rhoc.*dt); %% new diagonal coefficient (= 1/(K*dt) for standard EOS)
-- 
2.43.0


From b7b47c975dcb0db2c69fe4ecf9463516250a9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 19/38] fix: do not read outside the arrays at stress
 boundaries, in the thermal time step and at the top of the free surface

---
 MDLIB/AdvectionRoutines.c       |  4 ++--
 MDLIB/FreeSurface.c             |  2 +-
 MDLIB/StokesAssemblyDecoupled.c | 16 ++++++++++++----
 MDLIB/StokesRoutines.c          |  3 +++
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b0c2ee3 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<Ncx; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..0491b7b 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -854,7 +854,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if (j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 6b06ef2..402e727 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -96,6 +96,10 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
         iVzNW = c3+nxvz-2;
     }
 
+    // There is no cell on the outer side of a stress boundary
+    if ( SxxBCW==1.0 ) iPrW = iPrE;
+    if ( SxxBCE==1.0 ) iPrE = iPrW;
+
     // Variable PDE coefficient
     const double D11E = mesh->D11_n[iPrE];
     const double D11W = mesh->D11_n[iPrW];
@@ -137,7 +141,7 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodx  = (mesh->rho_n[c2+1] - mesh->rho_n[c2])*one_dx;
+        double drhodx  = (mesh->rho_n[iPrE] - mesh->rho_n[iPrW])*one_dx;
         uC_corr = 1.00 * om * model.dt * mesh->gx[c1] * drhodx;
         // Importante trique, voire meme gigantesque!
         if (uC+uC_corr<0.0) uC_corr = 0.0;
@@ -590,6 +594,10 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     if ( BCv_t[iVzW] == -12 && ix==1      ) iVzW = c3+nxvz-3;
     if ( BCv_t[iVzE] == -12 && ix==nxvz-2 ) iVzE = c3-nxvz+3;
 
+    // There is no cell on the outer side of a stress boundary
+    if ( SzzBCS==1.0 ) iPrS = iPrN;
+    if ( SzzBCN==1.0 ) iPrN = iPrS;
+
     // Linear equation coefficient
     double vS=0.0, vN=0.0, vW=0.0, vE=0.0, vC=0.0, uSW=0.0, uSE=0.0, uNW=0.0, uNE=0.0, pN=0.0, pS=0.0;
 
@@ -642,7 +650,7 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodz  = (mesh->rho_n[c2+ncx] - mesh->rho_n[c2])*one_dz;
+        double drhodz  = (mesh->rho_n[iPrN] - mesh->rho_n[iPrS])*one_dz;
         vC_corr = 1.00 * om * model.dt * mesh->gz[c3] * drhodz;
         // Importante trique, voire meme gigantesque!
         if ((vC+vC_corr)<0.0 || (vC+vC_corr)<vW || (vC+vC_corr)<vE) vC_corr = 0.0;
@@ -650,11 +658,11 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     }
     
     if ( Assemble == 1 ) {
-        const bool SetVzS  = BCv_t[iVzS] != 30 && iz>0;
+        const bool SetVzS  = iz>0    && BCv_t[iVzS] != 30;
         const bool SetVzW  = BCv_t[iVzW] != 30 ;
         const bool SetVzC  = BCv_t[iVzC] != 30;
         const bool SetVzE  = BCv_t[iVzE] != 30 ;
-        const bool SetVzN  = BCv_t[iVzN] != 30 && iz<nz-1;
+        const bool SetVzN  = iz<nz-1 && BCv_t[iVzN] != 30;
         //--------------------
         const bool SetVxSW = BCu_t[iVxSW] != 30 && iz>0   ;
         const bool SetVxSE = BCu_t[iVxSE] != 30 && iz>0   ;
diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 32df1f2..c3f850b 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -978,6 +978,9 @@ void EvaluateRHS( grid* mesh, params model, scale scaling, double RHO_REF ) {
                     iVxN   = c+Nx;
                     // Periodic BC !!!!!!!!!!!
                     if ( mesh->BCu.type[c] == -2 ) iPrW  = c2+Ncx-1;
+                    // There is no cell on the outer side of a stress boundary
+                    if ( mesh->BCu.type[c] == 2 && k==0    ) iPrW = iPrE;
+                    if ( mesh->BCu.type[c] == 2 && k==Nx-1 ) iPrE = iPrW;
 
                     // Free surface
                     inW=0.0, inE = 0.0, inS=0.0, inN = 0.0;
-- 
2.43.0


From 3d9db5be42b1d76ab535a3a2bbae4200320dc8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 20/38] fix: read parameters on the last line, without blanks
 around '=', and file names whatever their order, prefix and length (defaults
 were used silently)

---
 MDLIB/InputOutput.c | 53 +++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 8a9d90d..15338ab 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1728,12 +1728,19 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
-// Read a new line, stop on read errors (the end of file is left to the caller)
-static void ReadLine( char line[], int size, FILE *fin ) {
-    if ( fgets(line, size, fin) == NULL && ferror(fin) ) {
+// Read a new line (returns 0 at the end of the file, a last line without line break is a line), stop on read errors
+static int ReadLine( char line[], int size, FILE *fin ) {
+    if ( fgets(line, size, fin) != NULL ) return 1;
+    if ( ferror(fin) ) {
         printf("Error while reading the setup file\nExiting...\n");
         exit(1);
     }
+    return 0;
+}
+
+// The name of a parameter ends at a blank, at the equal sign or at the end of the line
+static int IsEndOfName( char c ) {
+    return c == ' ' || c == '\t' || c == '=' || c == '\n' || c == '\r' || c == '\0';
 }
 
 /*--------------------------------------------------------------------------------------------------------------------*/
@@ -1741,7 +1748,7 @@ static void ReadLine( char line[], int size, FILE *fin ) {
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
-    int h, find=0, bufmax=50, length;
+    int h, find=0, bufmax=1000, length;
     char *string1, *string2;
     char line[bufmax];
 
@@ -1760,13 +1767,14 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         line[h]='\0';
     }
 
+    // Start from beginning of the file
+    rewind(fin);
+
     // Seach for sign 'equal' in the lines
     while ( find == 0 ) {
 
         // Read new line
-        ReadLine( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if ( !ReadLine( line, sizeof(line), fin ) ) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
             rewind(fin);
             free(string1);
@@ -1793,7 +1801,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         param2[length] = '\0';
 
         // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
+        if ( strcmp(param1, param2) == 0 && IsEndOfName(line[length]) ) {
             find = 1;
             int str_size = 0;
             int h1;
@@ -1801,14 +1809,16 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
             for (h=0;h<bufmax;h++) {
                 if(strlen(line)> 0 && line[h]=='=') {
 
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
+                    int start = h+1; // blanks around the equal sign are optional
+                    while ( line[start] == ' ' || line[start] == '\t' ) start++;
+                    for (h1=0; h1<bufmax-start; h1++) {
+                        if ( isspace(line[start+h1]) || line[start+h1]=='\0' ) {
                             string1[h1] = '\0';
                             str_size++;
                             break;
                         }
                         else {
-                            string1[h1] = (line[h+2+h1]);
+                            string1[h1] = (line[start+h1]);
                             str_size++;
                         }
                     }
@@ -1859,9 +1869,7 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        ReadLine( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if ( !ReadLine( line, sizeof(line), fin ) ) {
             printf("Error: The phase diagram '%s' could not be found in the setup file. I will exit here.\n", FieldName);
             rewind (fin    );
             free   (param1 );
@@ -1939,8 +1947,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        ReadLine( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if ( !ReadLine( line, sizeof(line), fin ) ) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1950,7 +1957,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while( !IsEndOfName(line[InPar_length]) )
         {
             InPar_length = InPar_length + 1;
         }
@@ -2012,8 +2019,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        ReadLine( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if ( !ReadLine( line, sizeof(line), fin ) ) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -2022,7 +2028,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
 
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
-        while(line[InPar_length] != ' ')
+        while( !IsEndOfName(line[InPar_length]) )
         {
             InPar_length = InPar_length + 1;
         }
@@ -2084,8 +2090,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        ReadLine( line, sizeof(line), fin );
-        if (feof(fin))
+        if ( !ReadLine( line, sizeof(line), fin ) )
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
@@ -2096,7 +2101,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while( !IsEndOfName(line[InPar_length]) )
         {
             InPar_length = InPar_length + 1;
         }
@@ -2135,7 +2140,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     ReadLine( phase_line, sizeof(phase_line), fin );
                     // Determine the length of the parameter string in the current line.
                     InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ')
+                    while( !IsEndOfName(phase_line[InPar_length]) )
                     {
                         InPar_length = InPar_length + 1;
                     }
-- 
2.43.0


From 5cd9cd160ed90b2edaeefa811ae3f8d4db7e3a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 21/38] fix: let every active marker undergo the phase change,
 including the last one

---
 MDLIB/ParticleRoutines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 91ff2fb..39e50a4 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3570,8 +3570,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
+    if (phase == -1) continue; // inactive marker
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
 
-- 
2.43.0


From 003b256eac4fd5862f6df004a34754471d8cc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 22/38] fix: use the same conductivity on both sides of a
 periodic domain, where conduction made heat out of nothing

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 39e50a4..5efdd56 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2303,7 +2303,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
     }
 
     // Make periodic
-    if (centroid==0 && prop==0 && model->periodic_x==1) {
+    if ((centroid==0 || centroid==-1) && prop==0 && model->periodic_x==1) {
         double av;
         for( int l=0; l<Nz; l++) {
             int c1 = l*Nx + Nx-1;
-- 
2.43.0


From a86ae0750024eb6e087b10e264d7324e2d50e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 23/38] fix: bottom heat flux enters over the height of a cell,
 not its width

---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..3f886b7 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From 7899d47cb0ae5abcd26cc2f8a2eb9ac773c6ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 24/38] fix: bottom composition flux enters over the height of
 a cell, not its width

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..a56a467 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -268,7 +268,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From 9400ee6563421e25b6e8a188f6a9627dcf8d4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 25/38] fix: keep the composition of models without mechanics
 or with anisotropy, which was reset to zero in the first step

---
 MDLIB/AnisotropyRoutines.c | 2 +-
 MDLIB/Main_DOODZ.c         | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index a7a88eb..72ea5fe 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -104,7 +104,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     *Txx     = 0.0, *Tzz     = 0.0, *Txz    = 0.0;
     *Wtot    = 0.0, *Wdiss   = 0.0, *Wel    = 0.0, *d       = 0.0;
     *div_el  = 0.0, *div_pl  = 0.0, *div_r  = 0.0;
-    *X1      = 0.0, *rho     = 0.0, *OverS  = 0.0, *Pcorr   = 0.0;
+    *X1      = X0,  *rho     = 0.0, *OverS  = 0.0, *Pcorr   = 0.0;
     // P corr will be corrected if plasticity feedbacks on pressure (dilation)
     *Pcorr = P;
     // Constant grain size
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index ab06bbf..af9405e 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -534,6 +534,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
         P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
+        ArrayEqualArray( mesh.X_n, mesh.X0_n,  (mesh.Nx-1)*(mesh.Nz-1) );
 
         P2Mastah( &input.model, particles, particles.noise, &mesh, mesh.noise_s, mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
         P2Mastah( &input.model, particles, particles.noise, &mesh, mesh.noise_n, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From 244d1a9d182120a30562998840138286fd7ea071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 26/38] fix: no composition diffuses through the free surface
 into the air

---
 MDLIB/ChemicalRoutines.c | 5 ++++-
 MDLIB/Setup.c            | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index a56a467..7f0b26f 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink, maxk;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -102,6 +102,9 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     nxvz = nx+1;
     nzvx = nz+1;
     
+    // Get minimum value of k - safety: will be used a a lower limit if interpolated surface diffusivity is too low
+    MinMaxArrayVal( mesh->kc_x, nx*(nz+1), &mink, &maxk );
+
     // Solve system using CHOLMOD
     cholmod_common c;
     cholmod_start( &c );
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index a81f599..790088b 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -720,6 +720,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
               .z = mesh->zc_coord[l],
       };
 
+      mesh->BCc.type[c]      = mesh->BCt.type[c] == 30 ? 30 : -1;
       mesh->BCC_exp.type[c1] = mesh->BCc.type[c];
 
       if (mesh->BCc.type[c] != 30) {
-- 
2.43.0


From caeed5ff04c1872d09c1c0d056c5943467ee8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 27/38] fix: do not reuse the chemical diffusivity of an
 earlier step at nodes without markers (lost by a restart)

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index af9405e..6019359 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -988,6 +988,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         }
 
         if (input.model.chemical_diffusion == 1)  {
+            // Nodes without markers (air): do not keep the diffusivity of an earlier step, which is unknown after a restart
+            Initialise1DArrayDouble( mesh.kc_x, mesh.Nx*(mesh.Nz+1), 0.0 );
+            Initialise1DArrayDouble( mesh.kc_z, (mesh.Nx+1)*mesh.Nz, 0.0 );
             P2Mastah ( &input.model, particles, input.materials.k_chem, &mesh, mesh.kc_x, mesh.BCu.type,  0, 0, interp, vxnodes, input.model.interp_stencil);
             P2Mastah ( &input.model, particles, input.materials.k_chem, &mesh, mesh.kc_z, mesh.BCv.type,  0, 0, interp, vznodes, input.model.interp_stencil);
             ChemicalDirectSolve( &mesh, input.model, &particles, &input.materials, input.model.dt, input.scaling );
-- 
2.43.0


From bcddc9ad57b7d42d105dc767d43a5f625d0ac52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 28/38] fix: second sweep of the topography diffusion never
 ran, the surface was diffused with half of surf_diff

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 0491b7b..0ab4bcb 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -952,7 +952,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From 5e0e5f057d3842a844e959c4b42b43917fdb5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 29/38] fix: zero_mean_topo shifted the topography after the
 surface markers, cell flags and rock had been fitted to it

---
 MDLIB/Main_DOODZ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 6019359..3e8f2d8 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1113,13 +1113,13 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     // Diffuse topography
                     if ( input.model.surface_processes >= 1 )  DiffuseAlongTopography( &mesh, input.model, input.scaling, topo.height, topo.height, mesh.Nx, 0.0, input.model.dt );
 
+                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+
                     // Marker chain polynomial fit
                     MarkerChainPolyFit( &topo,     &topo_chain, input.model, mesh );
                     CorrectTopoIni( &particles, input.materials, &topo_chain_ini, &topo, input.model, input.scaling, &mesh);
                     MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
-                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
-
                     // Sedimentation
                     if ( input.model.surface_processes == 2 ) {
                         AddPartSed( &particles, input.materials, &topo_chain, &topo, input.model, input.scaling, &mesh);
-- 
2.43.0


From f74ce49ce71f7ad82f31603064c296bb45af26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 30/38] fix: markers of new sediment start with the identity as
 deformation gradient

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 0ab4bcb..d2ee9e1 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -160,8 +160,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From a40f02789f4872985653b268646bd7233f072198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 31/38] fix: old altitudes of the initial surface were copied
 for as many markers as the other chain has

---
 MDLIB/Main_DOODZ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 3e8f2d8..36ea302 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -470,7 +470,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
             ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
             ArrayEqualArray( topo_chain.z0, topo_chain.z, topo_chain.Nb_part ); // save old z
-            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain.Nb_part ); // save old z
+            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain_ini.Nb_part ); // save old z
         }
 
         // Interpolate material properties from particles to nodes
-- 
2.43.0


From 65e08d5ee2d9fe510cfabaebefac9c41c088e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 32/38] fix: markers of new sediment had neither director (not
 a number with anisotropy) nor dual phase

---
 MDLIB/FreeSurface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d2ee9e1..d219fb2 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -136,6 +136,7 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 particles->x[new_ind]     = xnew;
                 particles->z[new_ind]     = znew;
                 particles->phase[new_ind] = sed_phase;
+                particles->dual[new_ind]  = sed_phase;
                 
                 particles->sxxd[new_ind]          =  0.0;
                 particles->sxz[new_ind]           =  0.0;
@@ -164,6 +165,11 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                     particles->Fzz[new_ind]           = 1.0;
                 }
                 
+                if (model.anisotropy==1) {
+                    particles->nx[new_ind]            = cos(materials.aniso_angle[sed_phase]);
+                    particles->nz[new_ind]            = sin(materials.aniso_angle[sed_phase]);
+                }
+                
                 if (track_T_P_x_z==1) {
                     particles->T0[new_ind]           = zeroC/scaling.T;
                     particles->P0[new_ind]           = 0.0;
-- 
2.43.0


From 4e01b5cfdd10d9711bdc7e48d50eef445145c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 33/38] fix: new sediment was written beyond the arrays of
 markers when these are full

---
 MDLIB/FreeSurface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d219fb2..73f7bac 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -131,6 +131,11 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
             
             if ( hm > hm0 ) { //;# && (hm-hm0)>1e-6
                 
+                if ( new_ind >= particles->Nb_part_max ) {
+                    printf("Too many particles in my mind %d, maximum %d\n", new_ind, particles->Nb_part_max);
+                    exit(190);
+                }
+
                 // Compute new altitude of the marker right in between the new and old position of the free surface
                 znew                      = 0.5*(hm+hm0);
                 particles->x[new_ind]     = xnew;
-- 
2.43.0


From 1e87539f1d91e272cb2018db3e6dc0a3844ca740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:25 +0000
Subject: [PATCH 34/38] fix: stresses of markers were never rotated, the
 vorticity was not interpolated to them (stress_rotation had no effect)

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 62280dd..ec3ed77 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1623,7 +1623,7 @@ firstprivate( model )
         if (model->elastic==1) { 
 
             double *wxzm   = DoodzCalloc(particles->Nb_part, sizeof(DoodzFP));
-            P2Mastah( model, *particles, wxzm,     mesh, mesh->wxz,   mesh->BCg.type,  1, 0, interp, vert, model->interp_stencil);
+            Interp_Grid2P( *particles, wxzm, mesh, mesh->wxz, mesh->xg_coord,  mesh->zg_coord, mesh->Nx, mesh->Nz, mesh->BCg.type );
 
 #pragma omp parallel for shared( particles, wxzm ) firstprivate( dt, model ) private( k, angle, txx, tzz, txz )
             for ( k=0; k<particles->Nb_part; k++ ) {
-- 
2.43.0


From f45b21a686d2e9ede0297604b3b9d57cd555f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:25 +0000
Subject: [PATCH 35/38] fix: stress_rotation=2 turned stresses against the
 rotation of the rock

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index ec3ed77..8ce0545 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1637,7 +1637,7 @@ firstprivate( model )
                         particles->sxz[k]  -=  dt*(tzz-txx)*wxzm[k];
                     }
                     if (model->stress_rotation==2) { // Analytical rotation
-                        double angle = dt*wxzm[k];
+                        double angle = -dt*wxzm[k]; // components in the fixed frame: turn the frame the other way
                         particles->sxxd[k] =  ( txx*cos(angle) + txz*sin(angle))*cos(angle) + ( txz*cos(angle) + tzz*sin(angle))*sin(angle);
                         particles->szzd[k] = -(-txx*sin(angle) + txz*cos(angle))*sin(angle) + (-txz*sin(angle) + tzz*cos(angle))*cos(angle);
                         particles->sxz[k]  = -( txx*cos(angle) + txz*sin(angle))*sin(angle) + ( txz*cos(angle) + tzz*sin(angle))*cos(angle);
-- 
2.43.0


From 563951f0f1c770ab18d007e865d70ea4bb89d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 36/38] fix: markers near the free surface were deformed by the
 difference between the velocity of rock and the zero velocity of air

---
 MDLIB/RheologyParticles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 8ce0545..1db9c8e 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -562,6 +562,9 @@ void DeformationGradient ( grid mesh, scale scaling, params model, markers *part
             cp = k  + l*(Nx-1);
             cu = k  + l*(Nx) + Nx;
             cv = k  + l*(Nx+1) + 1;
+            dudx[cp] = 0.0;
+            dvdz[cp] = 0.0;
+            if ( mesh.BCp.type[cp] == 30 || mesh.BCp.type[cp] == 31 ) continue;
             dudx[cp] = 1.0/dx * ( mesh.u_in[cu+1]      - mesh.u_in[cu] );
             dvdz[cp] = 1.0/dz * ( mesh.v_in[cv+(Nx+1)] - mesh.v_in[cv] );
         }
@@ -573,6 +576,9 @@ void DeformationGradient ( grid mesh, scale scaling, params model, markers *part
             cp = k  + l*(Nx-1);
             cu = k  + l*(Nx);
             cv = k  + l*(Nx+1);
+            dudz[cu] = 0.0;
+            dvdx[cu] = 0.0;
+            if ( mesh.BCg.type[cu] == 30 ) continue;
             dudz[cu] = 1.0/dz * ( mesh.u_in[cu+Nx] - mesh.u_in[cu] );
             dvdx[cu] = 1.0/dx * ( mesh.v_in[cv+1]  - mesh.v_in[cv] );
         }
-- 
2.43.0


From 2d78d175fcc303dbdcd9b21a599d25c4d81ebea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 37/38] fix: vertices that came into air kept the vorticity of
 the rock that was there

---
 MDLIB/RheologyDensity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index fa5977d..56ea427 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1710,6 +1710,7 @@ void StrainRateComponents( grid* mesh, scale scaling, params* model ) {
     c2 = k  + l*(Nx+1);
 
     mesh->exz[c1] = 0.0;
+    mesh->wxz[c1] = 0.0;
 
     if ( mesh->BCg.type[c1] != 30 ) {
       //            // Original implementation from Duretz et al., 2016
-- 
2.43.0


From dd9c65eb1bb013d62ba5ced09aebcd27271a5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 38/38] fix: zero_mean_topo counted and shifted unused places
 of the arrays of surface markers, which a restart clears

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 73f7bac..c4e6db8 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -1089,14 +1089,14 @@ void KeepZeroMeanTopo(params *model, surface *topo, markers *topo_chain ) {
     }
     mean_z = 0.0;
     int nmark = 0;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         if (topo_chain->phase[i] > -1) {
         mean_z += topo_chain->z[i];
         nmark  ++;
         }
     }
     mean_z /= nmark;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         topo_chain->z[i] -= mean_z;
     }
 }
\ No newline at end of file
-- 
2.43.0

