From 1a97c3b8f078d263813b53b6e56c314247d1cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 01/24] fix: restore the old stresses of a checkpoint into the
 fields they were saved from

---
 MDLIB/InputOutput.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..f8b3a80 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -257,11 +257,11 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     fread( mesh->d0_n, s3, (Nx-1)*(Nz-1), file );
     fread( mesh->phi0_n, s3, (Nx-1)*(Nz-1), file );
     fread( mesh->rho0_n, s3, (Nx-1)*(Nz-1), file );
-    fread( mesh->sxxd, s3, (Nx-1)*(Nz-1), file );
-    fread( mesh->szzd, s3, (Nx-1)*(Nz-1), file );
+    fread( mesh->sxxd0, s3, (Nx-1)*(Nz-1), file );
+    fread( mesh->szzd0, s3, (Nx-1)*(Nz-1), file );
 
     fread( mesh->X0_s, s3, (Nx)*(Nz),     file );
-    fread( mesh->sxz, s3, (Nx)*(Nz),     file );
+    fread( mesh->sxz0, s3, (Nx)*(Nz),     file );
 
     fread( mesh->eta_phys_n, s3, (Nx-1)*(Nz-1), file );
     fread( mesh->eta_phys_s, s3, (Nx)*(Nz),     file );
@@ -434,8 +434,8 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             mesh->d0_n[c]      /= scaling.L;
             mesh->phi0_n[c]    /= 1.0;
             mesh->rho0_n[c]    /= scaling.rho;
-            mesh->sxxd[c]      /= scaling.S;
-            mesh->szzd[c]      /= scaling.S;
+            mesh->sxxd0[c]     /= scaling.S;
+            mesh->szzd0[c]     /= scaling.S;
         }
     }
 
@@ -447,7 +447,7 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
             mesh->VE_s[c] /= 1.0;
 
             mesh->X0_s[c]      /= 1.0;
-            mesh->sxz[c]       /= scaling.S;
+            mesh->sxz0[c]      /= scaling.S;
         }
     }
 
-- 
2.43.0


From ed841e1bdadc64686b08e8ddc809ff26a2a87af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 02/24] fix: do not close a stream that could not be opened, so
 that the error exit is reached

---
 MDLIB/InputOutput.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index f8b3a80..d2f2f23 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -70,7 +70,6 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     file = fopen(name, "rb");
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-        fclose(file);
         free(name);
         exit(1);
     }
@@ -159,7 +158,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
@@ -671,7 +669,6 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
         free(name);
-        fclose(file);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -1021,7 +1018,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
@@ -2203,7 +2199,6 @@ void UpdateInputFile( char fin_name[], int NewNumber ) {
     fin = fopen(fin_name,"r+");
 	if ( fin == NULL) {
 		printf("Setup file '%s' does not exist\nExiting...\n", fin_name);
-        fclose(fin);
 		exit(1);
 	}
     // Seach for sign 'equal' in the lines
-- 
2.43.0


From b0e2c1d785bde691f5f4a64a5acfd59eee4bcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 03/24] fix: fatal errors end the run with a non-zero exit
 status

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 MDLIB/InputOutput.c        | 2 +-
 MDLIB/Main_DOODZ.c         | 2 +-
 MDLIB/RheologyDensity.c    | 6 +++---
 MDLIB/RheologyParticles.c  | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..a7a88eb 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -243,10 +243,10 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
           break;
         } else if (it == nitmax - 1 && (fabs(r/Eii) > tol) ) {
           printf("Visco-Elastic iterations failed!\n");
-          exit(0);
+          exit(1);
         }
     }
-        if (isnan(r))exit(0);
+        if (isnan(r))exit(1);
 
     // if (centroid==0 && index==65) printf("ani 1 - eta_ve = %2.4e Eii_pwl = %2.4e Eii=%2.4e C_pwl=%2.4e tol=%2.2e\n", eta_ve, *Eii_pwl, Eii, C_pwl, model->eta_tol);
 
diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index d2f2f23..f06e482 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -2062,7 +2062,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
             rewind (fin);
-            exit(0);
+            exit(1);
         }
 
         // Determine the length of the parameter string in the current line.
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 43d9c60..396bb2e 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -830,7 +830,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "nstag value = %02d - max_num_stag = %02d\n", nstag, input.model.max_num_stag);
                     if (nstag== input.model.max_num_stag) {
                         printf( "CheckDoudzOut!!\n");
-                        exit(0);
+                        exit(1);
                     //-----------------------
                     }
                 }
diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..fa5977d 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -104,7 +104,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -276,7 +276,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -658,7 +658,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         gdot    -= F_trial / dFdgdot;
 
       }
-      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(0);}
+      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(1);}
 
       // In case return mapping has failed (because of tension), return to a von Mises minimum stress 
       if (Tiic<0.0) {
diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..62280dd 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -211,7 +211,7 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
         if (strain_inc[c1]<0) {
             printf("negative strain increment\n");
             printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-            exit(0);
+            exit(1);
         }
         
         strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
@@ -697,7 +697,7 @@ void AccumulatedStrain( grid* mesh, scale scaling, params model, markers* partic
             if (strain_inc[c1]<0) {
                 printf("negative strain increment\n");
                 printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-                exit(0);
+                exit(1);
             }
             
             strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
-- 
2.43.0


From 62ee41f95ea6eb79620d005403424307f62f0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:31 +0000
Subject: [PATCH 04/24] fix: sediment markers start from the identity
 deformation gradient

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..650817a 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -160,8 +160,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From de6bb69ff5e1fed40fdec723872067ad1279bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:31 +0000
Subject: [PATCH 05/24] fix: topography diffusion applies its second half-step
 to every node

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 650817a..74d276e 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -952,7 +952,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From f6b4cf340d33006639d8cd6f2e98995c98339dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:31 +0000
Subject: [PATCH 06/24] fix: a rotated ellipse is rotated about its own centre

---
 MDLIB/Setup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..f777244 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1014,8 +1014,8 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
   const double theta   = ellipse.angle * M_PI / 180.0;
   const double radiusX = (ellipse.radiusX / 2) / scalingL;
   const double radiusZ = (ellipse.radiusZ / 2) / scalingL;
-  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z + ellipse.centreZ / scalingL) * sin(theta);
-  const double Zn      = (coordinates.x + ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
+  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z - ellipse.centreZ / scalingL) * sin(theta);
+  const double Zn      = (coordinates.x - ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
   if (pow(Xn / radiusX, 2) + pow(Zn / radiusZ, 2) - 1 < 0) {
     return true;
   } else {
-- 
2.43.0


From fecf46bdc4c86f4e9f218b67e5228117897d63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:53 +0000
Subject: [PATCH 07/24] fix: low-pressure solidus of the Schenker et al.
 melting models meets the high-pressure branch

---
 MDLIB/MeltingRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 65aff91..df20815 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -79,7 +79,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 831. + 0.06*P_MPa;
             }
             else {
-                Ts = 889. - 17900/(P_MPa + 54) + 20,200/pow((P_MPa + 54),2);
+                Ts = 889. + 17900/(P_MPa + 54) + 20200/pow((P_MPa + 54),2);
             }
             Tl = 1262 + 0.09*P_MPa;
             Ql = 300000.;
@@ -103,7 +103,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212. + 0.030819*(P_MPa-10000.);
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014/pow(P_MPa,2);
+                Ts = 1394 + 0.132899*P_MPa - 0.000005014*pow(P_MPa,2);
             }
             Tl = 2073 + 0.114*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From f5be316a0f253ac498c0f95c452d115a907d7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:53 +0000
Subject: [PATCH 08/24] fix: linear softening starts at the lower strain limit

---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index fa5977d..1b0412c 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1162,9 +1162,9 @@ void Softening(int c0, double** phase_perc, double* dil_arr, double* fric_arr, d
       }
       // If we are in the softening strain range
       if (strain_acc >= materials.pls_start[p] && strain_acc < materials.pls_end[p] ) {
-        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
+        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
       }
 
     }
-- 
2.43.0


From 31e73266edf251211ad308ed8687d562b0f8d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 09/24] fix: compressible pressure block is indexed by equation
 number, not by cell number

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index ff70cfe..7a63798 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -727,10 +727,10 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
-            if (mesh->comp_cells[k]==1) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[k]*matD->d[k];
+            if (mesh->comp_cells[k]==1) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[i]*matD->d[i];
             // Here Dcm0 is the inverse of the pressure block
             if (mesh->comp_cells[k]==0) ((double*)Dcm0->x)[i] *= penalty; // Should be /celvol
-            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[k]; // Should be /celvol
+            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[i]; // Should be /celvol
         }
     }
     
@@ -1494,7 +1494,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
 
             // Here Dcm0 is the inverse of the pressure block
             if (mesh->comp_cells[k]==0) ((double*)Dcm0->x)[i] *= penalty; // Should be /celvol
-            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[k]; // Should be /celvol
+            if (mesh->comp_cells[k]==1) ((double*)Dcm0->x)[i]  = 1.0 /  ((double*)D1cm0->x)[i]; // Should be /celvol
             //          printf("%2.2e %2.2e %2.2e %2.2e\n", mesh->bet[k]/model.dt, penalty, mesh->bet[k]*(1/scaling.S), model.dt*scaling.t);
         }
     }
-- 
2.43.0


From b57a5c9cb6ca0ec532e9c2251852f51b564527f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:44 +0000
Subject: [PATCH 10/24] fix: second phase of a mixture is read from its own key
 phase_two, not from phase_mix

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index f06e482..ff1bc31 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1335,7 +1335,7 @@ Input ReadInputFile( char *fileName ) {
         materials.phase_diagram[k]     = (int)ReadMatProps( fin, "phase_diagram",     k,   -1  );
         // Diffused rheological contrasts
         materials.phase_mix[k]  = (int)ReadMatProps( fin, "phase_mix",k,          0.0  );
-        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_mix",k,    (double)k  );
+        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_two",k,    (double)k  );
         // Anisotropy
         materials.aniso_angle[k]    =  ReadMatProps( fin, "aniso_angle",     k,   90.0  )  * M_PI/ 180.0;
         materials.aniso_factor[k]   =  ReadMatProps( fin, "aniso_factor",    k,    1.0  ); 
-- 
2.43.0


From c8222e21f3368485f2e88654ac176ef6a6c4bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 11/24] fix: CountPartCell used the marker counts of the cells
 after releasing them

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..8c1b71b 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2452,7 +2452,6 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                 part_count[kc] += 1;
             }
         }
-        DoodzFree(part_count);
 
         // Identify cells that need a new particle
         int nb_new_parts = 0, new_ind;
@@ -2573,6 +2572,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
             DoodzFree(part_cell[kc]);
         }
         DoodzFree(part_cell);
+        DoodzFree(part_count);
     }
     // Infos
     MinMaxArrayI(particles->phase,          1, particles->Nb_part, "phase       ");
-- 
2.43.0


From 213cea2b15672c1a038cbe68aac3535d3c3bc1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 12/24] fix: ReadMatProps released the key string twice when a
 material line has no equal sign

---
 MDLIB/InputOutput.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index ff1bc31..e0dd78c 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -2167,7 +2167,6 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     
                     free(param3);
                 }
-                free(param1);
             }
         }
         free(param2);
-- 
2.43.0


From 252f7d377a2d0140f35a96c179037a9bf8caee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 13/24] fix: initial marker and coesite files were opened twice
 and closed once

---
 MDLIB/InputOutput.c | 4 ++--
 MDLIB/Setup.c       | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index e0dd78c..53b03b9 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1411,8 +1411,8 @@ Input ReadInputFile( char *fileName ) {
             model.PD1Dmax[k]        = 1e10/scaling.S;
             model.PD1Drho[k] = DoodzCalloc( model.PD1DnP[k], sizeof(double));
             char *fname = "PHASE_DIAGRAMS/QuartzCoesite600C.bin";
-            if ( fopen(fname, "rb") != NULL ) {
-                FILE* read = fopen(fname, "rb");
+            FILE* read = fopen(fname, "rb");
+            if ( read != NULL ) {
                 fread ( model.PD1Drho[k],     sizeof(double), model.PD1DnP[k] , read);
                 fclose(read);
 
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index f777244..c1b77f8 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -142,8 +142,8 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
   FILE *file;
   if (instance->model.save_initial_markers == 1) {
         printf("Write initial particle distribution\n");
-        if (fopen(instance->model.initial_markers_file, "wb")!=NULL){
-            file = fopen(instance->model.initial_markers_file, "wb");
+        file = fopen(instance->model.initial_markers_file, "wb");
+        if (file != NULL){
             printf("Writing %d particles from file %s...\n", particles->Nb_part, instance->model.initial_markers_file);
         }
         else {
@@ -159,8 +159,8 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
     if (instance->model.load_initial_markers == 1) {
 
         printf("Read initial particle distribution\n");
-        if (fopen(instance->model.initial_markers_file, "rb")!=NULL){
-            file = fopen(instance->model.initial_markers_file, "rb");
+        file = fopen(instance->model.initial_markers_file, "rb");
+        if (file != NULL){
             printf("Loading %d particles from file %s...\n", particles->Nb_part, instance->model.initial_markers_file);
         }
         else {
-- 
2.43.0


From 08ea2f1471884cd1abde382a9cfd1eff93ba3438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 14/24] fix: text buffer of ReadChar and ReadPhaseDiagram was
 not released when a line has no equal sign

---
 MDLIB/InputOutput.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 53b03b9..e490a4b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1798,6 +1798,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
             }
         }
     }
+    free(string1);
     free(param1);
     free(param2);
     return Default;
@@ -1883,6 +1884,7 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
             }
         }
     }
+    free(string1);
     free(param1);
     free(param2);
     return NULL;
-- 
2.43.0


From 0fed4a77503089bc96787c317950f5359a98ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 15/24] fix: boundary stress block of free-surface models was
 not released

---
 MDLIB/Main_DOODZ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 396bb2e..a080643 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1255,6 +1255,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
     if (input.flux) {
       free(input.flux);
     }
+    if (input.stress) {
+      free(input.stress);
+    }
 
     if (input.crazyConductivity) {
         free(input.crazyConductivity->phases);
-- 
2.43.0


From 880414d953aea42dafb9d0913eeb35188da0c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 16/24] fix: initial guess of the vertical velocity was taken
 from the horizontal velocity

---
 MDLIB/SparseTools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/SparseTools.c b/MDLIB/SparseTools.c
index d024fcb..57ae156 100755
--- a/MDLIB/SparseTools.c
+++ b/MDLIB/SparseTools.c
@@ -167,7 +167,7 @@ void BuildInitialSolutions( double* u0, double* p0, grid* mesh ) {
         for( k=0; k<mesh->Nx+1; k++) {
             kk = k + l*(mesh->Nx+1);
             if ( mesh->BCv.type[kk] != 0  && mesh->BCv.type[kk] != 30 && mesh->BCv.type[kk] != 13  && mesh->BCv.type[kk] != 11 && mesh->BCv.type[kk] != -12 ) {
-                u0[inc] = mesh->u_in[kk];
+                u0[inc] = mesh->v_in[kk];
                 inc++;
             }
         }
-- 
2.43.0


From 5e1e5f5271427f4c8414c5f145c9604ff86c6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 17/24] fix: thermal part of the time step evaluation read past
 the end of the temperature arrays

---
 MDLIB/AdvectionRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b600da2 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<model->Nx-1; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
-- 
2.43.0


From 5931d8301c879e699631ea42866f3e65e6ce6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 18/24] fix: line search read the pressure residual at an index
 without a value when the first step is the best one

---
 MDLIB/StokesRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 32df1f2..62432f9 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -673,6 +673,7 @@ double LineSearchDecoupled( SparseMat *Stokes, SparseMat *StokesA, SparseMat *St
         ix     = 0;
         iz     = 0;
         ixzp   = 0;
+        ip     = 0;
         for( k=1; k<ntry; k++ ) {
             fxzp = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) + pow( rp[k],2 ) );
             fxz  = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) );
-- 
2.43.0


From 301091eb0e14ec526a5744d2478a9a4709415c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 19/24] fix: inflow with a full marker array wrote the new
 marker to an index without a value

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 8c1b71b..81a008a 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -633,6 +633,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(1);
                     }
 
                     // Add particles
@@ -660,6 +661,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(1);
                     }
                     
                     // Add particles
-- 
2.43.0


From a6d7024ec1393f16bb436020461d178131e28bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 20/24] fix: the switch from Picard to Newton read a flag
 without a value when the previous step ended with Picard iterations

---
 MDLIB/Main_DOODZ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index a080643..42e40e6 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -662,7 +662,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             if ( Nmodel.nit==0 ) CholmodSolver.Analyze = 1;
             printf("Run CHOLMOD analysis yes/no: %d \n", CholmodSolver.Analyze);
             int Nmax_picard = Nmodel.nit_max;
-            int IsFirstNewtonStep;
+            int IsFirstNewtonStep = 1;
             // If Picard 2 Newton is activated: force initial Newton step
             if ( IsNewtonStep == 1 && Nmodel.Picard2Newton == 1 ) {
               input.model.Newton = 0;
-- 
2.43.0


From 3b8909ded27e518cb0a62bd5c47ccb87c5b0b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 21/24] fix: deformation maps took the mechanism of the
 previous point (or none) where two mechanisms are equally strong

---
 MDLIB/RheologyDensity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 1b0412c..e3fd6cc 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1854,6 +1854,7 @@ void GenerateDeformationMaps( grid* mesh, mat_prop *materials, params *model, Np
           eta =  ViscosityConcise( k, 0.0, T[ix], Pn, d[iz], 0.0, 0.0, E[iy], E[iy], 0.0, 0.0, 0.0, 0.0, materials, model, scaling, &txx1, &tzz1, &txz1, &etaVE, &VEcoeff, &eII_el, &eII_pl, &eII_pwl, &eII_exp, &eII_lin, &eII_gbs, &eII_cst,  &d1, 0.0, materials->psi[k], materials->phi[k], materials->C[k], 0.0, 0.0, &Xreac, &OverS, &Pcorr, &rho, 0.0, 0.0, &div_el, &div_pl, &div_r, &Wtot, &Wel, &Wdiss, 0, 0, 0, 0 );
 
           // Select mechanism
+          mech = 0; // none dominates
           if (eII_pwl>eII_el && eII_pwl>eII_pl  && eII_pwl>eII_exp && eII_pwl>eII_lin && eII_pwl>eII_gbs && eII_pwl>eII_cst) mech = 1; // dislocation
           if (eII_lin>eII_el && eII_lin>eII_pl  && eII_lin>eII_exp && eII_lin>eII_pwl && eII_lin>eII_gbs && eII_lin>eII_cst) mech = 2; // diffusion
           if (eII_gbs>eII_el && eII_gbs>eII_pl  && eII_gbs>eII_lin && eII_gbs>eII_pwl && eII_gbs>eII_exp && eII_gbs>eII_cst) mech = 3; // gbs
-- 
2.43.0


From 441145f3ed94136015544ed5cd6bbb0efa45405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 22/24] fix: a material line without an equal sign was compared
 with an ID without a value

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index e490a4b..4416f8a 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -2043,7 +2043,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
 {
     // Some declarations.
     int     bufmax = 1000;
-    int     h = 0, ID_value, find = 0, subfind = 0;
+    int     h = 0, ID_value = -1, find = 0, subfind = 0;
     char    line[bufmax], phase_line[bufmax];
     double  value = 0.0;
 
-- 
2.43.0


From 1d9dc6280289b0dc40347ca60114d4cb84df294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 23/24] fix: lower cutoff of the surface diffusivity of the
 chemical solver had no value

---
 MDLIB/ChemicalRoutines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..19c8dbe 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink, maxk;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -101,6 +101,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     ncz  = nz-1;
     nxvz = nx+1;
     nzvx = nz+1;
+    MinMaxArrayVal( mesh->kc_x, nx*nzvx, &mink, &maxk );
     
     // Solve system using CHOLMOD
     cholmod_common c;
-- 
2.43.0


From 7b9cd8745d6175838c6136536d99802ede3237cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 24/24] fix: the phase change of markers covers the last marker

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 81a008a..1f324c0 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3572,7 +3572,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
-- 
2.43.0

