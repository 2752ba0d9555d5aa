From 27b840f3bb1604662a48ceea5c4ead0fed49ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 01/89] fix: wrap the last TSC cell of the interlaced mesh
 periodically

---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..43acd2a 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -945,7 +945,7 @@ OMP_ATOMIC
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From b01512af70b8f33ed0c25394dadc9dc2448be864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 02/89] fix: wrap half-cell-shifted positions landing exactly
 on the box edge

---
 src/triumvirate/src/field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 43acd2a..6ec418b 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -689,7 +689,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -800,7 +800,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -929,7 +929,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1067,7 +1067,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From 7e4fe2d79f0e00e0b98407012b84240cf2f002bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 03/89] fix: assign particles on the upper box edge to the
 periodic image

---
 src/triumvirate/src/field.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 6ec418b..da216b9 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -643,6 +643,10 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -753,6 +757,10 @@ void MeshField::assign_weighted_field_to_mesh_cic(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
@@ -864,6 +872,10 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
@@ -1012,6 +1024,10 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
-- 
2.43.0


From 196ebd16598864b7ec8b3179bea2d9b1fcfc5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 04/89] fix: use minimal mode and separation vectors on
 odd-sized grids

---
 src/triumvirate/src/field.cpp | 36 +++++++++++++++++------------------
 src/triumvirate/src/maths.cpp | 12 ++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index da216b9..6c41fa8 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -538,26 +538,26 @@ long long MeshField::ret_grid_index(int i, int j, int k) {
 }
 
 void MeshField::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0]+1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1]+1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2]+1)/2) ? k : k - this->params.ngrid[2];
 }
 
 void MeshField::get_grid_pos_vector(int i, int j, int k, double rvec[3]) {
-  rvec[0] = (i < this->params.ngrid[0]/2) ?
+  rvec[0] = (i < (this->params.ngrid[0]+1)/2) ?
     i * this->dr[0] : (i - this->params.ngrid[0]) * this->dr[0];
-  rvec[1] = (j < this->params.ngrid[1]/2) ?
+  rvec[1] = (j < (this->params.ngrid[1]+1)/2) ?
     j * this->dr[1] : (j - this->params.ngrid[1]) * this->dr[1];
-  rvec[2] = (k < this->params.ngrid[2]/2) ?
+  rvec[2] = (k < (this->params.ngrid[2]+1)/2) ?
     k * this->dr[2] : (k - this->params.ngrid[2]) * this->dr[2];
 }
 
 void MeshField::get_grid_wavevector(int i, int j, int k, double kvec[3]) {
-  kvec[0] = (i < this->params.ngrid[0]/2) ?
+  kvec[0] = (i < (this->params.ngrid[0]+1)/2) ?
     i * this->dk[0] : (i - this->params.ngrid[0]) * this->dk[0];
-  kvec[1] = (j < this->params.ngrid[1]/2) ?
+  kvec[1] = (j < (this->params.ngrid[1]+1)/2) ?
     j * this->dk[1] : (j - this->params.ngrid[1]) * this->dk[1];
-  kvec[2] = (k < this->params.ngrid[2]/2) ?
+  kvec[2] = (k < (this->params.ngrid[2]+1)/2) ?
     k * this->dk[2] : (k - this->params.ngrid[2]) * this->dk[2];
 }
 
@@ -1638,13 +1638,13 @@ void MeshField::fourier_transform() {
 
           // Calculate the index vector representing the grid cell.
           double m[3];
-          m[0] = (i < this->params.ngrid[0]/2)
+          m[0] = (i < (this->params.ngrid[0]+1)/2)
             ? double(i) / this->params.ngrid[0]
             : double(i) / this->params.ngrid[0] - 1;
-          m[1] = (j < this->params.ngrid[1]/2)
+          m[1] = (j < (this->params.ngrid[1]+1)/2)
             ? double(j) / this->params.ngrid[1]
             : double(j) / this->params.ngrid[1] - 1;
-          m[2] = (k < this->params.ngrid[2]/2)
+          m[2] = (k < (this->params.ngrid[2]+1)/2)
             ? double(k) / this->params.ngrid[2]
             : double(k) / this->params.ngrid[2] - 1;
 
@@ -2325,9 +2325,9 @@ long long FieldStats::ret_grid_index(int i, int j, int k) {
 }
 
 void FieldStats::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0]+1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1]+1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2]+1)/2) ? k : k - this->params.ngrid[2];
 }
 
 trv::BinnedVectors FieldStats::record_binned_vectors(
@@ -2430,11 +2430,11 @@ trv::BinnedVectors FieldStats::record_binned_vectors(
   for (int i: i_range) {
     for (int j: j_range) {
       for (int k: k_range) {
-        double vx = (i < this->params.ngrid[0]/2) ?
+        double vx = (i < (this->params.ngrid[0]+1)/2) ?
           i * cellsizes[0] : (i - this->params.ngrid[0]) * cellsizes[0];
-        double vy = (j < this->params.ngrid[1]/2) ?
+        double vy = (j < (this->params.ngrid[1]+1)/2) ?
           j * cellsizes[1] : (j - this->params.ngrid[1]) * cellsizes[1];
-        double vz = (k < this->params.ngrid[2]/2) ?
+        double vz = (k < (this->params.ngrid[2]+1)/2) ?
           k * cellsizes[2] : (k - this->params.ngrid[2]) * cellsizes[2];
 
         double scale = trvm::get_vec3d_magnitude({vx, vy, vz});
diff --git a/src/triumvirate/src/maths.cpp b/src/triumvirate/src/maths.cpp
index 4358e40..db04d8f 100644
--- a/src/triumvirate/src/maths.cpp
+++ b/src/triumvirate/src/maths.cpp
@@ -249,9 +249,9 @@ store_reduced_spherical_harmonic_in_fourier_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double kvec[3];
-        kvec[0] = (i < ngrid[0]/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
-        kvec[1] = (j < ngrid[1]/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
-        kvec[2] = (k < ngrid[2]/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
+        kvec[0] = (i < (ngrid[0]+1)/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
+        kvec[1] = (j < (ngrid[1]+1)/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
+        kvec[2] = (k < (ngrid[2]+1)/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, kvec);
       }
@@ -291,9 +291,9 @@ store_reduced_spherical_harmonic_in_config_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double rvec[3];
-        rvec[0] = (i < ngrid[0]/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
-        rvec[1] = (j < ngrid[1]/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
-        rvec[2] = (k < ngrid[2]/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
+        rvec[0] = (i < (ngrid[0]+1)/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
+        rvec[1] = (j < (ngrid[1]+1)/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
+        rvec[2] = (k < (ngrid[2]+1)/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, rvec);
       }
-- 
2.43.0


From a2e5241782586ee420c0e7e8e9e719e3aadc66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 05/89] fix: subtract the mean density from the interlaced mesh
 too

---
 src/triumvirate/src/field.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 6c41fa8..a3252e1 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1257,6 +1257,16 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+      // this->field_s[gid][1] -= 0.; (unused)
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
-- 
2.43.0


From 6131fa1145077e28300ef160de963485109a6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 06/89] fix: apply the alpha contrast to the interlaced mesh of
 a single catalogue

---
 src/triumvirate/src/field.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index a3252e1..0b5456f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1385,6 +1385,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1512,6 +1522,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From fb7001da1f29ad66833ec8e8279dd064482ea59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 07/89] fix: keep periodically wrapped coordinates below the
 box size

---
 src/triumvirate/src/particles.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..3a94105 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -691,6 +691,9 @@ offset_coords_for_periodicity(const double boxsize[3]) {
         this->pdata[pid].pos[iaxis] = std::fmod(
           this->pdata[pid].pos[iaxis], boxsize[iaxis]
         ) + boxsize[iaxis];
+        if (this->pdata[pid].pos[iaxis] >= boxsize[iaxis]) {
+          this->pdata[pid].pos[iaxis] = 0.;
+        }
       }
     }
   }
-- 
2.43.0


From 25cb86908d53bb3c7dc6f48f6923d4a79edf8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 08/89] fix: release the memory count of the previous particles
 on reload

---
 src/triumvirate/src/particles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 3a94105..a694035 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -55,11 +55,11 @@ void ParticleCatalogue::initialise_particles(const int num) {
     );
   }
 
-  this->ntotal = num;
-
   // Renew particle data.
   this->reset_particles();
 
+  this->ntotal = num;
+
   this->pdata = new ParticleData[this->ntotal];
   trvs::gbytesMem += trvs::size_in_gb<struct ParticleData>(this->ntotal);
   trvs::update_maxmem();
-- 
2.43.0


From 32565cf133bb29e3bf40f3a0bcf90fabfdd419a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 09/89] fix: keep periodised coordinates below the box size

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..89c22f1 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -671,7 +671,7 @@ class ParticleCatalogue:
                 self._pdata[axis] + boxsize[iaxis] / 2. - (
                     self.bounds[axis][1] + self.bounds[axis][0]
                 ) / 2.
-            ) % boxsize[iaxis]
+            ) % boxsize[iaxis] % boxsize[iaxis]
 
         self._calc_bounds()
 
-- 
2.43.0


From d9430eecee72f7ef9722a5187289988c4badc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 10/89] fix: accept catalogue columns that are not
 double-precision

---
 src/triumvirate/catalogue.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 89c22f1..d9ec0e7 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -685,7 +685,7 @@ class ParticleCatalogue:
 
         """
         for axis, coord in zip(['x', 'y', 'z'], origin):
-            self._pdata[axis] -= coord
+            self._pdata[axis] = self._pdata[axis] - coord
 
         self._calc_bounds()
 
@@ -772,12 +772,24 @@ class ParticleCatalogue:
             C++-wrapped catalogue.
 
         """
-        x = np.ascontiguousarray(self._compute(self._pdata['x']))
-        y = np.ascontiguousarray(self._compute(self._pdata['y']))
-        z = np.ascontiguousarray(self._compute(self._pdata['z']))
-        nz = np.ascontiguousarray(self._compute(self._pdata['nz']))
-        ws = np.ascontiguousarray(self._compute(self._pdata['ws']))
-        wc = np.ascontiguousarray(self._compute(self._pdata['wc']))
+        x = np.ascontiguousarray(
+            self._compute(self._pdata['x']), dtype=np.double
+        )
+        y = np.ascontiguousarray(
+            self._compute(self._pdata['y']), dtype=np.double
+        )
+        z = np.ascontiguousarray(
+            self._compute(self._pdata['z']), dtype=np.double
+        )
+        nz = np.ascontiguousarray(
+            self._compute(self._pdata['nz']), dtype=np.double
+        )
+        ws = np.ascontiguousarray(
+            self._compute(self._pdata['ws']), dtype=np.double
+        )
+        wc = np.ascontiguousarray(
+            self._compute(self._pdata['wc']), dtype=np.double
+        )
 
         return _ParticleCatalogue(x, y, z, nz, ws, wc, verbose=verbose)
 
-- 
2.43.0


From cd8442e481457b16054088d3eec9e5b86c05f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 11/89] fix: accept padding factors given as arrays

---
 src/triumvirate/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index d9ec0e7..ce64ee7 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -627,9 +627,9 @@ class ParticleCatalogue:
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
         ])
 
-        if boxsize_pad:
+        if boxsize_pad is not None:
             origin -= np.multiply(boxsize_pad, boxsize)
-        if ngrid_pad:
+        if ngrid_pad is not None:
             origin -= np.multiply(ngrid_pad, np.divide(boxsize, ngrid))
 
         self.offset_coords(origin)
-- 
2.43.0


From 417dc90a2d58bce34e8040227df1ffd0f3f0ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 12/89] fix: refresh catalogue properties when a column is
 reset

---
 src/triumvirate/catalogue.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index ce64ee7..5210fbe 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -135,10 +135,7 @@ class ParticleCatalogue:
         self._calc_bounds(init=True)
 
         self.ntotal = len(self)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_totals()
 
         if self._logger:
             self._logger.info(
@@ -377,10 +374,7 @@ class ParticleCatalogue:
         self._calc_bounds(init=True)
 
         self.ntotal = len(self._pdata)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_totals()
 
         if self._logger:
             self._logger.info(
@@ -431,6 +425,8 @@ class ParticleCatalogue:
         """
         if isinstance(key, str):
             self._pdata[key] = val
+            self._calc_bounds()
+            self._calc_totals()
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
@@ -689,6 +685,15 @@ class ParticleCatalogue:
 
         self._calc_bounds()
 
+    def _calc_totals(self):
+        """Calculate total overall and sample weights.
+
+        """
+        self.wtotal = self._compute(
+            (self._pdata['ws'] * self._pdata['wc']).sum()
+        )
+        self.wstotal = self._compute(self._pdata['ws'].sum())
+
     def _calc_bounds(self, init=False):
         """Calculate coordinate bounds in each dimension.
 
-- 
2.43.0


From ee13e91d7430458351b0bf76d2405a5d16fa13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 13/89] fix: store the mean density unrounded whatever the
 column type

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 5210fbe..fdc8298 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -481,7 +481,7 @@ class ParticleCatalogue:
 
         volume = volume or np.prod(boxsize)
 
-        self._pdata['nz'] = self.ntotal / volume
+        self._pdata['nz'] = np.full(self.ntotal, self.ntotal / volume)
 
     def centre(self, boxsize, catalogue_ref=None):
         """Centre a (pair of) catalogue(s) in a box.
-- 
2.43.0


From f8f36178c7409201c18f95813e32ea0ef0443f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 14/89] fix: pad catalogues with integer coordinates

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index fdc8298..9596da3 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -621,7 +621,7 @@ class ParticleCatalogue:
 
         origin = np.array([
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
-        ])
+        ], dtype=float)
 
         if boxsize_pad is not None:
             origin -= np.multiply(boxsize_pad, boxsize)
-- 
2.43.0


From 4cc2062df6856f3d22745fb1c444496506a1a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 15/89] fix: leave a binning intact and consistent when a bin
 range is rejected

Check the bin range before it takes effect, including its order and the
extent of any padding, so that the bin edges, centres and widths always
match the bin number.
---
 src/triumvirate/dataobjs.pyx     |  6 ++++--
 src/triumvirate/src/dataobjs.cpp | 37 ++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 40e614e..2d977d2 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -150,11 +150,13 @@ cdef class Binning:
             Number of bins.
 
         """
+        self.thisptr.set_bins(
+            <double>bin_min, <double>bin_max, <int>num_bins
+        )
+
         self.bin_min, self.bin_max = bin_min, bin_max
         self.num_bins = num_bins
 
-        self.thisptr.set_bins(self.bin_min, self.bin_max, self.num_bins)
-
         self.bin_edges = self.thisptr.bin_edges
         self.bin_centres = self.thisptr.bin_centres
         self.bin_widths = self.thisptr.bin_widths
diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 0b184b6..3391376 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -67,11 +67,16 @@ void Binning::set_bins(double coord_min, double coord_max, int nbin) {
     );
   }
 
-  this->bin_min = coord_min;
-  this->bin_max = coord_max;
-  this->num_bins = nbin;
+  // Work on a copy so that a rejected bin range leaves this object intact.
+  trv::Binning binning(*this);
 
-  this->set_bins();
+  binning.bin_min = coord_min;
+  binning.bin_max = coord_max;
+  binning.num_bins = nbin;
+
+  binning.set_bins();
+
+  *this = binning;
 }
 
 void Binning::set_bins() {
@@ -84,6 +89,12 @@ void Binning::set_bins() {
 }
 
 void Binning::set_bins(double boxsize_max, int ngrid_min) {
+  if (!(boxsize_max > 0.) || ngrid_min < 2) {
+    throw trvs::InvalidParameterError(
+      "Mesh grid must have a positive size and at least 2 cells."
+    );
+  }
+
   this->scheme = "lin";
 
   this->bin_min = 0.;
@@ -132,6 +143,12 @@ void Binning::set_bins(std::vector<double> bin_edges) {
 }
 
 void Binning::compute_binning() {
+  if (!(this->bin_min < this->bin_max)) {
+    throw trvs::InvalidParameterError(
+      "Bin range must have its minimum below its maximum."
+    );
+  }
+
   // Set up padding parameters.
   double dbin_pad;
   if (this->space == "fourier") {
@@ -141,6 +158,18 @@ void Binning::compute_binning() {
     dbin_pad = this->dbin_pad_config;
   }
 
+  if (this->scheme == "linpad" || this->scheme == "logpad") {
+    if (
+      this->num_bins <= this->nbin_pad
+      || this->bin_max <= dbin_pad * this->nbin_pad
+    ) {
+      throw trvs::InvalidParameterError(
+        "Bin number and range must extend beyond the %d padded bins.",
+        this->nbin_pad
+      );
+    }
+  }
+
   // Implement binning scheme.
 
   // ---------------------------------------------------------------------
-- 
2.43.0


From b9d5701184ff893da6beb76541d8ed5a0eea7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 16/89] fix: derive the mesh numbers from the Nyquist cutoff in
 parameter sets

---
 src/triumvirate/parameters.pyx     |  9 +++++++--
 src/triumvirate/src/parameters.cpp | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..5ba4833 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -478,8 +478,6 @@ cdef class ParameterSet:
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
                 self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
@@ -546,6 +544,13 @@ cdef class ParameterSet:
 
         self._validate(True)
 
+        # Fetch the mesh grid numbers derived from the Nyquist cutoff.
+        if self._params['nmesh'] == 0 and self._params['volume'] > 0.:
+            self._params['ngrid'] = dict(zip(
+                ['x', 'y', 'z'], self.thisptr.ngrid
+            ))
+            self._params['nmesh'] = self.thisptr.nmesh
+
     def _validate(self, init=False):
         """Validate extracted parameters.
 
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..5672da4 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1086,6 +1086,16 @@ int ParameterSet::validate(bool init) {
         this->cutoff_nyq
       );
     }
+    if (this->volume > 0. && this->cutoff_nyq == 0.) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "The Nyquist cutoff must be set when `ngrid` is unset."
+        );
+      }
+      throw trvs::InvalidParameterError(
+        "The Nyquist cutoff must be set when `ngrid` is unset."
+      );
+    }
     if (this->volume > 0.) {
       set_ngrid_from_cutoff(*this);
     }
-- 
2.43.0


From f4dc8cfdc7464a24b3db44b8f62fd13d7fc1d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 17/89] fix: derive the box size from the catalogue spans in
 measurements

---
 src/triumvirate/threept.py | 12 ++++++------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..f3b509b 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -540,8 +540,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_rand.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -553,7 +553,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1441,8 +1441,8 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_data.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1454,7 +1454,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..4e82758 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -463,8 +463,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_rand.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -476,7 +476,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -997,8 +997,8 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                catalogue_data.spans[ax] * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1010,7 +1010,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
-- 
2.43.0


From 7d9861ac4890cf0be8acf3d0201925c1408a0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 18/89] fix: keep Python and C++ parameters consistent across
 updates

Unset parameters no longer retain previously parsed values, a rejected
update leaves the parameter set unchanged, and parameter sets no longer
share state with the dictionary they are constructed from.
---
 src/triumvirate/parameters.pyx | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 5ba4833..7481db4 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -12,6 +12,7 @@ Configure program parameter set.
 
 """
 import warnings
+from copy import deepcopy
 from pathlib import Path
 from pprint import pformat, pprint
 
@@ -131,7 +132,7 @@ cdef class ParameterSet:
                 self._params = yaml.load(param_file, Loader=yaml.SafeLoader)
         if param_dict is not None:
             self._source = 'dict'
-            self._params = param_dict
+            self._params = deepcopy(param_dict)
 
         self._original = True
         self._validity = False
@@ -176,9 +177,7 @@ cdef class ParameterSet:
             Parameter value.
 
         """
-        self._params.update({key: val})
-        self._parse_params()  # validate
-        self._original = False
+        self._update_params({key: val})
 
     def __getattr__(self, name):
         """Get parameter value as an attribute.
@@ -258,9 +257,7 @@ cdef class ParameterSet:
         """Update parameter set like :meth:`dict.update`.
 
         """
-        self._params.update(*args, **kwargs)
-        self._parse_params()  # validate
-        self._original = False
+        self._update_params(*args, **kwargs)
 
     def print(self):
         """Print the parameters as a dictionary
@@ -295,11 +292,30 @@ cdef class ParameterSet:
         if self._logger:
             self._logger.info("Saved parameters to %s.", filepath)
 
+    def _update_params(self, *args, **kwargs):
+        """Update and validate the parameter set, which is left unchanged
+        if the updated parameters are rejected.
+
+        """
+        params_prev = deepcopy(self._params)
+        self._params.update(*args, **kwargs)
+        try:
+            self._parse_params()  # validate
+        except Exception:
+            self._params = params_prev
+            self._parse_params()
+            raise
+        self._original = False
+
     def _parse_params(self):
         """Parse the parameter set into the corresponding
         C++ parameter class.
 
         """
+        # Unset parameters must not retain any previously parsed values.
+        del self.thisptr
+        self.thisptr = new CppParameterSet()
+
         # ----------------------------------------------------------------
         # Parsing
         # ----------------------------------------------------------------
-- 
2.43.0


From e1d342a23e13b67f5fee2c432a4fe03f7bc14fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 19/89] fix: save parameter sets in a form that can be loaded
 back

---
 src/triumvirate/parameters.pyx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 7481db4..96cf380 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -283,8 +283,8 @@ cdef class ParameterSet:
             )
 
         with open(filepath, 'w') as printout_file:
-            yaml.dump(
-                self._params, printout_file,
+            yaml.safe_dump(
+                _convert_to_builtin(self._params), printout_file,
                 sort_keys=False,
                 default_flow_style=False  # CAVEAT: discretionary
             )
@@ -630,6 +630,21 @@ cdef class ParameterSet:
             pass
 
 
+def _convert_to_builtin(val):
+    """Convert any (nested) parameter value to built-in types.
+
+    """
+    if isinstance(val, dict):
+        return {k: _convert_to_builtin(v) for k, v in val.items()}
+    if isinstance(val, np.ndarray):
+        return val.tolist()
+    if isinstance(val, (list, tuple)):
+        return [_convert_to_builtin(v) for v in val]
+    if isinstance(val, np.generic):
+        return val.item()
+    return val
+
+
 def fetch_paramset_template(format, ret_defaults=False):
     """Fetch a parameter set template, either as a YAML file
     (with explanatory text) or as a dictionary.
-- 
2.43.0


From 559875f9bcee22362b3782bee625086702afeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 20/89] fix: copy the three-point data vector shape with a
 parameter set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 5672da4..322d4a9 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -68,6 +68,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->i_wa = other.i_wa;
   this->j_wa = other.j_wa;
   this->form = other.form;
+  this->shape = other.shape;
   this->norm_convention = other.norm_convention;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
-- 
2.43.0


From c75fd527138e2225e40fdba154d3d7c25913dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 21/89] fix: keep the shot noise of full-form statistics within
 the data vector

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From fe7408dfee4e747563eea57630cd2a3eac8a32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 22/89] fix: apply the parity factor of the 3PCF shot noise
 once

Both compute_uncoupled_shotnoise_for_3pcf and its callers multiplied by
(-1)^(l1+l2), so the self-pair term of odd l1+l2 had the wrong sign and
was doubled rather than removed from the raw 3PCF.
---
 src/triumvirate/include/field.hpp | 2 +-
 src/triumvirate/src/field.cpp     | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/include/field.hpp b/src/triumvirate/include/field.hpp
index a37b91d..d458153 100644
--- a/src/triumvirate/include/field.hpp
+++ b/src/triumvirate/include/field.hpp
@@ -682,7 +682,7 @@ class FieldStats {
    *
    * This computes the quantity
    * @f[
-   *   \frac{(-1)^{\ell_a + \ell_b}}{N_\mathrm{mode}(r) V_\mathrm{cell}}
+   *   \frac{1}{N_\mathrm{mode}(r) V_\mathrm{cell}}
    *   \int \frac{\mathrm{d}^2\,\hat{\vec{r}}}{4\pi}
    *     y^*_{\ell_a m_a}(\hat{\vec{r}}) y^*_{\ell_b m_b}(\hat{\vec{r}})
    *   \int \frac{\mathrm{d}^3\,\vec{k}}{(2\pi)^3}
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 0b5456f..b7b3473 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -3224,8 +3224,7 @@ OMP_ATOMIC
   }
 
   // Apply normalisation factors.
-  double norm_factors = 1 / this->vol_cell
-    * std::pow(-1, this->params.ell1 + this->params.ell2);
+  double norm_factors = 1 / this->vol_cell;
 
   for (int ibin = 0; ibin < rbinning.num_bins; ibin++) {
     if (this->npairs[ibin] != 0) {
-- 
2.43.0


From f8a351b151368a96217204ba2f8a16674ba87e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 23/89] fix: keep FFTW wisdom disabled when parameters are
 validated again

A second initial validation turned the disabled state into the directory
'/', so mesh-mixed normalisation, and with it every survey two-point
measurement with fftw_scheme 'estimate', failed.
---
 src/triumvirate/src/parameters.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 322d4a9..068d5b7 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -945,7 +945,10 @@ int ParameterSet::validate(bool init) {
     if (this->use_fftw_wisdom == "false") {
       this->use_fftw_wisdom = "";  // transmutation
     } else
-    if (init) {
+    if (
+      init && !this->use_fftw_wisdom.empty()
+      && this->use_fftw_wisdom.back() != '/'
+    ) {
       this->use_fftw_wisdom += "/";  // transmutation
     }
   }
-- 
2.43.0


From d212f00f81eb9123eb982894d211e4bae751df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 24/89] fix: keep the letter case of the FFTW wisdom directory

---
 src/triumvirate/parameters.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 96cf380..7341427 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -545,8 +545,10 @@ cdef class ParameterSet:
         if (
             use_fftw_wisdom_ := self._params.get('use_fftw_wisdom')
         ) is not None:
-            self.thisptr.use_fftw_wisdom = \
-                str(use_fftw_wisdom_).lower().encode('utf-8')
+            use_fftw_wisdom_ = str(use_fftw_wisdom_)
+            if use_fftw_wisdom_.lower() == 'false':
+                use_fftw_wisdom_ = 'false'
+            self.thisptr.use_fftw_wisdom = use_fftw_wisdom_.encode('utf-8')
 
         if (verbose_ := self._params.get('verbose')) is not None:
             self.thisptr.verbose = verbose_
-- 
2.43.0


From 4d3f5502a98c1021190ce8b9e2365aa7ad00c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 25/89] fix: compute extrapolated post-transform points from
 extrapolated points

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..37e0bdb 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
-- 
2.43.0


From 195a152a948e690ac20e19e2da6cbde310da751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 26/89] fix: resize the output of the spherical Bessel
 transform

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 37e0bdb..3d89a9f 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -532,7 +532,7 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-- 
2.43.0


From 8860576605fd8b36eb15972a2dcbc9f0ba5cd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 27/89] fix: accept two sample points in Hankel transforms as
 documented

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3d89a9f..25622ac 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -350,7 +350,7 @@ void HankelTransform::biased_transform(
   int N = this->nsamp;
   int N_trans = this->nsamp_trans;
 
-  if (this->kernel.empty() || N <= 2 || N_trans <= 2) {
+  if (this->kernel.empty() || N < 2 || N_trans < 2) {
     throw std::runtime_error(
       "This instance of trv::maths::HankelTransform has not been "
       "initialised with `initialise`."
-- 
2.43.0


From 0db738b576adb20fa874a148b380a2e3ffb0068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 28/89] fix: leave the input samples of spherical Bessel
 transforms intact

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..391986a 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = np.asarray(pre_samples) * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From d46c2a49068cb676aa4b1c615b121e98293282a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 29/89] fix: check the sample size passed to Hankel transforms

---
 src/triumvirate/_fftlog.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index ffbecb6..b58ec0c 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -120,8 +120,13 @@ cdef class HankelTransform:
             Post-transform sample points and samples.
 
         """
-        fx_ = fx.astype(np.complex128)
-        gy_ = np.zeros_like(fx, dtype=np.complex128)
+        fx_ = np.ascontiguousarray(fx, dtype=np.complex128)
+        if fx_.shape != (self._nsamp,):
+            raise ValueError(
+                "Pre-transform samples must match the sample points in 1-d: "
+                f"{fx_.shape=} != ({self._nsamp},)."
+            )
+        gy_ = np.zeros_like(fx_)
         self._transform(fx_, gy_)
 
         y = np.array(self._post_sampts)
-- 
2.43.0


From f60cf5c2160a1d17ff4c33f7637db91f6dcc2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 30/89] fix: return the pivots of double spherical Bessel
 transforms

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 391986a..af97258 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -413,7 +413,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From 31e66fa972cd12903b2c72e19694b02a0cb5d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 31/89] fix: return the sample points of both dimensions from
 double transforms

---
 src/triumvirate/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index af97258..86a6ec4 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -447,8 +447,13 @@ class DoubleSphericalBesselTransform:
         post_samples = np.asarray(post_samples_T).T
         post_samples = post_samples[self._post_slice, self._post_slice]
 
+        # Sample points may differ between dimensions with the pivot values.
         post_sampts = np.meshgrid(
-            self._post_sampts, self._post_sampts, indexing='ij'
+            *[
+                np.asarray(fbsjt_._post_sampts)[self._post_slice]
+                for fbsjt_ in self._fbsjt
+            ],
+            indexing='ij'
         )
 
         return post_sampts, post_samples
-- 
2.43.0


From 1772257d6b7a7e48ab2909910a5422ec2e2c36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 32/89] fix: order multipoles by all of their degrees

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..b42f6ca 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From ee4aa221369bb602085453b76cb7e586745db86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 33/89] fix: generate serial window convolution matrices

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b42f6ca..4298bf0 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2875,7 +2875,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From 3dd5110e569d5e5e70006209024019f1cd19d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 34/89] fix: keep the number of points when resampling
 three-point windows by default

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 4298bf0..c317d2b 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,7 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if make_loglin is True else make_loglin
                 )
             else:
                 warnings.warn(
-- 
2.43.0


From 81b1573f73298f8a63638936a5864e70979931d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 35/89] fix: store separation points by multipole in loaded
 three-point windows

---
 src/triumvirate/winconv.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index c317d2b..5a72380 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1049,8 +1049,6 @@ class ThreePointWindow:
         """
         self = cls.__new__(cls)
 
-        self.r = dict_obj['r']
-
         self.Q = {}
         self.Q_diag = {}
         multipoles = []
@@ -1062,6 +1060,16 @@ class ThreePointWindow:
 
         self.multipoles = sorted(multipoles)
 
+        if isinstance(dict_obj['r'], dict):
+            self.r = {
+                Multipole(multipole_in): rQ_in
+                for multipole_in, rQ_in in dict_obj['r'].items()
+            }
+        else:
+            self.r = {
+                multipole: dict_obj['r'] for multipole in self.multipoles
+            }
+
         try:
             self.sources = dict_obj['sources']
         except KeyError:
-- 
2.43.0


From 94e4188ccc42ae66209cfb01c5663ea02b725e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 36/89] fix: restore lists from three-point window files

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 5a72380..5457adc 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1102,8 +1102,8 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = win_obj['multipoles'].tolist()
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
-- 
2.43.0


From 671c006b0991bc68461c9c7fe730d329d02771a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 37/89] fix: subselect three-point windows for each multipole

---
 src/triumvirate/winconv.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 5457adc..e43a96d 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1159,11 +1159,16 @@ class ThreePointWindow:
             }
         elif isinstance(rrange, dict):
             select_range = {
-                Multipole(multipole): np.logical_and(
-                    rmin <= self.r[multipole], self.r[multipole] <= rmax
-                )
-                for multipole, (rmin, rmax) in rrange.items()
+                multipole: np.full_like(self.r[multipole], True, dtype=bool)
+                for multipole in self.multipoles
             }
+            for key, (rmin, rmax) in rrange.items():
+                rmin = rmin or 0.
+                rmax = rmax or np.inf
+                select_range[Multipole(key)] = np.logical_and(
+                    rmin <= self.r[Multipole(key)],
+                    self.r[Multipole(key)] <= rmax
+                )
         else:
             rmin, rmax = rrange
             rmin = rmin or 0.
@@ -1190,7 +1195,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1208,7 +1213,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
-- 
2.43.0


From 640cb6293e2eb0a48e91247df81247a12244e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 38/89] fix: leave the transform keyword arguments of window
 convolution intact

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index e43a96d..3614526 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1982,7 +1982,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2491,7 +2491,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From ccdcc9f6247b1586dc0f302591a68d732d40ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 39/89] fix: keep the number of wavenumbers of each multipole
 when resampling

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 3614526..3c6d19f 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2534,7 +2534,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]),
+                    len(_k_in_), base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
-- 
2.43.0


From d14ed6008639f1afb86dd7f1974a48b1399ad705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 40/89] fix: accept any multipole keys in window-convolved
 multipoles

---
 src/triumvirate/winconv.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 3c6d19f..9d04fb9 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1873,6 +1873,8 @@ class TwoPCFWinConv(WinConvBase):
             a multipole) at sample points :attr:`r_out`.
 
         """
+        xi_in = {Multipole(key): val for key, val in xi_in.items()}
+
         xi_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2121,6 +2123,8 @@ class PowspecWinConv(WinConvBase):
             (only returned if `ret_xi` is `True`).
 
         """
+        P_in = {Multipole(key): val for key, val in P_in.items()}
+
         # Backward transform power spectrum multipoles to 2PCF multipoles.
         xi_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
@@ -2258,6 +2262,8 @@ class ThreePCFWinConv(WinConvBase):
             match the separation sample points of the input 3PCF.
 
         """
+        zeta_in = {Multipole(key): val for key, val in zeta_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             if self._catch_warnings:
@@ -2340,6 +2346,10 @@ class ThreePCFWinConv(WinConvBase):
             formulae but `ic` is `None`.
 
         """
+        zeta_diag_in = {
+            Multipole(key): val for key, val in zeta_diag_in.items()
+        }
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             raise ValueError(
@@ -2646,6 +2656,8 @@ class BispecWinConv(WinConvBase):
             (only returned if `ret_zeta` is `True`).
 
         """
+        B_in = {Multipole(key): val for key, val in B_in.items()}
+
         # Reinterpolate input bispectrum multipoles if necessary.
         if self._k_in_orig is not None:
             B_in = {
-- 
2.43.0


From 6f7b3cf1b00faaf858705fbb65a8f36e7afca654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 41/89] fix: require all input multipoles, and no more, in
 window convolution

---
 src/triumvirate/winconv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 9d04fb9..d90740a 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1683,7 +1683,9 @@ class WinConvBase:
                 Multipole(multipole): r_in[multipole]
                 for multipole in r_in.keys()
             }
-            if not set(self.r_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.r_in.keys()
+            ):
                 raise ValueError(
                     "The input 2PCF separation sample points must contain all "
                     "the multipole keys required by the convolution formulae."
@@ -2007,7 +2009,9 @@ class PowspecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input power spectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
@@ -2524,7 +2528,9 @@ class BispecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input bispectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
-- 
2.43.0


From aae978bf53e2f4c31d9439a78f917be1a8709e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 42/89] fix: keep the integral constraint out of the input
 separation points

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d90740a..7dfc05f 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1693,7 +1693,7 @@ class WinConvBase:
         else:
             self.r_in = {
                 multipole: r_in
-                for multipole in self._formulae.multipoles_Z
+                for multipole in self._formulae._multipoles_Z_true
             }
 
         if r_out is None:
-- 
2.43.0


From ae6742f93a51877ea30ece6972ecd988a3d540e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 43/89] fix: use the chosen spline order for the integral
 constraint

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 7dfc05f..46823f2 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2274,7 +2274,7 @@ class ThreePCFWinConv(WinConvBase):
                 with warnings.catch_warnings(record=True) as caught_warnings:
                     ic = calc_threept_ic(
                         self._rQ_in, self._Q_in, self.r_in, zeta_in,
-                        r_common=None, approx=False
+                        r_common=None, approx=False, spline=self.spline
                     )
                 restore_warnings(
                     caught_warnings, comm=self.comm, comm_root=self.comm_root
@@ -2282,7 +2282,7 @@ class ThreePCFWinConv(WinConvBase):
             else:
                 ic = calc_threept_ic(
                     self._rQ_in, self._Q_in, self.r_in, zeta_in,
-                    r_common=None, approx=False
+                    r_common=None, approx=False, spline=self.spline
                 )
 
         # Perform convolution term by term.
-- 
2.43.0


From d9639f228ca2ba6b85dcbf6728eae53cbf30f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 44/89] fix: emit repeated warnings once

---
 src/triumvirate/_mpitools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index d6306be..0246a65 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -131,7 +131,8 @@ def restore_warnings(captured_warnings, unique=True, show=True,
         seen_warnings = set()
         for record in captured_warnings:
             record_tuple = (
-                record.message, record.category, record.filename, record.lineno
+                str(record.message), record.category,
+                record.filename, record.lineno
             )
             if record_tuple not in seen_warnings:
                 restored_warnings.append(record)
-- 
2.43.0


From 7b19d4edfd590bdbdbb141ad9b556ef7d83b53ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 45/89] fix: ignore the process number when task numbers are
 given

---
 src/triumvirate/_mpitools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index 0246a65..4967663 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -88,12 +88,11 @@ def distribute_tasks(ntasks=None, task_total=None, proc_total=None):
 
     """
     ntasks = ntasks if ntasks else allocate_tasks(task_total, proc_total)
-    proc_total = proc_total if proc_total else len(ntasks)
 
     breakpoints = np.insert(np.cumsum(ntasks), 0, values=0)
     segments = [
         slice(breakpoints[rank], breakpoints[rank + 1])
-        for rank in range(proc_total)
+        for rank in range(len(ntasks))
     ]
 
     return segments
-- 
2.43.0


From 343e062fff859a340b970ce89e819f885accbe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 46/89] fix: accept sorted arrays in sortedness checks

---
 src/triumvirate/_arrayops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 5eb3eeb..daa0d17 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -122,7 +122,7 @@ def _check_1d_array(a, check_sorted=False, check_epsign=False,
             )
 
     if check_sorted:
-        if (not np.all(a[:-1] <= a[1:])) or (not np.all(a[:-1] >= a[1:])):
+        if (not np.all(a[:-1] <= a[1:])) and (not np.all(a[:-1] >= a[1:])):
             raise OrderError("Input array is not a sorted sequence.")
     if check_epsign:
         _check_epsign(a)
@@ -211,7 +211,7 @@ def _check_2d_array(a, check_sorted=False, check_epsign=False,
                     not np.all([
                         np.all(a__row[:-1] <= a__row[1:]) for a__row in a_
                     ])
-                ) or (
+                ) and (
                     not np.all([
                         np.all(a__row[:-1] >= a__row[1:]) for a__row in a_
                     ])
-- 
2.43.0


From e70b57e1c695002cbddd222c9fcf927bcf8d937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 47/89] fix: keep complex values when reshaping upper
 triangular matrices

---
 src/triumvirate/_arrayops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index daa0d17..1415dba 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -798,7 +798,9 @@ def reshape_threept_datatab(paired_coords, flat_multipole, shape='triu'):
 
         triu_indices = np.triu_indices(nbins)
 
-        multipole = np.zeros((nbins, nbins))
+        multipole = np.zeros(
+            (nbins, nbins), dtype=np.result_type(flat_multipole, float)
+        )
         multipole[triu_indices] = flat_multipole
         multipole.T[triu_indices] = flat_multipole
     elif shape == 'full':
-- 
2.43.0


From d4ae5616dc3a0029ca989320649a816387e166ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 48/89] fix: use the sample points of both dimensions in
 bispectrum convolution

---
 src/triumvirate/winconv.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 46823f2..d6b2640 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2679,8 +2679,16 @@ class BispecWinConv(WinConvBase):
         # Backward transform bispectrum multipoles to 3PCF multipoles.
         zeta_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
-            _, zeta_in[multipole_Z] = self._bdsjt[multipole_Z].\
+            r_bwd, zeta_in[multipole_Z] = self._bdsjt[multipole_Z].\
                 transform_cosmo_multipoles(-1, B_in[multipole_Z])
+            # Enforce the same sample points in both dimensions, as these
+            # may differ when the degrees are different.
+            r_bwd = (r_bwd[0][:, 0], r_bwd[1][0, :])
+            if not np.array_equal(*r_bwd):
+                zeta_in[multipole_Z] = RectBivariateSpline(
+                    *r_bwd, zeta_in[multipole_Z].real,
+                    kx=self.spline[0], ky=self.spline[0]
+                )(self.r_in[multipole_Z], self.r_in[multipole_Z])
 
         # Perform 3PCF convolution.
         zeta_conv = self._winconv.convolve(zeta_in, ic=ic)
@@ -2690,16 +2698,17 @@ class BispecWinConv(WinConvBase):
         for multipole in self._formulae.multipoles:
             transformer = self._fdsjt[multipole]
 
-            k_conv = transformer._post_sampts
-            _, bk_conv_pole = transformer.transform_cosmo_multipoles(
+            k_conv, bk_conv_pole = transformer.transform_cosmo_multipoles(
                 1, zeta_conv[multipole]
             )
+            # Sample points in the two dimensions may differ.
+            k_conv = (k_conv[0][:, 0], k_conv[1][0, :])
 
             B_conv_out[multipole] = RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.real,
+                *k_conv, bk_conv_pole.real,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out) + 1j * RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.imag,
+                *k_conv, bk_conv_pole.imag,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out)
 
-- 
2.43.0


From 7b1ff826d7ea84f0efec1bec6ef793ac0c3fcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 49/89] fix: concatenate window convolution matrices with
 recent NumPy

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d6b2640..d0384c6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2894,7 +2894,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
-- 
2.43.0


From d8812335872b646bb12bd47e0d2790e26a53bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 50/89] fix: raise invalid Hankel transform parameters as
 Python exceptions

---
 src/triumvirate/_fftlog.pxd | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_fftlog.pxd b/src/triumvirate/_fftlog.pxd
index 355e9d2..1467355 100644
--- a/src/triumvirate/_fftlog.pxd
+++ b/src/triumvirate/_fftlog.pxd
@@ -18,7 +18,9 @@ cdef extern from "include/fftlog.hpp":
         vector[double] pre_sampts
         vector[double] post_sampts
 
-        CppHankelTransform(double mu, double q, bool_t threaded)
+        CppHankelTransform(
+            double mu, double q, bool_t threaded
+        ) except +
 
         void initialise(
             vector[double] sample_pts, double kr_c, bool_t lowring,
-- 
2.43.0


From c19407c228e94f47867119c050b6facaa7eb09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 51/89] fix: keep resampling points within the original range

---
 src/triumvirate/transforms.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 86a6ec4..01c75a7 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -579,9 +579,8 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         if sampts.ndim != 1:
             raise ValueError("Sample points must be 1-d.")
 
-        resampts = np.logspace(
-            np.log10(sampts[0]), np.log10(sampts[-1]), size or len(sampts),
-            base=10
+        resampts = np.geomspace(
+            sampts[0], sampts[-1], size or len(sampts)
         )
         resamples = InterpolatedUnivariateSpline(
             sampts, samples, k=spline, ext='raise'
@@ -601,13 +600,13 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         size = size if isinstance(size, Sequence) else (size, size)
 
         resampts = (
-            np.logspace(
-                np.log10(sampts[0][0]), np.log10(sampts[0][-1]),
-                size[0] or len(sampts[0]), base=10
+            np.geomspace(
+                sampts[0][0], sampts[0][-1],
+                size[0] or len(sampts[0])
             ),
-            np.logspace(
-                np.log10(sampts[-1][0]), np.log10(sampts[-1][-1]),
-                size[-1] or len(sampts[-1]), base=10
+            np.geomspace(
+                sampts[-1][0], sampts[-1][-1],
+                size[-1] or len(sampts[-1])
             )
         )
         resamples = RectBivariateSpline(
-- 
2.43.0


From 50e6ba68e7adaca04e55ce172df22f751600944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 52/89] fix: resample in two dimensions at sample points of
 different sizes

---
 src/triumvirate/transforms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 01c75a7..e4594af 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -572,8 +572,11 @@ def resample_lglin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
     samples = np.squeeze(samples)
+    if samples.ndim == 2 and np.ndim(sampts[0]) > 0:
+        sampts = [np.asarray(pts) for pts in sampts]
+    else:
+        sampts = np.squeeze(sampts)
 
     if samples.ndim == 1:
         if sampts.ndim != 1:
@@ -589,7 +592,7 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
+        if np.ndim(sampts[0]) == 0:
             sampts = np.array([sampts, sampts])
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
@@ -662,8 +665,11 @@ def resample_lin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
     samples = np.squeeze(samples)
+    if samples.ndim == 2 and np.ndim(sampts[0]) > 0:
+        sampts = [np.asarray(pts) for pts in sampts]
+    else:
+        sampts = np.squeeze(sampts)
 
     if samples.ndim == 1:
         if sampts.ndim != 1:
@@ -679,7 +685,7 @@ def resample_lin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
+        if np.ndim(sampts[0]) == 0:
             sampts = np.array([sampts, sampts])
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
-- 
2.43.0


From 1e72ad2d14e449a08f038181cc8277e5edf20670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 53/89] fix: accept sequences when reshaping upper triangular
 matrices

---
 src/triumvirate/_arrayops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 1415dba..0e4577e 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -799,7 +799,8 @@ def reshape_threept_datatab(paired_coords, flat_multipole, shape='triu'):
         triu_indices = np.triu_indices(nbins)
 
         multipole = np.zeros(
-            (nbins, nbins), dtype=np.result_type(flat_multipole, float)
+            (nbins, nbins),
+            dtype=np.result_type(np.asarray(flat_multipole), float)
         )
         multipole[triu_indices] = flat_multipole
         multipole.T[triu_indices] = flat_multipole
-- 
2.43.0


From f5e20afa3bcff13e95197281003543d89fe673db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 54/89] fix: weight the integral constraint by the multipole
 normalisation

---
 src/triumvirate/winconv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d0384c6..ff0edee 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1529,7 +1529,11 @@ def calc_threept_ic(window_sampts, window_multipoles, r, zeta,
         _H2 = float(_H_factor(*multipole.index)) ** 2
         _N = _N_prefactor(multipole=multipole)
 
-        ic_nom += _N * _H2 * _integrate_2d_samples(
+        # Only multipoles of even total degree contribute.
+        if _H2 == 0.:
+            continue
+
+        ic_nom += 1. / (_N * _H2) * _integrate_2d_samples(
             r_common[multipole], r_common[multipole],
             Q_in[multipole] * Z_in[multipole]
         )
-- 
2.43.0


From a5f2b5c042b667227f4ae00e42e26ec8ab0ed347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 55/89] fix: gather window convolution vectors as complex from
 idle processes

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index ff0edee..54ce4f2 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -3083,7 +3083,7 @@ class BispecWinConv(WinConvBase):
             sendbuf = np.asarray([
                 wc_basis_vectors[key]
                 for wc_basis_vectors in wc_basis_vectors_sublist
-            ])
+            ], dtype=complex)
             sendsizes = sendbuf.size
             recvsizes = self.comm.gather(sendsizes, root=self.comm_root)
             if self.comm.rank == self.comm_root:
-- 
2.43.0


From 0085791fe4a07935a8ea7d0e9ba479225c979cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 56/89] fix: load three-point window files in the order of the
 multipoles

---
 src/triumvirate/winconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 54ce4f2..22e5a0b 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -994,7 +994,9 @@ class ThreePointWindow:
         paired_sampts = {}
         flat_multipoles = {}
         sources = []
-        for multipole, filepath in sorted(filepaths.items()):
+        for multipole, filepath in sorted(
+            filepaths.items(), key=lambda item: Multipole(item[0])
+        ):
             if subtract_shotnoise:
                 if len(usecols) != 4:
                     raise ValueError(
-- 
2.43.0


From c43b3465258eb7155c6c681e552096eedc4e604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 57/89] fix: log messages at any level given by number

---
 src/triumvirate/src/monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 4bc37a4..2872ead 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -377,7 +377,7 @@ void Logger::log(LogLevel entry_level, const char* fmt_string, ...) {
 void Logger::log(int level_entry, const char* fmt_string, ...) {
   if (level_entry >= this->level_limit) {
     // CAVEAT: See @ref trv::sys::LogLevel.
-    level_entry /= 10;
+    level_entry = (level_entry / 10) * 10;
 
     std::string log_type;
 
-- 
2.43.0


From 94cc2f905b41b6630537a43b7ff185490fa57b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 58/89] fix: keep the arguments of messages logged at an
 enumerated level

---
 src/triumvirate/include/monitor.hpp |  1 +
 src/triumvirate/src/monitor.cpp     | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/include/monitor.hpp b/src/triumvirate/include/monitor.hpp
index e97fc52..a8ea19a 100644
--- a/src/triumvirate/include/monitor.hpp
+++ b/src/triumvirate/include/monitor.hpp
@@ -561,6 +561,7 @@ class Logger {
   void error(const char* fmt_string, ...);
 
  private:
+  void vlog(int level_entry, const char* fmt_string, std::va_list args);
   void emit(std::string log_type, const char* fmt_string, std::va_list args);
 };
 
diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 2872ead..3065481 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -371,10 +371,22 @@ void Logger::emit(
 }
 
 void Logger::log(LogLevel entry_level, const char* fmt_string, ...) {
-  Logger::log(static_cast<int>(entry_level), fmt_string);
+  std::va_list args;
+  va_start(args, fmt_string);
+  Logger::vlog(static_cast<int>(entry_level), fmt_string, args);
+  va_end(args);
 }
 
 void Logger::log(int level_entry, const char* fmt_string, ...) {
+  std::va_list args;
+  va_start(args, fmt_string);
+  Logger::vlog(level_entry, fmt_string, args);
+  va_end(args);
+}
+
+void Logger::vlog(
+  int level_entry, const char* fmt_string, std::va_list args
+) {
   if (level_entry >= this->level_limit) {
     // CAVEAT: See @ref trv::sys::LogLevel.
     level_entry = (level_entry / 10) * 10;
@@ -431,10 +443,7 @@ void Logger::log(int level_entry, const char* fmt_string, ...) {
       }
     }
 
-    std::va_list args;
-    va_start(args, fmt_string);
     Logger::emit(log_type, fmt_string, args);
-    va_end(args);
   }
 }
 
-- 
2.43.0


From fce2618d8d905090802d7fa30566c1428d4cbead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 59/89] fix: set each progress bar node once and stop at the
 last one

---
 src/triumvirate/src/monitor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 3065481..beba52f 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -581,7 +581,10 @@ void ProgressBar::set_progress(float progress) {
   this->progress = progress;
 
   this->next_node_idx = 0;
-  while (this->progress > this->nodes[this->next_node_idx]) {
+  while (
+    this->next_node_idx < static_cast<int>(this->nodes.size())
+    && this->progress > this->nodes[this->next_node_idx]
+  ) {
     this->next_node_idx += 1;
   }
 }
@@ -596,7 +599,10 @@ void ProgressBar::update(float progress_now) {
   this->progress = progress_now;
 
   if (this->progress <= 1.) {
-    if (this->progress >= this->nodes[this->next_node_idx]) {
+    if (
+      this->next_node_idx < static_cast<int>(this->nodes.size())
+      && this->progress >= this->nodes[this->next_node_idx]
+    ) {
       int pos = this->bar_width * this->progress;
 
       // Print the timestamped status.
@@ -649,7 +655,7 @@ void ProgressBar::update(float progress_now) {
 }
 
 void ProgressBar::set_default_pcpt_nodes() {
-  this->nodes.resize(101, 0.);
+  this->nodes.clear();
   for (int pcpt = 0; pcpt <= 100; ++pcpt) {
     this->nodes.push_back(float(pcpt) / 100.);
   }
-- 
2.43.0


From 38ec551528bfe480a2d1e114508b2dba5e8062a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 60/89] fix: fetch validated parameter options into Python
 parameter sets

---
 src/triumvirate/parameters.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 7341427..4726f2d 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -598,6 +598,21 @@ cdef class ParameterSet:
         else:
             self._params['use_fftw_wisdom'] = _use_fftw_wisdom
 
+        # Letter case and defaults have been resolved in these options.
+        self._params['alignment'] = self.thisptr.alignment.decode('utf-8')
+        self._params['padscale'] = self.thisptr.padscale.decode('utf-8')
+        self._params['assignment'] = self.thisptr.assignment.decode('utf-8')
+        self._params['form'] = self.thisptr.form.decode('utf-8')
+        self._params['norm_convention'] = \
+            self.thisptr.norm_convention.decode('utf-8')
+        self._params['binning'] = self.thisptr.binning.decode('utf-8')
+        if self._params.get('catalogue_type') is not None:
+            self._params['catalogue_type'] = \
+                self.thisptr.catalogue_type.decode('utf-8')
+        if self._params.get('statistic_type') is not None:
+            self._params['statistic_type'] = \
+                self.thisptr.statistic_type.decode('utf-8')
+
         _interlace = self.thisptr.interlace.decode('utf-8')
         if _interlace.lower() == 'true':
             self._params['interlace'] = True
-- 
2.43.0


From c1ad3e5b6da4ef2d4ded963f6b23d7966274f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 61/89] fix: require the bin index whatever the letter case of
 the form

---
 src/triumvirate/parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4726f2d..442b4aa 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -510,7 +510,7 @@ cdef class ParameterSet:
 
         if (form_ := self._params.get('form')) is not None:
             self.thisptr.form = form_.lower().encode('utf-8')
-            if form_ in {'off-diag', 'row'} \
+            if form_.lower() in {'off-diag', 'row'} \
                     and self._params.get('idx_bin') is None:
                 raise InvalidParameterError(
                     "`idx_bin` parameter must be set "
-- 
2.43.0


From 485a0e08caf795780546e7666c22a4349fdd33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 62/89] fix: accept fractional progress bar intervals

---
 src/triumvirate/parameters.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 442b4aa..31ae764 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -628,15 +628,17 @@ cdef class ParameterSet:
         try:
             self._params['progbar'] = int(_progbar)
         except ValueError:
-            if _progbar == 'true':
+            if _progbar.replace('.', '', 1).isdigit():
+                self._params['progbar'] = float(_progbar)
+            elif _progbar == 'true':
                 self._params['progbar'] = True
             elif _progbar == 'false':
                 self._params['progbar'] = False
             else:
                 raise RuntimeError(
                     "C++ instance of trv::ParameterSet did not return "
-                    "a recognised 'verbose' value "
-                    "'true', 'false' or an integer."
+                    "a recognised 'progbar' value "
+                    "'true', 'false' or a number."
                 )
 
         self._validity = True
-- 
2.43.0


From 7e85455c7cacb9e64b5391e69825e20fd6760cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 63/89] fix: override the Nyquist cutoff before the box size it
 is used with

---
 src/triumvirate/parameters.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 31ae764..7613fba 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -808,6 +808,10 @@ def _modify_sampling_parameters(paramset, params_sampling=None,
             params_default.pop('padscale', None)
             params_default.pop('padfactor', None)
 
+    # Update 'cutoff_nyq' before 'boxsize' owing to dependency.
+    if 'cutoff_nyq' in params_sampling.keys():
+        paramset['cutoff_nyq'] = params_sampling['cutoff_nyq']
+        if params_default: params_default.pop('cutoff_nyq', None)
     if 'boxsize' in params_sampling.keys():
         paramset['boxsize'] = dict(zip(
             ['x', 'y', 'z'], params_sampling['boxsize']
@@ -825,10 +829,6 @@ def _modify_sampling_parameters(paramset, params_sampling=None,
         paramset['interlace'] = params_sampling['interlace']
         if params_default: params_default.pop('interlace', None)
 
-    if 'cutoff_nyq' in params_sampling.keys():
-        paramset['cutoff_nyq'] = params_sampling['cutoff_nyq']
-        if params_default: params_default.pop('cutoff_nyq', None)
-
     if ret_defaults:
         return paramset, params_default
     return paramset
-- 
2.43.0


From e1d28e806cd2019f4b01c88e6b17d65e4cbac792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 64/89] fix: read each parameter from its own line and in full

---
 src/triumvirate/src/parameters.cpp | 292 ++++++++++-------------------
 1 file changed, 101 insertions(+), 191 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 068d5b7..5c2c1ef 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -103,227 +103,137 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   std::ifstream fin(param_filepath.c_str());
 
   // Initialise temporary variables to hold the extracted parameters.
-  // NOTE: Assume file systems allow path character lengths up to 4096,
-  // and up to 64 files of this maximum lengths are stored in the
-  // char arrays.
-  char catalogue_dir_[1024] = "";
-  char measurement_dir_[1024] = "";
-  char data_catalogue_file_[262144] = "";
-  char rand_catalogue_file_[262144] = "";
-  char catalogue_columns_[1024] = "";
-  char catalogue_dataset_[1024] = "";
-  char output_tag_[1024] = "";
-
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
-
-  char alignment_[16] = "";
-  char padscale_[16] = "";
-  char assignment_[16] = "";
-  char interlace_[16] = "";
-
-  char catalogue_type_[16] = "";
-  char statistic_type_[16] = "";
-  char form_[16] = "";
-  char norm_convention_[16] = "";
-  char binning_[16] = "";
-
-  char fftw_scheme_[16] = "";
-  char use_fftw_wisdom_[1024] = "";
-  char save_binned_vectors_[1024] = "";
-  char progbar_[16] = "";
+  std::string catalogue_dir_;
+  std::string measurement_dir_;
+  std::string data_catalogue_file_;
+  std::string rand_catalogue_file_;
+  std::string catalogue_columns_;
+  std::string catalogue_dataset_;
+  std::string output_tag_;
+
+  double boxsize_x = 0., boxsize_y = 0., boxsize_z = 0.;
+  int ngrid_x = 0, ngrid_y = 0, ngrid_z = 0;
+
+  std::string alignment_;
+  std::string padscale_;
+  std::string assignment_;
+  std::string interlace_;
+
+  std::string catalogue_type_;
+  std::string statistic_type_;
+  std::string form_;
+  std::string norm_convention_;
+  std::string binning_;
+
+  std::string fftw_scheme_;
+  std::string use_fftw_wisdom_;
+  std::string save_binned_vectors_;
+  std::string progbar_;
 
   // ---------------------------------------------------------------------
   // Extraction
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
       continue;
     }  // skip comment lines
-    if (
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
-      ) != 3
-    ) {
+
+    std::istringstream line_ss(line_str);
+    std::string line_name, line_equal, line_value;
+    if (!(line_ss >> line_name >> line_equal >> line_value)) {
       continue;
     }  // skip non-relation lines
-    if (std::strcmp(dummy_equal, "=") != 0) {
+    if (line_equal != "=") {
       continue;
     }  // skip non-assignment lines
 
-    // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    // Define convenience functions for scanning parameters.
+    auto scan_par_str = [&line_name, &line_value](
+      const char* par_name, std::string& par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
-        std::sscanf(
-          line_str.data(), fmt, dummy_str, dummy_equal, par_value
-        );
+      if (line_name == par_name) {
+        par_value = line_value;
+      }
+    };
+    auto scan_par_int = [&line_name, &line_value](
+      const char* par_name, int& par_value
+    ) {
+      if (line_name == par_name) {
+        std::sscanf(line_value.c_str(), "%d", &par_value);
+      }
+    };
+    auto scan_par_double = [&line_name, &line_value](
+      const char* par_name, double& par_value
+    ) {
+      if (line_name == par_name) {
+        std::sscanf(line_value.c_str(), "%lg", &par_value);
       }
     };
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", catalogue_dir_);
+    scan_par_str("measurement_dir", measurement_dir_);
+    scan_par_str("data_catalogue_file", data_catalogue_file_);
+    scan_par_str("rand_catalogue_file", rand_catalogue_file_);
+    scan_par_str("catalogue_columns", catalogue_columns_);
+    scan_par_str("catalogue_dataset", catalogue_dataset_);
+    scan_par_str("output_tag", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_x
-      );
-    }
-    if (line_str.find("boxsize_y") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_y
-      );
-    }
-    if (line_str.find("boxsize_z") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_z
-      );
-    }
+    scan_par_double("boxsize_x", boxsize_x);
+    scan_par_double("boxsize_y", boxsize_y);
+    scan_par_double("boxsize_z", boxsize_z);
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_x
-      );
-    }
-    if (line_str.find("ngrid_y") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_y
-      );
-    }
-    if (line_str.find("ngrid_z") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
-      );
-    }
+    scan_par_int("ngrid_x", ngrid_x);
+    scan_par_int("ngrid_y", ngrid_y);
+    scan_par_int("ngrid_z", ngrid_z);
 
-    if (line_str.find("expand") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->expand
-      );
-    }
+    scan_par_double("expand", this->expand);
 
-    scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
-    scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
+    scan_par_str("alignment", alignment_);
+    scan_par_str("padscale", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->padfactor
-      );
-    }
+    scan_par_double("padfactor", this->padfactor);
 
-    scan_par_str("assignment", "%1023s %1023s %1023s", assignment_);
-    scan_par_str("interlace", "%1023s %1023s %1023s", interlace_);
+    scan_par_str("assignment", assignment_);
+    scan_par_str("interlace", interlace_);
 
     // -- Measurement ----------------------------------------------------
 
-    scan_par_str("catalogue_type", "%1023s %1023s %1023s", catalogue_type_);
-    scan_par_str("statistic_type", "%1023s %1023s %1023s", statistic_type_);
-    scan_par_str("form", "%1023s %1023s %1023s", form_);
-    scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
-    scan_par_str("binning", "%1023s %1023s %1023s", binning_);
+    scan_par_str("catalogue_type", catalogue_type_);
+    scan_par_str("statistic_type", statistic_type_);
+    scan_par_str("form", form_);
+    scan_par_str("norm_convention", norm_convention_);
+    scan_par_str("binning", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell1
-      );
-    }
-    if (line_str.find("ell2") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell2
-      );
-    }
-    if (line_str.find("ELL") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ELL
-      );
-    }
+    scan_par_int("ell1", this->ell1);
+    scan_par_int("ell2", this->ell2);
+    scan_par_int("ELL", this->ELL);
 
-    if (line_str.find("i_wa") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->i_wa
-      );
-    }
-    if (line_str.find("j_wa") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->j_wa
-      );
-    }
+    scan_par_int("i_wa", this->i_wa);
+    scan_par_int("j_wa", this->j_wa);
 
-    if (line_str.find("bin_min") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_min
-      );
-    }
-    if (line_str.find("bin_max") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_max
-      );
-    }
+    scan_par_double("bin_min", this->bin_min);
+    scan_par_double("bin_max", this->bin_max);
 
-    if (line_str.find("num_bins") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->num_bins
-      );
-    }
-    if (line_str.find("idx_bin") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->idx_bin
-      );
-    }
+    scan_par_int("num_bins", this->num_bins);
+    scan_par_int("idx_bin", this->idx_bin);
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->cutoff_nyq
-      );
-    }
+    scan_par_double("cutoff_nyq", this->cutoff_nyq);
 
     // -- Misc -------------------------------------------------------------
 
-    scan_par_str("fftw_scheme", "%1023s %1023s %1023s", fftw_scheme_);
-    scan_par_str("use_fftw_wisdom", "%1023s %1023s %1023s", use_fftw_wisdom_);
-    scan_par_str(
-      "save_binned_vectors", "%1023s %1023s %1023s", save_binned_vectors_
-    );
-    scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
+    scan_par_str("fftw_scheme", fftw_scheme_);
+    scan_par_str("use_fftw_wisdom", use_fftw_wisdom_);
+    scan_par_str("save_binned_vectors", save_binned_vectors_);
+    scan_par_str("progbar", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->verbose
-      );
-    }
+    scan_par_int("verbose", this->verbose);
   }
 
   // ---------------------------------------------------------------------
@@ -341,41 +251,41 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->catalogue_dataset = catalogue_dataset_;
   this->output_tag = output_tag_;
 
-  if (strlen(alignment_) > 0) {
+  if (!alignment_.empty()) {
     this->alignment = alignment_;
   }
-  if (strlen(padscale_) > 0) {
+  if (!padscale_.empty()) {
     this->padscale = padscale_;
   }
-  if (strlen(assignment_) > 0) {
+  if (!assignment_.empty()) {
     this->assignment = assignment_;
   }
-  if (strlen(interlace_) > 0) {
+  if (!interlace_.empty()) {
     this->interlace = interlace_;
   }
 
   this->catalogue_type = catalogue_type_;
   this->statistic_type = statistic_type_;
-  if (strlen(form_) > 0) {
+  if (!form_.empty()) {
     this->form = form_;
   }
-  if (strlen(norm_convention_) > 0) {
+  if (!norm_convention_.empty()) {
     this->norm_convention = norm_convention_;
   }
-  if (strlen(binning_) > 0) {
+  if (!binning_.empty()) {
     this->binning = binning_;
   }
 
-  if (strlen(fftw_scheme_) > 0) {
+  if (!fftw_scheme_.empty()) {
     this->fftw_scheme = fftw_scheme_;
   }
-  if (strlen(use_fftw_wisdom_) > 0) {
+  if (!use_fftw_wisdom_.empty()) {
     this->use_fftw_wisdom = use_fftw_wisdom_;
   }
-  if (strlen(save_binned_vectors_) > 0) {
+  if (!save_binned_vectors_.empty()) {
     this->save_binned_vectors = save_binned_vectors_;
   }
-  if (strlen(progbar_) > 0) {
+  if (!progbar_.empty()) {
     this->progbar = progbar_;
   }
 
@@ -389,7 +299,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->ngrid[2] = ngrid_z;
 
   this->volume = boxsize_x * boxsize_y * boxsize_z;
-  this->nmesh = ngrid_x * ngrid_y * ngrid_z;
+  this->nmesh = static_cast<long long>(ngrid_x) * ngrid_y * ngrid_z;
 
   // ---------------------------------------------------------------------
   // Debugging mode
-- 
2.43.0


From d57a4904385e5baba9c7983be4a4e869ed191288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 65/89] fix: print used parameters in full

---
 src/triumvirate/src/parameters.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 5c2c1ef..146fe1f 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1218,6 +1218,9 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
+  auto print_par_longlong = [ofileptr](const char* fmt, long long par_val) {
+    std::fprintf(ofileptr, fmt, par_val);
+  };
   auto print_par_double = [ofileptr](const char* fmt, double par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
@@ -1231,20 +1234,21 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("catalogue_dataset = %s\n", this->catalogue_dataset);
   print_par_str("output_tag = %s\n", this->output_tag);
 
-  print_par_double("boxsize_x = %.3f\n", this->boxsize[0]);
-  print_par_double("boxsize_y = %.3f\n", this->boxsize[1]);
-  print_par_double("boxsize_z = %.3f\n", this->boxsize[2]);
+  print_par_double("boxsize_x = %.15g\n", this->boxsize[0]);
+  print_par_double("boxsize_y = %.15g\n", this->boxsize[1]);
+  print_par_double("boxsize_z = %.15g\n", this->boxsize[2]);
   print_par_int("ngrid_x = %d\n", this->ngrid[0]);
   print_par_int("ngrid_y = %d\n", this->ngrid[1]);
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
   print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_longlong("nmesh = %lld\n", this->nmesh);
 
-  print_par_double("expand = %.4f\n", this->expand);
+  print_par_double("expand = %.15g\n", this->expand);
+  print_par_double("cutoff_nyq = %.15g\n", this->cutoff_nyq);
   print_par_str("alignment = %s\n", this->alignment);
   print_par_str("padscale = %s\n", this->padscale);
-  print_par_double("padfactor = %.4f\n", this->padfactor);
+  print_par_double("padfactor = %.15g\n", this->padfactor);
 
   print_par_str("assignment = %s\n", this->assignment);
   print_par_str("interlace = %s\n", this->interlace);
@@ -1267,8 +1271,8 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("binning = %s\n", this->binning);
   print_par_str("shape = %s\n", this->shape);
 
-  print_par_double("bin_min = %.4f\n", this->bin_min);
-  print_par_double("bin_max = %.4f\n", this->bin_max);
+  print_par_double("bin_min = %.15g\n", this->bin_min);
+  print_par_double("bin_max = %.15g\n", this->bin_max);
   print_par_int("num_bins = %d\n", this->num_bins);
   print_par_int("idx_bin = %d\n", this->idx_bin);
 
-- 
2.43.0


From b0e31d5d577a06ac299753d24723729dbf18b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 66/89] fix: complete the FFTW wisdom directory overridden by
 the environment

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 146fe1f..e6fd0f8 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -856,7 +856,7 @@ int ParameterSet::validate(bool init) {
       this->use_fftw_wisdom = "";  // transmutation
     } else
     if (
-      init && !this->use_fftw_wisdom.empty()
+      !this->use_fftw_wisdom.empty()
       && this->use_fftw_wisdom.back() != '/'
     ) {
       this->use_fftw_wisdom += "/";  // transmutation
-- 
2.43.0


From 47200058991d969a8bf49ec4d3f93614e6a6664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 67/89] fix: move the default binned vectors path with the
 overridden output tag

---
 src/triumvirate/src/parameters.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index e6fd0f8..4d192c0 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1311,6 +1311,12 @@ void override_paramset_by_envvars(trv::ParameterSet& params) {
   // Override the output tag.
   char* ev_tag = std::getenv("TRV_OVERRIDE_OUTPUT_TAG");
   if (ev_tag != nullptr) {
+    if (
+      params.save_binned_vectors
+      == params.measurement_dir + "binned_vectors" + params.output_tag
+    ) {
+      params.save_binned_vectors = "true";
+    }
     params.output_tag = std::string(ev_tag);
   }
 
-- 
2.43.0


From 49043a8d613a47fe7be2ed96eb0ca75220b6b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 68/89] fix: skip blank and indented comment lines of catalogue
 files

---
 src/triumvirate/src/particles.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index a694035..ac3bd2c 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -166,6 +166,12 @@ int ParticleCatalogue::load_catalogue_file(
     catalogue_filepath, trvs::fn_delimiter
   );
 
+  // Determine whether a line of a text file holds no data.
+  const auto is_dataless = [](const std::string& line) {
+    std::size_t idx_start = line.find_first_not_of(" \t\r");
+    return idx_start == std::string::npos || line[idx_start] == '#';
+  };
+
   if (is_hdf5) {
 #ifdef TRV_USE_H5
     try {
@@ -407,7 +413,7 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (line_str.empty() || line_str[0] == '#') {continue;}
+        if (is_dataless(line_str)) {continue;}
 
         // Count the line as valid otherwise.
         num_lines++;
@@ -450,7 +456,7 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (entry_str.empty() || entry_str[0] == '#') {continue;}
+        if (is_dataless(entry_str)) {continue;}
 
         // Extract row entries.
         std::vector<double> row;
-- 
2.43.0


From d4459853a930548084e4f90742737e6ad9c137c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 69/89] fix: reject catalogue rows without the columns in use

---
 src/triumvirate/src/particles.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index ac3bd2c..468f5b0 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -166,6 +166,26 @@ int ParticleCatalogue::load_catalogue_file(
     catalogue_filepath, trvs::fn_delimiter
   );
 
+  // Check that a data row holds all the columns in use.
+  const auto validate_row = [&](const std::vector<double>& row) {
+    for (std::size_t iname = 0; iname < names_ordered.size(); iname++) {
+      bool is_missing = (name_indices[iname] == -1) ?
+        (iname < 3) : (name_indices[iname] >= static_cast<int>(row.size()));
+      if (is_missing) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Catalogue '%s' field is missing (source=%s).",
+            names_ordered[iname].c_str(), this->source.c_str()
+          );
+        }
+        throw trvs::InvalidDataError(
+          "Catalogue '%s' field is missing (source=%s).",
+          names_ordered[iname].c_str(), this->source.c_str()
+        );
+      }
+    }
+  };
+
   // Determine whether a line of a text file holds no data.
   const auto is_dataless = [](const std::string& line) {
     std::size_t idx_start = line.find_first_not_of(" \t\r");
@@ -350,6 +370,8 @@ int ParticleCatalogue::load_catalogue_file(
       int idx_row = 0;    // current row number
       double nz, ws, wc;  // placeholder variables
       for (const auto& row : ctlg_data) {
+        validate_row(row);
+
         this->pdata[idx_row].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_row].pos[1] = row[name_indices[1]];  // y
         this->pdata[idx_row].pos[2] = row[name_indices[2]];  // z
@@ -466,6 +488,7 @@ int ParticleCatalogue::load_catalogue_file(
           std::ios_base::out | std::ios_base::in | std::ios_base::binary
         );
         while (ss >> entry) {row.push_back(entry);}
+        validate_row(row);
 
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
-- 
2.43.0


From a2764ae2ad6b663881b5dd33ce0ea2eaf8721e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 70/89] fix: leave the caller's catalogue table options
 unchanged

---
 src/triumvirate/catalogue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 9596da3..2db1a32 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -328,8 +328,7 @@ class ParticleCatalogue:
         if self._backend == 'astropy':
             if format == 'text':
                 format = 'ascii'
-            if table_kwargs is None:
-                table_kwargs = {}
+            table_kwargs = dict(table_kwargs or {})
             if format.startswith('ascii'):
                 table_kwargs.update(names=names)
 
-- 
2.43.0


From aba60b49b972c9ac84809e3a84ca04b0c7e8765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 71/89] fix: derive the survey box of the program from the
 random catalogue

---
 src/triumvirate/main/triumvirate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index c0de1e6..98fc1ef 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -410,7 +410,7 @@ int main(int argc, char* argv[]) {
 
   if (params.catalogue_type == "survey") {
     if (params.volume == 0.) {
-      trv::set_boxsize_from_expand(catalogue_data.pos_span, params);
+      trv::set_boxsize_from_expand(catalogue_rand.pos_span, params);
       if (params.nmesh == 0) {
         trv::set_ngrid_from_cutoff(params);
       }
-- 
2.43.0


From fda32e2d755f616be2b47927f14a76a6e7ad5855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 72/89] fix: reject the mixed-mesh normalisation of unpaired
 catalogues

---
 src/triumvirate/src/parameters.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 4d192c0..8159a7d 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -792,6 +792,23 @@ int ParameterSet::validate(bool init) {
       this->npoint.c_str()
     );
   }
+  if (
+    this->norm_convention == "mesh-mixed"
+    && this->catalogue_type != "" && this->catalogue_type != "survey"
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Normalisation convention 'mesh-mixed' only applies to "
+        "paired survey catalogues: `catalogue_type` = '%s'.",
+        this->catalogue_type.c_str()
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Normalisation convention 'mesh-mixed' only applies to "
+      "paired survey catalogues: `catalogue_type` = '%s'.",
+      this->catalogue_type.c_str()
+    );
+  }
   if (!(
     this->binning == "lin"
     || this->binning == "log"
-- 
2.43.0


From 3c4d4eed2be0185b6e86c0fc8764d067c5c4a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 73/89] fix: stop when a measurement file cannot be opened

---
 src/triumvirate/main/triumvirate.cpp | 41 ++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 98fc1ef..32e6c77 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -98,6 +98,25 @@ void _set_custom_bins(trv::Binning& _binning) {
   _binning.bin_edges.push_back(_binning.bin_max);
 }
 
+/**
+ * @brief Open a measurement file for writing.
+ *
+ * The program exits if the file cannot be opened.
+ *
+ * @param filepath File path.
+ * @returns File pointer.
+ */
+std::FILE* _open_measurement_file(const char* filepath) {
+  std::FILE* fileptr = std::fopen(filepath, "w");
+  if (fileptr == nullptr) {
+    if (trv::sys::currTask == 0) {
+      trv::sys::logger.error("Unwritable measurement file: %s", filepath);
+    }
+    trv::sys::exit_fatal("Failed to save measurements.");
+  }
+  return fileptr;
+}
+
 /**
  * @brief A 'black-box' program for measuring two- and three-point
  *        clustering statistics.
@@ -607,7 +626,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -617,7 +636,7 @@ int main(int argc, char* argv[]) {
       meas_powspec = trv::compute_powspec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -640,7 +659,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -650,7 +669,7 @@ int main(int argc, char* argv[]) {
       meas_2pcf = trv::compute_corrfunc_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -670,7 +689,7 @@ int main(int argc, char* argv[]) {
     trv::TwoPCFWindowMeasurements meas_2pcf_win = trv::compute_corrfunc_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor
     );  // two-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_measurement_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -713,7 +732,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -723,7 +742,7 @@ int main(int argc, char* argv[]) {
       meas_bispec = trv::compute_bispec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -767,7 +786,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -777,7 +796,7 @@ int main(int argc, char* argv[]) {
       meas_3pcf = trv::compute_3pcf_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = _open_measurement_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -819,7 +838,7 @@ int main(int argc, char* argv[]) {
     trv::ThreePCFWindowMeasurements meas_3pcf_win = trv::compute_3pcf_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
     );  // three-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_measurement_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -865,7 +884,7 @@ int main(int argc, char* argv[]) {
       trv::compute_3pcf_window(
         catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
       );  // three-point correlation function window wide-angle corrections
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = _open_measurement_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
-- 
2.43.0


From fd4fff9c859993c0612cdcd1f01b62a7edb6f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 74/89] fix: keep full output tags in measurement file names

---
 src/triumvirate/threept.py | 16 ++++++++--------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index f3b509b..423bb22 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -720,14 +720,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1284,7 +1284,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #                 ['% .9e'] * (datatab.shape[-1] - 6)
 #             )
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+#             ofilepath = Path(odirpath, ofilename + '.txt')
 #             np.savetxt(
 #                 ofilepath, datatab,
 #                 fmt=datafmt, header=header, delimiter='\t'
@@ -1292,7 +1292,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #         elif save.lower().endswith('.npz'):
 #             results.update({'header': header})
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+#             ofilepath = Path(odirpath, ofilename + '.npz')
 #             np.savez(ofilepath, **results)
 #         else:
 #             raise ValueError(
@@ -1601,14 +1601,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2085,14 +2085,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 4e82758..5c9df22 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -645,14 +645,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1156,14 +1156,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1567,14 +1567,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From dfe257d7c0da90c41c2032a3ce6241001248c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 75/89] fix: save two-point windows when the output directory
 is unset

---
 src/triumvirate/twopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 5c9df22..4b0f453 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -1553,7 +1553,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             )
 
     if save:
-        odirpath = paramset['directories']['measurements']
+        odirpath = paramset['directories']['measurements'] or ""
         header = "\n".join([
             catalogue_rand.write_attrs_as_header(),
             _print_measurement_header(
-- 
2.43.0


From 0a230cbce6f55fdeccbf3afbbbcda7e19dc5b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 76/89] fix: measure with the standard loggers of the logging
 module

---
 src/triumvirate/threept.py | 30 ++++++++++--------------------
 src/triumvirate/twopt.py   | 30 ++++++++++--------------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 423bb22..dd4dd42 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -600,8 +600,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -617,8 +616,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -679,8 +677,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -700,8 +697,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1497,8 +1493,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1512,8 +1507,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1563,8 +1557,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1581,8 +1574,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2045,8 +2037,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2065,8 +2056,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 4b0f453..6b916b2 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -523,8 +523,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -540,8 +539,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -605,8 +603,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -626,8 +623,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1053,8 +1049,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1068,8 +1063,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1119,8 +1113,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1137,8 +1130,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1529,8 +1521,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1548,8 +1539,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0


From 22ece6e433fd60abd58c7b216e2dd67badd6496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 77/89] fix: measure and save wide-angle windows under their
 own name

---
 src/triumvirate/threept.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index dd4dd42..662c82c 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -234,7 +234,7 @@ def _get_measurement_filename(paramset):
         return "zetaw{}{}{}".format(multipole, binform, output_tag)
     if paramset['statistic_type'] == '3pcf-win-wa':
         wa_tag = "_wa{i}{j}".format(**paramset['wa_orders'])
-        return "zetaw{}{}{}{}".format(multipole, binform, wa_tag, output_tag)
+        return "zetaw{}{}{}{}".format(multipole, wa_tag, binform, output_tag)
 
     raise ValueError(
         "`paramset` 'statistic_type' does not correspond to a "
@@ -1927,6 +1927,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
 
     if wa_orders is not None:
         wide_angle = True
+    elif paramset is not None:
+        wide_angle = paramset.get('statistic_type') == '3pcf-win-wa'
     else:
         wide_angle = False
 
@@ -1934,7 +1936,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From 5d4fa51754bc702e820c15a3ee671aefd5b14368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 78/89] fix: set up padded bins of the program from the derived
 box

---
 src/triumvirate/main/triumvirate.cpp | 42 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 32e6c77..ba55bbb 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -325,26 +325,7 @@ int main(int argc, char* argv[]) {
   }
 
   // ---------------------------------------------------------------------
-  // B.1 Binning
-  // ---------------------------------------------------------------------
-
-  if (trv::sys::currTask == 0) {
-    trv::sys::logger.stat("[MAIN:TRV:B] Setting up binning...");
-  }
-
-  trv::Binning binning(params);  // binning
-  if (params.binning == "custom") {
-    _set_custom_bins(binning);
-  } else {
-    binning.set_bins();
-  }
-
-  if (trv::sys::currTask == 0) {
-    trv::sys::logger.stat("[MAIN:TRV:B] ... set up binning.");
-  }
-
-  // ---------------------------------------------------------------------
-  // B.2 Line of sight
+  // B.1 Line of sight
   // ---------------------------------------------------------------------
 
   if (params.catalogue_type != "none") {
@@ -416,7 +397,7 @@ int main(int argc, char* argv[]) {
   }
 
   // ---------------------------------------------------------------------
-  // B.3 Box alignment
+  // B.2 Box alignment
   // ---------------------------------------------------------------------
 
   if (params.catalogue_type != "none") {
@@ -511,6 +492,25 @@ int main(int argc, char* argv[]) {
     }
   }
 
+  // ---------------------------------------------------------------------
+  // B.3 Binning
+  // ---------------------------------------------------------------------
+
+  if (trv::sys::currTask == 0) {
+    trv::sys::logger.stat("[MAIN:TRV:B] Setting up binning...");
+  }
+
+  trv::Binning binning(params);  // binning
+  if (params.binning == "custom") {
+    _set_custom_bins(binning);
+  } else {
+    binning.set_bins();
+  }
+
+  if (trv::sys::currTask == 0) {
+    trv::sys::logger.stat("[MAIN:TRV:B] ... set up binning.");
+  }
+
   // ---------------------------------------------------------------------
   // B.4 Constants
   // ---------------------------------------------------------------------
-- 
2.43.0


From 39ee1a3b21af963b92f2dbaaff50490c97895bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 79/89] fix: accept grid padding when the mesh grid is to be
 derived

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 8159a7d..cca1470 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1061,7 +1061,7 @@ int ParameterSet::validate(bool init) {
         this->padscale.c_str(), this->padfactor
       );
     }
-    if (this->padscale == "grid" && (
+    if (this->padscale == "grid" && this->nmesh > 0 && (
         this->padfactor >= this->ngrid[0]
         || this->padfactor >= this->ngrid[1]
         || this->padfactor >= this->ngrid[2]
-- 
2.43.0


From 737de1fde1bdc1a8861cc2f689d3c965788f15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 80/89] fix: raise C++ errors of measurements in Python

---
 src/triumvirate/_threept.pyx | 63 +++++++++++++++++-----------------
 src/triumvirate/_twopt.pyx   | 65 +++++++++++++++++++-----------------
 2 files changed, 67 insertions(+), 61 deletions(-)

diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0e8c39f..0cd675c 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/threept.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -55,7 +55,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     ThreePCFMeasurements compute_3pcf_cpp "trv::compute_3pcf" (
         CppParticleCatalogue& catalogue_data,
@@ -65,7 +65,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     BispecMeasurements compute_bispec_in_gpp_box_cpp \
         "trv::compute_bispec_in_gpp_box" (
@@ -73,7 +73,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFMeasurements compute_3pcf_in_gpp_box_cpp \
         "trv::compute_3pcf_in_gpp_box" (
@@ -81,7 +81,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFWindowMeasurements compute_3pcf_window_cpp \
         "trv::compute_3pcf_window" (
@@ -92,7 +92,7 @@ cdef extern from "include/threept.hpp":
             double alpha,
             double norm_factor,
             bool_t wide_angle
-        )
+        ) except +
 
     # BispecMeasurements compute_bispec_for_los_choice_cpp \
     #     "trv::compute_bispec_for_los_choice" (
@@ -153,14 +153,15 @@ def _compute_bispec(
 
     # Run algorithm.
     cdef BispecMeasurements results
-    results = compute_bispec_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(kbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_bispec_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(kbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'k1_bin': np.asarray(results.k1_bin),
@@ -202,14 +203,15 @@ def _compute_3pcf(
 
     # Run algorithm.
     cdef ThreePCFMeasurements results
-    results = compute_3pcf_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_3pcf_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'r1_bin': np.asarray(results.r1_bin),
@@ -293,14 +295,15 @@ def _compute_3pcf_window(
 
     # Run algorithm.
     cdef ThreePCFWindowMeasurements results
-    results = compute_3pcf_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        alpha, norm_factor,
-        wide_angle
-    )
-
-    free(los_rand_cpp)
+    try:
+        results = compute_3pcf_window_cpp(
+            deref(catalogue_rand.thisptr), los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            alpha, norm_factor,
+            wide_angle
+        )
+    finally:
+        free(los_rand_cpp)
 
     return {
         'r1_bin': np.asarray(results.r1_bin),
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index b258a22..9f3a776 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -48,7 +48,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles_rand,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -59,7 +59,7 @@ cdef extern from "include/twopt.hpp":
             double padding,
             double cellsize,
             string assignment
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -74,7 +74,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     TwoPCFMeasurements compute_corrfunc_cpp "trv::compute_corrfunc" (
         CppParticleCatalogue& catalogue_data,
@@ -84,7 +84,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     PowspecMeasurements compute_powspec_in_gpp_box_cpp \
         "trv::compute_powspec_in_gpp_box" (
@@ -92,7 +92,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFMeasurements compute_corrfunc_in_gpp_box_cpp \
         "trv::compute_corrfunc_in_gpp_box" (
@@ -100,7 +100,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFWindowMeasurements compute_corrfunc_window_cpp \
         "trv::compute_corrfunc_window" (
@@ -110,7 +110,7 @@ cdef extern from "include/twopt.hpp":
             CppBinning& rbinning,
             double alpha,
             double norm_factor
-        )
+        ) except +
 
 
 def _calc_powspec_normalisation_from_particles(
@@ -189,14 +189,15 @@ def _compute_powspec(
 
     # Run algorithm.
     cdef PowspecMeasurements results
-    results = compute_powspec_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(kbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_powspec_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(kbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'kbin': np.asarray(results.kbin),
@@ -235,14 +236,15 @@ def _compute_corrfunc(
 
     # Run algorithm.
     cdef TwoPCFMeasurements results
-    results = compute_corrfunc_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_corrfunc_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'rbin': np.asarray(results.rbin),
@@ -314,13 +316,14 @@ def _compute_corrfunc_window(
 
     # Run algorithm.
     cdef TwoPCFWindowMeasurements results
-    results = compute_corrfunc_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        alpha, norm_factor
-    )
-
-    free(los_rand_cpp)
+    try:
+        results = compute_corrfunc_window_cpp(
+            deref(catalogue_rand.thisptr), los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            alpha, norm_factor
+        )
+    finally:
+        free(los_rand_cpp)
 
     return {
         'rbin': np.asarray(results.rbin),
-- 
2.43.0


From 4c1088e84a9cfdc30e5daaf539cd99d53973c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 81/89] fix: reject lines of sight that do not match the
 particles

---
 src/triumvirate/catalogue.py | 33 +++++++++++++++++++++++++++++++++
 src/triumvirate/threept.py   | 13 +++----------
 src/triumvirate/twopt.py     | 13 +++----------
 3 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 2db1a32..db6f899 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -452,6 +452,39 @@ class ParticleCatalogue:
 
         return self._compute(los)
 
+    def _parse_los(self, los=None):
+        """Parse the line of sight to each particle.
+
+        Parameters
+        ----------
+        los : (N, 3) array of float, optional
+            Specified lines of sight.  If `None` (default), these are
+            computed.
+
+        Returns
+        -------
+        los : (N, 3) :class:`numpy.ndarray`
+            Lines of sight as a C-contiguous array.
+
+        Raises
+        ------
+        ValueError
+            If `los` does not match the particles in number or
+            dimensions.
+
+        """
+        if los is None:
+            los = self.compute_los()
+
+        los = np.ascontiguousarray(los, dtype=float)
+        if los.shape != (self.ntotal, 3):
+            raise ValueError(
+                "Lines of sight do not match the particles in the catalogue: "
+                f"shape {los.shape} instead of {(self.ntotal, 3)}."
+            )
+
+        return los
+
     def compute_mean_density(self, volume=None, boxsize=None):
         """Compute the mean density over a volume.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 662c82c..634ae32 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -522,13 +522,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_data is None:
-        los_data = catalogue_data.compute_los()
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = catalogue_data._parse_los(los_data)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
@@ -1962,9 +1957,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 6b916b2..a8f7890 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -445,13 +445,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_data is None:
-        los_data = catalogue_data.compute_los()
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = catalogue_data._parse_los(los_data)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
@@ -1443,9 +1438,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
-- 
2.43.0


From bddb1dfe18ef84afc552350dc16a37d65c5c1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 82/89] fix: release the field statistics used to record binned
 vectors

---
 src/triumvirate/_field.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/_field.pyx b/src/triumvirate/_field.pyx
index 8b070ce..cf030f4 100644
--- a/src/triumvirate/_field.pyx
+++ b/src/triumvirate/_field.pyx
@@ -44,9 +44,12 @@ def _record_binned_vectors(Binning binning not None,
     """
     fieldstats_ptr = new CppFieldStats(deref(paramset.thisptr), False)
 
-    binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
-        deref(binning.thisptr), ''.encode('utf-8')
-    )
+    try:
+        binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
+            deref(binning.thisptr), ''.encode('utf-8')
+        )
+    finally:
+        del fieldstats_ptr
 
     binned_vectors = np.empty(
         binned_vectors_struct.count,
-- 
2.43.0


From 080a4dae6450bf12187c790a4980ba88f8d8aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 83/89] fix: reject negative multipole degrees

---
 src/triumvirate/src/parameters.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index cca1470..0d57d52 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -809,6 +809,20 @@ int ParameterSet::validate(bool init) {
       this->catalogue_type.c_str()
     );
   }
+  if (this->ell1 < 0 || this->ell2 < 0 || this->ELL < 0) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Multipole degrees must be non-negative: "
+        "`ell1` = %d, `ell2` = %d, `ELL` = %d.",
+        this->ell1, this->ell2, this->ELL
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Multipole degrees must be non-negative: "
+      "`ell1` = %d, `ell2` = %d, `ELL` = %d.",
+      this->ell1, this->ell2, this->ELL
+    );
+  }
   if (!(
     this->binning == "lin"
     || this->binning == "log"
-- 
2.43.0


From 2d85e63c8be2b346d9af366da37b7dea48174cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 84/89] fix: raise an error when mesh memory cannot be
 allocated

The null pointer was written to, which ended the process; a catalogue
in the wrong units is enough to make the normalisation mesh too large.
---
 src/triumvirate/include/field.hpp |  1 +
 src/triumvirate/src/field.cpp     | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/triumvirate/include/field.hpp b/src/triumvirate/include/field.hpp
index d458153..b09141a 100644
--- a/src/triumvirate/include/field.hpp
+++ b/src/triumvirate/include/field.hpp
@@ -50,6 +50,7 @@
 #include <cmath>
 #include <complex>
 #include <functional>
+#include <new>
 #include <vector>
 
 #include "arrayops.hpp"
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index b7b3473..71de9d2 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -54,6 +54,9 @@ MeshField::MeshField(
   // Initialise the field (and its shadow field if interlacing is used)
   // and increase allocated memory.
   this->field = fftw_alloc_complex(this->params.nmesh);
+  if (this->field == nullptr) {
+    throw std::bad_alloc();
+  }
 
   trvs::count_cgrid += 1;
   trvs::count_grid += 1;
@@ -63,6 +66,10 @@ MeshField::MeshField(
 
   if (this->params.interlace == "true") {
     this->field_s = fftw_alloc_complex(this->params.nmesh);
+    if (this->field_s == nullptr) {
+      fftw_free(this->field); this->field = nullptr;
+      throw std::bad_alloc();
+    }
 // #ifdef TRV_USE_HIP
 //     if (trvs::is_gpu_enabled()) {
 //       HIP_EXEC(hipMalloc(
@@ -389,6 +396,9 @@ MeshField::MeshField(
   // Initialise the field (and its shadow field if interlacing is used)
   // and increase allocated memory.
   this->field = fftw_alloc_complex(this->params.nmesh);
+  if (this->field == nullptr) {
+    throw std::bad_alloc();
+  }
 
   trvs::count_cgrid += 1;
   trvs::count_grid += 1;
@@ -398,6 +408,10 @@ MeshField::MeshField(
 
   if (this->params.interlace == "true") {
     this->field_s = fftw_alloc_complex(this->params.nmesh);
+    if (this->field_s == nullptr) {
+      fftw_free(this->field); this->field = nullptr;
+      throw std::bad_alloc();
+    }
 
     trvs::count_cgrid += 1;
     trvs::count_grid += 1;
@@ -2141,6 +2155,9 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
   // Set up FFTW plans.
   if (plan_ini) {
     this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
+    if (this->twopt_3d == nullptr) {
+      throw std::bad_alloc();
+    }
 #ifdef TRV_USE_HIP
     if (trvs::is_gpu_enabled()) {
       HIP_EXEC(hipMalloc(
-- 
2.43.0


From f1495638d082d629900f18fadb675a5817653f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 85/89] fix: release data vectors when a three-point
 measurement fails

---
 src/triumvirate/src/threept.cpp | 126 ++++++++++++--------------------
 1 file changed, 48 insertions(+), 78 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 6a38c39..003cd9e 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -297,14 +297,14 @@ trv::BispecMeasurements compute_bispec(
     );
   }
 
-  int* nmodes1_dv = new int[dv_dim]();
-  int* nmodes2_dv = new int[dv_dim]();
-  double* k1bin_dv = new double[dv_dim]();
-  double* k2bin_dv = new double[dv_dim]();
-  double* k1eff_dv = new double[dv_dim]();
-  double* k2eff_dv = new double[dv_dim]();
-  std::complex<double>* bk_dv = new std::complex<double>[dv_dim];
-  std::complex<double>* sn_dv = new std::complex<double>[dv_dim];
+  std::vector<int> nmodes1_dv(dv_dim);
+  std::vector<int> nmodes2_dv(dv_dim);
+  std::vector<double> k1bin_dv(dv_dim);
+  std::vector<double> k2bin_dv(dv_dim);
+  std::vector<double> k1eff_dv(dv_dim);
+  std::vector<double> k2eff_dv(dv_dim);
+  std::vector<std::complex<double>> bk_dv(dv_dim);
+  std::vector<std::complex<double>> sn_dv(dv_dim);
 
   // ---------------------------------------------------------------------
   // Measurement
@@ -992,11 +992,6 @@ trv::BispecMeasurements compute_bispec(
   }
   bispec_out.dim = dv_dim;
 
-  delete[] nmodes1_dv; delete[] nmodes2_dv;
-  delete[] k1bin_dv; delete[] k2bin_dv;
-  delete[] k1eff_dv; delete[] k2eff_dv;
-  delete[] bk_dv; delete[] sn_dv;
-
   trvs::count_cgrid -= 4;
   trvs::count_grid -= 4;
   trvs::gbytesMem -=
@@ -1065,14 +1060,14 @@ trv::ThreePCFMeasurements compute_3pcf(
     );
   }
 
-  int* npairs1_dv = new int[dv_dim]();
-  int* npairs2_dv = new int[dv_dim]();
-  double* r1bin_dv = new double[dv_dim]();
-  double* r2bin_dv = new double[dv_dim]();
-  double* r1eff_dv = new double[dv_dim]();
-  double* r2eff_dv = new double[dv_dim]();
-  std::complex<double>* zeta_dv = new std::complex<double>[dv_dim];
-  std::complex<double>* sn_dv = new std::complex<double>[dv_dim];
+  std::vector<int> npairs1_dv(dv_dim);
+  std::vector<int> npairs2_dv(dv_dim);
+  std::vector<double> r1bin_dv(dv_dim);
+  std::vector<double> r2bin_dv(dv_dim);
+  std::vector<double> r1eff_dv(dv_dim);
+  std::vector<double> r2eff_dv(dv_dim);
+  std::vector<std::complex<double>> zeta_dv(dv_dim);
+  std::vector<std::complex<double>> sn_dv(dv_dim);
 
   // ---------------------------------------------------------------------
   // Measurement
@@ -1450,11 +1445,6 @@ trv::ThreePCFMeasurements compute_3pcf(
   }
   threepcf_out.dim = dv_dim;
 
-  delete[] npairs1_dv; delete[] npairs2_dv;
-  delete[] r1bin_dv; delete[] r2bin_dv;
-  delete[] r1eff_dv; delete[] r2eff_dv;
-  delete[] zeta_dv; delete[] sn_dv;
-
   trvs::count_cgrid -= 4;
   trvs::count_grid -= 4;
   trvs::gbytesMem -=
@@ -1520,14 +1510,14 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
     );
   }
 
-  int* nmodes1_dv = new int[dv_dim]();
-  int* nmodes2_dv = new int[dv_dim]();
-  double* k1bin_dv = new double[dv_dim]();
-  double* k2bin_dv = new double[dv_dim]();
-  double* k1eff_dv = new double[dv_dim]();
-  double* k2eff_dv = new double[dv_dim]();
-  std::complex<double>* bk_dv = new std::complex<double>[dv_dim];
-  std::complex<double>* sn_dv = new std::complex<double>[dv_dim];
+  std::vector<int> nmodes1_dv(dv_dim);
+  std::vector<int> nmodes2_dv(dv_dim);
+  std::vector<double> k1bin_dv(dv_dim);
+  std::vector<double> k2bin_dv(dv_dim);
+  std::vector<double> k1eff_dv(dv_dim);
+  std::vector<double> k2eff_dv(dv_dim);
+  std::vector<std::complex<double>> bk_dv(dv_dim);
+  std::vector<std::complex<double>> sn_dv(dv_dim);
 
   // ---------------------------------------------------------------------
   // Measurement
@@ -2167,11 +2157,6 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
   }
   bispec_out.dim = dv_dim;
 
-  delete[] nmodes1_dv; delete[] nmodes2_dv;
-  delete[] k1bin_dv; delete[] k2bin_dv;
-  delete[] k1eff_dv; delete[] k2eff_dv;
-  delete[] bk_dv; delete[] sn_dv;
-
   trvs::count_cgrid -= 4;
   trvs::count_grid -= 4;
   trvs::gbytesMem -=
@@ -2239,14 +2224,14 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
     );
   }
 
-  int* npairs1_dv = new int[dv_dim]();
-  int* npairs2_dv = new int[dv_dim]();
-  double* r1bin_dv = new double[dv_dim]();
-  double* r2bin_dv = new double[dv_dim]();
-  double* r1eff_dv = new double[dv_dim]();
-  double* r2eff_dv = new double[dv_dim]();
-  std::complex<double>* zeta_dv = new std::complex<double>[dv_dim];
-  std::complex<double>* sn_dv = new std::complex<double>[dv_dim];
+  std::vector<int> npairs1_dv(dv_dim);
+  std::vector<int> npairs2_dv(dv_dim);
+  std::vector<double> r1bin_dv(dv_dim);
+  std::vector<double> r2bin_dv(dv_dim);
+  std::vector<double> r1eff_dv(dv_dim);
+  std::vector<double> r2eff_dv(dv_dim);
+  std::vector<std::complex<double>> zeta_dv(dv_dim);
+  std::vector<std::complex<double>> sn_dv(dv_dim);
 
   // ---------------------------------------------------------------------
   // Measurement
@@ -2597,11 +2582,6 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
   }
   threepcf_out.dim = dv_dim;
 
-  delete[] npairs1_dv; delete[] npairs2_dv;
-  delete[] r1bin_dv; delete[] r2bin_dv;
-  delete[] r1eff_dv; delete[] r2eff_dv;
-  delete[] zeta_dv; delete[] sn_dv;
-
   trvs::count_cgrid -= 4;
   trvs::count_grid -= 4;
   trvs::gbytesMem -=
@@ -2672,14 +2652,14 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
     );
   }
 
-  int* npairs1_dv = new int[dv_dim]();
-  int* npairs2_dv = new int[dv_dim]();
-  double* r1bin_dv = new double[dv_dim]();
-  double* r2bin_dv = new double[dv_dim]();
-  double* r1eff_dv = new double[dv_dim]();
-  double* r2eff_dv = new double[dv_dim]();
-  std::complex<double>* zeta_dv = new std::complex<double>[dv_dim];
-  std::complex<double>* sn_dv = new std::complex<double>[dv_dim];
+  std::vector<int> npairs1_dv(dv_dim);
+  std::vector<int> npairs2_dv(dv_dim);
+  std::vector<double> r1bin_dv(dv_dim);
+  std::vector<double> r2bin_dv(dv_dim);
+  std::vector<double> r1eff_dv(dv_dim);
+  std::vector<double> r2eff_dv(dv_dim);
+  std::vector<std::complex<double>> zeta_dv(dv_dim);
+  std::vector<std::complex<double>> sn_dv(dv_dim);
 
   // ---------------------------------------------------------------------
   // Measurement
@@ -3055,11 +3035,6 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
   }
   threepcfwin_out.dim = dv_dim;
 
-  delete[] npairs1_dv; delete[] npairs2_dv;
-  delete[] r1bin_dv; delete[] r2bin_dv;
-  delete[] r1eff_dv; delete[] r2eff_dv;
-  delete[] zeta_dv; delete[] sn_dv;
-
   trvs::count_cgrid -= 4;
   trvs::count_grid -= 4;
   trvs::gbytesMem -=
@@ -3132,14 +3107,14 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
     );
   }
 
-  int* nmodes1_dv = new int[dv_dim]();
-  int* nmodes2_dv = new int[dv_dim]();
-  double* k1bin_dv = new double[dv_dim]();
-  double* k2bin_dv = new double[dv_dim]();
-  double* k1eff_dv = new double[dv_dim]();
-  double* k2eff_dv = new double[dv_dim]();
-  std::complex<double>* bk_dv = new std::complex<double>[dv_dim];
-  std::complex<double>* sn_dv = new std::complex<double>[dv_dim];
+  std::vector<int> nmodes1_dv(dv_dim);
+  std::vector<int> nmodes2_dv(dv_dim);
+  std::vector<double> k1bin_dv(dv_dim);
+  std::vector<double> k2bin_dv(dv_dim);
+  std::vector<double> k1eff_dv(dv_dim);
+  std::vector<double> k2eff_dv(dv_dim);
+  std::vector<std::complex<double>> bk_dv(dv_dim);
+  std::vector<std::complex<double>> sn_dv(dv_dim);
 
   // ---------------------------------------------------------------------
   // Measurement
@@ -3944,11 +3919,6 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
   }
   bispec_out.dim = dv_dim;
 
-  delete[] nmodes1_dv; delete[] nmodes2_dv;
-  delete[] k1bin_dv; delete[] k2bin_dv;
-  delete[] k1eff_dv; delete[] k2eff_dv;
-  delete[] bk_dv; delete[] sn_dv;
-
   trvs::count_cgrid -= 4;
   trvs::count_grid -= 4;
   trvs::gbytesMem -=
-- 
2.43.0


From 4bfe9be4c6828e8d3ac6680efff7659254cdf52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:53 +0000
Subject: [PATCH 86/89] fix: import and export FFTW wisdom for each mesh and
 directory

---
 src/triumvirate/include/monitor.hpp |  8 ++++----
 src/triumvirate/src/field.cpp       | 16 ++++++++++------
 src/triumvirate/src/monitor.cpp     |  4 ++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/include/monitor.hpp b/src/triumvirate/include/monitor.hpp
index a8ea19a..94c1c54 100644
--- a/src/triumvirate/include/monitor.hpp
+++ b/src/triumvirate/include/monitor.hpp
@@ -265,10 +265,10 @@ extern float max_count_grid;  ///< maximum number of grids
 extern int count_fft;   ///< number of FFTs
 extern int count_ifft;  ///< number of IFFTs
 
-/// wisdom import status for forward transform
-extern bool fftw_wisdom_f_imported;
-/// wisdom import status for backward transform
-extern bool fftw_wisdom_b_imported;
+/// last wisdom file imported or exported for forward transform
+extern std::string fftw_wisdom_f_imported;
+/// last wisdom file imported or exported for backward transform
+extern std::string fftw_wisdom_b_imported;
 
 /**
  * @brief Return size in gibibytes.
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 71de9d2..e7c2658 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -103,7 +103,9 @@ MeshField::MeshField(
     std::FILE* fftw_wisdom_file_b = nullptr;
 
     if (this->params.use_fftw_wisdom != "") {
-      if (!trv::sys::fftw_wisdom_f_imported) {
+      if (
+        trv::sys::fftw_wisdom_f_imported != this->params.fftw_wisdom_file_f
+      ) {
         fftw_wisdom_file_f =
           std::fopen(this->params.fftw_wisdom_file_f.c_str(), "r");
         if (fftw_wisdom_file_f != nullptr) {
@@ -132,7 +134,9 @@ MeshField::MeshField(
         }
       }
 
-      if (!trv::sys::fftw_wisdom_b_imported) {
+      if (
+        trv::sys::fftw_wisdom_b_imported != this->params.fftw_wisdom_file_b
+      ) {
         fftw_wisdom_file_b =
           fopen(this->params.fftw_wisdom_file_b.c_str(), "r");
         if (fftw_wisdom_file_b != nullptr) {
@@ -166,7 +170,7 @@ MeshField::MeshField(
       fftw_import_wisdom_from_filename(
         this->params.fftw_wisdom_file_f.c_str()
       );
-      trv::sys::fftw_wisdom_f_imported = true;
+      trv::sys::fftw_wisdom_f_imported = this->params.fftw_wisdom_file_f;
       if (trvs::currTask == 0) {
         trvs::logger.info(
           "FFTW wisdom file for forward transforms has been imported: %s",
@@ -284,14 +288,14 @@ MeshField::MeshField(
           this->params.fftw_wisdom_file_f.c_str()
         );
       }
-      trv::sys::fftw_wisdom_f_imported = true;
+      trv::sys::fftw_wisdom_f_imported = this->params.fftw_wisdom_file_f;
     }
 
     if (import_fftw_wisdom_b) {
       fftw_import_wisdom_from_filename(
         this->params.fftw_wisdom_file_b.c_str()
       );
-      trv::sys::fftw_wisdom_b_imported = true;
+      trv::sys::fftw_wisdom_b_imported = this->params.fftw_wisdom_file_b;
       if (trvs::currTask == 0) {
         trvs::logger.info(
           "FFTW wisdom file for backward transforms has been imported: %s",
@@ -337,7 +341,7 @@ MeshField::MeshField(
           this->params.fftw_wisdom_file_b.c_str()
         );
       }
-      trv::sys::fftw_wisdom_b_imported = true;
+      trv::sys::fftw_wisdom_b_imported = this->params.fftw_wisdom_file_b;
     }
 
     if (this->params.interlace == "true") {
diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index beba52f..832a3df 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -107,8 +107,8 @@ float max_count_grid = 0.;
 int count_fft = 0;
 int count_ifft = 0;
 
-bool fftw_wisdom_f_imported = false;
-bool fftw_wisdom_b_imported = false;
+std::string fftw_wisdom_f_imported;
+std::string fftw_wisdom_b_imported;
 
 auto clockStart = std::chrono::steady_clock::now();  ///< program starting time
 
-- 
2.43.0


From b2ec085113107bbfdc52d343b546bfad6d551cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 87/89] fix: leave the catalogues passed to measurements in
 place

---
 src/triumvirate/catalogue.py | 19 +++++++++++++++++++
 src/triumvirate/threept.py   | 10 ++++++++++
 src/triumvirate/twopt.py     | 10 ++++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index db6f899..2e1fbb4 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -11,6 +11,7 @@ Handle catalogue I/O and processing.
 
 """  # numpydoc ignore=SS01
 import warnings
+from copy import copy
 
 import numpy as np
 from astropy.table import Table
@@ -703,6 +704,24 @@ class ParticleCatalogue:
 
         self._calc_bounds()
 
+    def _copy(self):
+        """Return a copy, the columns of which can be replaced without
+        affecting the catalogue itself.
+
+        Returns
+        -------
+        catalogue : :class:`~triumvirate.catalogue.ParticleCatalogue`
+            Copied catalogue.
+
+        """
+        catalogue = copy(self)
+        if self._backend == 'nbodykit':
+            catalogue._pdata = self._pdata.copy()
+        else:
+            catalogue._pdata = self._pdata.copy(copy_data=False)
+
+        return catalogue
+
     def offset_coords(self, origin):
         """Offset particle coordinates for a given origin.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 634ae32..bf6654b 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -531,6 +531,10 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the catalogues passed unaltered by box alignment.
+    catalogue_data = catalogue_data._copy()
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -1428,6 +1432,9 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
         except AttributeError:
             logger.info("Binning has been initialised.")
 
+    # Leave the catalogues passed unaltered by box alignment.
+    catalogue_data = catalogue_data._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -1965,6 +1972,9 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the catalogues passed unaltered by box alignment.
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index a8f7890..64f358f 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -454,6 +454,10 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the catalogues passed unaltered by box alignment.
+    catalogue_data = catalogue_data._copy()
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -984,6 +988,9 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
         except AttributeError:
             logger.info("Binning has been initialised.")
 
+    # Leave the catalogues passed unaltered by box alignment.
+    catalogue_data = catalogue_data._copy()
+
     # Set up box alignment.
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
@@ -1446,6 +1453,9 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info("Lines of sight have been initialised.")
 
+    # Leave the catalogues passed unaltered by box alignment.
+    catalogue_rand = catalogue_rand._copy()
+
     # Set up box alignment.
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-- 
2.43.0


From 70e2a8b790825a6300238cb8af5555b50f4dd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 88/89] fix: leave parameter sets passed to measurements
 unaltered

---
 src/triumvirate/threept.py | 3 ++-
 src/triumvirate/twopt.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index bf6654b..452fdfe 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -143,7 +143,8 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Leave the parameter set passed unaltered.
+        paramset = ParameterSet(param_dict=dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 64f358f..f6a59a6 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -117,7 +117,8 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
     if paramset is None:
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Leave the parameter set passed unaltered.
+        paramset = ParameterSet(param_dict=dict(paramset.items()))
         defaults = None
 
     if params_sampling is not None:
-- 
2.43.0


From 968020093490f1a9d6400e83aff7c089629a8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 89/89] fix: map catalogue columns whose names are exchanged

---
 src/triumvirate/catalogue.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 2e1fbb4..dc942a4 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -338,8 +338,14 @@ class ParticleCatalogue:
             )
 
             if name_mapping:
-                for name_, name_alt_ in name_mapping.items():
-                    self._pdata.rename_column(name_alt_, name_)
+                # Names may be exchanged, so set the columns apart first.
+                columns_ = {
+                    name_: self._pdata[name_alt_].copy()
+                    for name_, name_alt_ in name_mapping.items()
+                }
+                self._pdata.remove_columns(list(set(name_mapping.values())))
+                for name_, column_ in columns_.items():
+                    self._pdata[name_] = column_
 
         # Validate particle data columns.
         if self._backend == 'nbodykit':
-- 
2.43.0

