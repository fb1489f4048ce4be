From 815390430f917be36d7bdd4ace444cf1bd78a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 01/67] fix: keep the bisection bracket when the lower bound is
 just below richness 1

The low-end stabilisation replaced out(lamlo) by 0.9 whenever it was below 1,
even if lamlo itself was already above 0.9.  The sign of the lower residual
then flipped and the search moved away from the solution (a balance point just
below 1 was reported as a richness of up to 1.47).
---
 redmapper/solver_nfw/solver_nfw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/solver_nfw/solver_nfw.c b/redmapper/solver_nfw/solver_nfw.c
index fb88267..d727040 100644
--- a/redmapper/solver_nfw/solver_nfw.c
+++ b/redmapper/solver_nfw/solver_nfw.c
@@ -41,7 +41,7 @@ int solver_nfw(double r0, double beta, long ngal,
 
     outmid += mid*cval;
 
-    if (outlo < 1.0) { outlo = 0.9;} // stability at low end
+    if (outlo < 1.0 && lamlo < 0.9) { outlo = 0.9;} // stability at low end
     if ((outlo-lamlo)*(outmid-mid) > 0.0) {
       lamlo=mid;
       outlo=-1.0;
-- 
2.43.0


From 05708a3cd8c0900b9e6c705427a1ab6b0b11cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:18 +0000
Subject: [PATCH 02/67] fix: reset theta_r outside the hard radius cut

With rsig <= 0 theta_r was only ever set to 1; a galaxy inside the radius of an
earlier (larger) trial richness kept theta_r = 1 although it lies outside the
final radius and has zero weight.
---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0


From 4ffd1356c5d81bd3835aa083be50d50550995072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:04 +0000
Subject: [PATCH 03/67] fix: use each galaxy's own slope in the
 reference-magnitude error term of mode 2

With one redshift per galaxy (mode 2) slope is an (ngal, ncol) matrix, but the
reference-magnitude error matrix always used the first row.
---
 redmapper/chisq_dist/chisq_dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index f632c97..312c4e3 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -351,7 +351,7 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      gsl_matrix_set_zero(cimat);
 	      for (j=0;j<ncol;j++) {
 		  for (k=j;k<ncol;k++) {
-		      val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i];
+		      val = slope[i*ncol+j] * slope[i*ncol+k] * refmagerr[i] * refmagerr[i];
 		      gsl_matrix_set(cimat, j, k, val);
 		      if (k != j) {
 			  gsl_matrix_set(cimat, k, j, val);
-- 
2.43.0


From 6808e57d1d3c4efb437918a9171470247f61cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:04 +0000
Subject: [PATCH 04/67] fix: make the chi-squared independent of the memory
 layout of its inputs

The arrays were converted with astype('f8'), which keeps the input's strides,
while the compiled code assumes row-major matrices and one contiguous block per
redshift.  A C-ordered [ncol, ncol, nz] covariance (or Fortran-ordered colors)
silently gave wrong values.
---
 redmapper/chisq_dist/chisq_dist_lib.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 458a276..789cb03 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -83,13 +83,19 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
        Float array of likelihoods.  Present if calc_lkhd=True.
     """
 
-    _covmat = covmat.astype('f8')
-    _c = c.astype('f8')
-    _slope = slope.astype('f8')
+    # The compiled code walks plain memory, so the layout must not depend on
+    # how the input arrays are strided.
+    if covmat.ndim == 3:
+        # [nz, ncol, ncol]
+        _covmat = np.moveaxis(covmat, 2, 0).astype('f8', order='C')
+    else:
+        _covmat = covmat.astype('f8', order='C')
+    _c = c.astype('f8', order='C')
+    _slope = slope.astype('f8', order='C')
     _pivotmag = np.atleast_1d(pivotmag.astype('f8'))
     _refmag = np.atleast_1d(refmag.astype('f8'))
-    _magerr = magerr.astype('f8')
-    _color = color.astype('f8')
+    _magerr = magerr.astype('f8', order='C')
+    _color = color.astype('f8', order='C')
 
     if (refmagerr is None):
         _refmagerr = np.zeros(refmag.size,dtype='f8')
@@ -152,7 +158,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x ngal for mode 0")
@@ -192,7 +198,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((nz, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
@@ -226,7 +232,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = lupcorr.astype('f8', order='C')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
-- 
2.43.0


From 458b5669dcb70bd319c21277f982d78289325ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:04 +0000
Subject: [PATCH 05/67] fix: check the covariance and refmag shapes in mode 2
 of compute_chisq

These were the only arrays not compared with ncol/ngal; a mismatch made the
compiled code read past the end of the buffers.
---
 redmapper/chisq_dist/chisq_dist_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 789cb03..b54d968 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -219,6 +219,10 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
             raise ValueError("covmat must be 3 dimensions for mode 2")
         if (covmat.shape[2] != nz):
             raise ValueError("Third dimension of covmat must be nz for mode 2")
+        if (covmat.shape[0] != ncol or covmat.shape[1] != ncol):
+            raise ValueError("covmat must be ncol x ncol x nz for mode 2")
+        if (_refmag.size != ngal):
+            raise ValueError("refmag must be ngal elements for mode 2")
 
         if (magerr.ndim != 2):
             raise ValueError("magerr must be 2D for mode 2")
-- 
2.43.0


From 0a1a9e95254329fba421be5d48d0039766d7f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:20 +0000
Subject: [PATCH 06/67] fix: evaluate the mask correction polynomial with the
 highest power first in the richness error

---
 redmapper/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..dfadbca 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,8 +524,7 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
-                           0.0, None)
+            cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
 
-- 
2.43.0


From e4c32c2e8de5c87b5a964d1440368e2c04f928fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:18 +0000
Subject: [PATCH 07/67] fix: keep the catalog values and the zred background
 when copying a cluster

---
 redmapper/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index dfadbca..aa97db9 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -852,12 +852,14 @@ class Cluster(Entry):
     def __copy__(self):
         # This returns a copy of the cluster, and note that the neighbors will
         # be deepcopied which is what we want.
-        return Cluster(r0=self.r0,
+        return Cluster(cat_vals=self._ndarray.copy(),
+                       r0=self.r0,
                        beta=self.beta,
                        config=self.config,
                        zredstr=self.zredstr,
                        bkg=self.bkg,
                        cbkg=self.cbkg,
+                       zredbkg=self.zredbkg,
                        neighbors=self.neighbors)
 
 class ClusterCatalog(Catalog):
-- 
2.43.0


From f2ecc232f4167d42be6ecb9933a56a48c72c213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:59 +0000
Subject: [PATCH 08/67] fix: chisq at the lower edge looks up the first
 background bin, not the last

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..7d0c20c 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -149,7 +149,8 @@ class Background(object):
            Sigma_g(x) for input values
         """
         zmin = self.zbins[0]
-        chisqindex = np.searchsorted(self.chisqbins, chisq) - 1
+        # A chisq exactly at the lower edge belongs to the first bin.
+        chisqindex = np.clip(np.searchsorted(self.chisqbins, chisq) - 1, 0, None)
         refmagindex = np.searchsorted(self.refmagbins, refmag) - 1
         # Look into changing to searchsorted
         ind = np.clip(np.round((z-zmin)/(self.zbins[1]-zmin)),0, self.zbins.size-1).astype(np.int32)
-- 
2.43.0


From 4b8c0bfc3a1fcec4f7542e9d223523478e895be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:59 +0000
Subject: [PATCH 09/67] fix: swap the colors when an off-diagonal background is
 stored in the other order

---
 redmapper/color_background.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..c45af60 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -277,6 +277,7 @@ class ColorBackground(object):
         key = bkg_index1 * 100 + bkg_index2
         if key not in self.bkgs:
             key = bkg_index2 * 100 + bkg_index1
+            colors1, colors2 = colors2, colors1
 
         try:
             bkg = self.bkgs[key]
-- 
2.43.0


From 8a20d6473d2ed5c3ef15970bb1ea7e6215e0fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:24 +0000
Subject: [PATCH 10/67] fix: the free probability of a galaxy claimed several
 times is zero, not negative

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..6611672 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -403,7 +403,7 @@ class ClusterRunner(object):
                         continue
 
                     if self.do_percolation_masking:
-                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
+                        cluster.neighbors.pfree[:] = np.clip(1.0 - self.pgal[cluster.neighbors.index], 0.0, None)
                     else:
                         cluster.neighbors.pfree[:] = 1.0
 
-- 
2.43.0


From 70c6239b4c3e4b9139e5b2ade3de91292a9d0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:24 +0000
Subject: [PATCH 11/67] fix: store the corrected p(z) in the catalog

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 6611672..a8dce2e 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -459,7 +459,7 @@ class ClusterRunner(object):
                                                                                           pzbins=cluster.pzbins,
                                                                                           pzvals=cluster.pz)
                         cluster.pzbins = pzbins
-                        cluster.pzvals = pzvals
+                        cluster.pz = pzvals
                     else:
                         zlam, zlam_e = self.zlambda_corr.apply_correction(cluster.Lambda,
                                                                           cluster.z_lambda,
-- 
2.43.0


From 3694d485075be13caf855550edf9220f9359e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:24 +0000
Subject: [PATCH 12/67] fix: assign matched zred values to the matched clusters
 only

---
 redmapper/cluster_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index a8dce2e..90bb453 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -349,9 +349,9 @@ class ClusterRunner(object):
             self.cat.mag_err[i0, :] = self.gals.mag_err[i1, :]
 
             if self.did_read_zreds:
-                self.cat.zred = self.gals.zred[i1]
-                self.cat.zred_e = self.gals.zred_e[i1]
-                self.cat.zred_chisq = self.gals.zred_chisq[i1]
+                self.cat.zred[i0] = self.gals.zred[i1]
+                self.cat.zred_e[i0] = self.gals.zred_e[i1]
+                self.cat.zred_chisq[i0] = self.gals.zred_chisq[i1]
 
         # loop over clusters...
         # at the moment, we are doing the matching once per cluster.
-- 
2.43.0


From 430aeae7cb5ad8b23ecad9d06f7a17d6c6e7239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:10 +0000
Subject: [PATCH 13/67] fix: do not crash on the members when no cluster or no
 member is left

---
 redmapper/cluster_runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 90bb453..d63041c 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -602,7 +602,10 @@ class ClusterRunner(object):
         self.cat = ClusterCatalog(self.cat._ndarray[use])
 
         # And crop down members?
-        if self.members is not None:
+        if self.members is not None and (self.cat.size == 0 or self.members.size == 0):
+            # Nothing to match
+            self.members = Catalog(self.members._ndarray[: 0])
+        elif self.members is not None:
             a, b = esutil.numpy_util.match(self.cat.mem_match_id,
                                            self.members.mem_match_id)
             self.members = Catalog(self.members._ndarray[b])
-- 
2.43.0


From d797f476e621c0d47c51fdf312738a24f831102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:10 +0000
Subject: [PATCH 14/67] fix: reject a percolated cluster without members after
 resetting it

---
 redmapper/run_percolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..59edb0e 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -397,6 +397,7 @@ class RunPercolation(ClusterRunner):
                       (cluster.neighbors.p > 0.0))
         if u.size == 0:
             # This is another way to get a bad cluster
+            bad = True
             self._reset_bad_values(cluster)
             return bad
 
-- 
2.43.0


From 6300e35c55f75bc3fc390bf80c1632a198a1536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 15/67] fix: empty central candidate slots do not select the
 last neighbor

---
 redmapper/run_percolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 59edb0e..4f3efd0 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -308,8 +308,10 @@ class RunPercolation(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
-            cluster.neighbors.centering_cand[cent.index] = 1
+            # Only use the filled slots; the others have an index of -1
+            filled, = np.where(cent.index >= 0)
+            cluster.id_cent[filled] = cluster.neighbors.id[cent.index[filled]]
+            cluster.neighbors.centering_cand[cent.index[filled]] = 1
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 3e8c40316902f47c449149c02f898a1eb5d0b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:27 +0000
Subject: [PATCH 16/67] fix: wcen-zred centering reports failure when there are
 no candidates

---
 redmapper/centering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..b88a6b6 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -139,7 +139,7 @@ class CenteringWcenZred(Centering):
         Returns
         -------
         success: `bool`
-           True when a center is successfully found. (Always True).
+           True when a center is successfully found.
         """
 
         z_neighbors = self.cluster.neighbors.zred
@@ -158,6 +158,9 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From 554e20d4a56374eb60b73a1a2053223fe158fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:27 +0000
Subject: [PATCH 17/67] fix: centering with spectroscopic redshifts does not
 overwrite the galaxies' zred

---
 redmapper/centering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index b88a6b6..e9e1851 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -86,8 +86,8 @@ class CenteringBCG(Centering):
         # This is somewhat arbitrary, and is not yet configurable
         pmem_cut = 0.8
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
@@ -142,9 +142,9 @@ class CenteringWcenZred(Centering):
            True when a center is successfully found.
         """
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
-        chisq_neighbors = self.cluster.neighbors.zred_chisq
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
+        chisq_neighbors = self.cluster.neighbors.zred_chisq.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
-- 
2.43.0


From ad05de0e60abdd38e068a53ff1b15aeaca5e11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 18/67] fix: z_lambda honours a magnitude limit given by the
 caller

---
 redmapper/zlambda.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index f808769..65c4f98 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -131,10 +131,6 @@ class Zlambda(object):
 
                 wtvals_mod = self.cluster.neighbors.pcol
 
-                if maxmag_in is not None:
-                   maxmag = (self.zredstr.mstar(z_lambda) -
-                       2.5 * np.log10(self.config.lval_reference))
-
                 self._zlambda_select_neighbors(wtvals_mod, maxrad, maxmag)
 
                 # break if too few neighbors
-- 
2.43.0


From 125b81131635763a94c62c9a9387cea9b8b93f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 19/67] fix: p(z) slow-mode test compares the upper end of the
 p(z) with its middle

---
 redmapper/zlambda.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 65c4f98..448f1fa 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -390,10 +390,10 @@ class Zlambda(object):
 
         # check for bad values, and do slow run if necessary...
         if (self.pz[(self.config.npzbins - 1) // 2] > 0.0 and
-            ((self.pz[0] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
-             (self.pzbins[0] >= (self.zredstr.z[0] + 0.01))) or
-            ((self.pz[-1] >= self.pz[(self.config.npzbins-1) // 2] > 0.01) and
-             (self.pzbins[-1] <= (self.zredstr.z[-2] - 0.01)))):
+            (((self.pz[0] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
+              (self.pzbins[0] >= (self.zredstr.z[0] + 0.01))) or
+             ((self.pz[-1] / self.pz[(self.config.npzbins - 1) // 2] > 0.01) and
+              (self.pzbins[-1] <= (self.zredstr.z[-2] - 0.01))))):
 
             self._zlambda_calc_pz(z_lambda, wtvals, maxrad, maxmag, slow=True)
 
-- 
2.43.0


From 0e82dc931e383530cf394d597619a50799da76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 20/67] fix: bulk zred corrections apply the zred2 magnitude
 slope and leave bad zreds alone

---
 redmapper/zred_color.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 303d5b0..c7624d9 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -84,12 +84,20 @@ class ZredColor(object):
             galaxies.zred = galaxies.zred_uncorr + dzs
             galaxies.zred_e = galaxies.zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred)
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr) + (galaxies.refmag - pivotmags) * interpol(self.zredstr.corr2_slope, self.zredstr.z, galaxies.zred_uncorr)
             r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, galaxies.zred_uncorr)
 
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
             galaxies.zred2_e = galaxies.zred_uncorr_e * r2s
 
+            # Galaxies without a valid zred have nothing to correct
+            bad, = np.where(galaxies.zred_uncorr < 0.0)
+            if bad.size > 0:
+                galaxies.zred[bad] = galaxies.zred_uncorr[bad]
+                galaxies.zred_e[bad] = galaxies.zred_uncorr_e[bad]
+                galaxies.zred2[bad] = galaxies.zred_uncorr[bad]
+                galaxies.zred2_e[bad] = galaxies.zred_uncorr_e[bad]
+
 
     def compute_zred(self, galaxy, no_corrections=False):
         """
-- 
2.43.0


From 5e6068d3e9f639b461833b183c1bd3f549aa4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:32 +0000
Subject: [PATCH 21/67] fix: zred peak search excludes the overflow bin when
 the model is not extrapolated

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index c7624d9..7225717 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -42,7 +42,7 @@ class ZredColor(object):
         self.zrange = zrange
 
         self.nz = self.zredstr.z.size - 1
-        self.notextrap, = np.where(~self.zredstr.extrapolated)
+        self.notextrap, = np.where(~self.zredstr.extrapolated[: self.nz])
 
         if self.zrange is None:
             self.zbinstart = 0
-- 
2.43.0


From 43a1059044dab04f410b4982991a912273b41008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:04 +0000
Subject: [PATCH 22/67] fix: volume-limit areas sum the pixels that reach each
 redshift

---
 redmapper/volumelimit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..42571d1 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -303,8 +303,9 @@ class VolumeLimitMask(object):
         astr.area[lo] = np.sum(fracgoods.astype(np.float64)) * pixsize
 
         if np.sum(~lo) > 0:
+            # Pixels are sorted by zmax; those past inds reach this redshift
             carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+            astr.area[~lo] = carea[-1] - carea[inds[~lo] - 1]
 
         return astr
 
-- 
2.43.0


From 35a51ae744cc4e7b3f9ea92e8f96eff77eaae28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:04 +0000
Subject: [PATCH 23/67] fix: positions beyond the poles have no volume-limit
 redshift instead of raising

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 42571d1..3bbae28 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -260,7 +260,7 @@ class VolumeLimitMask(object):
         if (len(ras) != len(decs)):
             raise ValueError("ras, decs must be same length")
 
-        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
+        values = self.sparse_vlimmap.get_values_pos(ras, np.clip(decs, -90.0, 90.0), lonlat=True)
 
         bad, = np.where(np.abs(decs) > 90.0)
         values['zmax'][bad] = hpg.UNSEEN
-- 
2.43.0


From abb323b743b8cf129463c0888f5e7d01b01b4249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:43 +0000
Subject: [PATCH 24/67] fix: pixels too shallow for the first redshift bin are
 left out of the volume-limit mask

---
 redmapper/volumelimit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 3bbae28..ffe12d5 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -201,7 +201,8 @@ class VolumeLimitMask(object):
             vlimmap['zmax'][limited] = zmax_temp[limited]
 
 
-        gd, = np.where(vlimmap['zmax'] > zbins[0])
+        # Compare at the precision of the map
+        gd, = np.where(vlimmap['zmax'] > np.float32(zbins[0]))
 
         sparse_vlimmap.update_values_pix(validPixels[gd], vlimmap[gd])
 
-- 
2.43.0


From c55dc2b217ae2a85917847dfb40d56540f5cf365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:13 +0000
Subject: [PATCH 25/67] fix: random clusters are checked against the volume
 limit of their own position

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..5f2da0f 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -114,6 +114,7 @@ class GenerateRandoms(object):
             zz = self.redmapper_cat.z_lambda[r]
             ll = self.redmapper_cat.Lambda[r]
             ii = self.redmapper_cat.mem_match_id[r]
+            zmax = zmax[gd]
 
             # zctr counts the number of successfully placed randoms
             # while i counts index through tempcat, many of which will be rejected.
-- 
2.43.0


From 19a306eaa775801b41b85ed83641cbdde14dc5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:13 +0000
Subject: [PATCH 26/67] fix: random catalogues can be split (missing import)

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5f2da0f..b4034e9 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -1,6 +1,7 @@
 """Classes for generating redmapper randoms.
 """
 
+import os
 import fitsio
 import esutil
 import re
-- 
2.43.0


From 762f260c5c3a9c67879cbcfc1140806af18d5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:13 +0000
Subject: [PATCH 27/67] fix: weighted-random areas use the same richness bin as
 the weights

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index b4034e9..3530d7e 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -383,12 +383,12 @@ class RandomWeigher(object):
             gd, = np.where((self.randcat.lambda_in[alluse[st]]/self.randcat.scaleval[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         else:
             gd, = np.where((self.randcat.lambda_in[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         ind2 = np.searchsorted(self.randcat.z[alluse[st[gd]]], zbins)
 
         xvals = (zbins[0: -2] + zbins[1: -1])/2.
-- 
2.43.0


From b9a6f9cecbad884b56f868867634fc911ffc0a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:14 +0000
Subject: [PATCH 28/67] fix: redMaGiC randoms accept file names (undefined
 names)

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..4601ebe 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From 9cbe457c269d08bbe54122bd05cdc028c62365b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 29/67] fix: a one-row catalogue honours the rows requested for
 output

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..f975879 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -140,7 +140,7 @@ class DataObject(object):
         indices: `np.array`, optional
            Indices of rows to output.  Default is None (output all).
         """
-        if self._ndarray.size == 1:
+        if self._ndarray.size == 1 and indices is None:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
-- 
2.43.0


From b42578ecad3e99af17e5e815d1e3c682e1ed318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 30/67] fix: dir() of catalogues

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index f975879..87b61c6 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -218,7 +218,7 @@ class DataObject(object):
         # also need to know original __dir__!
         return sorted(set(
                 dir(type(self)) +
-                self.__dict__.keys() +
+                list(self.__dict__.keys()) +
                 [x.lower() for x in self._ndarray.dtype.names]))
 
 
-- 
2.43.0


From be91584a01ca22eb16aaeef87318cc8c76424453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:03 +0000
Subject: [PATCH 31/67] fix: consolidation with scale values when a pixel drops
 clusters

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..5b44982 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -179,6 +177,8 @@ class RedmapperConsolidateTask(object):
 
             cat = cat[use]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # match catalog with members via mem_match_id
             a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
-- 
2.43.0


From ac7b153261f253ad8006b67a23e4613a54c3e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:03 +0000
Subject: [PATCH 32/67] fix: consolidation when no cluster passes one of the
 selections

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 5b44982..40b2190 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # No clusters passed this selection
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From 1778ec5e7bc16b55316af879fccee6f6b57c4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:03 +0000
Subject: [PATCH 33/67] fix: consolidated runcat members belong to the
 consolidated clusters

---
 redmapper/pipeline/redmapperconsolidatetask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 40b2190..f52fe3a 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -404,6 +404,11 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Only keep members of the clusters in the pixel
+                _, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
+                mem = mem[b]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From b9b8a55d0625473c7c69c422d12dc88777009aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:03 +0000
Subject: [PATCH 34/67] fix: plots of a consolidated runcat (undefined name)

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index f52fe3a..a546cb9 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -428,7 +428,7 @@ class RuncatConsolidateTask(object):
 
         if do_plots:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From 129c0b64d08c8243d2ef00f3891eff378409471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:03 +0000
Subject: [PATCH 35/67] fix: members are found for any catalogue file name

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..97ebeac 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,7 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    memfile = '%s_members.fit' % (os.path.splitext(catfile)[0])
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From 64b6c340ae6e9f7d8e8618fe8ceefa591be6198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:03 +0000
Subject: [PATCH 36/67] fix: single-process runs on a pixel smaller than the
 minimum split (undefined name)

---
 redmapper/redmapper_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..c88313b 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -169,7 +169,7 @@ class RedmapperRun(object):
 
         if self.config.calib_run_nproc == 1:
             if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
+                nside_test = self.config.d.nside
             else:
                 nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
-- 
2.43.0


From 8e74077dbd2c78d551c783bb357e0586a4b2efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 37/67] fix: report an out-of-range hpix as such

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..ca18d59 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From fe72c97782642f89aa3385191546d41ce6e66d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 38/67] fix: galaxy ingestion with a mask file

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index ca18d59..f271e91 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -541,7 +541,7 @@ class FakeMaskConfig(object):
 
         class TempD(object):
             def __init__(self):
-                self.hpix = 0
+                self.hpix = []
                 self.nside = 0
 
         self.d = TempD()
-- 
2.43.0


From 9168ef1ac01c1ae9d180a8b0b38c0aacad02f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 39/67] fix: pixel number of a parallel pixel file is at the
 end of its name

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index f271e91..fb1aa73 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', f)
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From c8cfcdb8ad99d7f0717b4d6997ccf11894a81f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 40/67] fix: append a set of galaxies that is empty or fully
 masked

---
 redmapper/galaxy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index fb1aa73..312718c 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -734,6 +734,10 @@ class GalaxyCatalogMaker(object):
             good = self.mask.compute_radmask(gals['ra'], gals['dec'])
             gals = gals[good]
 
+        if gals.size == 0:
+            # Nothing to append
+            return
+
         ipring = hpg.angle_to_pixel(self.nside, gals['ra'], gals['dec'], nest=False)
 
         h, rev = esutil.stat.histogram(ipring, min=0, max=self.ngals.size-1, rev=True)
-- 
2.43.0


From 48894f5875584f6f04b909500fa9bc5e620e2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 41/67] fix: pixel files whose columns are in a different order

---
 redmapper/galaxy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 312718c..9c43cb9 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -309,9 +309,9 @@ class GalaxyCatalog(Catalog):
             if use_tempfile:
                 # Read into temporary buffer
                 tempcat = np.zeros(tab.ngals[index], dtype=dtype)
-                tempcat[cat_fields][:] = fitsio.read(fname, ext=1, lower=True, columns=columns)
+                tempcat[cat_fields][:] = fitsio.read(fname, ext=1, lower=True, columns=columns)[cat_fields]
             else:
-                cat[cat_fields][ctr: ctr + tab.ngals[index]] = fitsio.read(fname, ext=1, lower=True, columns=columns)
+                cat[cat_fields][ctr: ctr + tab.ngals[index]] = fitsio.read(fname, ext=1, lower=True, columns=columns)[cat_fields]
 
             if use_zred:
                 # Note that this effectively checks that the numbers of rows in each file match properly (though the exception will be cryptic...)
@@ -322,9 +322,9 @@ class GalaxyCatalog(Catalog):
 
                 if use_tempfile:
                     # Read into temporary buffer
-                    tempcat[zcat_fields][:] = fitsio.read(fname, ext=1, lower=True)
+                    tempcat[zcat_fields][:] = fitsio.read(fname, ext=1, lower=True)[zcat_fields]
                 else:
-                    cat[zcat_fields][ctr: ctr + tab.ngals[index]] = fitsio.read(fname, ext=1, lower=True)
+                    cat[zcat_fields][ctr: ctr + tab.ngals[index]] = fitsio.read(fname, ext=1, lower=True)[zcat_fields]
 
             if use_tempfile:
                 # Cut down the tempcat based on refmag low/high and chisq_max
-- 
2.43.0


From b3dca8bbdeffd721436f91ec9a6b325510df6e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 42/67] fix: background of a galaxy file that is not pixelized

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 7d0c20c..6433ef9 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -494,14 +494,14 @@ class BackgroundGenerator(object):
         ctr = 0
         p = 0
         # This covers both loops
-        while ((ctr < ngal) and (p < npix)):
+        while ((ctr < ngal) and (p < npix or not self.config.galfile_pixelized)):
             # Read in a section of the galaxies, or the pixel
             if not self.config.galfile_pixelized:
                 lo = ctr
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From 516ef7e54b2ef8855842dd1bb9cb9829359c5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 43/67] fix: tables of a single galaxy pixel can be read back

---
 redmapper/catalog.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 87b61c6..1827e3d 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -52,6 +52,15 @@ class DataObject(object):
            Row indices to read.  Default is None (read all rows).
         """
         array = fitsio.read(filename, ext=ext, rows=rows, lower=True, trim_strings=True)
+
+        # The per-pixel columns of a pixel table with a single pixel are read
+        # back as scalars; make these into arrays of length 1 as for any other
+        # number of pixels.
+        if 'filenames' in array.dtype.names and array.dtype['filenames'].shape == ():
+            pixel_columns = ['hpix', 'ra_pix', 'dec_pix', 'ngals', 'filenames']
+            dtype = [(d[0], d[1], (1, )) if d[0] in pixel_columns else d for d in array.dtype.descr]
+            array = array.view(dtype)
+
         return cls(array)
 
     @classmethod
-- 
2.43.0


From 793b077f5ebe6b6ee01db097007925035affd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 44/67] fix: zred run of a catalog with fewer galaxies than
 processes

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..deb568f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From 5e8700e86329d8f2aa05f736e53be83896c61adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 45/67] fix: first pass from galaxies uses the configured
 radius scaling

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From 54db3259a6636ab20d86cfc791f0dcf0d9a2f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 46/67] fix: total likelihood is set without a centering
 calibration

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..f595379 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From d429b4bb2491d8e71a677f669ca927088f67a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 47/67] fix: zscan does not store galaxy ids for empty center
 slots

---
 redmapper/run_zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_zscan.py b/redmapper/run_zscan.py
index aa580d5..3eba5a5 100644
--- a/redmapper/run_zscan.py
+++ b/redmapper/run_zscan.py
@@ -271,7 +271,9 @@ class RunZScan(ClusterRunner):
                 cluster.zred_e = cluster.neighbors.zred_e[cent.index[0]]
                 cluster.zred_chisq = cluster.neighbors.zred_chisq[cent.index[0]]
 
-            cluster.id_cent[:] = cluster.neighbors.id[cent.index]
+            # Only use the filled slots; the others have an index of -1
+            filled, = np.where(cent.index >= 0)
+            cluster.id_cent[filled] = cluster.neighbors.id[cent.index[filled]]
 
         # And update the center info...
         cluster.ncent_good = cent.ngood
-- 
2.43.0


From 94e1a39adfae9e012d25750fd794907c5d9320ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 48/67] fix: runcat stops iterating on z_lambda after maxiter

---
 redmapper/runcat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 7f7ac96..7195799 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -179,5 +179,7 @@ class RunCatalog(ClusterRunner):
             else:
                 done = True
 
+            iteration += 1
+
         return bad
 
-- 
2.43.0


From a00392bf5dc74d4fbd55f19bbfd07981d41b797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 49/67] fix: an interrupted output is not mistaken for a
 complete one

---
 redmapper/cluster_runner.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index d63041c..55d36c8 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -654,15 +654,17 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # The catalog is written last, because its presence marks the run as
+        # complete if the run is interrupted and restarted.
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=clobber)
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
-- 
2.43.0


From bf07984b883c99f15a1245f0114642079e8c9032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 50/67] fix: a pixel task without clusters ends without an
 error

---
 redmapper/pipeline/redmappertask.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..722be84 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -82,6 +82,10 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(firstpass.filename):
             firstpass.run()
+            if firstpass.cat is None or firstpass.cat.size == 0:
+                self.config.logger.info("Did not produce a firstpass catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
             firstpass.output(savemembers=False, withversion=False)
         else:
             self.config.logger.info("Firstpass file %s already present.  Skipping..." % (firstpass.filename))
@@ -95,6 +99,10 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(like.filename):
             like.run()
+            if like.cat is None or like.cat.size == 0:
+                self.config.logger.info("Did not produce a likelihood catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
             like.output(savemembers=False, withversion=False)
         else:
             self.config.logger.info("Likelihood file %s already present.  Skipping..." % (like.filename))
-- 
2.43.0


From 67527a3ed01dcc18b80d8b11fe7d7fa0b93cb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 51/67] fix: completed runcat and zscan pixel tasks are not run
 again

---
 redmapper/pipeline/redmappertask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 722be84..5cadc6f 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -181,7 +181,7 @@ class RuncatPixelTask(object):
         self.config.logger.info("Running runcat on pixel %d" % (self.pixel))
 
         runcat = RunCatalog(self.config)
-        if not os.path.isfile(runcat.filename):
+        if not os.path.isfile(self.config.redmapper_filename(runcat.filetype + '_catalog', withversion=True)):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
             runcat.output(savemembers=True, withversion=True)
 
@@ -311,7 +311,7 @@ class RunZScanPixelTask(object):
         self.config.logger.info("Running zscan on pixel %d" % (self.pixel))
 
         runzscan = RunZScan(self.config)
-        if not os.path.isfile(runzscan.filename):
+        if not os.path.isfile(self.config.redmapper_filename(runzscan.filetype + '_catalog', withversion=True)):
             runzscan.run()
             runzscan.output(savemembers=True, withversion=True)
 
-- 
2.43.0


From 703d4549979dc91bef901bb167134b68c85889e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 52/67] fix: a restarted pixel task replaces members left by an
 interrupted run

---
 redmapper/pipeline/redmappertask.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 5cadc6f..6c83ee9 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -116,7 +116,7 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(perc.filename):
             perc.run()
-            perc.output(savemembers=True, withversion=False)
+            perc.output(savemembers=True, withversion=False, clobber=True)
         else:
             self.config.logger.info("Percolation file %s already present.  Skipping..." % (perc.filename))
 
@@ -183,7 +183,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(self.config.redmapper_filename(runcat.filetype + '_catalog', withversion=True)):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=True, clobber=True)
 
         self.config.stop_file_logging()
 
@@ -313,7 +313,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(self.config.redmapper_filename(runzscan.filetype + '_catalog', withversion=True)):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=True, clobber=True)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 242a21e16b490c7129d76c159c4a39e5a0339007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:33 +0000
Subject: [PATCH 53/67] fix: read the brightest-galaxy magnitude slope from the
 centring file

Configuration._wcen_vals set phi1_mmstar_slope to phi1_mmstar_m, so every
calibration iteration after the first used the intercept as slope.
---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..5b41e5c 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -822,7 +822,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 2c415dbe3f71b415a18023205d6bd8eb76ad11b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:31 +0000
Subject: [PATCH 54/67] fix: an interrupted red-sequence calibration left
 uncorrected parameters that a restart took as complete

---
 redmapper/calibration/redsequencecal.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..00f7a62 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -194,12 +194,16 @@ class RedSequenceCalibrator(object):
         # Compute volume factor
         self._calc_volume_factor(self.config.zrange[1])
 
-        # Write out the parameter file
-        self.save_pars(self.config.parfile, clobber=False)
+        # Write out the parameters without corrections.  These go to a
+        # temporary file because the existence of the parameter file means
+        # that the calibration is complete.
+        tempfile = self.config.parfile + '.uncorrected'
+        self.save_pars(tempfile, clobber=True)
 
         # Compute zreds without corrections
         # Later will want this parallelized, I think
-        self._calc_zreds(gals, do_correction=False)
+        self._calc_zreds(gals, do_correction=False, parfile=tempfile)
+        os.remove(tempfile)
 
         # Compute correction (mode1)
         self._calc_corrections(gals)
@@ -207,7 +211,7 @@ class RedSequenceCalibrator(object):
         # Compute correction (mode2)
         self._calc_corrections(gals, mode2=True)
 
-        # And re-save the parameter file
+        # And save the parameter file
         self.save_pars(self.config.parfile, clobber=True)
 
         # Recompute zreds with corrections
@@ -930,7 +934,7 @@ class RedSequenceCalibrator(object):
 
         self.pars.to_fits_file(filename, header=hdr, clobber=clobber)
 
-    def _calc_zreds(self, gals, do_correction=True):
+    def _calc_zreds(self, gals, do_correction=True, parfile=None):
         """
         Calculate the zreds for a set of galaxies, using the newly fit model.
 
@@ -940,10 +944,12 @@ class RedSequenceCalibrator(object):
            Galaxy catalog being fit
         do_corrections: `bool`, optional
            Do redshift afterburner corrections?  Default is True.
+        parfile: `str`, optional
+           Parameter file to use.  Default is None (use self.config.parfile).
         """
 
         # This is temporary
-        zredstr = RedSequenceColorPar(self.config.parfile)
+        zredstr = RedSequenceColorPar(self.config.parfile if parfile is None else parfile)
 
         zredc = ZredColor(zredstr, do_correction=do_correction)
 
-- 
2.43.0


From d80f99dd7a9840c3fc14acd8671347c754e53dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:31 +0000
Subject: [PATCH 55/67] fix: write the cluster catalog after the members and
 likelihoods, so that its existence means they are there

---
 redmapper/redmapper_run.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index c88313b..f4e7a51 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -133,15 +133,17 @@ class RedmapperRun(object):
         hpixels_perc = [x[0] for x in retvals if x[3] is not None]
         percfiles = [x[3] for x in retvals if x[3] is not None]
 
+        # The final catalog goes last, because its existence means that
+        # everything is there.
+        if consolidate_like:
+            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
+
         # Allow for runs without consolidation
         if consolidate:
             finalfile = self._consolidate(hpixels_perc, percfiles, 'final', members=True, check=check)
         else:
             finalfile = None
 
-        if consolidate_like:
-            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
-
         # Reset the nside in the config file
         self.config.d.nside = nside_orig
 
@@ -359,11 +361,13 @@ class RedmapperRun(object):
         # And write out...
         # We can clobber because if it was already there and we wanted to check
         # that already happened
-        ubercat.to_fits_file(outfile, clobber=True)
-
+        # The members go first, because the existence of the catalog means
+        # that everything is there.
         if members:
             ubermem.to_fits_file(memfile, clobber=True)
 
+        ubercat.to_fits_file(outfile, clobber=True)
+
         return outfile
 
     def _worker(self, hpix):
-- 
2.43.0


From 31b9b5b6ff841233ecf25c39cd1873106340cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:31 +0000
Subject: [PATCH 56/67] fix: write the red-galaxy model before the red
 galaxies, whose existence marks the selection as complete

---
 redmapper/calibration/selectspecred.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/selectspecred.py b/redmapper/calibration/selectspecred.py
index 0875a31..8db429a 100644
--- a/redmapper/calibration/selectspecred.py
+++ b/redmapper/calibration/selectspecred.py
@@ -210,11 +210,6 @@ class SelectSpecRedGalaxies(object):
                                 self.config.calib_redspec_nsig * np.sqrt(galcolor_err[u, j]**2. + sc**2.)))
                 mark[u[gd]] = True
 
-        # Output the red galaxies
-        use, = np.where(mark)
-
-        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
-
         # Output the model
         model = Entry(np.zeros(1, dtype=[('nodes', 'f4', nodes.size),
                                          ('meancol', 'f4', meancol.shape),
@@ -229,6 +224,12 @@ class SelectSpecRedGalaxies(object):
 
         model.to_fits_file(self.config.redgalmodelfile, clobber=True)
 
+        # Output the red galaxies.  These go last, because the existence of
+        # this file means that the selection is complete.
+        use, = np.where(mark)
+
+        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
+
         # And make some plots!
         import matplotlib.pyplot as plt
 
-- 
2.43.0


From 96f534b683a7ea003b7bfac86d0d4d42313be414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:31 +0000
Subject: [PATCH 57/67] fix: an interrupted color background left a partial
 file that a restart took as complete

---
 redmapper/color_background.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index c45af60..8fdebb9 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -372,6 +372,10 @@ class ColorBackgroundGenerator(object):
         else:
             areas = np.zeros(refmagbins.size) + self.config.area
 
+        # Write to a temporary file, because the existence of the output file
+        # means that all the extensions are there.
+        tempfile = self.config.bkgfile_color + '.partial'
+
         for i in range(ncol):
             for j in range(i, ncol):
                 if (i == j):
@@ -502,7 +506,9 @@ class ColorBackgroundGenerator(object):
                 else:
                     startClobber = False
 
-                fitsio.write(self.config.bkgfile_color, outstr, extname=extname, header=hdr, clobber=startClobber)
+                fitsio.write(tempfile, outstr, extname=extname, header=hdr, clobber=startClobber)
+
+        os.replace(tempfile, self.config.bkgfile_color)
 
 
 
-- 
2.43.0


From 50dddd5c93fdfa4859a1cffac7173229b034b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:31 +0000
Subject: [PATCH 58/67] fix: check the corrected redshifts of all clusters, not
 only of the last one

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..d30d962 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -528,7 +528,7 @@ class RedmapperCalibrationIteration(object):
                 cluster.z_lambda_e = zlam_e
 
             # Check for negative values... this is a minimal check
-            test, = np.where(cluster.z_lambda < 0.0)
+            test, = np.where(cat.z_lambda < 0.0)
             if (test.size > 0):
                 raise RuntimeError("z_lambda correction calibration totally failed, and is yielding negative redshifts.  "
                                    "Likely there is a configuration error, see config.calib_zlambda_minlambda and "
-- 
2.43.0


From 826f2fbf4759bc6af4a7bee6ee48d92a75521ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:23 +0000
Subject: [PATCH 59/67] fix: normalise the diagonal color background with the
 bin size of its own table

---
 redmapper/color_background.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 8fdebb9..2758733 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -92,7 +92,7 @@ class ColorBackground(object):
                 for j in range(nrefmagbins):
                     bc_new[j, :] = np.clip(interpol(bc[j, :], obkg.colbins, colbins), 0.0, None)
 
-                n = np.sum(bc, axis=1, dtype=np.float64) * (colbinsize / obkg.colbinsize)
+                n = np.sum(bc, axis=1, dtype=np.float64) * obkg.colbinsize
 
                 sigma_g = bc_new.copy()
                 for j in range(ncolbins):
-- 
2.43.0


From 665122e0972a7a84c679d8f7a4d79594496b6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:50 +0000
Subject: [PATCH 60/67] fix: rounding gave the color background an extra bin in
 most color ranges

---
 redmapper/color_background.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 2758733..e5e8ec5 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -380,7 +380,7 @@ class ColorBackgroundGenerator(object):
             for j in range(i, ncol):
                 if (i == j):
                     # diagonal
-                    ncoldiag = np.ceil((colranges[1, i] - colranges[0, i]) / colbinsize).astype(np.int32)
+                    ncoldiag = np.round((colranges[1, i] - colranges[0, i]) / colbinsize).astype(np.int32)
                     coldiagbins = np.arange(ncoldiag) * colbinsize + colranges[0, i]
                     binsizes = refmagbinsize * colbinsize
 
@@ -433,9 +433,9 @@ class ColorBackgroundGenerator(object):
                 else:
                     # off-diagonal
 
-                    ncol1 = np.ceil((colranges[1, i] - colranges[0, i]) / colbinsize).astype(np.int32)
+                    ncol1 = np.round((colranges[1, i] - colranges[0, i]) / colbinsize).astype(np.int32)
                     col1bins = np.arange(ncol1) * colbinsize + colranges[0, i]
-                    ncol2 = np.ceil((colranges[1, j] - colranges[0, j]) / colbinsize).astype(np.int32)
+                    ncol2 = np.round((colranges[1, j] - colranges[0, j]) / colbinsize).astype(np.int32)
                     col2bins = np.arange(ncol2) * colbinsize + colranges[0, j]
 
                     binsizes = refmagbinsize * colbinsize * colbinsize
-- 
2.43.0


From b596504434a03ce5d506e0c5cbadf7887785b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 61/67] fix: write a configuration yaml when an array field is
 not set

---
 redmapper/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 5b41e5c..47f353b 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -943,6 +943,9 @@ class Configuration(object):
         for key in type(self).__dict__:
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
+                    if type(self).__dict__[key]._value is None:
+                        # An array that was never set (e.g. b) is left out
+                        continue
                     # Convert all elements to python types and make a list
                     out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
                 else:
-- 
2.43.0


From 4f76e172aad71dc1d97f0b61c9c466796313b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 62/67] fix: save the red sequence when there is no red galaxy
 template

---
 redmapper/calibration/redsequencecal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 00f7a62..f0accef 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -917,7 +917,9 @@ class RedSequenceCalibrator(object):
         hdr['LIMMAG'] = self.config.limmag_catalog
         # Saved with larger cushion that seems to work well
         hdr['ZRANGE0'] = np.clip(self.config.zrange[0] - 0.1, 0.01, None)
-        hdr['ZRANGE1'] = np.clip(self.config.zrange[1] + 0.25, None, zmax)
+        hdr['ZRANGE1'] = self.config.zrange[1] + 0.25
+        if zmax is not None:
+            hdr['ZRANGE1'] = np.clip(hdr['ZRANGE1'], None, zmax)
         hdr['ALPHA'] = self.config.calib_lumfunc_alpha
         hdr['ZBINFINE'] = self.config.zredc_binsize_fine
         hdr['ZBINCOAR'] = self.config.zredc_binsize_coarse
-- 
2.43.0


From 9f6d53c586e1c80d075050c841cd204e385e62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 63/67] fix: run redmagic with the configuration file that was
 written

---
 redmapper/redmagic/redmagic_calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index cb37933..5ac8c6e 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -711,5 +711,5 @@ class RedmagicCalibrator(object):
 
         if do_run:
             # Call the redmagic runner here.
-            run_redmagic = RunRedmagicTask(runfile)
+            run_redmagic = RunRedmagicTask(self.runfile)
             run_redmagic.run()
-- 
2.43.0


From 287dea32dbbe32c27af28f92ec57273443779411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 64/67] fix: report a failed depth fit when no galaxy has a
 usable error

---
 redmapper/depth_fitting.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 0dee613..e7760bc 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -158,6 +158,13 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
                  (np.isfinite(_magErr)) &
                  (_magErr > 0.0))
 
+    if (ok.size == 0):
+        # No usable galaxies, so no fit
+        if (doPlot):
+            return (-1,1,None,None)
+        else:
+            return (-1,1)
+
     mag=_mag[ok]
     magErr=_magErr[ok]
 
-- 
2.43.0


From 70aa71774c5564f1a2e573d84d8064ea9b17e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 65/67] fix: independent noise for every galaxy in the depth
 error model

---
 redmapper/depth_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index e7760bc..ac47b9a 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -105,7 +105,7 @@ def applyErrorModel(pars, magIn, noNoise=False, lnscat=None):
     if (noNoise):
         flux = tFlux
     else:
-        flux = tFlux + noise*np.random.normal(magIn.size)
+        flux = tFlux + noise*np.random.normal(size=magIn.size)
 
     # Straight magnitudes
     mag = pars['ZP'][0] - 2.5*np.log10(flux/pars['EXPTIME'][0])
-- 
2.43.0


From 791ad8d458d7785756be26d4ce80492b064d8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 66/67] fix: take the pixel of a catalog file from the end of
 its name

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index a546cb9..df5373c 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -80,7 +80,7 @@ class RedmapperConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -128,7 +128,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -338,7 +338,7 @@ class RuncatConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -361,7 +361,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From 7d5be68ced5c206c5e33a88d9e01cad3c2a0e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:30 +0000
Subject: [PATCH 67/67] fix: find the tile of each galaxy pixel when predicting
 memory

predict_memory called pixel_to_angle with angles, so it failed for every
galaxy table.
---
 redmapper/pipeline/mempredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index a64ff57..7e745fc 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -91,7 +91,7 @@ class MemPredict(object):
 
         theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
         for i, nside in enumerate(nsides):
-            hpix_run = hpg.pixel_to_angle(nside, theta, phi, lonlat=False, nest=False)
+            hpix_run = hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False)
 
             h, rev = esutil.stat.histogram(hpix_run, rev=True)
 
-- 
2.43.0

