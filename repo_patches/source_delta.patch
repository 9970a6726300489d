From e7d51ec3bd89998724302eba3e8219dc2ba976d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 01/94] fix: qu2ro of a near-identity quaternion overwrote
 other rows of the result and memory past it

---
 pyebsdindex/rotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e6dfd2c..e86db99 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -788,10 +788,10 @@ def qu2roL(quIn,p=P):
       for j in range(3):
         mag += qu[i,j + 1] ** 2
       if mag < eps:
-        ro[0] = 0.0
-        ro[1] = 0.0
-        ro[2] = -pf
-        ro[3] = 0.0
+        ro[i,0] = 0.0
+        ro[i,1] = 0.0
+        ro[i,2] = -pf
+        ro[i,3] = 0.0
       else:
         mag = 1.0 / np.sqrt(mag)
         q0 = qu[i,0]
-- 
2.43.0


From 5489b35dea59e3d213b0d972c489fe4381c05a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 02/94] fix: om2eu returned the wrong sign of phi1 when PHI is
 pi

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index e86db99..84e1289 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -221,7 +221,7 @@ def om2euL(om, p=P):
         eu[i,1] = 0.0
         eu[i,2] = 0.0
       else:
-        eu[i,0] = -np.arctan2(om[i,0,1],om[i,0,0])
+        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])
         eu[i,1] = PI
         eu[i,2] = 0.0
     eu[i,0] += 100.0 * PI
-- 
2.43.0


From 8bd544bcbd96ad6e04bf9168bd44cf32b5c60252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 03/94] fix: ax2qu divided by the squared length of the axis,
 giving a wrong angle for non-unit axes

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 84e1289..851f0ee 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -480,7 +480,7 @@ def ax2quL(axIn,p=P):
       mag = 0.0
       for j in range(3):
         mag += ax[i,j] * ax[i,j]
-      s = np.sin(ax[i,3] * 0.5) / mag
+      s = np.sin(ax[i,3] * 0.5) / np.sqrt(mag)
       for j in range(3):
         qu[i,j + 1] = ax[i,j] * s
   qu = quatnormL(qu)
-- 
2.43.0


From a67913e667847da5209c847207cc031aab22b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 04/94] fix: ax2ro returned a half-turn for every angle above
 pi instead of using the normalised pair

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 851f0ee..9ce6728 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -448,7 +448,7 @@ def ax2roL(axIn,p=P):
     else:
       for j in range(3):
         ro[i,j] = axn[i,j]
-      if (PI - ax[i,3]) < eps:
+      if (PI - axn[i,3]) < eps:
         ro[i,3] = np.inf
       else:
         ro[i,3] = np.tan(axn[i,3] * 0.5)
-- 
2.43.0


From 9cb4e12a5fd552a5d28377b6101fc90de392cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 05/94] fix: eu2ax returned a half-turn for phi1+phi2 = 4 pi
 instead of phi1+phi2 = pi

---
 pyebsdindex/rotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 9ce6728..3ef50cb 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -135,7 +135,7 @@ def eu2axL(euIn,p=P):
     delt = 0.50 * (eu[i,0] - eu[i,2])
     tau = np.sqrt(t * t + ssig * ssig)
 
-    if (np.abs(sig - PI2) < eps):
+    if (np.abs(sig - 0.5*PI) < eps):
       alpha = PI
     else:
       alpha = 2.0 * np.arctan(tau / np.cos(sig))
-- 
2.43.0


From 11dabb89711c5179ad2eaeab602946b84bb89c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 06/94] fix: generate_list_of_planes always failed because
 np.Infinity no longer exists

---
 pyebsdindex/crystallometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/crystallometry.py b/pyebsdindex/crystallometry.py
index fd61d79..3910e0f 100644
--- a/pyebsdindex/crystallometry.py
+++ b/pyebsdindex/crystallometry.py
@@ -183,7 +183,7 @@ class Crystal:
             print('generating list')
             g = [0,0,0]
             g0 = CrystalPlane(g,'F')
-            g0.d = np.Infinity
+            g0.d = np.inf
             g0.g = 0.0
             # g0
             gVectorList.append(g0)
-- 
2.43.0


From 0dc5d72b104853bc2638832c1f737ac276c144ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 07/94] fix: pole families of Laue classes whose rotation group
 lacks the inverse poles missed half of each family, so bands of the opposite
 sign were never matched

---
 pyebsdindex/tripletvote.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..9037b1d 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -339,6 +339,8 @@ class BandIndexer():
 
     for i in range(npoles):
       family = self._symrotpoles(polesFlt[i, :], crystalmats) #rotlib.quat_vector(symmetry,polesFlt[i,:])
+      # the sign of a band normal is arbitrary, so the inverse of each pole needs to be in the family as well.
+      family = np.concatenate((family.reshape(-1, 3), -1.0*family.reshape(-1, 3)))
       uniqHKL = self._hkl_unique(family, reduceInversion=False)
       uniqHKL = np.flip(uniqHKL, axis=0)
       sympolesComplete.append(uniqHKL)
-- 
2.43.0


From c3d533c009560b8e4b8f16d78ad4394a155eed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 08/94] fix: duplicate removal in the triplet library compared
 only the sum of the angles and dropped distinct triplets

---
 pyebsdindex/tripletvote.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 9037b1d..aa9f9cb 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -725,14 +725,11 @@ class BandIndexer():
       libID[i,:] = temp2
 
     if findDups == True:
-      angID = np.sum(np.round(libANG*100), axis = 1).astype(np.longlong)
       basis = np.longlong(libID.max() + 1)
       libID_ID = libID.dot(np.array([1,basis, basis**2]))
-      UID = np.ceil(np.log10(libID_ID.max()))
-      UID = np.where(UID > 2, UID, 2)
-      UID = (angID * 10**UID) + libID_ID
+      allID = np.concatenate((np.round(libANG*100).astype(np.longlong), libID), axis=1)
 
-      stuff, unq = np.unique(UID, return_index=True)
+      stuff, unq = np.unique(allID, axis=0, return_index=True)
       libANG = libANG[unq, :]
       libID = libID[unq,:]
       libID_ID = libID_ID[unq]
-- 
2.43.0


From c3340fb4e2e1b84fdfe69da4096914f2b54ceab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 09/94] fix: QUEST refinement returned a wrong orientation for
 180 degree rotations, where the closed form solution is singular

---
 pyebsdindex/tripletvote.py | 53 ++++++++++++--------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index aa9f9cb..a02208c 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -936,49 +936,28 @@ class BandIndexer():
 
       # wn = np.ones((nGood,1), dtype=np.float32)/np.float32(nGood)  #(weights[whGood]).reshape(nGood,1)
 
-      I = np.zeros((3, 3), dtype=np.float64)
-      I[0, 0] = 1.0;
-      I[1, 1] = 1.0;
-      I[2, 2] = 1.0
       q = np.zeros((4), dtype=np.float64)
 
       B = (wn * bndnorm).T @ pflt
       S = B + B.T
       z = np.asarray(np.sum(wn * np.cross(bndnorm, pflt), axis=0), dtype=np.float64)
-      S2 = S @ S
-      det = np.linalg.det(S)
-      k = (S[1, 1] * S[2, 2] - S[1, 2] * S[2, 1]) + (S[0, 0] * S[2, 2] - S[0, 2] * S[2, 0]) + (
-              S[0, 0] * S[1, 1] - S[1, 0] * S[0, 1])
       sig = 0.5 * (S[0, 0] + S[1, 1] + S[2, 2])
-      sig2 = sig * sig
-      d = z.T @ S2 @ z
-      c = det + (z.T @ S @ z)
-      b = sig2 + (z.T @ z)
-      a = sig2 - k
-
-      lam = 1.0
-      tol = 1.0e-12
-      iter = 0
-      dlam = 1e6
-      # for i in range(10):
-      while (dlam > tol) and (iter < 10):
-        lam0 = lam
-        lam = lam - (lam ** 4 - (a + b) * lam ** 2 - c * lam + (a * b + c * sig - d)) / (
-                4 * lam ** 3 - 2 * (a + b) * lam - c)
-        dlam = np.fabs(lam0 - lam)
-        iter += 1
-
-      beta = lam - sig
-      alpha = lam ** 2 - sig2 + k
-      gamma = (lam + sig) * alpha - det
-      X = np.asarray((alpha * I + beta * S + S2), dtype=np.float64) @ z
-      qn = np.float64(0.0)
-      qn += gamma ** 2 + X[0] ** 2 + X[1] ** 2 + X[2] ** 2
-      qn = np.sqrt(qn)
-      q[0] = gamma
-      q[1:4] = X[0:3]
-      q /= qn
-      if (np.sign(gamma) < 0):
+
+      # the orientation is the eigenvector with the largest eigenvalue of the Davenport matrix.
+      # The closed form (Rodrigues vector) solution is singular for 180 deg. rotations.
+      K = np.zeros((4, 4), dtype=np.float64)
+      K[0, 0] = sig
+      for i in range(3):
+        K[0, i + 1] = z[i]
+        K[i + 1, 0] = z[i]
+        for j in range(3):
+          K[i + 1, j + 1] = S[i, j]
+        K[i + 1, i + 1] -= sig
+
+      eigval, eigvec = np.linalg.eigh(K)
+      lam = eigval[3]
+      q[:] = eigvec[:, 3]
+      if q[0] < 0:
         q *= -1.0
 
       qout[p, :] = q
-- 
2.43.0


From 591f4d46542e289ec6de9b690ee08e4570318c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 10/94] fix: bands flagged invalid (zero intensity) were
 counted as matched bands

---
 pyebsdindex/tripletvote.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index a02208c..1d9c428 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -555,7 +555,7 @@ class BandIndexer():
 
     # this will check the vote, and return the exact band matching to specific poles of the best fitting solution.
     fit, polematch, polevalid, nMatch, whGood, ij, R, fitb = \
-      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam)
+      self._assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, band_intensity)
 
     # check how often the indexed band matched the top voting band family.
     acc_correct =  np.sum(np.array((polevalid > 0) & #take valid poles
@@ -1200,7 +1200,7 @@ class BandIndexer():
 
   @staticmethod
   @numba.jit(nopython=True, cache=True, fastmath=True,parallel=False)
-  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam ):
+  def _assign_bands_nb(libPolesCart, libAngTable, libFamIndx, nFam, angTol, n_band_early, bandnorms, bandRank_arg, bandFam, band_intensity ):
 
     eps = np.float32(1.0e-12)
     pflt = np.asarray(libPolesCart, dtype=np.float32)
@@ -1236,6 +1236,9 @@ class BandIndexer():
           bnd1 = bandRank_arg[p, -1 - ii]
           bnd2 = bandRank_arg[p, -1 - jj]
 
+          if (band_intensity[p, bnd1] < 1e-6) or (band_intensity[p, bnd2] < 1e-6): # invalid band
+            continue
+
           v1 = bandnorms[p, bnd1,:]
           f1 = bandFam[p, bnd1]
           v2 = bandnorms[p, bnd2,:]
@@ -1311,6 +1314,9 @@ class BandIndexer():
             #angfitTry = np.clip(np.amax(test,axis=0),-1.0,1.0)
 
             angfitTry = np.arccos(angfitTry) * RADEG
+            for j in range(nBnds):
+              if band_intensity[p, j] < 1e-6: # an invalid band can not match a pole.
+                angfitTry[j] = 360.0
             whMatch = np.nonzero(angfitTry < angTol)[0]
             nmatch = whMatch.size
             #scoreTry = np.float32(nmatch) * np.mean(np.abs(angTol - angfitTry[whMatch]))
-- 
2.43.0


From b3c830d06f7c18ce8b56116124ad267cff5a57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 11/94] fix: phases with a single reflector family could not be
 created (the triplet table was sized too small)

---
 pyebsdindex/tripletvote.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index 1d9c428..fbfa7d1 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -399,7 +399,7 @@ class BandIndexer():
     nangs = angs.size
     familyID = np.array(familyID)
     polePairs = np.array(polePairs)
-    nFamilyID = np.bincount(np.squeeze(familyID[:,0]).astype(int), minlength=int(npoles))
+    nFamilyID = np.bincount(familyID[:,0].astype(int), minlength=int(npoles))
 
     #stuff, nFamilyID = np.unique(familyID[:,0], return_counts=True)
 
@@ -407,14 +407,8 @@ class BandIndexer():
     #print(familyID)
     #print(nFamilyID)
     #print(indx0FID)
-    #This completely over previsions the arrays, this is essentially 
-    #N Choose K with N = number of angles and K = 3
-    nlib = npoles*np.prod(np.arange(3, dtype=np.int64)+(nangs-2+1))//np.int64(math.factorial(3))
-    nlib = nlib.astype(int)
-
-    libANG = np.zeros((nlib, 3))
-    libID = np.zeros((nlib, 3), dtype=int)
-    counter = 0
+    libANG = []
+    libID = []
     # now actually catalog all the triplet angles.
     for i in range(npoles):
       if nFamilyID[i] <= 0:
@@ -431,12 +425,11 @@ class BandIndexer():
           whjk = np.nonzero( np.logical_and( familyID[:,0] == id1, familyID[:,1] == id2 ))[0]
           for q in range(whjk.size):
             ang2 = angs[whjk[q]]
-            libANG[counter, :] = np.array([ang0, ang1, ang2])
-            libID[counter, :] =  np.array([id0, id1, id2])
-            counter += 1
+            libANG.append([ang0, ang1, ang2])
+            libID.append([id0, id1, id2])
 
-    libANG = libANG[0:counter, :]
-    libID = libID[0:counter, :]
+    libANG = np.array(libANG, dtype=np.float64).reshape(-1, 3)
+    libID = np.array(libID, dtype=int).reshape(-1, 3)
 
     libANG, libID = self._sortlib_id(libANG, libID, findDups = True) # sorts each row of the library to make sure
     # the triplets are in increasing order.
-- 
2.43.0


From 7290d0b970e645ff3de62bddf525d5fbfff962c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 12/94] fix: bands that match no pole were reported with the
 nearest pole instead of as unindexed

---
 pyebsdindex/tripletvote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index fbfa7d1..ef77dab 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -603,6 +603,9 @@ class BandIndexer():
 
     cm2 = self._calc_cm(accumulator, polematch, polevalid, libFamID)
 
+    # bands that did not match any pole within the tolerance are unindexed.
+    polematch[polevalid == 0] = -1000
+
     if verbose > 2:
       print('refinement: ', timer() - tic)
       print('all: ',timer() - tic0)
-- 
2.43.0


From 361502ccf9ccfe6adfb60d663634755f9420e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 13/94] fix: radon_fast failed for a single 2-D pattern with a
 background

---
 pyebsdindex/radon_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/radon_fast.py b/pyebsdindex/radon_fast.py
index 300d4fc..3bd35bf 100644
--- a/pyebsdindex/radon_fast.py
+++ b/pyebsdindex/radon_fast.py
@@ -204,9 +204,9 @@ class Radon:
       #image = image.reshape(-1)
     else:
       if str.upper(background_method) == 'DIVIDE':
-        image = imageIn / background
+        image = image / background
       else:
-        image = imageIn - background
+        image = image - background
       #image = image.reshape(-1)
 
     nPx = shapeIm[-1]*shapeIm[-2]
-- 
2.43.0


From 5c4757d183542141c32bdfd93335277de3e59577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 14/94] fix: BandDetect could not be created with a patternmask
 (the keyword was passed on twice)

---
 pyebsdindex/band_detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3795623..d98c720 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -118,11 +118,11 @@ class BandDetect():
         self.patDim = np.asarray(patDim)
       patternmask = None
       if 'patternmask' in kwargs :
-        self.patternmask = kwargs.get('patternmask')
+        self.patternmask = kwargs.pop('patternmask')
 
       patternmaskindex = None
       if 'patternmaskindex' in kwargs:
-        patternmaskindex = kwargs.get('patternmaskindex')
+        patternmaskindex = kwargs.pop('patternmaskindex')
       #print(patternmask)
       self.band_detect_setup(patterns, self.patDim,self.nTheta,self.nRho,\
                              self.tSigma, self.rSigma,self.rhoMaskFrac,self.nBands,
-- 
2.43.0


From 26ce9e51444207e05337cd527a004b08f1bc7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 15/94] fix: a new pattern mask or rhoMaskFrac did not rebuild
 the Radon plan and its mask

---
 pyebsdindex/band_detect.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index d98c720..c481b6b 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -167,6 +167,16 @@ class BandDetect():
 
     if patternmask is not None:
       self.patternmask = patternmask
+      recalc_radon = True
+
+    if patternmaskindex is not None:
+      recalc_radon = True
+
+    if rhoMaskFrac is not None:
+      if rhoMaskFrac != self.rhoMaskFrac:
+        recalc_radon = True
+      self.rhoMaskFrac = rhoMaskFrac
+      recalc_masks = True
 
 
     #recalc_radon = True
@@ -244,9 +254,6 @@ class BandDetect():
       self.rSigma = rSigma
       recalc_masks = True
 
-    if rhoMaskFrac is not None:
-      self.rhoMaskFrac = rhoMaskFrac
-      recalc_masks = True
     if (self.rhoMaskFrac is not None):
       recalc_masks = True
 
-- 
2.43.0


From 3aab5f55871194ac9ddfcbbc0cd9ab817878da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 16/94] fix: band_detect_setup failed when given patterns of a
 new size

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index c481b6b..2f69ef9 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -138,7 +138,7 @@ class BandDetect():
     if (patterns is None) and (patDim is not None):
       p_dim = np.asarray(patDim, dtype=np.int64)
     if patterns is not None:
-      p_dim = np.shape(patterns)[-2:]  # this will catch if someone sends in a [1 x N x M] image
+      p_dim = np.asarray(np.shape(patterns)[-2:])  # this will catch if someone sends in a [1 x N x M] image
     if p_dim is not None:
       if self.patDim is None:
         recalc_radon = True
-- 
2.43.0


From 17e57ee0d4ea9bbb12805da9b7fd42a3a33ea72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 17/94] fix: patstart and npats were ignored when indexing an
 array of patterns

---
 pyebsdindex/_ebsd_index_single.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..d71adee 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,6 +530,12 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if patsin is not None and len(patsin.shape) == 3:
+            # select the requested range, as is done when reading from a file.
+            patend = patsin.shape[0] if npats == -1 else min(patstart + npats, patsin.shape[0])
+            if patstart != 0 or patend != patsin.shape[0]:
+                patsin = patsin[patstart:patend, :, :]
+
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
-- 
2.43.0


From a80d6849aaf572bb82f0c81f7d596f70b457675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 18/94] fix: an indexer created without pattern dimensions
 could not be used with index_pats

---
 pyebsdindex/_ebsd_index_single.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index d71adee..683a7cc 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -441,7 +441,8 @@ class EBSDIndexer:
                 self.fID.read_header()
             patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
 
-        if (patDim[0] != self.bandDetectPlan.patDim[0]) or \
+        if self.bandDetectPlan.patDim is None or \
+            (patDim[0] != self.bandDetectPlan.patDim[0]) or \
             (patDim[1] != self.bandDetectPlan.patDim[1]):
             # need to setup banddetect for new pattern dimensions.
             #print(patDim, self.bandDetectPlan.patDim)
-- 
2.43.0


From 25a1eb407375271f09cd7b334a088c0d1a8a2b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 19/94] fix: every point of a flat Radon plateau was reported
 as a valid band, so featureless patterns could be indexed

---
 pyebsdindex/band_detect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 2f69ef9..fb3ac53 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -575,6 +575,8 @@ class BandDetect():
     #lMaxRdn[:,:,-self.peakPad[1]:] = 0
     #location of the max is where the local max is equal to the original.
     lMaxRdn = lMaxRdn == rdn
+    # on a plateau every point equals the local max, but none of them is a peak.
+    lMaxRdn &= (rdn - scipyndim.grey_erosion(rdn,size=(3,3,1))) > 1.0e-5 * np.abs(rdn)
 
     #rhoMaskTrim = np.int32((shp[0] - 2 * self.padding[0]) * self.rhoMaskFrac + self.padding[0])
     #lMaxRdn[0:rhoMaskTrim,:,:] = 0
-- 
2.43.0


From deb4d4e327de8f6b4ab4d424db8dca666e97bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 20/94] fix: the theta padding of the Radon mirrored rho one
 bin off, bending bands near 0 and 180 degrees

---
 pyebsdindex/band_detect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index fb3ac53..c1c5924 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -538,14 +538,16 @@ class BandDetect():
       radon = radonIn
     shprdn = radon.shape
     #rdnNormP = self.radonPad(radon,rPad=0,tPad=self.peakPad[1],mirrorTheta=True)
-    if self.padding[1] > 0:
-      radon[:,0:self.padding[1],:] = np.flip(radon[:,-2 * self.padding[1]:-self.padding[1],:],axis=0)
-      radon[:,-self.padding[1]:,:] = np.flip(radon[:,self.padding[1]:2 * self.padding[1],:],axis=0)
     # pad again for doing the convolution
     #rdnNormP = self.radonPad(rdnNormP,rPad=self.peakPad[0],tPad=self.peakPad[1],mirrorTheta=False)
     if self.padding[0] > 0:
       radon[0:self.padding[0], :,:] = radon[self.padding[0],:,:].reshape(1,shp[1], shp[2])
       radon[-self.padding[0]:, :,:] = radon[-self.padding[0]-1, :,:].reshape(1, shp[1],shp[2])
+    if self.padding[1] > 0:
+      # rho of bin i is (i+1)*deltaRho - rhoMax, so -rho is bin nRho - 2 - i (all counted without the padding)
+      mirror = (shp[0] - 2 - np.arange(shp[0])).clip(min=0)
+      radon[:,0:self.padding[1],:] = radon[mirror,-2 * self.padding[1]:-self.padding[1],:]
+      radon[:,-self.padding[1]:,:] = radon[mirror,self.padding[1]:2 * self.padding[1],:]
 
 
     rdnConv = np.zeros_like(radon)
-- 
2.43.0


From 4cb2755111d420e2d7004f0c5d8a887e06e092a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 21/94] fix: misorientation could not be imported from the
 package (import rotlib)

---
 pyebsdindex/misorientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/misorientation.py b/pyebsdindex/misorientation.py
index cf4df04..7442df9 100644
--- a/pyebsdindex/misorientation.py
+++ b/pyebsdindex/misorientation.py
@@ -42,7 +42,7 @@ tempdir = tempdir.joinpath('.pyebsdindex').joinpath('numbacache')
 Path(tempdir).mkdir(parents=True, exist_ok=True)
 os.environ["NUMBA_CACHE_DIR"] = str(tempdir)+str(os.sep)
 
-import rotlib
+from pyebsdindex import rotlib
 
 def misorientcubic_quick(q1,q2):
   '''Misorientation between two cubic crystals using the quaternion trick from Sutton and Buluffi'''
-- 
2.43.0


From d761ae4fec6022bf914ac9e771b5d69f7f9706dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 22/94] fix: .ebsp files could not be opened with numpy 2
 (arrays of one element used as scalars)

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..70c2beb 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -704,7 +704,7 @@ class EBSPFile(EBSDPatternFile):
       return -1
 
     f.seek(0)
-    version = np.fromfile(f, dtype=np.int64, count=1)
+    version = np.fromfile(f, dtype=np.int64, count=1)[0]
     version = np.int64(-1*version)
     if version <= 0:
       self.version = 0
@@ -734,7 +734,7 @@ class EBSPFile(EBSDPatternFile):
       loc0 = 0
       counter = 0
       while loc0 == 0: # check for non-stored points.
-        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1))
+        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1)[0])
         counter += 1
       f.seek(-8*counter, 1) # move back 8 bytes (or however far we needed to move into the file to find a legitamte offset.
 
-- 
2.43.0


From 1721d09a2111269b08187e67a0b32d2b3a7bbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 23/94] fix: grid and steps of .ebsp scans with a single row or
 pattern, with y increasing, or with points without pattern

---
 pyebsdindex/ebsd_pattern.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 70c2beb..5f9916f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -856,9 +856,10 @@ class EBSPFile(EBSDPatternFile):
             yall[i] = np.fromfile(f, dtype=np.float64, count=1)
 
 
-        self.xStep = xall[1] - xall[0]
+        stored = self.filePos > 0
+        self.xStep = xall[1] - xall[0] if self.nPatterns > 1 else 0.0
         if self.xStep > 1e-6:
-          ncol = (xall.max() - xall.min()) / self.xStep
+          ncol = (xall[stored].max() - xall[stored].min()) / self.xStep
           ncol = np.round(ncol+1)
         else:
           ncol = 1
@@ -866,10 +867,11 @@ class EBSPFile(EBSDPatternFile):
         self.nCols = np.uint64(ncol)
 
 
-        self.yStep = yall[0] - yall[self.nCols]
+        # y can run in either direction, and there is no step for a single row
+        self.yStep = np.abs(yall[0] - yall[self.nCols]) if self.nPatterns > self.nCols else 0.0
 
         if self.yStep > 1e-6:
-          nrow = (yall.max() - yall.min()) / self.yStep
+          nrow = (yall[stored].max() - yall[stored].min()) / self.yStep
           nrow = np.round(nrow+1)
           self.nRows = np.int64(nrow)
         else:
-- 
2.43.0


From f1570251c723be31696f7a1ec7c4c1afaf01c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:00 +0000
Subject: [PATCH 24/94] fix: Oxford h5oina files with only raw patterns raised
 TypeError

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 5f9916f..9ed46fa 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1761,7 +1761,7 @@ class OXFORDOINA(HDF5PatFile):
     f.close()
 
     if (len(self.h5datagroups) < 1) and (getraw is False):
-      self.get_data_paths(self, verbose=False, getraw=True)
+      self.get_data_paths(verbose=verbose, getraw=True)
 
     if len(self.h5datagroups) < 1:
       print("No viable EBSD patterns found:",str(Path(self.filepath)))
-- 
2.43.0


From 3eda809f7e0c3838954980304cda73a856dcd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 25/94] fix: writing the header of a .pat file replaced its
 background pattern by zeros

---
 pyebsdindex/ebsd_pattern.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 9ed46fa..165addf 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1258,12 +1258,8 @@ class TFPatFile(EBSDPatternFile):
       else: # there should be a background to write.
         np.asarray(-1, dtype=np.int16).tofile(f)
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
-          pass
-        else:
-          if self.background.size != np.int64(self.patternH * self.patternW):
-            pass
-          else:
+        if isinstance(self.background, np.ndarray):
+          if self.background.size == np.int64(self.patternH * self.patternW):
             background = self.background.astype(self.filedatatype)
         background.tofile(f)
 
-- 
2.43.0


From 8cd138c1801cb51370e11b99e529b81a865d3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 26/94] fix: new .pat files could not be created and were short
 by the length of the header

---
 pyebsdindex/ebsd_pattern.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 165addf..8ec0ab1 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1227,6 +1227,14 @@ class TFPatFile(EBSDPatternFile):
     if bitdepth is not None:
       self.bitdepth = bitdepth
 
+    if self.version is None:
+      self.version = 1
+    if self.filedatatype is None:
+      self.filedatatype = np.uint16
+    if self.filePos is None:
+      self.filePos = 25
+      if self.hasbackground:
+        self.filePos += int(self.patternW) * int(self.patternH) * self.filedatatype(0).nbytes
 
     try:
       if os.path.isfile(Path(self.filepath).expanduser()):
@@ -1268,7 +1276,7 @@ class TFPatFile(EBSDPatternFile):
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
+      f.seek(int(self.filePos) + int(self.nPatterns) * dtyperead.itemsize - 1)
       np.asarray(0, dtype=np.uint8).tofile(f)
 
 
-- 
2.43.0


From d9e951d0ad479d074e3ad9d6840469822c0d47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 27/94] fix: creating an .ebsp file raised OverflowError with
 numpy 2

---
 pyebsdindex/ebsd_pattern.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 8ec0ab1..1cdc1bf 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -969,8 +969,7 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
-      np.asarray(version, dtype=np.uint64).tofile(f)
+      np.asarray(-1 * np.int64(self.version), dtype=np.int64).tofile(f)
 
     if self.version >= 0:
       if self.filePos is None:
-- 
2.43.0


From 7d3c76907f055aa2f5495638033e2f2660e26d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 28/94] fix: h5 files of kikuchipy 0.3.0 and of 0.10 and later
 were not read (versions compared as text)

---
 pyebsdindex/ebsd_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 1cdc1bf..8589134 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -26,6 +26,7 @@ from pathlib import Path
 import shutil
 import copy
 import os
+import re
 import h5py
 
 
@@ -1643,7 +1644,7 @@ class KIKUCHIPYH5(HDF5PatFile):
 
     self.version = str((f['version'][()][0]).decode('UTF-8'))
 
-    if self.version  >= '0.3.dev0':
+    if [int(v) for v in re.findall('[0-9]+', self.version)[:2]] >= [0, 3]:
       ngrp = self.get_data_paths()
       if ngrp <= 0:
         f.close()
-- 
2.43.0


From 162b869d95000f5b60604bfa6e1310afd260d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 29/94] fix: writing the header of a 16-bit .ebsp file switched
 it to 8 bit

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 8589134..98714c7 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -940,13 +940,13 @@ class EBSPFile(EBSDPatternFile):
     # xyloc[:,1] *= self.yStep
     return readpats, xyloc
 
-  def write_header(self, writeBlank=False, bitdepth=8):
+  def write_header(self, writeBlank=False, bitdepth=None):
 
     filepath = self.filepath
     extension = str.lower(Path(filepath).suffix)
     try:
       if (bitdepth is None) and (self.filedatatype is None):
-        raise ValueError('Error: extension not recognized, set "bitdepth" parameter')
+        self.filedatatype = np.uint8
       elif (bitdepth == 8):
         self.filedatatype = np.uint8
       elif (bitdepth == 16):
-- 
2.43.0


From 43556646fc99e4a24a8ec48d73e41a9142f2dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 30/94] fix: pat_flt2int(method='scale') wrapped around above
 the range of the integer type

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 98714c7..ea44402 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -169,6 +169,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     if maxScale is None:
       maxScale = temp.max()
     temp *= scalevalue * maxval / maxScale
+    temp = temp.clip(0, maxval)
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
   return patsout # note, this function uses multiple returns.
-- 
2.43.0


From c42ea455b51b3516a20eae21c631f7768d1921c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 31/94] fix: write_data ignored maxScale and scalevalue and
 scaled each row of a slab on its own

---
 pyebsdindex/ebsd_pattern.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index ea44402..3f35914 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -349,11 +349,6 @@ class EBSDPatternFile():
       elif ndim == 3:
         pats = newpatterns
       npats = pats.shape[0]
-    max = pats.max()
-
-    if maxScale is not None:
-      max = maxScale
-
     pStartEnd = np.asarray(patStartCount)
     # npats == number of patterns in the newpatterns
     # self.nPatterns == number of patterns in the file
@@ -369,7 +364,7 @@ class EBSDPatternFile():
         nPatToWrite = self.nPatterns - patStart
 
       typewrite = self.filedatatype
-      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
+      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
     elif pStartEnd.ndim == 2: # write a slab of patterns.
@@ -391,10 +386,12 @@ class EBSDPatternFile():
           nrowwrite = np.int64(self.nRows - rowstart)
 
 
+        # convert all patterns together, so that every row of the slab is scaled in the same way
+        pats = pat_flt2int(pats,typeout=self.filedatatype,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
           self.write_data(newpatterns = pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
-                          flt2int=flt2int,scalevalue=0.98, maxScale = max)
+                          flt2int='clip')
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
 
-- 
2.43.0


From 84b7eafd10c71052a9882d2e49f5b489cf2bf4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 32/94] fix: writing patterns to an .ebsp file replaced the
 locations stored in the file

---
 pyebsdindex/ebsd_pattern.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 3f35914..4e70f66 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -691,6 +691,7 @@ class EBSPFile(EBSDPatternFile):
     # self.bitdepth = None
     self.filePos = None  # file location in bytes where each pattern data starts
     self.hasxypos = False
+    self.xypos = None  # x, y locations of all the patterns, as read with the header
 
   def read_header(self, path=None, bitdepth=None):  # readInterval=[0, -1], arrayOnly=False,
     if path is not None:
@@ -854,6 +855,7 @@ class EBSPFile(EBSDPatternFile):
             f.seek(footoffset, 1)
             yall[i] = np.fromfile(f, dtype=np.float64, count=1)
 
+        self.xypos = np.stack((xall, yall), axis=-1)
 
         stored = self.filePos > 0
         self.xStep = xall[1] - xall[0] if self.nPatterns > 1 else 0.0
@@ -1046,11 +1048,14 @@ class EBSPFile(EBSDPatternFile):
         if write_xypos:
           if self.version >= 2:
             np.uint8(1).tofile(f)
-          yx = np.array(np.unravel_index(i, (self.nRows, self.nCols))).astype(np.float64)
-          yx[1] -= float(self.nCols * 0.5)
-          yx[1] *= self.xStep
-          yx[0] -= float(self.nRows * 0.5)
-          yx[0] *= self.yStep
+          if self.xypos is not None: # keep the locations of the file
+            yx = self.xypos[i, ::-1]
+          else:
+            yx = np.array(np.unravel_index(i, (self.nRows, self.nCols))).astype(np.float64)
+            yx[1] -= float(self.nCols * 0.5)
+            yx[1] *= self.xStep
+            yx[0] -= float(self.nRows * 0.5)
+            yx[0] *= self.yStep
           np.float64(yx[1]).tofile(f)
           if self.version >= 2:
             np.uint8(1).tofile(f)
-- 
2.43.0


From 4f7fa2441620830bc64c6f7ddd6043dbe8043dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 33/94] fix: copy_file of .pat files made no copy

---
 pyebsdindex/ebsd_pattern.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 4e70f66..6868dff 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1349,19 +1349,21 @@ class TFPatFile(EBSDPatternFile):
     else:
       dst = Path(str(src.expanduser().resolve())+'.copy')
     try:
-      if 'empty_data' in kwargs:
-        if kwargs['empty_data'] == True:
-          with open(src, 'rb') as srcf:
-            head = srcf.read(self.filePos)
-            size = srcf.seek(0, 2)
-            #print('checkpoint' ,size)
-          with open(dst, 'wb') as dstf:
-            head = dstf.write(head)
-            #print('write head')
-            dstf.seek(size-1,0)
-            #print('seek done')
-            dstf.write(b"\0")
+      empty_data = kwargs.get('empty_data', False)
+      if empty_data == True:
+        with open(src, 'rb') as srcf:
+          head = srcf.read(self.filePos)
+          size = srcf.seek(0, 2)
+          #print('checkpoint' ,size)
+        with open(dst, 'wb') as dstf:
+          head = dstf.write(head)
+          #print('write head')
+          dstf.seek(size-1,0)
+          #print('seek done')
+          dstf.write(b"\0")
     except:
+      empty_data = False
+    if empty_data != True:
       shutil.copyfile(src,dst)
 
     try:
-- 
2.43.0


From e079a3cbdfac6e9ccdd60cb69b73598ef342d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 34/94] fix: the scan flag of .pat files was not read, and
 pixel positions of non-scan files were read at the wrong places

---
 pyebsdindex/ebsd_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 6868dff..4724c90 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1123,7 +1123,8 @@ class TFPatFile(EBSDPatternFile):
         self.filePos = 25
 
 
-      if isscan < 0:
+      self.isscan = bool(isscan[0] < 0)
+      if self.isscan:
         self.nPatterns = np.int64((self.nCols)) * self.nRows
       else:
         f.seek(0,2) # go to EOF
@@ -1136,7 +1137,7 @@ class TFPatFile(EBSDPatternFile):
     if self.isscan == False:
       xypix = []
       f.seek(self.filePos)
-      stride = np.int64(self.patternW * self.patternH)
+      stride = int(self.patternW) * int(self.patternH) * self.filedatatype(0).nbytes
       for ii in range(np.int64(self.nPatterns)):
         loc = np.fromfile(f, dtype=np.uint32, count=2)
         xypix.append(loc)
-- 
2.43.0


From 4e154334cb0faec0aa39a925f708c3e8aabe06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:43 +0000
Subject: [PATCH 35/94] fix: writing past the end of an .up file without grid
 information wrote nothing (uint64 and int64 mixed)

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 4724c90..43bfc18 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -361,7 +361,7 @@ class EBSDPatternFile():
       if nPatToWrite == 0:
         nPatToWrite = 1
       if (patStart + nPatToWrite) > self.nPatterns:
-        nPatToWrite = self.nPatterns - patStart
+        nPatToWrite = np.int64(self.nPatterns) - patStart
 
       typewrite = self.filedatatype
       pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
-- 
2.43.0


From 140cefa0381f5b1372573fe4ee818c4922ca63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 36/94] fix: a slab of patterns read from one file could not be
 written to another as a range

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 43bfc18..7e393ce 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -340,7 +340,7 @@ class EBSDPatternFile():
 
     if isinstance(newpatterns,EBSDPatterns):
       pats = newpatterns.patterns
-      npats = newpatterns.nPatterns
+      npats = pats.shape[0] # nPatterns is [ncol, nrow] for a slab
     elif isinstance(newpatterns, np.ndarray):
       shp = newpatterns.shape
       ndim = newpatterns.ndim
-- 
2.43.0


From e2f8e84b58eb1ad8e90703d0b5a4b4e643534cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 37/94] fix: NLPAR.calcsigma always failed (row minus an
 unsigned radius wraps around)

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..196e77b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -485,7 +485,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
-- 
2.43.0


From 2e9e77a1ee8caeaaa8edd1fe44167436a9f638c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 38/94] fix: calcnlpar(reset_sigma=True) and a scalar sigma
 failed; sigma of another scan size was kept if one side agreed

---
 pyebsdindex/nlpar_cpu.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 196e77b..a622ca5 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -370,20 +370,20 @@ class NLPAR:
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
+    if reset_sigma:
+      self.sigma = None
+
     if self.sigma is None:
       calcsigma = True
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
 
-    if reset_sigma:
-      self.sigma = None
-
-    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+    if (np.asarray(self.sigma).size == 1) and (calcsigma is False):
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
       calcsigma = False
 
     shpsigma = np.asarray(self.sigma).shape
-    if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+    if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
-- 
2.43.0


From 8e0f547eb586472f2f947e7b69440faf677e310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 39/94] fix: NLPAR.calcsigma counted rows twice when the last
 chunk is shorter than the margin

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index a622ca5..b276c0a 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -518,7 +518,7 @@ class NLPAR:
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-      sigma[j:j+rowstartcount[1],:] += \
+      sigma[j:j+rowstartcount[1],:] = \
         sigchunk[rowstartcount[0]:rowstartcount[0]+rowstartcount[1],:]
 
     return sigma
-- 
2.43.0


From 911b2d64762d9d4bc15bc532534cbf394b4ceba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 40/94] fix: NLPAR search windows ran outside of the data for
 small scans and short first chunks

---
 pyebsdindex/nlpar_cpu.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index b276c0a..7dd1412 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -414,6 +414,7 @@ class NLPAR:
 
       if (rowend - rowstartread) < (2*sr+1):
         rowstartread = np.int64(max(0, rowend - (2*sr+1)))
+        rowend = min(max(rowend, rowstartread + 2*sr+1), nrows)
       rowcountread = np.int64(rowend-rowstartread)
       data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],
                                         convertToFloat=True,returnArrayOnly=True)
@@ -685,12 +686,12 @@ class NLPAR:
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-      winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
-      winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      winstart_x = max(max((i - sr),0) - max((i + sr - (ncols - 1)),0), 0)
+      winend_x = min(min((i + sr),(ncols - 1)) + max((sr - i),0) + 1, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
-        winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
-        winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        winstart_y = max(max((j - sr),0) - max((j + sr - (nrows - 1)),0), 0)
+        winend_y = min(min((j + sr),(nrows - 1)) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
@@ -734,14 +735,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter):
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From 2cc92a4bf131dc350e6329aebf71b6226b125a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 41/94] fix: NLPAR noise estimate at the edge of a chunk
 ignored the neighbours outside of it

---
 pyebsdindex/nlpar_cpu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 7dd1412..3223538 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -415,6 +415,9 @@ class NLPAR:
       if (rowend - rowstartread) < (2*sr+1):
         rowstartread = np.int64(max(0, rowend - (2*sr+1)))
         rowend = min(max(rowend, rowstartread + 2*sr+1), nrows)
+      if calcsigma is True: # sigma of the outer rows needs their neighbors as well
+        rowstartread = np.int64(max(0, rowstartread - 1))
+        rowend = min(rowend + 1, nrows)
       rowcountread = np.int64(rowend-rowstartread)
       data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],
                                         convertToFloat=True,returnArrayOnly=True)
-- 
2.43.0


From 2a2d3fedce3e1b0e894880771304df7ee9765f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 42/94] fix: NLPAR diff_offset accumulated over pixels and was
 shared between threads

---
 pyebsdindex/nlpar_cpu.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 3223538..986500a 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -681,8 +681,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
-
     mxval = np.max(data)
     if saturation_protect == False:
       mxval += np.float32(1.0)
@@ -697,6 +695,7 @@ class NLPAR:
         winend_y = min(min((j + sr),(nrows - 1)) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
+        diff_step = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
 
         indx_0 = i + ncols * j
@@ -710,7 +709,7 @@ class NLPAR:
 
             if indx_nn == indx_0:
               weights[counter] = np.float32(-1.0e6)
-              diff_step[counter] +=  diff_offset
+              diff_step[counter] =  diff_offset
             else:
               diff_step[counter] =  0.0
               pairid = getpairid(indx_0, indx_nn)
-- 
2.43.0


From d5224284fe59979e23acae176621ec48f40966f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 43/94] fix: NLPAR object given another file kept scan size,
 mask and noise of the previous one

---
 pyebsdindex/nlpar_cpu.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 986500a..aa3cf7f 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -56,6 +56,7 @@ class NLPAR:
     self.hdfdatapathout = None
     #self.patternfile = None
     #self.patternfileout = None
+    self._fromfile = {}
     self.setfile(filename)
     self.mask = None
     self.sigma = None
@@ -69,6 +70,11 @@ class NLPAR:
 
 
   def setfile(self,filepath=None):
+    # What was derived from the previous file does not apply to this one (what the user has set is kept).
+    for name, value in self._fromfile.items():
+      if getattr(self, name) is value:
+        setattr(self, name, None)
+    self._fromfile = {}
     self.filepath = None
     self.hdfdatapath = None
     pathtemp = np.atleast_1d(filepath)
@@ -159,13 +165,13 @@ class NLPAR:
       fID = ebsd_pattern.get_pattern_file_obj([self.filepath, self.hdfdatapath])
       if (fID.nRows is not None):
         if (self.nrows is None):
-          self.nrows = fID.nRows
+          self.nrows = self._fromfile['nrows'] = fID.nRows
         else:
           fID.nRows = self.nrows
 
       if (fID.nCols is not None):
         if (self.ncols is None):
-          self.ncols = fID.nCols
+          self.ncols = self._fromfile['ncols'] = fID.nCols
         else:
           fID.nCols = self.ncols
 
@@ -237,11 +243,11 @@ class NLPAR:
     nn = np.uint64(nn)
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight,pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight,pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight,pwidth),dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight,pwidth),dtype=np.uint8)
 
-    self.mask = (self.mask).astype(np.uint8)
+    self.mask = (self.mask).astype(np.uint8, copy=False)
     indices = np.asarray((self.mask.flatten().nonzero())[0],np.uint64)
 
     sigma = np.zeros((nrows,ncols),dtype=np.float32)+1e24
@@ -302,7 +308,7 @@ class NLPAR:
     if autoupdate == True:
       self.lam = np.median(np.mean(lamopt_values, axis = 0))
     if self.sigma is None:
-      self.sigma = sigma
+      self.sigma = self._fromfile['sigma'] = sigma
     return np.mean(lamopt_values, axis = 0).flatten()
 
   def calcnlpar(self, chunksize=0, searchradius=None, lam = None, dthresh = None, saturation_protect=True, automask=True,
@@ -364,9 +370,9 @@ class NLPAR:
 
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight,pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight,pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight,pwidth), dtype=np.uint8)
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
@@ -375,7 +381,7 @@ class NLPAR:
 
     if self.sigma is None:
       calcsigma = True
-      self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
+      self.sigma = self._fromfile['sigma'] = np.zeros((nrows, ncols), dtype=np.float32)+1e24
 
     if (np.asarray(self.sigma).size == 1) and (calcsigma is False):
       tmp = np.asarray(self.sigma).flatten()[0]
@@ -384,7 +390,7 @@ class NLPAR:
 
     shpsigma = np.asarray(self.sigma).shape
     if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
-      self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
+      self.sigma = self._fromfile['sigma'] = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
     sigma = np.asarray(self.sigma)
@@ -492,9 +498,9 @@ class NLPAR:
     nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight,pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight,pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight,pwidth), dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight,pwidth), dtype=np.uint8)
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
 
-- 
2.43.0


From 2e888b015e338882f38d7e77a8ed2f5e75409504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 44/94] fix: distributed indexing lost a chunk when its band
 detection reported an error, and never gave up on a chunk that always fails

---
 pyebsdindex/_ebsd_index_parallel.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..257dfd9 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -528,6 +528,8 @@ def index_pats_distributed(
                 jid = gputask.index(wrker)
                 try:
                     message, (banddata, bandnorm, gjob) = ray.get(wrker)
+                    if message == 'Error':
+                        raise Exception("Error in finding bands")
 
                     if message == 'Done':
                         banddataout[gjob.pstart - patstart: gjob.pend - patstart, :] = banddata
@@ -567,6 +569,7 @@ def index_pats_distributed(
                 except:
                     gjob = gtaskindex[jid]
                     print('A GPU death has occured', gjob.pstart, gjob.pend)
+                    gjob._failed()
                     del gpuworkers[jid]
                     del gputask[jid]
                     del gtaskindex[jid]
@@ -705,6 +708,8 @@ def index_pats_distributed(
                     print(e)
                     cjob = ctaskindex[jid]
                     print('A CPU death has occured')
+                    if cjob is not None:
+                        cjob._failed()
                     ray.kill(cpuworkers[jid])
                     del cpuworkers[jid]
                     del cputask[jid]
@@ -921,8 +926,15 @@ class CPUGPUJob:
         self.endtime = 0.0
         self.extime = extime
         self.rate = 0.0
+        self.nfail = 0
     def _starttime(self):
         self.starttime = timer()
+    def _failed(self, maxfail=10):
+        # A lost worker or a passing error should not end the whole run, but a chunk that can never succeed must.
+        self.nfail += 1
+        if self.nfail > maxfail:
+            ray.shutdown()
+            raise RuntimeError("Patterns " + str(self.pstart) + " to " + str(self.pend) + " could not be processed.")
     def _endtime(self):
         self.endtime = timer()
         self.extime += self.endtime - self.starttime
-- 
2.43.0


From 23b5277087959c5e6662e9013d2b62f259d94dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 45/94] fix: restarting a stuck worker in distributed indexing
 submitted its chunk twice and could be repeated forever

---
 pyebsdindex/_ebsd_index_parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 257dfd9..d72b675 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -484,6 +484,7 @@ def index_pats_distributed(
         #gpu_launched += 1
 
     gpuwrker_cycles = -500
+    gpuwrker_maxcycles = 100
     cpuwrker_cycles = 0
 
     while ncpudone < njobs:
@@ -600,12 +601,14 @@ def index_pats_distributed(
                         gtaskindex.append(gjob)
             # toc = timer()
 
-            if gpuwrker_cycles > 100: # a gpu worker got stuck -- see if I can unstick it.
+            if gpuwrker_cycles > gpuwrker_maxcycles: # a gpu worker got stuck -- see if I can unstick it.
                 wrker = busy[0]
                 gpuwrker_cycles = 0
                 jid = gputask.index(wrker)
                 gjob = gtaskindex[jid]
                 print('A GPU death has occured. Attempting to restart.', gjob.pstart, gjob.pend)
+                gjob._failed()
+                gpuwrker_maxcycles *= 2 # it may just be slow; give it more time on the next try.
                 ray.kill(gpuworkers[jid])
                 del gpuworkers[jid]
                 del gputask[jid]
@@ -620,6 +623,7 @@ def index_pats_distributed(
                             actorid=0, clparammodule=clparamfunction, gpu_id=gpu_id, cudavis=cudagpuvis
                         )
                     )
+                    gjob = gpujobs.pop(0)
                     if inputmode == "filemode":
                         gputask.append(
                             gpuworkers[0].findbands.remote(gjob,
-- 
2.43.0


From 35693432735dbad81dba1e87ec7eb3159bb4f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 46/94] fix: distributed indexing failed when more patterns
 were asked for than there are, or with a negative start

---
 pyebsdindex/_ebsd_index_parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index d72b675..f72e74d 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,9 +275,10 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
+        patstart = npatsTotal + patstart
     if npats <= 0:
         npats = npatsTotal - patstart
+    npats = min(npats, npatsTotal - patstart)
 
     # Now set up the cluster with the indexer
 
-- 
2.43.0


From acb4f123027e261fb1fdcf98d17c4ab0c160eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 47/94] fix: distributed indexing failed for an indexer that
 already has its pattern file

---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index f72e74d..015559c 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -245,7 +245,7 @@ def index_pats_distributed(
 
     if filename is not None:
         indexer.update_file(filename)
-    else:
+    elif pats is not None:
         indexer.update_file(patDim=pats.shape[-2:])
 
     # Differentiate between getting a file to index or an array.
-- 
2.43.0


From b039d39c6a2c116729f2125c8495c332b7307835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 48/94] fix: distributed indexing used the first pattern center
 for all patterns when given one per pattern

---
 pyebsdindex/_ebsd_index_parallel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 015559c..12ce942 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -407,6 +407,8 @@ def index_pats_distributed(
     jid = 1
     for jb in p_indx_start_end:
         gpujobs.append(CPUGPUJob(jid, jb[0], jb[1]))
+        if (np.ndim(indexer.PC) == 2) and (len(indexer.PC) == npats): # one pattern center per pattern
+            gpujobs[-1].PC = np.asarray(indexer.PC)[jb[0] - patstart: jb[1] - patstart]
         jid += 1
 
 
@@ -854,6 +856,8 @@ class GPUWorker:
             # print(type(self.openCLParams.ctx))
             gpujob._starttime()
             #time.sleep(random.uniform(0, 1.0))
+            if PC is None:
+                PC = gpujob.PC
             if PC is None:
                 PC = indexer.PC
 
@@ -932,6 +936,7 @@ class CPUGPUJob:
         self.extime = extime
         self.rate = 0.0
         self.nfail = 0
+        self.PC = None
     def _starttime(self):
         self.starttime = timer()
     def _failed(self, maxfail=10):
-- 
2.43.0


From fba3b66e2ebcd231dfd91c14c2f37d9a80260c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 49/94] fix: writeoh5 failed when given the number of columns
 only

---
 pyebsdindex/ebsdfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..ccf4527 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
-- 
2.43.0


From ea06ce0f7b284e7c59f09119d1051196b01e151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 50/94] fix: writeoh5 did not mark unindexed points, or wrote
 the mark into the results in memory

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index ccf4527..1c40148 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,8 +259,8 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
-      wh = np.nonzero(phaseid < 0)[0]
+      ci = data[-1]['cm'].copy()
+      wh = np.nonzero(data[-1]['phase'] < 0)[0]
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
       phaseid = (phaseid).clip(0)
-- 
2.43.0


From 035331b7e44dbedf681cfb2140aa8a5aff8884be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 51/94] fix: writeoh5 wrote positions for the whole grid
 instead of one per point, and scalars for a single point

---
 pyebsdindex/ebsdfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 1c40148..5c9fd55 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -238,9 +238,9 @@ def writeoh5(filename, indexer, data,
       npoints = data[-1].shape[-1]
 
       eulers = rotlib.qu2eu(data[-1]['quat'])
-      phi1 = np.squeeze(eulers[:,0]).astype(np.float32)
-      phi = np.squeeze(eulers[:, 1]).astype(np.float32)
-      phi2 = np.squeeze(eulers[:, 2]).astype(np.float32)
+      phi1 = eulers[:, 0].astype(np.float32)
+      phi = eulers[:, 1].astype(np.float32)
+      phi2 = eulers[:, 2].astype(np.float32)
 
       f.create_dataset(datasetname + '/EBSD/Data/Phi1',
                        data=phi1)
@@ -272,8 +272,8 @@ def writeoh5(filename, indexer, data,
       f.create_dataset(datasetname + '/EBSD/Data/CI',
                        data=(ci).astype(np.float32))
 
-      x = (np.arange(ncols[0] * nrows[0], dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
-      y = (np.arange(ncols[0] * nrows[0], dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
+      x = (np.arange(npoints, dtype=int) % ncols[0]).astype(np.float32) * xstep[0]
+      y = (np.arange(npoints, dtype=int) // ncols[0]).astype(np.float32) * ystep[0]
 
       f.create_dataset(datasetname + '/EBSD/Data/X Position', data=x)
       f.create_dataset(datasetname + '/EBSD/Data/Y Position', data=y)
-- 
2.43.0


From 05a298258d8c4fb601c3caefbc5b2c2c8d9c98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:18 +0000
Subject: [PATCH 52/94] fix: writeoh5 failed for phase names with non-ascii
 characters

---
 pyebsdindex/ebsdfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 5c9fd55..65adc2f 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -167,7 +167,7 @@ def writeoh5(filename, indexer, data,
 
         f.create_dataset(datasetname + '/EBSD/Header/Phase/' + str(pcount) + '/Lattice Constant gamma',
                          data=np.array([np.float32(phase.latticeparameter[5])]))
-        pname = str(phase.phasename)
+        pname = str(phase.phasename).encode('utf-8')
         chararray = np.chararray(1, itemsize=len(pname)+1)
         chararray[:] = pname
         f.create_dataset(datasetname + '/EBSD/Header/Phase/' + str(pcount) + '/MaterialName', data=chararray)
-- 
2.43.0


From ab3774ea8514ad7130b17ccb7d94b362c6e482c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:37 +0000
Subject: [PATCH 53/94] fix: results of a single point could not be written to
 .ang and .oh5 files

---
 pyebsdindex/ebsdfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 65adc2f..b537f24 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -76,7 +76,7 @@ def writeang(filename, indexer, data,
       phaseIDadd = 0
     else:
       phaseIDadd = 1
-    eulers = rotlib.qu2eu(data[-1]['quat'])
+    eulers = rotlib.qu2eu(data[-1]['quat']).reshape(-1, 3)
     for i in range(data.shape[-1]):
       line = '  '
       line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])
@@ -237,7 +237,7 @@ def writeoh5(filename, indexer, data,
       # Write data
       npoints = data[-1].shape[-1]
 
-      eulers = rotlib.qu2eu(data[-1]['quat'])
+      eulers = rotlib.qu2eu(data[-1]['quat']).reshape(-1, 3)
       phi1 = eulers[:, 0].astype(np.float32)
       phi = eulers[:, 1].astype(np.float32)
       phi2 = eulers[:, 2].astype(np.float32)
-- 
2.43.0


From 95fedebc8744ce6348d2be9e47828950a7704f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:01 +0000
Subject: [PATCH 54/94] fix: PC optimisation in the EMSOFT convention was wrong
 for non-square patterns, overwrote its input and ignored the pixel size of
 PC0

---
 pyebsdindex/pcopt.py | 97 ++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 67 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..4211660 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -81,6 +81,27 @@ def _optfunction(PC_i, indexer=None, banddat=None):
     return result
 
 
+def _emsoft2edax(PC, patDim):
+    # EMSOFT (xpc, ypc, L, delta) to EDAX (x*, y*, z*), see Radon.radon2pole()
+    PC = np.array(PC, dtype=np.float64).ravel()
+    return np.array([
+        (0.5 * patDim[1] - PC[0]) / patDim[1],
+        (0.5 * patDim[0] + PC[1]) / patDim[0],
+        PC[2] / PC[3] / min(patDim[0], patDim[1]),
+    ])
+
+
+def _edax2emsoft(PC, patDim, delta):
+    # EDAX (x*, y*, z*) to EMSOFT (xpc, ypc, L, delta); one PC, or one per row.
+    PC = np.asarray(PC, dtype=np.float64)
+    return np.stack([
+        (0.5 - PC[..., 0]) * patDim[1],
+        (PC[..., 1] - 0.5) * patDim[0],
+        PC[..., 2] * min(patDim[0], patDim[1]) * delta,
+        np.full(PC.shape[:-1], delta),
+    ], axis=-1)
+
+
 def optimize(pats, indexer, PC0=None, batch=False):
     """Optimize pattern center (PC) (PCx, PCy, PCz) in the convention
     of the :attr:`indexer.vendor` with Nelder-Mead.
@@ -125,17 +146,9 @@ def optimize(pats, indexer, PC0=None, batch=False):
     if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
         indexer.vendor = "EDAX"
-        patDim = np.array(indexer.bandDetectPlan.patDim)
-        delta = indexer.PC
-        PCtemp = PC0[0:3]
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
-        PCtemp[0] *= -1.0
-        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
-        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        #PCtemp /= indexer.bandDetectPlan.patDim[1]
-        PCtemp /= patdimnorm
-        PCtemp[2] /= delta[3]
-        PC0 = PCtemp
+        patDim = indexer.bandDetectPlan.patDim
+        delta = float(PC0[3])
+        PC0 = _emsoft2edax(PC0, patDim)
 
     if not batch:
         PCopt = opt.minimize(
@@ -159,31 +172,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
 
     if emsoftflag:  # Return original state for indexer
         indexer.vendor = "EMSOFT"
-        indexer.PC = delta
-        patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
-        if PCoutRet.ndim == 2:
-            newout = np.zeros((npoints, 4))
-            PCoutRet[:, 0] -= 0.5
-            #PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)
-            PCoutRet[:, 0] *= -1.0
-            PCoutRet[:, 1] -= 0.5 * patDim[0]
-            PCoutRet[:, 2] *= delta[3]
-            newout[:, :3] = PCoutRet
-            newout[:, 3] = delta[3]
-            PCoutRet = newout
-        else:
-            newout = np.zeros(4)
-            PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= patdimnorm
-            #PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[1] -= 0.5 * patDim[0]
-            PCoutRet[0] *= -1.0
-            PCoutRet[2] *= delta[3]
-            newout[:3] = PCoutRet
-            newout[3] = delta[3]
-            PCoutRet = newout
+        PCoutRet = _edax2emsoft(PCoutRet, patDim, delta)
 
     return PCoutRet
 
@@ -269,16 +258,9 @@ def optimize_pso(
     if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
         indexer.vendor = "EDAX"
-        delta = indexer.PC
-        PCtemp = PC0[0:3]
-        PCtemp[0] *= -1.0
-        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
-        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
-        PCtemp[2] /= delta[3]
-        PC0 = np.array(PCtemp)
-
-
+        patDim = indexer.bandDetectPlan.patDim
+        delta = float(PC0[3])
+        PC0 = _emsoft2edax(PC0, patDim)
 
     # optimizer = pso.single.GlobalBestPSO(
     #     n_particles=nswarmpoints,
@@ -333,27 +315,8 @@ def optimize_pso(
 
     if emsoftflag:  # Return original state for indexer
         indexer.vendor = "EMSOFT"
-        indexer.PC = delta
-        if PCoutRet.ndim == 2:
-            newout = np.zeros((npoints, 4))
-            PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
-            PCoutRet[:, 0] *= -1.0
-            PCoutRet[:, 2] *= delta[3]
-            newout[:, :3] = PCoutRet
-            newout[:, 3] = delta[3]
-            PCoutRet = newout
-        else:
-            newout = np.zeros(4)
-            PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
-            PCoutRet[0] *= -1.0
-            PCoutRet[2] *= delta[3]
-            newout[:3] = PCoutRet
-            newout[3] = delta[3]
-            PCoutRet = newout
+        PCoutRet = _edax2emsoft(PCoutRet, patDim, delta)
+
     if return_cost is False:
         return PCoutRet
     else:
-- 
2.43.0


From a05b45bf71379dc5d463da06f31d9b7a32038bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:25 +0000
Subject: [PATCH 55/94] fix: PC optimisation left the indexer with another
 vendor after an error, and did not know lower-case 'emsoft'

---
 pyebsdindex/pcopt.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 4211660..1236688 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -38,16 +38,18 @@ RADEG = 180.0 / np.pi
 
 
 #def _optfunction(PC_i, indexer, banddat):
-def _optfunction(PC_i, indexer=None, banddat=None):
+def _optfunction(PC_i, indexer=None, banddat=None, vendor=None):
     tic = timer()
     PC = np.atleast_2d(PC_i)
     result = np.zeros(PC.shape[0])
+    if vendor is None:
+        vendor = indexer.vendor
     # this loop is here because pyswarms expects a vectorized function
     #print(PC.shape)
     for q in range(PC.shape[0]):
 
         bandnorm = indexer.bandDetectPlan.radonPlan.radon2pole(
-            banddat, PC=PC[q,:], vendor=indexer.vendor
+            banddat, PC=PC[q,:], vendor=vendor
         )
         #print(timer() - tic)
         npoints = banddat.shape[0]
@@ -143,9 +145,10 @@ def optimize(pats, indexer, PC0=None, batch=False):
     if PC0 is None:
         PC0 = indexer.PC
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor = str.upper(indexer.vendor)
+    if vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
-        indexer.vendor = "EDAX"
+        vendor = "EDAX"
         patDim = indexer.bandDetectPlan.patDim
         delta = float(PC0[3])
         PC0 = _emsoft2edax(PC0, patDim)
@@ -154,7 +157,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
         PCopt = opt.minimize(
             _optfunction,
             PC0,
-            args=(indexer, banddat),
+            args=(indexer, banddat, vendor),
             method="Nelder-Mead",
             options={"fatol": 0.00001}
         )
@@ -165,13 +168,12 @@ def optimize(pats, indexer, PC0=None, batch=False):
             PCopt = opt.minimize(
                 _optfunction,
                 PC0,
-                args=(indexer, banddat[i, :].reshape(1, nbands)),
+                args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
                 method="Nelder-Mead"
             )
             PCoutRet[i, :] = PCopt['x']
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
+    if emsoftflag:  # Return to the convention of the indexer
         PCoutRet = _edax2emsoft(PCoutRet, patDim, delta)
 
     return PCoutRet
@@ -255,9 +257,10 @@ def optimize_pso(
         PC0 = np.asarray(PC0)
 
     emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
+    vendor = str.upper(indexer.vendor)
+    if vendor == "EMSOFT":  # Convert to EDAX for optimization
         emsoftflag = True
-        indexer.vendor = "EDAX"
+        vendor = "EDAX"
         patDim = indexer.bandDetectPlan.patDim
         delta = float(PC0[3])
         PC0 = _emsoft2edax(PC0, patDim)
@@ -277,7 +280,7 @@ def optimize_pso(
         # cost, PCoutRet = optimizer.optimize(
         #     _optfunction, niter, indexer=indexer, banddat=banddat
         # )
-        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat,
+        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat, vendor=vendor,
                                             start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                                             niter=niter, verbose=verbose)
         #weightedPC = np.mean(optimizer.pbest_loc, axis = 0)
@@ -296,7 +299,7 @@ def optimize_pso(
 
 
             cost, newPC = optimizer.optimize(_optfunction, indexer=indexer,
-                                    banddat=banddat[i, :].reshape(1, nbands),
+                                    banddat=banddat[i, :].reshape(1, nbands), vendor=vendor,
                start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                niter=niter, verbose=0)
 
@@ -313,8 +316,7 @@ def optimize_pso(
         if verbose >= 1:
             print('', end='\n')
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
+    if emsoftflag:  # Return to the convention of the indexer
         PCoutRet = _edax2emsoft(PCoutRet, patDim, delta)
 
     if return_cost is False:
-- 
2.43.0


From 7c98879fa5477b204ea7774632fe2dcdbcf24175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:25 +0000
Subject: [PATCH 56/94] fix: PC optimisation in batch mode used a looser
 tolerance than documented

---
 pyebsdindex/pcopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 1236688..87ddd09 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -169,7 +169,8 @@ def optimize(pats, indexer, PC0=None, batch=False):
                 _optfunction,
                 PC0,
                 args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
-                method="Nelder-Mead"
+                method="Nelder-Mead",
+                options={"fatol": 0.00001}
             )
             PCoutRet[i, :] = PCopt['x']
 
-- 
2.43.0


From 3ea29b329a67adcb8a6946fc7d4b03daf530cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:25 +0000
Subject: [PATCH 57/94] fix: optimize_pso needed all three of c1, c2 and w in
 pswarmpar

---
 pyebsdindex/pcopt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 87ddd09..433b4e1 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -243,9 +243,8 @@ def optimize_pso(
     """
     banddat = indexer.bandDetectPlan.find_bands(pats)
     npoints, nbands = banddat.shape[:2]
-    if pswarmpar is None:
-        #pswarmpar = {"c1": 3.05, "c2": 1.05, "w": 0.8}
-        pswarmpar = {"c1": 3.5, "c2": 3.5, "w": 0.8}
+    #pswarmpar = {"c1": 3.05, "c2": 1.05, "w": 0.8}
+    pswarmpar = {"c1": 3.5, "c2": 3.5, "w": 0.8, **(pswarmpar or {})}
     if nswarmparticles is None:
         #nswarmpoints = int(np.array(search_limit).max() * (10.0/0.2))
         nswarmparticles = 30
-- 
2.43.0


From 4a27c02c7ee06fccd19758021d7f13c035a32980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:25 +0000
Subject: [PATCH 58/94] fix: the particle swarm failed for a single iteration

---
 pyebsdindex/pcopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 433b4e1..1dbcc8d 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -496,7 +496,7 @@ class PSOOpt():
         # Function that selects and implements evolution of hyperparameters.
         if str.lower(self.hyperparammethod) == 'auto':
 
-            N = float(self.niter)-1
+            N = max(float(self.niter)-1, 1.0)
             self.c1i = (self.c1 - self.c1 / 7) * (N-iter)/N + self.c1 / 7.0
             #self.c2i = (self.c1 - self.c1 / 7) * (iter) / N + self.c1 / 7.0
             self.c2i = (self.c2 - self.c2 / 7) * (iter) / N + self.c2 / 7.0
-- 
2.43.0


From 2f37d50665401ae9b7d22022d05beaff801ebf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:25 +0000
Subject: [PATCH 59/94] fix: the particle swarm evaluated a start outside the
 bounds, failed for bounds given as lists, and returned a view of the start

---
 pyebsdindex/pcopt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 1dbcc8d..c4dbf22 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -387,17 +387,21 @@ class PSOOpt():
     def initializeswarm(self, start=None, bounds=None):
 
 
+        if bounds is not None:
+            bounds = tuple(np.array(b, dtype=np.float64) for b in bounds)
+
         if start is None:
             if bounds is not None:
                 start = 0.5*(bounds[0]+bounds[1])
             else:
                 start = np.zeros(self.dimensions, dtype=np.float32)
 
-        self.start = start
-
         if bounds is None:
             bounds = (-1*np.ones(self.dimensions, dtype=np.float32),np.ones(self.dimensions, dtype=np.float32) )
 
+        start = np.clip(np.array(start, dtype=np.float64), bounds[0], bounds[1])
+        self.start = start
+
         self.bounds = bounds
         self.range = self.bounds[1] - self.bounds[0]
 
@@ -414,7 +418,7 @@ class PSOOpt():
         self.pbest = np.zeros(self.n_particles) + np.inf
         self.pbest_loc = np.copy(self.pos)
         self.gbest = np.inf
-        self.gbest_loc = start
+        self.gbest_loc = start.copy()
 
 
 
@@ -444,7 +448,7 @@ class PSOOpt():
         wh_minpbest = np.argmin(self.pbest)
         if self.pbest[wh_minpbest] < self.gbest:
             self.gbest = self.pbest[wh_minpbest]
-            self.gbest_loc = self.pbest_loc[wh_minpbest, :]
+            self.gbest_loc = self.pbest_loc[wh_minpbest, :].copy()
 
 
     def updateswarmvelpos(self):
-- 
2.43.0


From abe5cab22ffc13dd353a526a49e1f0692c4f40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 60/94] fix: rotlib silently truncated the results of integer
 input, and did not take matrices given as lists

---
 pyebsdindex/rotlib.py | 69 +++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/pyebsdindex/rotlib.py b/pyebsdindex/rotlib.py
index 3ef50cb..fa5333b 100644
--- a/pyebsdindex/rotlib.py
+++ b/pyebsdindex/rotlib.py
@@ -86,9 +86,17 @@ def prepIn(a):
   return (aout,m,n,intype)
 
 
+def _require(a):
+  # contiguous, aligned, and floating point, as the results have the type of the input.
+  a = np.require(a,requirements=['C','A'])
+  if a.dtype.kind != 'f':
+    a = a.astype(np.float64)
+  return a
+
+
 def eu2om(eu,p=P):
   '''Bunge Euler angles to orientation matrix'''
-  om = eu2omL(np.require(eu,requirements=['C','A']),p=p)
+  om = eu2omL(_require(eu),p=p)
   om = np.squeeze(om)
   return om
 
@@ -118,7 +126,7 @@ def eu2omL(euIn,p=P):
  
 def eu2ax(eu,p=P):
   '''Bunge Euler angles to axis-angle (radians)  '''
-  ax = eu2axL(np.require(eu,requirements=['C','A']),p=p)
+  ax = eu2axL(_require(eu),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -159,7 +167,7 @@ def eu2axL(euIn,p=P):
 
 def eu2qu(eu,p=P):
   '''Bunge Euler angles to quaternions (scalar, axis)  '''
-  qu = eu2quL(np.require(eu,requirements=['C','A']),p=p)
+  qu = eu2quL(_require(eu),p=p)
   qu = np.squeeze(qu)
   return qu
 
@@ -190,10 +198,11 @@ def eu2quL(euIn,p=P):
 
 def om2eu(om,p=P):
   '''orientation matrix to Bunge Euler angles'''
+  om = np.asarray(om)
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _require(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _require(om).reshape((1,3,3))
   else:
     return -1
   eu = om2euL(omIn,p=p)
@@ -233,7 +242,7 @@ def om2euL(om, p=P):
 
 def ax2om(ax,p=P):
   '''axis-angle (radians) to orientation matrix  '''
-  om = ax2omL(np.require(ax,requirements=['C','A']),p=p)
+  om = ax2omL(_require(ax),p=p)
   om = np.squeeze(om)
   return om
 
@@ -271,7 +280,7 @@ def ax2omL(axIn,p=P):
 
 def qu2eu(qu,p=P):
   '''quaternions (scalar, axis) to Bunge Euler angles  '''
-  eu = qu2euL(np.require(qu,requirements=['C','A']),p=p)
+  eu = qu2euL(_require(qu),p=p)
   eu = np.squeeze(eu)
   return eu
 
@@ -314,7 +323,7 @@ def qu2euL(quIn,p=P):
 
 def ax2ho(ax,p=P):
   '''axis-angle (radians) to homochoric vector  '''
-  ho = ax2hoL(np.require(ax,requirements=['C','A']))
+  ho = ax2hoL(_require(ax))
   ho = np.squeeze(ho)
   return ho
 
@@ -338,7 +347,7 @@ def ax2hoL(axIn,p=P):
 
 def ho2ax(ho,p=P):
   '''homochoric vector to axis-angle (radians)   '''
-  ax = ho2axL(np.require(ho,requirements=['C','A']))
+  ax = ho2axL(_require(ho))
   ax = np.squeeze(ax)
   return ax
 
@@ -392,7 +401,7 @@ def ho2axL(hoIn,p=P):
 
 def ro2ax(ro,p=P):
   '''Rodrigues-Frank vector to axis-angle (radians)  '''
-  ax = ro2axL(np.require(ro,requirements=['C','A']),p=p)
+  ax = ro2axL(_require(ro),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -428,7 +437,7 @@ def ro2axL(roIn,p=P):
 
 def ax2ro(ax,p=P):
   '''axis-angle (radians) to Rodrigues-Frank vector  '''
-  ro = ax2roL(np.require(ax,requirements=['C','A']),p=p)
+  ro = ax2roL(_require(ax),p=p)
   ro = np.squeeze(ro)
   return ro
 
@@ -457,7 +466,7 @@ def ax2roL(axIn,p=P):
 
 def ax2qu(ax,p=P):
   '''axis-angle (radians) to quaternion (scalar - vector)  '''
-  qu = ax2quL(np.require(ax,requirements=['C','A']),p=p)
+  qu = ax2quL(_require(ax),p=p)
   qu = np.squeeze(qu)
   return qu
 
@@ -489,7 +498,7 @@ def ax2quL(axIn,p=P):
 
 def ro2ho(ro,p=P):
   '''Rodrigues-Frank  to homochoric  '''
-  ho = ro2hoL(np.require(ro,requirements=['C','A']),p=p)
+  ho = ro2hoL(_require(ro),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -520,7 +529,7 @@ def ro2hoL(roIn,p=P):
 
 def qu2om(qu,p=P):
   '''quaternion (scalar-vector) to orientation matrix  '''
-  om = qu2omL(np.require(qu,requirements=['C','A']),p=p)
+  om = qu2omL(_require(qu),p=p)
   om = np.squeeze(om)
   return om
 
@@ -568,10 +577,11 @@ def qu2omL(quIn,p=P):
 
 def om2ax_old(om,p=P):
   '''orientation matrix to axis-angle (radians) -- depreciated now use qu2ax(om2qu()) '''
+  om = np.asarray(om)
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _require(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _require(om).reshape((1,3,3))
   else:
     return -1
   ax = om2axL(omIn,p=p)
@@ -673,10 +683,11 @@ def om2axL_2(om, p=P): # kept for historical reasons
 
 def om2qu(om,p=P):
   '''orientation matrix to quaternion (scalar-vector)  '''
+  om = np.asarray(om)
   if om.ndim == 3:
-    omIn = np.require(om,requirements=['C','A'])
+    omIn = _require(om)
   elif om.ndim == 2:
-    omIn = np.require(om,requirements=['C','A']).reshape((1,3,3))
+    omIn = _require(om).reshape((1,3,3))
   else:
     return -1
   qu = om2quL(omIn,p=p)
@@ -731,7 +742,7 @@ def om2quL(om, p=P):
 
 def qu2ax(qu,p=P):
   '''quaternion (scalar-vector) to axis-angle (radians)  '''
-  ax = qu2axL(np.require(qu,requirements=['C','A']),p=p)
+  ax = qu2axL(_require(qu),p=p)
   ax = np.squeeze(ax)
   return ax
 
@@ -765,7 +776,7 @@ def qu2axL(quIn,p=P):
 
 def qu2ro(qu,p=P):
   '''quaternion (scalar-vector) to Rodrigues-Frank vector  '''
-  ro = qu2roL(np.require(qu,requirements=['C','A']),p=p)
+  ro = qu2roL(_require(qu),p=p)
   ro = np.squeeze(ro)
   return ro
 
@@ -805,7 +816,7 @@ def qu2roL(quIn,p=P):
 
 def qu2ho(qu,p=P):
   '''quaternion (scalar-vector) to homochoric  '''
-  ho = qu2hoL(np.require(qu,requirements=['C','A']),p=p)
+  ho = qu2hoL(_require(qu),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -837,7 +848,7 @@ def qu2hoL(quIn,p=P):
 
 def ho2cu(ho,p=P):
   ''' homochoric to cubochoric  '''
-  cu = ho2cuL(np.require(ho,requirements=['C','A']),p=p)
+  cu = ho2cuL(_require(ho),p=p)
   cu = np.squeeze(cu)
   return cu
 
@@ -971,7 +982,7 @@ def ho2cuL(hoIn,p=P):
 
 def cu2ho(cu,p=P):
   ''' cubochoric to homochoric  '''
-  ho = cu2hoL(np.require(cu,requirements=['C','A']),p=p)
+  ho = cu2hoL(_require(cu),p=p)
   ho = np.squeeze(ho)
   return ho
 
@@ -1451,7 +1462,7 @@ def lambert3DBallToCube(xyz):
 
 def quatnorm(qu):
   '''quaternion normalization -- first term >=0 , unit quaternion length'''
-  qout = quatnormL(np.require(qu,requirements=['C','A']))
+  qout = quatnormL(_require(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1474,7 +1485,7 @@ def quatnormL(qu,unitNorm=True):
 
 def quatconj(qu):
   '''Provides a quaternion conjugate. For rotations quaternions, this is the inverse quaternion'''
-  qout = quatconjL(np.require(qu,requirements=['C','A']))
+  qout = quatconjL(_require(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1491,7 +1502,7 @@ def quatconjL(quin,unitNorm=True):
 
 def quatave(qu):
   '''Provides a quaternion average. Assumes quaterions are closely clustered'''
-  qout = quataveL(np.require(qu,requirements=['C','A']))
+  qout = quataveL(_require(qu))
   qout = np.squeeze(qout)
   return qout
 
@@ -1517,7 +1528,7 @@ def quataveL(quin,unitNorm=True):
 
 def quat_multiply(q1,q2,p=P):
   '''quaternion multiplication. Can be q1(Nx4) x q2(N x4) or q1(4) x q2(Nx4)'''
-  q1q2 = quat_multiplyL(np.require(q1,requirements=['C','A']),np.require(q2,requirements=['C','A']),p=p)
+  q1q2 = quat_multiplyL(_require(q1),_require(q2),p=p)
   q1q2 = np.squeeze(q1q2)
   return q1q2
 
@@ -1581,7 +1592,7 @@ def quat_multiply1(q1,q2,p=P):
 
 def quat_vector(q,v,p=P):
   '''quaternion vector rotation. Can be q1(Nx4) x v(Nx3) or q1(4) x v(Nx3) or q1(Nx4) x v(3)'''
-  vout = quat_vectorL(np.require(q,requirements=['C','A']),np.require(v,requirements=['C','A']),p=p)
+  vout = quat_vectorL(_require(q),_require(v),p=p)
   vout = np.squeeze(vout)
   return vout
 
@@ -1744,7 +1755,7 @@ def randomquat(n=1):
 # 
 def axnorm(ax):
   '''axis-angle normalization -- unit vector length, corrects negative angles and angles over 2Pi'''
-  axout = axnormL(np.require(ax,requirements=['C','A']))
+  axout = axnormL(_require(ax))
   axout = np.squeeze(axout)
   return axout
 
-- 
2.43.0


From e02152dd3c1cd15b9c9f4946a9f6aadcd6a0790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 61/94] fix: IPF colours failed for a single orientation and
 integer directions, and were wrong for cubic directions not of unit length

---
 pyebsdindex/EBSDImage/IPFcolor.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index e1ade33..5ee940c 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -53,7 +53,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
       ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)
     phcount += 1
   phase = ((ebsddata[-1]['phase']).copy()).clip(0).reshape(npoints,1)
-  ipfout = np.choose(phase, ipfphase).squeeze()
+  ipfout = np.choose(phase, ipfphase).reshape(npoints,3)
   ipfout[ebsddata[-1]['fit'] > 179,:] = 0
 
 
@@ -108,13 +108,10 @@ def qu2ipf_cubic(quats, vector=np.array([0,0,1.0])):
   return ipf_color_cubic(xstalvect).clip(0.0, 1.0)
 
 def ipf_color_cubic(xstalvect):
-  shp = xstalvect.shape
-  if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
-  else:
-    xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  xstalv = np.atleast_2d(np.array(xstalvect, dtype=np.float64))
+  npoints = xstalv.shape[0]
 
+  xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv = np.abs(xstalv)
   xstalv = np.sort(xstalv, axis=1)
   # project to sterographic triangle
@@ -256,12 +253,8 @@ def qu2ipf_hex(quats, vector=np.array([0,0,1.0])):
   return ipf_color_hex(xstalvect).clip(0.0, 1.0)
 
 def ipf_color_hex(xstalvect):
-  shp = xstalvect.shape
-  if len(shp) == 1:
-    xstalv = np.copy(xstalvect.reshape(1,shp))
-  else:
-    xstalv = np.copy(xstalvect)
-  npoints = shp[0]
+  xstalv = np.atleast_2d(np.array(xstalvect, dtype=np.float64))
+  npoints = xstalv.shape[0]
 
   xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]
   xstalv[xstalv[:, 2] < 0, :] *= -1
-- 
2.43.0


From 53f0676edbf6f19d179de09e8ea743ff30283669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 62/94] fix: makeipf changed the colours of the map when a
 scale bar was added

---
 pyebsdindex/EBSDImage/IPFcolor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/EBSDImage/IPFcolor.py b/pyebsdindex/EBSDImage/IPFcolor.py
index 5ee940c..944cfb7 100644
--- a/pyebsdindex/EBSDImage/IPFcolor.py
+++ b/pyebsdindex/EBSDImage/IPFcolor.py
@@ -97,7 +97,7 @@ def makeipf(ebsddata, indexer, vector=np.array([0,0,1.0]), xsize = None, ysize =
 
 
   if addmicronbar == True:
-    ipf_out = micronbar.addmicronbar(ipf_out, indexer.fID.xStep, rescale=True, **kwargs)
+    ipf_out = micronbar.addmicronbar(ipf_out, indexer.fID.xStep, rescale=False, **kwargs)
   return ipf_out
 
 
-- 
2.43.0


From 1d17801610a8857177275ac94a2ee75a417bbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 63/94] fix: scale bar gave NaN for images of one value or a
 few columns, dropped the column of one-column images, and failed for widths
 of exactly one unit

---
 pyebsdindex/EBSDImage/micronbar.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/EBSDImage/micronbar.py b/pyebsdindex/EBSDImage/micronbar.py
index c87e1c4..0b44c94 100644
--- a/pyebsdindex/EBSDImage/micronbar.py
+++ b/pyebsdindex/EBSDImage/micronbar.py
@@ -148,7 +148,9 @@ def addmicronbar(image,
   rescaleim = image.astype(np.float32)
   if rescale == True:
     rescaleim -= rescaleim.min()
-    rescaleim *= (1.0 / (rescaleim.max())) * 0.999
+    immax = rescaleim.max()
+    if immax > 0:
+      rescaleim *= (1.0 / immax) * 0.999
 
   rescaleim = rescaleim.reshape((imshape[0], imshape[1], channels))
   stepadjust = 1.0
@@ -220,8 +222,7 @@ def addmicronbar(image,
   draw.text(txoffset, imtext, fill=text_color, font=imfont)
 
   underbar = np.array(underbarim, dtype=np.float32)
-  underbar -= underbar.min()
-  underbar *= 1.0/underbar.max()
+  underbar *= 1.0/255.0
   underbar *= rescaleim.max()-rescaleim.min()
   underbar += rescaleim.min()
 
@@ -233,7 +234,8 @@ def addmicronbar(image,
   scalebarim[0:imshape[0], 0:imshape[1], :] = rescaleim
   for i in range(channels):
     scalebarim[imshape[0]:, 0:imshape[1], i] = underbar
-  scalebarim = np.squeeze(scalebarim)
+  if channels == 1:
+    scalebarim = scalebarim[:, :, 0]
   return scalebarim
 
 def _round_micronbar(image_width, pixel_width, imfract=0.333):
@@ -273,6 +275,6 @@ def _round_micronbar(image_width, pixel_width, imfract=0.333):
     units = 'mm'
     max_scale_bar_size *= 0.001
     pixel_width *= 0.001
-  scale_bar_size = sequence[sequence < max_scale_bar_size].max()
+  scale_bar_size = sequence[sequence <= max_scale_bar_size].max()
   scale_bar_size_px = np.int64(np.float32(scale_bar_size/np.float32(pixel_width)))
   return scale_bar_size, scale_bar_size_px, units
\ No newline at end of file
-- 
2.43.0


From a58a5e1fef3e69d597260de456f74ccdc7a42bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 64/94] fix: indexing with a single reflector family read past
 the vote array and could crash

---
 pyebsdindex/tripletvote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ef77dab..5ff84aa 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -1124,7 +1124,9 @@ class BandIndexer():
           band_cm[p,q] = 0.0
         else:
           srt = np.argsort(accumulatorW[p,:,q])
-          band_cm[p,q] = (accumulatorW[p,srt[-1],q] - accumulatorW[p,srt[-2],q]) / (tvotes[p,q])
+          band_cm[p,q] = accumulatorW[p,srt[-1],q] / (tvotes[p,q])
+          if nfam > 1: # a single family has no runner-up
+            band_cm[p,q] = (accumulatorW[p,srt[-1],q] - accumulatorW[p,srt[-2],q]) / (tvotes[p,q])
       #for q in range(n_bands):
         bandFam[p,q] = np.argmax(accumulatorW[p,:,q])
       bandRank[p,:] = (n_bands - np.arange(n_bands)) / n_bands * band_cm[p,:] * mxvote[p,:]
-- 
2.43.0


From e79ee3477052cacbe3edb7c5163cad3c8f8b05d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 65/94] fix: collecting a background from a file with an even
 stride failed with a TypeError

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index c1c5924..2ffbea6 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -323,7 +323,7 @@ class BandDetect():
         stride = np.sort(stride)
       elif method.upper() == 'EVENSTRIDE':
         step = int(npats / nsample) # not great, but maybe good enough.
-        stride = np.arange(0,npats, step, dypte = np.uint64)
+        stride = np.arange(0,npats, step, dtype = np.uint64)
       pat1 = fileobj.read_data(convertToFloat=True,patStartCount=[stride[0], 1],returnArrayOnly=True)[0]
       for i in stride[1:]:
         pat1 += fileobj.read_data(convertToFloat=True,patStartCount=[i, 1],returnArrayOnly=True)[0]
-- 
2.43.0


From d9b9b8a6adf095f0046929163e69f51786acf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 66/94] fix: NLPAR without saturation protection left out the
 brightest pixels of patterns with values above 2**24

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index aa3cf7f..80117dc 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -689,7 +689,7 @@ class NLPAR:
     winsz = np.int32((2*sr+1)**2)
     mxval = np.max(data)
     if saturation_protect == False:
-      mxval += np.float32(1.0)
+      mxval = np.float32(np.inf)
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-- 
2.43.0


From 6fcbc1f9c8c96d82895e67974554d2197a584476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 67/94] fix: patterns written to files of 32 bit integers were
 clipped or scaled to 0 - 255

---
 pyebsdindex/ebsd_pattern.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 7e393ce..122f58c 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -141,21 +141,20 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     return pats.astype(typeout)
 
   minval = 0
-  maxval = 255
-  if (isinstance(typeout(0), np.uint16)):
-    typeout = np.uint16
-    minval = 0
-    maxval = 65535
-
+  maxval = int(np.iinfo(typeout).max)
+  # float32 cannot hold all the integers that a type of more than 16 bits can.
+  calctype = np.float32 if np.iinfo(typeout).bits <= 16 else np.float64
 
   patsout = np.zeros(shp, dtype=typeout)
 
   if method=='clip':
     if maxScale is not None:
       maxval = min(maxScale, maxval)
+    if (isinstance(pats.dtype.type(0), np.floating)) and (np.dtype(calctype).itemsize > pats.dtype.itemsize):
+      pats = pats.astype(calctype) # so that the limit is not rounded up to a value that overflows.
     patsout[:,:,:] = pats.clip(minval, maxval).astype(dtype=typeout)
   elif method=='fullscale':
-    temp = pats.astype(np.float32) - minp
+    temp = pats.astype(calctype) - minp
     if maxScale is None:
       maxScale = temp.max()
     temp *= scalevalue * maxval / maxScale
@@ -163,7 +162,7 @@ def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=Non
     temp = np.around(temp)
     patsout[:,:,:] = temp.astype(typeout)
   elif method=='scale': # here we assume that the min if not < 0 should not be scaled.
-    temp = pats.astype(np.float32)
+    temp = pats.astype(calctype)
     if minp < minval:
       temp += minval  - minp 
     if maxScale is None:
-- 
2.43.0


From a248eda67fd3b4e489ad88ba569970b09ebf6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 68/94] fix: number of patterns of version 1 UP files whose
 data do not start at byte 16

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 122f58c..eb6e789 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -463,7 +463,7 @@ class UPFile(EBSDPatternFile):
       self.patternW = dat[0]
       self.patternH = dat[1]
       self.filePos = dat[2]
-      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - 16) /
+      self.nPatterns = np.int64((Path(self.filepath).expanduser().stat().st_size - np.int64(self.filePos)) /
                               (self.patternW * self.patternH * (self.filedatatype(0).nbytes)))
       if self.xStep is None:
         self.xStep = 0.0
-- 
2.43.0


From 9cc6477aeff08aea714e8d64c1c6b25ed1762285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 69/94] fix: background fit started from a tenth of the
 amplitude and often ended in a local minimum without the gaussian

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 2ffbea6..6bc734c 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -376,7 +376,7 @@ class BandDetect():
     minz = zwh.min()
     # initialize a guess for the parameters.
     # [gauss amplitude, max loc x, max loc y, sigx, sigy, const offset, slope x, slope y]
-    p0 = [(zwh.max() - zwh.min())*0.1, whmx[1], whmx[0], nx/2.355, ny/2.355, minz, 0, 0]
+    p0 = [(zwh.max() - zwh.min()), whmx[1], whmx[0], nx/2.355, ny/2.355, minz, 0, 0]
     try:
       popt, pcov = scipyopt.curve_fit(fit_gauss, xywh, zwh, p0)
       backfit = (gaussian_surf(x, y, *popt)).reshape(ny, nx)
-- 
2.43.0


From fffb04cd82089fadef82847255868c3eb057c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 70/94] fix: a given band detection plan with room for fewer
 phases than the indexer has made indexing fail

---
 pyebsdindex/_ebsd_index_single.py |  5 +++++
 pyebsdindex/band_detect.py        | 19 ++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 683a7cc..5dfaede 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -31,6 +31,7 @@
 single thread.
 """
 
+from copy import copy
 from timeit import default_timer as timer
 
 import numpy as np
@@ -386,6 +387,10 @@ class EBSDIndexer:
             )
         else:
             self.bandDetectPlan = bandDetectPlan
+            if self.bandDetectPlan.nPhases < len(self.phaseLib):
+                # the band data need room for the match index of every phase
+                self.bandDetectPlan = copy(bandDetectPlan)
+                self.bandDetectPlan.setnphases(len(self.phaseLib))
 
         if self.fID is not None:
             self.bandDetectPlan.band_detect_setup(
diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 6bc734c..82b66ba 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -94,21 +94,13 @@ class BandDetect():
     self.rhomask1 = None
 
     self.nBands = nBands
-    if nPhases is None:
-      nPhases = 10
-    self.nPhases = nPhases
+    self.setnphases(nPhases)
 
     self.EDAXIQ = False
     self.backgroundsub = None
     self.patternmask = None
     self.useCPU = True
 
-    self.dataType = np.dtype([('id', np.int32), ('max', np.float32), ('normmax', np.float32),
-                    ('maxloc', np.float32, (2)), ('avemax', np.float32), ('aveloc', np.float32, (2)),
-                    ('pqmax', np.float32), ('width', np.float32), ('theta', np.float32), ('rho', np.float32),
-                    ('valid', np.int8),('band_match_index', np.int64, (self.nPhases, ))])
-
-
     if (patterns is None) and (patDim is None):
       pass
     else:
@@ -129,6 +121,15 @@ class BandDetect():
                              patternmask = self.patternmask,patternmaskindex = patternmaskindex,
                              **kwargs)
 
+  def setnphases(self, nPhases=None):
+    if nPhases is None:
+      nPhases = 10
+    self.nPhases = nPhases
+    self.dataType = np.dtype([('id', np.int32), ('max', np.float32), ('normmax', np.float32),
+                    ('maxloc', np.float32, (2)), ('avemax', np.float32), ('aveloc', np.float32, (2)),
+                    ('pqmax', np.float32), ('width', np.float32), ('theta', np.float32), ('rho', np.float32),
+                    ('valid', np.int8),('band_match_index', np.int64, (self.nPhases, ))])
+
   def band_detect_setup(self, patterns=None,patDim=None,nTheta=None,nRho=None,\
                       tSigma=None, rSigma=None,rhoMaskFrac=None,nBands=None,
                       patternmask=None, patternmaskindex=None, **kwargs):
-- 
2.43.0


From 97f65b3067336f415bb6e4cf6d131640e9493b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 71/94] fix: hexagonal grids of EDAX and kikuchipy HDF5 files
 were taken for square ones

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index eb6e789..3e7190f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1611,7 +1611,7 @@ class EDAXOH5(HDF5PatFile):
       headerpath = (f[self.h5patdatpth].parent.parent)["Header"]
       self.nCols = np.uint32(headerpath['nColumns'][()][0])
       self.nRows = np.uint32(headerpath['nRows'][()][0])
-      self.hexflag = np.uint32(headerpath['Grid Type'][()][0] == 'HexGrid')
+      self.hexflag = np.uint32(headerpath['Grid Type'][()][0] in ('HexGrid', b'HexGrid'))
 
       self.xStep = np.float32(headerpath['Step X'][()][0])
       self.yStep = np.float32(headerpath['Step Y'][()][0])
@@ -1666,7 +1666,7 @@ class KIKUCHIPYH5(HDF5PatFile):
       headerpath = (f[self.h5patdatpth].parent.parent)["Header"]
       self.nCols = np.uint32(headerpath['n_columns'][()][0])
       self.nRows = np.uint32(headerpath['n_rows'][()][0])
-      self.hexflag = np.uint32(headerpath['grid_type'][()][0] == 'hexagonal')
+      self.hexflag = np.uint32(headerpath['grid_type'][()][0] in ('hexagonal', b'hexagonal'))
 
       self.xStep = np.float32(headerpath['step_x'][()][0])
       self.yStep = np.float32(headerpath['step_y'][()][0])
-- 
2.43.0


From 9dcd515241e21867eafc6b98a66ab3128536cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 72/94] fix: HDF5 pattern file objects could not be created
 without a path

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 3e7190f..d6260e7 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -199,6 +199,7 @@ class EBSDPatterns():
 # Any EBSD file class should inheret this class.
 class EBSDPatternFile():
   def __init__(self,path, filetype=None):
+    self.filepath = None
     self.set_filepath(path)
     self.vendor = None
     self.version = None
-- 
2.43.0


From 90ac362205ec56cb3bf7214d550b68f854b31480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 73/94] fix: default smoothing and padding of band detection
 were kept when pattern size or resolution change

---
 pyebsdindex/band_detect.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 82b66ba..adaee68 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -86,6 +86,8 @@ class BandDetect():
     self.tSigma = tSigma
     self.rSigma = rSigma
     self.kernel = None
+    self.tSigmaDefault = None  # the smoothing worked out here when none is given
+    self.rSigmaDefault = None
     self.peakPad = np.array([11, 11])
     self.padding = np.array([11, 11])
     self.rhoMaskFrac = rhoMaskFrac
@@ -250,20 +252,23 @@ class BandDetect():
 
     if tSigma is not None:
       self.tSigma = tSigma
+      self.tSigmaDefault = None
       recalc_masks = True
     if rSigma is not None:
       self.rSigma = rSigma
+      self.rSigmaDefault = None
       recalc_masks = True
 
     if (self.rhoMaskFrac is not None):
       recalc_masks = True
 
-    if (self.tSigma is None) and (self.dTheta is not None):
-      self.tSigma = 1.0/self.dTheta
+    # a default of an earlier setup does not fit another resolution or pattern size.
+    if ((self.tSigma is None) or (self.tSigma == self.tSigmaDefault)) and (self.dTheta is not None):
+      self.tSigma = self.tSigmaDefault = 1.0/self.dTheta
       recalc_masks = True
 
-    if (self.rSigma is None) and (self.dRho is not None):
-      self.rSigma = 0.5/np.float32(self.dRho)
+    if ((self.rSigma is None) or (self.rSigma == self.rSigmaDefault)) and (self.dRho is not None):
+      self.rSigma = self.rSigmaDefault = 0.5/np.float32(self.dRho)
       recalc_masks = True
 
     if recalc_masks == True:
@@ -278,7 +283,7 @@ class BandDetect():
       self.peakPad = np.array(np.around([2 * ksz[0], 2 * ksz[1]]), dtype=np.int64)
       self.peakPad += 1 - np.mod(self.peakPad, 2)  # make sure we have it as odd.
 
-    self.padding = np.array([np.max( [self.peakPad[0], self.padding[0]] ), np.max([self.peakPad[1], self.padding[1]])])
+    self.padding = np.array([np.max([self.peakPad[0], 11]), np.max([self.peakPad[1], 11])])
 
     if nBands is not None:
       self.nBands = nBands
-- 
2.43.0


From 6ce55b07ee3b838b9f605f351c42f26850694b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 74/94] fix: result files with one pattern center per pattern
 had a broken header or failed

---
 pyebsdindex/ebsdfile.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index b537f24..aeeb01c 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -8,12 +8,13 @@ def writeang(filename, indexer, data,
              gridtype = 'SqrGrid', xstep=1.0, ystep=1.0,
              ncols = None, nrows=None):
   fpath = Path(filename).expanduser()
+  pc = np.mean(np.atleast_2d(indexer.PC), axis=0) # there can be one PC for each pattern
   with open(fpath,'w',encoding = 'utf-8') as f:
     f.write('# HEADER: Start \r\n')
     f.write('# TEM_PIXperUM          1.000000\r\n')
-    f.write('# x-star                ' + str(indexer.PC[0])+'\r\n')
-    f.write('# y-star                ' + str(indexer.PC[1])+'\r\n')
-    f.write('# z-star                ' + str(indexer.PC[2])+'\r\n')
+    f.write('# x-star                ' + str(pc[0])+'\r\n')
+    f.write('# y-star                ' + str(pc[1])+'\r\n')
+    f.write('# z-star                ' + str(pc[2])+'\r\n')
     f.write('# SampleTiltAngle       ' + str(indexer.sampleTilt)+'\r\n')
     f.write('# CameraElevationAngle  ' + str(indexer.camElev)+'\r\n')
     f.write('# '+'\r\n')
@@ -103,6 +104,7 @@ def writeoh5(filename, indexer, data,
                gridtype='SqrGrid', xstep=1.0, ystep=1.0,
                ncols=None, nrows=None, datasetname='Scan 1', version='8.6'):
     fpath = Path(filename).expanduser()
+    pc = np.mean(np.atleast_2d(indexer.PC), axis=0) # there can be one PC for each pattern
 
     nphase = data.shape[0] - 1
     phaseIDadd = 0
@@ -127,15 +129,15 @@ def writeoh5(filename, indexer, data,
       chararray[:] = gtype
       f.create_dataset(datasetname + '/EBSD/Header/Grid Type', data=chararray)
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/AdjMode', data=np.array([np.int32(3)]))
-      f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/x-star', data=np.array([np.float64(indexer.PC[0])]))
+      f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/x-star', data=np.array([np.float64(pc[0])]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/xAdjCoeff0', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/xAdjCoeff1', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/xAdjCoeff2', data=np.array([np.float64(0.0)]))
-      f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/y-star', data=np.array([np.float64(indexer.PC[1])]))
+      f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/y-star', data=np.array([np.float64(pc[1])]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/yAdjCoeff0', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/yAdjCoeff1', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/yAdjCoeff2', data=np.array([np.float64(0.0)]))
-      f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/z-star', data=np.array([np.float64(indexer.PC[2])]))
+      f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/z-star', data=np.array([np.float64(pc[2])]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/zAdjCoeff0', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/zAdjCoeff1', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Pattern Center Calibration/zAdjCoeff2', data=np.array([np.float64(0.0)]))
-- 
2.43.0


From de902acf08d0a6a9f33b256cd42cabe38047616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 75/94] fix: number of rows of files without a grid when a file
 object is pointed at another file

UPFile (version 1) and HDF5PatFile kept nRows of the first file, so patterns beyond its number of rows could not be read.
---
 pyebsdindex/ebsd_pattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index d6260e7..5374e1f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -474,8 +474,8 @@ class UPFile(EBSDPatternFile):
         self.nCols = np.uint64(1)
       if self.nCols == 0:
         self.nCols = np.uint64(1)
-      if self.nRows is None:
-        self.nRows = np.uint64(np.floor(self.nPatterns/self.nCols))
+      # nCols may be that of the user or of another file, every pattern needs a place.
+      self.nRows = np.uint64(np.ceil(self.nPatterns / self.nCols))
 
     elif self.version >= 3:
       dat = np.fromfile(f, dtype=np.uint32, count=3)
@@ -1561,8 +1561,8 @@ class HDF5PatFile(EBSDPatternFile):
         self.nCols = np.uint64(1)
       if self.nCols == 0:
         self.nCols = np.uint64(1)
-      if self.nRows is None:
-        self.nRows = np.uint64(np.floor(self.nPatterns/self.nCols))
+      # nCols may be that of the user or of another file, every pattern needs a place.
+      self.nRows = np.uint64(np.ceil(self.nPatterns / self.nCols))
 
 class EDAXOH5(HDF5PatFile):
   def __init__(self, path=None):
-- 
2.43.0


From 5fb4f43785fd6160b0d990de392d1f2746a5e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 76/94] fix: tiles of a scan had gaps, overlapped unevenly or
 reached beyond the scan (GPU NLPAR)

---
 pyebsdindex/nlpar_cpu.py | 90 ++++++----------------------------------
 1 file changed, 13 insertions(+), 77 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 80117dc..2a32a10 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -761,89 +761,25 @@ class NLPAR:
 
   def _calcchunks(self, patdim, ncol, nrow, target_bytes=2e9, col_overlap=0, row_overlap=0, col_offset=0, row_offset=0):
 
-    col_overlap = min(col_overlap, ncol - 1)
-    row_overlap = min(row_overlap, nrow - 1)
-
     byteperpat = patdim[-1] * patdim[-2] * 4 * 2  # assume a 4 byte float input and output array
     byteperdataset = byteperpat * ncol * nrow
     nchunks = int(np.ceil(byteperdataset / target_bytes))
 
-    ncolchunks = (max(np.round(np.sqrt(nchunks * float(ncol) / nrow)), 1))
-    colstep = max((ncol / ncolchunks), 1)
-    ncolchunks = max(ncol / colstep, 1)
-    colstepov = min(colstep + 2 * col_overlap, ncol)
-    ncolchunks = max(int(np.ceil(ncolchunks)), 1)
-    colstep = max(int(np.round(colstep)), 1)
-    colstepov = min(colstep + 2 * col_overlap, ncol)
-
-    nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
-    rowstep = max((nrow / nrowchunks), 1)
-    nrowchunks = max(nrow / rowstep, 1)
-    rowstepov = min(rowstep + 2 * row_overlap, nrow)
-    nrowchunks = max(int(np.ceil(nrowchunks)), 1)
-    rowstep = max(int(np.round(rowstep)), 1)
-    rowstepov = min(rowstep + 2 * row_overlap, nrow)
-
-    # colchunks = np.round(np.arange(ncolchunks+1)*ncol/ncolchunks).astype(int)
-    # colchunks = np.zeros((ncolchunks, 2), dtype=int)
-    # colchunks[:, 0] = (np.arange(ncolchunks) * colstep).astype(int)
-    # colchunks[:, 1] = colchunks[:, 0] + colstepov - int(col_overlap)
-    # colchunks[:, 0] -= col_overlap
-    # colchunks[0, 0] = 0;
-
-    colchunks = []
-    col_overlap = int(col_overlap)
-    for c in range(ncolchunks):
-      cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstepov) - col_overlap]
-      colchunks.append(cchunk)
-      if cchunk[1] > ncol:
-        break
-
-    ncolchunks = len(colchunks)
-    colchunks = np.array(colchunks, dtype=int)
-    colchunks[0, 0] = 0
-    colchunks[-1, 1] = ncol
-
-    if ncolchunks > 1:
-      colchunks[-1, 0] = max(0, colchunks[-2, 1] -  2*col_overlap-1)
-
+    # A tile that is narrower than the overlap would reach beyond its neighbors.
+    def axischunks(n, nchunk, overlap):
+      nchunk = int(max(min(nchunk, n // max(int(overlap), 1)), 1))
+      edges = np.round(np.arange(nchunk + 1) * int(n) / nchunk).astype(int)
+      chunks = np.stack((edges[:-1] - int(overlap), edges[1:] + int(overlap)), axis=1)
+      chunks[0, 0] = 0
+      chunks[-1, 1] = n
+      return nchunk, chunks
+
+    ncolchunks = max(np.round(np.sqrt(nchunks * float(ncol) / nrow)), 1)
+    ncolchunks, colchunks = axischunks(ncol, ncolchunks, col_overlap)
     colchunks += col_offset
 
-    # for i in range(ncolchunks - 1):
-    #   if colchunks[i + 1, 0] >= ncol:
-    #     colchunks = colchunks[0:i + 1, :]
-
-    rowchunks = []
-    row_overlap = int(row_overlap)
-    for r in range(nrowchunks):
-      rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
-      rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
-        break
-
-    nrowchunks = len(rowchunks)
-    rowchunks = np.array(rowchunks, dtype=int)
-    rowchunks[0, 0] = 0
-    # for i in range(ncolchunks - 1):
-    #   if colchunks[i + 1, 0] >= ncol:
-    #     colchunks = colchunks[0:i + 1, :]
-
-    rowchunks = []
-    row_overlap = int(row_overlap)
-    for r in range(nrowchunks):
-      rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
-      rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
-        break
-
-    nrowchunks = len(rowchunks)
-    rowchunks = np.array(rowchunks, dtype=int)
-    rowchunks[0, 0] = 0
-    rowchunks[-1, 1] = nrow
-
-    if nrowchunks > 1:
-      rowchunks[-1, 0] = max(0, rowchunks[-2, 1] -  2*row_overlap-1)
-
+    nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
+    nrowchunks, rowchunks = axischunks(nrow, nrowchunks, row_overlap)
     rowchunks += row_offset
 
     return ncolchunks, nrowchunks, colchunks, rowchunks
-- 
2.43.0


From 9bc2ee51d6788a72cd39b8bfcb57748b16d6f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 77/94] fix: mirrored neighbors of GPU NLPAR were read before
 the start of the data for scans smaller than the window

---
 pyebsdindex/opencl/clnlpar.cl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 4dcd022..1b8dc70 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -144,13 +144,13 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
       for(j=y-nn; j<=y+nn; ++j){
           
           indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j < nrow) ? (indx_j): max(nrow - (indx_j -nrow +1), 0L);
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){      
             
               indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij < ncol) ? (indx_ij): max(ncol - (indx_ij -ncol +1), 0L);
               indx_ij = npatpoint*(indx_ij + indx_j);
               
               mask1 = mask0;
@@ -227,13 +227,13 @@ __kernel void normd(
     for(j=y-nn; j<=y+nn; ++j){
           
           indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j < nrow) ? (indx_j): max(nrow - (indx_j -nrow +1), 0L);
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){  
               
                indx_ij =  (i >= 0) ? (i): abs(i);
-               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+               indx_ij =  (indx_ij < ncol) ? (indx_ij): max(ncol - (indx_ij -ncol +1), 0L);
                indx_ij =  (indx_ij + indx_j);
                sigma_ij = sigma[indx_ij];
                sigma_ij *= sigma_ij;
@@ -318,13 +318,13 @@ __kernel void calcnlpar(
       for(j=y-sr; j<=y+sr; ++j){
           
           indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j < nrow) ? (indx_j): max(nrow - (indx_j -nrow +1), 0L);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
               indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij < ncol) ? (indx_ij): max(ncol - (indx_ij -ncol +1), 0L);
               
               indx_ij = (indx_ij + indx_j);
               
@@ -369,7 +369,7 @@ __kernel void calcnlpar(
   for(j=y-sr; j<=y+sr; ++j){
           
           indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j < nrow) ? (indx_j): max(nrow - (indx_j -nrow +1), 0L);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
@@ -377,7 +377,7 @@ __kernel void calcnlpar(
               dd = d[count]; 
               if (dd > 1.e-3){
                 indx_ij =  (i >= 0) ? (i): abs(i);
-                indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+                indx_ij =  (indx_ij < ncol) ? (indx_ij): max(ncol - (indx_ij -ncol +1), 0L);
                 
                 indx_ij = (indx_ij + indx_j);
                 
@@ -426,13 +426,13 @@ __kernel void calcnlpar(
       for(j=y-sr; j<=y+sr; ++j){
           
           indx_j =  (j >= 0) ? (j): abs(j);
-          indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j < nrow) ? (indx_j): max(nrow - (indx_j -nrow +1), 0L);
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
               indx_ij =  (i >= 0) ? (i): abs(i);
-              indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij < ncol) ? (indx_ij): max(ncol - (indx_ij -ncol +1), 0L);
               
               indx_ij = (indx_ij + indx_j);
               
-- 
2.43.0


From 22719b2329ba062fd86e5664f4d58290f0734fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 78/94] fix: GPU NLPAR weighed all neighbors by the noise of
 the central pattern

---
 pyebsdindex/opencl/clnlpar.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 1b8dc70..4934050 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -381,7 +381,7 @@ __kernel void calcnlpar(
                 
                 indx_ij = (indx_ij + indx_j);
                 
-                sigma_ij = sigma[indx_xy];
+                sigma_ij = sigma[indx_ij];
                 sigma_ij *= sigma_ij; 
                 nn = n[count]; 
                 dd -= nn*(sigma_ij+sigma0);
-- 
2.43.0


From 8ab505bc054fe97edb9f4582612dde8e5f245f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 79/94] fix: GPU NLPAR added to the uninitialised offset of a
 repeated central pattern

---
 pyebsdindex/opencl/clnlpar.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 4934050..a6a1b77 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -345,7 +345,7 @@ __kernel void calcnlpar(
               dd = sum16(&d1);
               if (indx_ij == indx0) {
                 dd = -1.0;
-                diff_step[count] +=  diff_offset;
+                diff_step[count] = diff_offset;
               } else{
                 dd = dd;
                 diff_step[count] = 0.0; //diff_offset;
-- 
2.43.0


From c0aa75bc0131bd1f8fa810ecc1288abfa9259fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 80/94] fix: GPU NLPAR used the noise and mask found for one
 file for the next one

---
 pyebsdindex/opencl/nlpar_cl.py    | 14 +++++++-------
 pyebsdindex/opencl/nlpar_clray.py | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 1796ed6..62fd3c2 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -129,7 +129,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     if autoupdate == True:
       self.lam = np.median(np.mean(lamopt_values, axis=0))
     if self.sigma is None:
-      self.sigma = sigma
+      self.sigma = self._fromfile['sigma'] = sigma
     return lamopt_values.flatten()
 
 
@@ -183,9 +183,9 @@ class NLPAR(nlpar_cpu.NLPAR):
                               col_overlap=1, row_overlap=1)
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight, pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight, pwidth), dtype=np.uint8)
 
     #indices = np.asarray((self.mask.flatten().nonzero())[0], np.uint64)
     #nindices = np.uint64(indices.size)
@@ -298,7 +298,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     datapad_gpu.release()
     queue.flush()
     queue = None
-    self.sigma = sigma
+    self.sigma = self._fromfile['sigma'] = sigma
     return sigma, dist, countnn
 
 
@@ -364,16 +364,16 @@ class NLPAR(nlpar_cpu.NLPAR):
         self.sigma = None
 
     if self.sigma is None:
-      self.sigma = self.calcsigma_cl(nn=1, saturation_protect=saturation_protect, automask=automask, gpu_id=gpu_id)[0]
+      self.sigma = self._fromfile['sigma'] = self.calcsigma_cl(nn=1, saturation_protect=saturation_protect, automask=automask, gpu_id=gpu_id)[0]
 
     sigma = np.asarray(self.sigma).astype(np.float32)
 
 
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight, pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight, pwidth), dtype=np.uint8)
 
     scalemethod = 'clip'
     self.rescale = False
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index dfd0382..23ced0f 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -137,9 +137,9 @@ class NLPAR(nlpar_cl.NLPAR):
     npat_point = int(pwidth * pheight)
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight, pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight, pwidth), dtype=np.uint8)
 
     mask = self.mask.astype(np.float32)
 
@@ -431,16 +431,16 @@ class NLPAR(nlpar_cl.NLPAR):
         self.sigma = None
 
     if self.sigma is None:
-      self.sigma = self.calcsigma_cl(nn=1, saturation_protect=saturation_protect, automask=automask, gpu_id=gpu_id)[0]
+      self.sigma = self._fromfile['sigma'] = self.calcsigma_cl(nn=1, saturation_protect=saturation_protect, automask=automask, gpu_id=gpu_id)[0]
 
     sigma = np.asarray(self.sigma).astype(np.float32)
 
 
 
     if (automask is True) and (self.mask is None):
-      self.mask = (self.automask(pheight, pwidth))
+      self.mask = self._fromfile['mask'] = (self.automask(pheight, pwidth))
     if self.mask is None:
-      self.mask = np.ones((pheight, pwidth), dtype=np.uint8)
+      self.mask = self._fromfile['mask'] = np.ones((pheight, pwidth), dtype=np.uint8)
 
     scalemethod = 'clip'
     self.rescale = False
-- 
2.43.0


From 323538fa578d4396f14a76d071c180a75acaf0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 81/94] fix: GPU NLPAR failed for a scalar sigma and kept a
 sigma of other rows or columns

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++--
 pyebsdindex/opencl/nlpar_clray.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 62fd3c2..40611e1 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -354,13 +354,13 @@ class NLPAR(nlpar_cpu.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
         self.sigma = None
 
     if self.sigma is None:
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 23ced0f..4cdc9c8 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -421,13 +421,13 @@ class NLPAR(nlpar_cl.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
         self.sigma = None
 
     if self.sigma is None:
-- 
2.43.0


From 90133755a787bc286049b5d862054ee55982ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 82/94] fix: GPU NLPAR set lambda to the median over the mean
 of the values of all targets

---
 pyebsdindex/opencl/nlpar_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 40611e1..470163c 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -127,7 +127,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     print("Range of lambda values: ", lamopt_values.flatten())
     print("Optimal Choice: ", np.median(lamopt_values))
     if autoupdate == True:
-      self.lam = np.median(np.mean(lamopt_values, axis=0))
+      self.lam = np.median(lamopt_values)
     if self.sigma is None:
       self.sigma = self._fromfile['sigma'] = sigma
     return lamopt_values.flatten()
-- 
2.43.0


From 2f67df8ab6f31cba50ce4b39c4af1cd252cf1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 83/94] fix: noise estimate of GPU NLPAR ignored the neighbors
 across tiles for nn larger than 1

---
 pyebsdindex/opencl/nlpar_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 470163c..2cbb092 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -180,7 +180,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     npat_point = int(pwidth * pheight)
     #print(target_mem)
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=1, row_overlap=1)
+                              col_overlap=nn, row_overlap=nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = self._fromfile['mask'] = (self.automask(pheight, pwidth))
-- 
2.43.0


From 0e9fc63690305c473a9baa182fce7b3362406ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 84/94] fix: GPU NLPAR had no kernels for signed, 32 and 64 bit
 patterns, and took the brightest pixels as saturated for large values

---
 pyebsdindex/opencl/nlpar_cl.py    | 8 ++++++--
 pyebsdindex/opencl/nlpar_clray.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 2cbb092..45fa290 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -236,10 +236,12 @@ class NLPAR(nlpar_cpu.NLPAR):
 
         data, xyloc = patternfile.read_data(patStartCount=[[cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
+        if data.dtype not in (np.float32, np.uint8, np.uint16): # there are no kernels for other types
+          data = data.astype(np.float32)
 
         mxval = data.max()
         if saturation_protect == False:
-          mxval += 1.0
+          mxval = np.nextafter(np.float32(mxval + 1.0), np.float32(np.inf)) # above also what has no room for 1.0
         else:
           mxval *= 0.9961
 
@@ -511,6 +513,8 @@ class NLPAR(nlpar_cpu.NLPAR):
 
         data, xyloc = patternfile.read_data(patStartCount=[[ cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
+        if data.dtype not in (np.float32, np.uint8, np.uint16): # there are no kernels for other types
+          data = data.astype(np.float32)
 
 
         mxval0 = data.max()
@@ -522,7 +526,7 @@ class NLPAR(nlpar_cpu.NLPAR):
        
 
         if saturation_protect == False:
-          mxval += 1.0
+          mxval = np.nextafter(np.float32(mxval + 1.0), np.float32(np.inf)) # above also what has no room for 1.0
         else:
           mxval *= 0.9961
 
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index 4cdc9c8..fbfb4b7 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -263,6 +263,8 @@ class NLPAR(nlpar_cl.NLPAR):
     nn = self.sigmann
 
     data = np.ascontiguousarray(data)
+    if data.dtype not in (np.float32, np.uint8, np.uint16): # there are no kernels for other types
+      data = data.astype(np.float32)
     ctx = clparams.ctx
     prg = clparams.prg
     clparams.get_queue()
@@ -314,7 +316,7 @@ class NLPAR(nlpar_cl.NLPAR):
 
     mxval = data.max()
     if saturation_protect == False:
-      mxval += 1.0
+      mxval = np.nextafter(np.float32(mxval + 1.0), np.float32(np.inf)) # above also what has no room for 1.0
     else:
       mxval *= 0.9961
 
@@ -579,6 +581,8 @@ class NLPAR(nlpar_cl.NLPAR):
 
   def _nlparchunkcalc_cl(self, data, calclim, clparams=None):
     data = np.ascontiguousarray(data)
+    if data.dtype not in (np.float32, np.uint8, np.uint16): # there are no kernels for other types
+      data = data.astype(np.float32)
     ctx = clparams.ctx
     prg = clparams.prg
     clparams.get_queue()
@@ -616,7 +620,7 @@ class NLPAR(nlpar_cl.NLPAR):
     # precalculate some needed arrays for the GPU
     mxval = data.max()
     if self.saturation_protect == False:
-      mxval += 1.0
+      mxval = np.nextafter(np.float32(mxval + 1.0), np.float32(np.inf)) # above also what has no room for 1.0
     else:
       mxval *= 0.9961
 
-- 
2.43.0


From 7c8dcf80bc5563b4882f9fa6dd651dafc3eaa239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 85/94] fix: last vector of a pattern was read and written
 beyond the buffers of GPU NLPAR

---
 pyebsdindex/opencl/nlpar_cl.py    | 4 ++--
 pyebsdindex/opencl/nlpar_clray.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 45fa290..dbed982 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -206,7 +206,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     #return chunks, chunksize
     mxchunk = chunksize.max()
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen)) + clvectlen # the last vector of a pattern may reach beyond it
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -445,7 +445,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     mxchunk = np.int64(chunksize.max())
     # print("max chunk:" , mxchunk)
 
-    npadmx = clvectlen * np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen))
+    npadmx = clvectlen * np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen)) + clvectlen # the last vector of a pattern may reach beyond it
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index fbfb4b7..d8da134 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -301,7 +301,7 @@ class NLPAR(nlpar_cl.NLPAR):
     #return chunks, chunksize
     mxchunk = data.shape[0]
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen)) + clvectlen # the last vector of a pattern may reach beyond it
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -628,7 +628,7 @@ class NLPAR(nlpar_cl.NLPAR):
     npat_point = int(shpdata[-1]*shpdata[-2])
     npat = shpdata[0]
 
-    npadmx = clvectlen * int(np.ceil(float(npat)*npat_point/ clvectlen))
+    npadmx = clvectlen * int(np.ceil(float(npat)*npat_point/ clvectlen)) + clvectlen # the last vector of a pattern may reach beyond it
     data_gpu = cl.Buffer(ctx, mf.READ_ONLY| mf.COPY_HOST_PTR, hostbuf=data)
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
-- 
2.43.0


From 1a1ed1647cb07cbf55daa6d8375f5e8379679f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 86/94] fix: a tile that failed in a GPU NLPAR worker blocked
 the worker for ever

---
 pyebsdindex/opencl/nlpar_clray.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index d8da134..24b26a8 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -253,6 +253,14 @@ class NLPAR(nlpar_cl.NLPAR):
             idlewrker.append(busywrker.pop(indx))
             tasks.remove(tsk)
             ndone += 1
+          else: # An error has occurred ... hopefully just need a re-process.
+            idlewrker.append(busywrker.pop(indx))
+            tasks.remove(tsk)
+            job.nattempts += 1
+            if job.nattempts > 3:
+              raise newdata
+            jobqueue.append(job)
+            print(message)
           if verbose >= 2:
             print("tiles complete: ", ndone,"/", njobs,sep='', end='\r'  )
     if verbose >= 2:
@@ -572,6 +580,11 @@ class NLPAR(nlpar_cl.NLPAR):
                   if verbose >= 2:
                     print("tiles complete: ", ndone, "/", njobs, sep='', end='\r')
                 else: #An error has occured ... hopefully just need a re-process.
+                  idlewrker.append(busywrker.pop(indx))
+                  tasks.remove(tsk)
+                  job.nattempts += 1
+                  if job.nattempts > 3:
+                    raise newdata
                   jobqueue.append(job)
                   print(message)
 
@@ -804,6 +817,7 @@ class NLPARGPUJob:
       self.starttime = 0.0
       self.endtime = 0.0
       self.extime = 0.0
+      self.nattempts = 0
 
   def _starttime(self):
     self.starttime = timer()
-- 
2.43.0


From dd0a9e534ab0c69735e632adaecd25d3d0a9866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 87/94] fix: of equally high GPU Radon peaks the last one was
 kept, and not the first

---
 pyebsdindex/opencl/clkernels.cl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index aaa7ffd..24603e0 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -552,7 +552,7 @@ void dirtsort( __global float *maxval1d, __global long int *maxloc1d,
                 long int newloc, float newmax, unsigned long nmax){
 
   unsigned long int i, istop;
-  if (newmax < maxval1d[nmax-1]){
+  if (newmax <= maxval1d[nmax-1]){ // of equal values, the first found is kept.
     return;
   }
   else{
-- 
2.43.0


From 62fb9c0aa5647fd692b0000dd46f4578f26cc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 88/94] fix: GPU band detection found bands in patterns without
 any

---
 pyebsdindex/opencl/clkernels.cl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index 24603e0..6826019 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -449,7 +449,8 @@ __kernel void imageSubMinNormWClip( __global float16 *im1,
   const long int indx = (x+y*imszx)*nImChunk + z;
   const float16 im1val = im1[indx];
   float16 value = im1val - imMin[z];
-  value = select(value, (float16) (0.0f), (value < (float16) (0.0f)) );
+  // differences from the min value within the rounding error are no signal.
+  value = select(value, (float16) (0.0f), (value <= (float16) (1.0e-5f) * fabs(imMin[z])) );
   //value *= ((float16) (1.0))/imAve[z];
 
   //im1[indx] = (value < (float16) (0.0f)) ? (float16) (0.0f) : value;
@@ -624,6 +625,10 @@ __kernel void maxlabel( __global const uchar *maxlocin,__global const float *max
         }
         else{
           imVal2 = maxvalin[(indxy)*nImChunk+z];
+          // a point at the minimum of the image is on a plateau, and not a peak.
+          if (imVal2 <= 0.0f){
+            continue;
+          }
           
           dirtsort(&(maxval[z*lnmax]), &(maxloc[z*lnmax]), indxy, imVal2, lnmax);
         }
-- 
2.43.0


From 2d3fe9d30d40797a5e2d8670b6795ba7fec4d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 89/94] fix: GPU band detection scaled patterns by the range of
 all patterns of the call, failed for integer types, and took off the
 background in other units

---
 pyebsdindex/opencl/band_detect_cl.py | 34 ++++++++++++++++------------
 pyebsdindex/opencl/clkernels.cl      |  4 +---
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 5a3fcd0..d5dc6ee 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -72,15 +72,21 @@ class BandDetect(band_detect.BandDetect):
       else:
         patterns = (patternsIn).copy()
 
-      pscale = np.array([0.0, 1.0])
-
-      if patterns.dtype.kind =='f':
-        mxp = patterns.max()
-        mnp = patterns.min()
-        patterns -= mnp
-        patterns *= (2**16-2.0)/(mxp - mnp)
-        pscale[:] = np.array([mnp,(mxp - mnp) ])
-        patterns = patterns.astype(np.uint16)
+      pscale = 1.0
+      background = self.backgroundsub
+
+      # only 8 and 16 bit unsigned patterns are sent as they are.  All others are sent as floats, each
+      # pattern scaled on its own (by a power of two), so that it does not depend on the other patterns.
+      if patterns.dtype not in (np.dtype(np.uint8), np.dtype(np.uint16)):
+        patterns = patterns.astype(np.float64)
+        if background is not None:
+          patterns -= background
+          background = None
+        mxp = np.abs(patterns).max(axis=(1, 2), keepdims=True)
+        mxp[mxp <= 0] = 1.0
+        pscale = np.exp2(np.ceil(np.log2(mxp)) - 16)
+        patterns = (patterns / pscale).astype(np.float32)
+        pscale = pscale.reshape(-1, 1)
 
 
       shape = patterns.shape
@@ -106,7 +112,7 @@ class BandDetect(band_detect.BandDetect):
         nPatsChunk = chnk[1] - chnk[0]
         #rdnNorm, clparams, rdnNorm_gpu = self.calc_rdn(patterns[chnk[0]:chnk[1],:,:], clparams, use_gpu=self.CLOps[0])
         rdnNorm, clparams = self.radon_fasterCL(patterns[chnk[0]:chnk[1],:,:], padding=self.padding,
-                                                                       fixArtifacts=False, background=self.backgroundsub,
+                                                                       fixArtifacts=False, background=background,
                                                                        returnBuff=True, clparams=clparams)
 
         #rdnNorm, clparams = self.rdn_mask(rdnNorm, clparams=clparams, returnBuff=False)
@@ -160,11 +166,9 @@ class BandDetect(band_detect.BandDetect):
         rdnConv = None
 
         blabeltime += timer() - tic1
-      # correct any scaling that happened due to float-int conversion.
-      bandData['avemax'] *= pscale[1]
-      bandData['avemax'] += pscale[0]
-      bandData['max'] *= pscale[1]
-      bandData['max'] += pscale[0]
+      # correct any scaling that happened due to the conversion of the patterns.
+      bandData['avemax'] *= pscale
+      bandData['max'] *= pscale
       tottime = timer() - tic0
       # going to manually clear the clparams queue -- this should clear the memory of the queue off the GPU
 
diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index 6826019..1efa8ef 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -478,9 +478,7 @@ __kernel void im1EQim2( __global const float *im1, __global const float *im2, __
   const unsigned long int indx = (x + imszx*y)*nImChunk + z;
   const float im1val = im1[indx];
   const float im2val = im2[indx];
-  const float diff = fabs(im1val - im2val);
-  //out[indx] = (diff < 1.0e-6f) ? yes: no;
-  out[indx] = (diff < 1.0e-5f) ? 1: 0;
+  out[indx] = (im1val == im2val) ? 1: 0;
   
   
 }
-- 
2.43.0


From 9b2d3c39ab8354433870e0b207812267a73a3b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 90/94] fix: negative Radon values were taken for missing ones
 on the GPU

---
 pyebsdindex/opencl/band_detect_cl.py | 3 ++-
 pyebsdindex/opencl/clkernels.cl      | 8 +++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index d5dc6ee..d38ef23 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -314,7 +314,8 @@ class BandDetect(band_detect.BandDetect):
                           size=int((self.nRho + 2 * padding[0]) * (self.nTheta + 2 * padding[1]) * nImCL * 4))
 
     rdnIndx_gpu = cl.Buffer(ctx, mf.READ_ONLY | mf.COPY_HOST_PTR, hostbuf=self.radonPlan.indexPlan)
-    cl.enqueue_fill_buffer(queue, radon_gpu, np.float32(self.radonPlan.missingval), 0, radon_gpu.size)
+    # marks the missing values (see radonPadRho2): less than anything a pattern can give.
+    cl.enqueue_fill_buffer(queue, radon_gpu, np.float32(-1.0e12), 0, radon_gpu.size)
     prg.radonSum(queue,(nImChunk,rdnstep),None,rdnIndx_gpu,image_gpuflt,radon_gpu,
                   imstep, indxstep,
                  shpRdn[0], shpRdn[1],
diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index 1efa8ef..1bcd135 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -164,11 +164,9 @@ __kernel void radonSum(
 
 
     const unsigned long int rndIndx = (theta+thetaPad + (rho+rhoPad)*nThetaP)*nImChunk + gid_im;
+    // without any pixels, the value for missing points that radon was filled with is left.
     if (count > 1.0e-6){
       radon[rndIndx] = sum/count;}
-    else{
-      radon[rndIndx] = -1.0;
-    }
     
     }
 
@@ -293,11 +291,11 @@ __kernel void radonPadTheta(
         gid_rdn1 = ( (nTheta* (rhoPad - i)) + gid_theta)*nImChunk + z;
         gid_rdn2 = ((nTheta* (nRho-1-rhoPad+i)) + gid_theta)*nImChunk + z;
         
-        if (radon[gid_rdn1] < 0){
+        if (radon[gid_rdn1] < -1.0e11f){
           radon[gid_rdn1] = rd1p;
         }
 
-        if (radon[gid_rdn2] < 0){
+        if (radon[gid_rdn2] < -1.0e11f){
           radon[gid_rdn2] = rd2p;
         }
         rd1p =  radon[gid_rdn1] ;
-- 
2.43.0


From abcbf451705df2220517c20f8b370abd00289a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 91/94] fix: bands near 0 and 180 degrees were displaced on the
 GPU, the Radon image was not padded in theta

---
 pyebsdindex/opencl/band_detect_cl.py | 9 +++++----
 pyebsdindex/opencl/clkernels.cl      | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index d38ef23..a9f69b4 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -413,16 +413,17 @@ class BandDetect(band_detect.BandDetect):
     #             np.uint64(shp[1]), np.uint64(nImChunk),
     #             np.uint64(self.padding[1]), np.uint64(self.padding[0]))
 
-    # # pad out the radon buffers
-    # prg.radonPadTheta(queue,(shp[2],shp[0],1),None,rdn_gpu,
-    #                 np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(self.padding[1]))
-
+    # pad out the radon buffers
     #prg.radonPadRho2(queue,(shp[2],shp[1],1),None,rdn_gpu,
     #                  np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(self.padding[0]+1))
 
     prg.radonPadRho2(queue, (shp[2], shp[1], 1), None, rdn_gpu,
                  np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(shp[0]//2-1))
 
+    # 0 and 180 degrees in theta meet, with rho reversed.
+    prg.radonPadTheta(queue, (shp[2], shp[0], 1), None, rdn_gpu,
+                 np.uint64(shp[0]),np.uint64(shp[1]),np.uint64(self.padding[1]))
+
     kern_gpu = None
     if separableKernel == False:
       # for now I will assume that the kernel(s) can fit in local memory on the GPU
diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index 1bcd135..2fc0fc5 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -224,11 +224,12 @@ __kernel void radonPadTheta(
     const unsigned long int gid_rho = get_global_id(1);
     unsigned long int gid_rdn1,gid_rdn2, i;
     gid_rdn1 =   (nTheta * gid_rho);
-    gid_rdn2 =   (nTheta * (nRho -1 - gid_rho));
+    // rho of row i is (i+1)*deltaRho - rhoMax, so -rho is row nRho - 2 - i (as on the CPU).
+    gid_rdn2 =   (nTheta * ((gid_rho + 2 <= nRho) ? nRho - 2 - gid_rho : 0));
 
-    for (i = 0; i <= thetaPad; ++i){
-        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[ (gid_rdn2 + (nTheta-1 - (2 * thetaPad)) + i) * nImChunk + gid_im ];
-        radon[ (gid_rdn2 + (nTheta-1 - ( thetaPad)) + i) * nImChunk + gid_im] = radon[ (gid_rdn1 + thetaPad + i)*nImChunk +gid_im];
+    for (i = 0; i < thetaPad; ++i){
+        radon[(i + gid_rdn1)*nImChunk + gid_im] = radon[ (gid_rdn2 + (nTheta - (2 * thetaPad)) + i) * nImChunk + gid_im ];
+        radon[ (gid_rdn1 + (nTheta - thetaPad) + i) * nImChunk + gid_im] = radon[ (gid_rdn2 + thetaPad + i)*nImChunk +gid_im];
     }
 
   }
-- 
2.43.0


From c910d182fc3e3bd2c417bff41b6cc7bbdd8df9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 92/94] fix: a new .up file made from the layout of a file with
 a longer header was too short

---
 pyebsdindex/ebsd_pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 5374e1f..c4b074e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -582,6 +582,7 @@ class UPFile(EBSDPatternFile):
       np.asarray(self.yStep,dtype=np.float64).tofile(f)
 
     if writeBlank == True:
+      f.write(bytes(max(int(self.filePos) - f.tell(), 0))) # the patterns start at filePos
       typewrite = self.filedatatype
       # if self.bitdepth == 8:
       #   type = np.uint8
-- 
2.43.0


From a0d991ba7632fc67a182de2ab0a4def7ee0e6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 93/94] fix: blank patterns of a new .ebsp file were not put at
 filePos, and lost the known locations

---
 pyebsdindex/ebsd_pattern.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c4b074e..e5dad3e 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1009,17 +1009,26 @@ class EBSPFile(EBSDPatternFile):
       pathead = np.array([0, self.patternH, self.patternW,
                           self.patternH * self.patternW * self.filedatatype(0).nbytes], dtype=np.uint32)
 
+      filePos = np.atleast_1d(self.filePos)
       for j in range(self.nRows):
         for i in range(self.nCols):
+          n = i + j * int(self.nCols)
+          if filePos[n] == 0: # a non-stored pattern
+            continue
+          f.seek(int(filePos[n]), 0)
+          x = i * self.xStep - 0.5*(self.nCols*self.xStep)
+          y = j * self.yStep - 0.5*(self.nRows*self.yStep)
+          if self.xypos is not None: # keep the locations of the file
+            x, y = self.xypos[n]
           pathead.tofile(f)
           blank.tofile(f)
           if (self.version > 0) and self.hasxypos:
             if self.version >= 2:
               np.uint8(1).tofile(f)
-            np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tofile(f)
+            np.float64(x).tofile(f)
             if self.version >= 2:
               np.uint8(1).tofile(f)
-            np.float64(j * self.yStep - 0.5*(self.nRows*self.yStep)).tofile(f)
+            np.float64(y).tofile(f)
           else: # no xy_pos info
             if self.version >= 2:
               np.uint8(0).tofile(f)
-- 
2.43.0


From 8fe84c083e12e74f20db10518c730e0221ae9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:24 +0000
Subject: [PATCH 94/94] fix: patterns given as an HDF5 dataset were never
 indexed on the GPU (a dataset has no copy method)

---
 pyebsdindex/opencl/band_detect_cl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index a9f69b4..0ed49b2 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -68,9 +68,9 @@ class BandDetect(band_detect.BandDetect):
       tic = timer()
       ndim = patternsIn.ndim
       if ndim == 2:
-        patterns = (np.expand_dims(patternsIn, axis=0)).copy()
+        patterns = np.array(patternsIn, order="C")[np.newaxis]
       else:
-        patterns = (patternsIn).copy()
+        patterns = np.array(patternsIn, order="C")
 
       pscale = 1.0
       background = self.backgroundsub
-- 
2.43.0

