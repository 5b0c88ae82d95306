From 330e7e6e6788e219e0e97f96a83bcb507977d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 01/53] fix: symmetric Ising helper functions could not be
 compiled (argument types swapped)

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..17a341d 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1001,7 +1001,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit("float64[:](float64[:],int64[:,:])", cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From 480d44838d547c03a8281685702d7a26f8bd945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 02/53] fix: base_repr swapped I and J and added a leading zero
 for large numbers

---
 coniii/utils.py | 51 ++++++++++---------------------------------------
 1 file changed, 10 insertions(+), 41 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 17a341d..8e1db76 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -329,52 +329,21 @@ def base_repr(i, base):
 
 @njit
 def _small_base(i, base):
+    # only integer arithmetic since logarithms are rounded for large i
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
-        exponent += 1
-        term = 1
-    rep.append(NUMERALS[term])
-    i -= term*base**exponent
-    
-    exponent -= 1
-    while exponent>=0:
-        baseToExp = base**exponent
-        if baseToExp>i:
-            rep.append('0')
-        else:
-            term = int(i/baseToExp)
-            rep.append(NUMERALS[term])
-            i -= term*baseToExp
-        exponent -= 1
-    return rep
+    while i>0:
+        rep.append(NUMERALS[i%base])
+        i //= base
+    return rep[::-1]
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
-        exponent += 1
-        term = 1
-    rep.append(ALPHANUM[term])
-    i -= term*base**exponent
-    
-    exponent -= 1
-    while exponent>=0:
-        baseToExp = base**exponent
-        if baseToExp>i:
-            rep.append('0')
-        else:
-            term = int(i/baseToExp)
-            rep.append(ALPHANUM[term])
-            i -= term*baseToExp
-        exponent -= 1
-    return rep
+    while i>0:
+        rep.append(ALPHANUM[i%base])
+        i //= base
+    return rep[::-1]
 
 def convert_params(h, J, convert_to, concat=False):
     """Convert Ising model fields and couplings from {0,1} basis to {-1,1} and vice versa.
-- 
2.43.0


From 2f2b63cb0231d30b754ed99e0afa03d3ccf1e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 03/53] fix: Potts equations could not be written for more than
 10 states

---
 coniii/enumerate_potts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..324f69b 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -146,7 +146,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if int(s[i], 36)==k:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -216,7 +216,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(int(s[i], 36)*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0


From 81ec41afbac3d14bc434a28387de50a30b118ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 04/53] fix: k_corr ignored exclude_empty

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 8e1db76..ab1ac7a 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,6 +243,7 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
+        return kcorr
     
     if weights is None:
         weights = np.ones(S)/S
-- 
2.43.0


From 364d25c5f5ed1499bb3e289b9845a859deef2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 05/53] fix: Potts3.generate_sample sampled an Ising model when
 using boost

---
 coniii/samplers.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..cae511e 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1816,6 +1816,25 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                              sample_size,
+                              n_iters=1000,
+                              burn_in=None,
+                              systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost. See
+        Metropolis.generate_sample_boost().
+        """
+        
+        burn_in = burn_in or n_iters
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From 139a0269425e89ae254d7da2febc882c4eef438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 06/53] fix: C++ samplers misread parameters that were not
 contiguous float64

---
 coniii/samplers.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index cae511e..217fe65 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1217,7 +1217,8 @@ class Metropolis(Sampler):
         burn_in = burn_in or n_iters
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
-        bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler = BoostIsing(self.n, np.ascontiguousarray(self.theta, dtype=float),
+                              int(self.rng.randint(0, 2**31-1)))
         bsampler.generate_sample(sample_size,
                                  burn_in,
                                  n_iters,
@@ -1351,7 +1352,7 @@ class Metropolis(Sampler):
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
             sample_size, seed = args
-            bsampler = BoostIsing(n, multipliers, int(seed))
+            bsampler = BoostIsing(n, np.ascontiguousarray(multipliers, dtype=float), int(seed))
             bsampler.generate_sample(sample_size, burn_in, n_iters, systematic_iter)
             return bsampler.fetch_sample().astype(int)
         
@@ -1493,7 +1494,8 @@ class Metropolis(Sampler):
         assert frozenset((-1,1)) >= set(fixed_subset[1].tolist())
        
         if not parallel:
-            bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+            bsampler = BoostIsing(self.n, np.ascontiguousarray(self.theta, dtype=float),
+                                  int(self.rng.randint(0, 2**31-1)))
             bsampler.generate_cond_sample(fixed_subset[0],
                                           fixed_subset[1],
                                           sample_size,
@@ -1505,7 +1507,7 @@ class Metropolis(Sampler):
             # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
             def f(args, n=self.n, multipliers=self.theta):
                 sample_size, seed = args
-                bsampler = BoostIsing(n, multipliers, int(seed))
+                bsampler = BoostIsing(n, np.ascontiguousarray(multipliers, dtype=float), int(seed))
                 bsampler.generate_cond_sample(fixed_subset[0],
                                               fixed_subset[1],
                                               sample_size,
@@ -1804,7 +1806,7 @@ class Potts3(Metropolis):
         
         # use boost by default
         if boost and IMPORTED_SAMPLERS_EXT:
-            self.bsampler = BoostPotts3(n, theta, self.rng.randint(2**31-1))
+            self.bsampler = BoostPotts3(n, np.ascontiguousarray(theta, dtype=float), self.rng.randint(2**31-1))
 
             # use boost library for fast sampling
             self.generate_sample = self.generate_sample_boost
@@ -1828,7 +1830,8 @@ class Potts3(Metropolis):
         burn_in = burn_in or n_iters
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
-        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler = BoostPotts3(self.n, np.ascontiguousarray(self.theta, dtype=float),
+                               int(self.rng.randint(0, 2**31-1)))
         bsampler.generate_sample(sample_size,
                                  burn_in,
                                  n_iters,
@@ -1867,7 +1870,7 @@ class Potts3(Metropolis):
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
             nSamples, seed = args
-            bsampler = BoostPotts3(n, multipliers, int(seed))
+            bsampler = BoostPotts3(n, np.ascontiguousarray(multipliers, dtype=float), int(seed))
             bsampler.generate_sample(nSamples, burn_in, n_iters, systematic_iter)
             return bsampler.fetch_sample().astype(int)
         
-- 
2.43.0


From 55d2ff1088561da273cc9519bbcf22111def3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 07/53] fix: samplers ignored burn_in=0

---
 coniii/samplers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 217fe65..303407f 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1214,7 +1214,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostIsing(self.n, np.ascontiguousarray(self.theta, dtype=float),
@@ -1256,7 +1256,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=sample_size)):
             self._samples = self.random_sample(1)
@@ -1347,7 +1347,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
 
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
@@ -1391,7 +1391,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = mp.cpu_count()
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=n_cpus)):
@@ -1481,7 +1481,7 @@ class Metropolis(Sampler):
             Energy of each sample.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
@@ -1827,7 +1827,7 @@ class Potts3(Metropolis):
         Metropolis.generate_sample_boost().
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostPotts3(self.n, np.ascontiguousarray(self.theta, dtype=float),
@@ -1862,7 +1862,7 @@ class Potts3(Metropolis):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = self.nCpus  # alias
         assert n_cpus>=2, "Sampler is not set up for multiprocessing, nCpus<=1."
         assert sample_size>n_cpus, "Parallelization only helps if many samples are generated per thread."
-- 
2.43.0


From a98884bd3577631a2170036604c6444b1dc6d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 08/53] fix: systematic iteration restarted at the first spin
 for every sample

---
 coniii/samplers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 303407f..2f43535 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1286,7 +1286,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=(burn_in+counter)%self.n )
                         E += de
                         history[counter] = E
                         counter += 1
@@ -1308,7 +1308,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=(burn_in+counter)%self.n )
                         E += de
                         counter +=1
                     self.sample[i,:] = self._samples[:]
@@ -1432,7 +1432,7 @@ class Metropolis(Sampler):
 
                 for i in range(nSamples):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( s, E, rng=rng, flip_site=j%self.n )
+                        de = self.sample_metropolis( s, E, rng=rng, flip_site=(burn_in+i*n_iters+j)%self.n )
                         E += de
                     samples[i,:] = s[:]
                 return samples, s, E
@@ -1652,7 +1652,8 @@ class Metropolis(Sampler):
                     counter = 0
                     for i in range(sample_size):
                         for j in range(n_iters):
-                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=j%nSubset, calc_e=cond_calc_e)
+                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=(burn_in+counter)%nSubset,
+                                                        calc_e=cond_calc_e)
                             E += de
                             counter += 1
                         self.sample[i,:] = s[:]
-- 
2.43.0


From e52c226ba89bb8d5aeefbd4639f0f72b9ba40ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 09/53] fix: generate_cond_sample overwrote the given initial
 sample

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2f43535..456f8f7 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1570,7 +1570,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = initial_sample.copy()
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
-- 
2.43.0


From 6b221ef92aa6299060f8f791211baad54fd4cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 10/53] fix: WolffIsing used np.bool, which numpy no longer has

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 456f8f7..3278428 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From c70cf0df4615a31c87b3bfc97c62e041b5dd62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 11/53] fix: WolffIsing.one_step ignored initialsite=0

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 3278428..95dbb42 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From 971b08af7d3e5f2f9aa8479aa3a2a96b979663f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 12/53] fix: WolffIsing rejected couplings given as a matrix

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 95dbb42..2b1184f 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -228,7 +228,7 @@ class WolffIsing(Sampler):
             Local fields.
         """
 
-        assert len(J)==(len(h)*(len(h)-1)//2)
+        assert J.shape==(len(h)*(len(h)-1)//2,) or J.shape==(len(h),len(h))
 
         from scipy.spatial.distance import squareform
 
-- 
2.43.0


From f52557f39709a52152f4c5721fe8e1984deee258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 13/53] fix: WolffIsing bond iteration did not compile with
 numba

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2b1184f..562c006 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -396,7 +396,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From 39e33a977f8808a09d646565620ca5b52c6a95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 14/53] fix: MPF did not keep the adj and calc_de functions
 given by the user

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..e998f8e 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -491,9 +491,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From 228d8426dfc29ea231381906f9dd872ebc85a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 15/53] fix: MPF.logK subtracted a constant from the gradient

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index e998f8e..2ae1f10 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -615,7 +615,6 @@ class MPF(Solver):
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
         
         if objGrad.size==1:
             raise Exception("")
-- 
2.43.0


From 9fb12298e1412789ac7979ab647b1e7ee6f2f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 16/53] fix: MPF could not be run with all_connected=False

---
 coniii/solvers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 2ae1f10..f784740 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -597,24 +597,24 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
-        for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
-                              self.model.calc_e(adjacentStates[i], params) )
+        # energy differences for all pairs of states (number of adjacent states may vary)
+        power = np.concatenate([.5*( self.model.calc_e(s[None,:], params) -
+                                     self.model.calc_e(adjacentStates[i], params) )
+                                for i,s in enumerate(Xuniq)])
+        count = np.concatenate([[Xcount[i]]*len(adjacentStates[i]) for i in range(len(Xuniq))])
             
-        obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
+        obj = logsumexp( power + np.log(count) - np.log(Xcount.sum()) )
         
         if self.calc_de is None:
             return obj
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
-            for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+            gradcoef = np.concatenate([.5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+                                       for j,s in enumerate(Xuniq)])
             power -= power.max()
-            objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
-                          (np.exp(power)*Xcount[:,None]).sum())
+            objGrad[i] = ((gradcoef*np.exp(power)*count).sum() /
+                          (np.exp(power)*count).sum())
         
         if objGrad.size==1:
             raise Exception("")
@@ -638,11 +638,11 @@ class MPF(Solver):
             adjacentStates.append( self.adj(s).astype(int) )
             # Remove states already in data
             if not all_connected:
-                ix = np.zeros((s.size))==0
+                ix = np.ones(len(adjacentStates[-1]), dtype=bool)
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if not ix.any():
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From 0211bc51780c476bd62107cba043dc6644b3a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 17/53] fix: Enumerate.solve needed a sample even if
 constraints were given

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index f784740..c36126d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From b76aebe99d18e94a2c1d5d5b844f9a5f44b07de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 18/53] fix: sparse solvers failed for a single parameter

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index c36126d..9cd5bcb 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 63ba5ece57980f682f59e1a213f6b9f200445861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 19/53] fix: sparse solvers rejected the constraints calculated
 from the sample

---
 coniii/solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 9cd5bcb..d189273 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -403,7 +403,9 @@ class SparseEnumerate(Solver):
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
             constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not constraints is None
+            if constraints.size!=self.parameterIx.size:
+                constraints = constraints[self.parameterIx]
         
         # default solver routine
         if use_root:
@@ -1188,7 +1190,9 @@ class SparseMCH(Solver):
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
             constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not constraints is None
+            if constraints.size!=self.parameterIx.size:
+                constraints = constraints[self.parameterIx]
 
 
         # set up for solution
-- 
2.43.0


From 262940f1656e0f8dadbd3c7d7d2dc33705cc03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 20/53] fix: Solver.logp failed for a single state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index d189273..07a079d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From 981a3d3e04bf6142985a57df3a0eafdaf32e524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 21/53] fix: Ising rejected a 2x2 matrix of parameters

---
 coniii/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..98adc88 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -149,7 +149,7 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
+        if len(multipliers)==2 and not (type(multipliers) is np.ndarray and multipliers.ndim==2):
             # case where two vectors are given
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
-- 
2.43.0


From fc2c2fac0f7842a424c69ea804578bcba6a1589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 22/53] fix: Model.generate_sample ignored generate_kwargs

---
 coniii/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/models.py b/coniii/models.py
index 98adc88..1c97294 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -112,7 +112,8 @@ class Model():
                 self.sampler.update_parameters(multipliers)
                 self.sampler.generate_sample(sample_size,
                                              n_iters=n_iters,
-                                             burn_in=burn_in)
+                                             burn_in=burn_in,
+                                             **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
@@ -123,7 +124,8 @@ class Model():
 
                 self.sampler.generate_sample_parallel(sample_size,
                                                       n_iters=n_iters,
-                                                      burn_in=burn_in)
+                                                      burn_in=burn_in,
+                                                      **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
-- 
2.43.0


From f0ccdf60435dadada4b66bb5c199a916261d499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:49 +0000
Subject: [PATCH 23/53] fix: Pseudo permuted the couplings of the initial guess

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 07a079d..0040954 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1756,9 +1756,8 @@ class Pseudo(Solver):
         # reformat initial_guess for easy looping later
         initial_guessAsMat = replace_diag(squareform(initial_guess[self.n:]), initial_guess[:self.n])
         for i in range(1,self.n):
-            tmp = initial_guessAsMat[i,i]
-            initial_guessAsMat[i,i] = initial_guessAsMat[i,0]
-            initial_guessAsMat[i,0] = tmp
+            # field first, then couplings in order of the other spins (see get_multipliers_r)
+            initial_guessAsMat[i] = np.append(initial_guessAsMat[i,i], np.delete(initial_guessAsMat[i], i))
         # initialize variables that will be used later 
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
         soln = []  # list of output from scipy.optimize.minimize for each spin
-- 
2.43.0


From 051e5b684e7998d1a03d03c49bc111cf7a580a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 24/53] fix: BoostIsing.readin_multipliers left the couplings
 of the Metropolis step unchanged

---
 cpp/samplers.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..649ef25 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -285,18 +285,9 @@ Ising::Ising(int n, std::vector<double> multipliers, int seed)
 
 Ising::Ising(int n, np::ndarray new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
-     int counter = 0;
-
      // read in numpy array
      readin_multipliers(new_multipliers);
 
-     // setup couplings by copying to a matrix
-     for (int i=0; i<(n-1); ++i) {
-         for (int j=i+1; j<n; ++j) {
-             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
-             counter++;
-         }
-     }
      // check that diagonal is zero
      for (int i=0; i<n; ++i) {
          assert (couplingMat[i][i]==0);
@@ -304,6 +295,7 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 };
 
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
+    int counter = 0;
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
     double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
@@ -311,6 +303,14 @@ void Ising::readin_multipliers(np::ndarray new_multipliers) {
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
     }
+
+    // setup couplings by copying to a matrix
+    for (int i=0; i<(n-1); ++i) {
+        for (int j=i+1; j<n; ++j) {
+            couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
+            counter++;
+        }
+    }
 };
 
 // Initialize samples with random -1, 1 values
-- 
2.43.0


From 81e22f907ef107e2819aca0b807457d384376cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 25/53] fix: ClusterExpansion used undefined names for the
 mean-field reference and the analytic entropy

---
 coniii/solvers.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 0040954..86c347a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2206,19 +2206,19 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
             i = min(cluster[0],cluster[1])
             j = max(cluster[0],cluster[1])
             pi = coocMat[i,i]
             pj = coocMat[j,j]
             pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            Jii1 = -np.log( pi / (1.-pi) )
+            Jjj1 = -np.log( pj / (1.-pj) )
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
@@ -2337,7 +2337,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2495,7 +2495,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From c33375202199d5db632a9d6506aa476700f03aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 26/53] fix: SmeanField returned a matrix that was not exactly
 symmetric, which the solvers then rejected

---
 coniii/mean_field_ising.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 11e3c4a..f163630 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -215,7 +215,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
     if indTerm:
         hMF -= scipy.log(freqs/(1.-freqs))
     
-    J = replaceDiag( 0.5*JMF, hMF )
+    # (JMF is symmetric up to rounding, but squareform() only accepts exactly symmetric matrices)
+    J = replaceDiag( 0.25*(JMF + JMF.T), hMF )
     
     if alternateEnt:
         ent = analyticEntropy(J)
-- 
2.43.0


From 640a909868201f353c92b0251bfe1a960cc0e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 27/53] fix: RegularizedMeanField used parameters and samples
 in mismatched bases and doubled the couplings

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 86c347a..abb4cea 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2669,10 +2669,11 @@ class RegularizedMeanField(Solver):
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           # J is symmetric and in the {0,1} basis, but the model samples in the {-1,1} basis
+           self.model.set_multipliers(convert_params(-J.diagonal(), squareform(-zero_diag(J))*2, '11',
+                                                     concat=True))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample+1)/2
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
@@ -2722,7 +2723,6 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
 
         # convert J to {-1,1} basis
         h = -J.diagonal()
-- 
2.43.0


From 4ce151a7c9dc947bb0d07968f6657ed57df3e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 28/53] fix: ClusterExpansion read zeros for the cooccurrences
 of clusters with unsorted indices

---
 coniii/mean_field_ising.py | 3 ++-
 coniii/solvers.py          | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index f163630..c574401 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -120,7 +120,8 @@ def susc(h,J,ell,T):
 def coocCluster(coocMat, cluster):
     """Sort coocMat by the cluster indices"""
     orderedIndices = cluster
-    sortedMat = scipy.array(coocMat)[:]
+    # coocMat may be upper-triangular and the indices may be in any order
+    sortedMat = symmetrizeUsingUpper(scipy.array(coocMat))
     sortedMat = sortedMat[orderedIndices,:]
     sortedMat = sortedMat[:,orderedIndices]
     return sortedMat
diff --git a/coniii/solvers.py b/coniii/solvers.py
index abb4cea..c0ff54c 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2208,11 +2208,11 @@ class ClusterExpansion(Solver):
             p = coocMat[cluster[0],cluster[0]]
             J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
-            i = min(cluster[0],cluster[1])
-            j = max(cluster[0],cluster[1])
+            i = cluster[0]
+            j = cluster[1]
             pi = coocMat[i,i]
             pj = coocMat[j,j]
-            pij = coocMat[i,j]
+            pij = coocMat[min(i,j),max(i,j)]
             Jii1 = -np.log( pi / (1.-pi) )
             Jjj1 = -np.log( pj / (1.-pj) )
             Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
-- 
2.43.0


From 02f53e35f8cc1b8309b6a2869d431d86e9843b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 29/53] fix: coarse_grain_with_func paired a column with itself
 if no similarity was positive

---
 coniii/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index ab1ac7a..7f3bb11 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1299,8 +1299,9 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     # Combine sets of spins with the largest pairwise correlations
     for coarseix in range(n_times):
         n = coarseX.shape[1]
-        cij = squareform(sim_func(coarseX))
+        cij = squareform(sim_func(coarseX)).astype(float)
         assert cij.shape==(n,n)
+        np.fill_diagonal(cij, -np.inf)  # never pair a column with itself
         ix = list(range(coarseX.shape[1]))
         
         newClusters = []
-- 
2.43.0


From 356352088e27881227934fce83d3777a456b3719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 30/53] fix: Ising2D rejected integer fields and arrays of
 fields

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From bc39dcde58305f3d0fea78485e22789e1a820283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 31/53] fix: Ising2D aligned spins against their local field

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..83a1d7c 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -99,7 +99,7 @@ class Ising2D():
             dE-=2*J
         
         # Local field.
-        dE-=2*lattice[i,j]*h
+        dE+=2*lattice[i,j]*h
         
         if dE<=0:
             lattice[i,j]*=-1
-- 
2.43.0


From 021e55b891b7b19d17f25c34a1460a9053b472c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 32/53] fix: coarse_grain rejected lattices that are not square

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 83a1d7c..451bf94 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -122,11 +122,11 @@ def coarse_grain(lattice, factor):
     """
 
     reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
-    reL=len(reLattice)
+    reL, reW=reLattice.shape
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL,:reW]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From c5b34cd995836557400195eef9414bcb0ec436e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 33/53] fix: ising.utils.Ising rejected lists of parameters

---
 coniii/ising/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/ising/utils.py b/coniii/ising/utils.py
index 8bc36c9..77bffdf 100644
--- a/coniii/ising/utils.py
+++ b/coniii/ising/utils.py
@@ -54,12 +54,14 @@ class Ising():
         elif not hasattr(h, '__len__'):
             h = np.zeros(n)+h
         else:
+            h = np.array(h)
             assert len(h)==n, "Number of fields should be equal to n."
         if J is None:
             J = np.zeros(n*(n-1)//2)
         elif not hasattr(J, '__len__'):
             J = np.zeros(n*(n-1)//2)+J
         else:
+            J = np.array(J)
             assert len(J)==(n*(n-1)//2), "Number of couplings should be equal to n choose 2."
         assert h.ndim==1 and J.ndim==1, "Both h and J must be provided as vectors."
         
-- 
2.43.0


From 55d1ed73e7ad7714e2c7cdf03c8b67061bb57563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 34/53] fix: check_e_logp imported a package that does not
 exist

---
 coniii/samplers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 562c006..7989418 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2423,8 +2423,6 @@ def check_e_logp(sample, calc_e):
     calc_e
     """
 
-    from misc.utils import unique_rows
-
     uniqueix = unique_rows(sample,return_inverse=True)
     uniqStates = sample[unique_rows(sample)]
 
-- 
2.43.0


From dc21d7a3e77ef027f3be9501db9ecaf291aea9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 35/53] fix: pseudoInverseIsing passed a Hessian that does not
 belong to the objective

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..33c4cd9 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -61,7 +61,7 @@ def pseudoInverseIsing(samples,minSize=0):
         Jr0[r] = hList[r]
         
         # 12.10.2013
-        samplesRhat = data.copy()
+        samplesRhat = 2.*data.copy()
         samplesRhat[:,r] = scipy.ones(len(data))
         # calculate once and pass to hessian algorithm for speed
         pairCoocRhat = pairCoocMat(samplesRhat)
-- 
2.43.0


From d532eb341301b224845bfbb24289027d965801cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 36/53] fix: pseudoLogLikelihood used the couplings of all
 spins for each of them

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 33c4cd9..4ab0748 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
-- 
2.43.0


From 03beb2d1f0393bd06d63a25d70af48b5b3d2d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 37/53] fix: convert_corr could not read its deprecated keyword
 convertTo

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 7f3bb11..49b6f5b 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -558,7 +558,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From bb18f32b6f65062a2915f885653d2ff9da01f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 38/53] fix: multinomial rounded down the exponential of a
 logarithm

---
 coniii/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 49b6f5b..855d312 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -486,9 +486,12 @@ def unravel_index(ijk, n):
     return ix
 
 def multinomial(*args):
-    from scipy.special import factorial
+    from math import factorial
     assert sum(args[1:])==args[0]
-    return int(np.exp( np.log(factorial(args[0])) - sum([np.log(factorial(a)) for a in args[1:]]) ))
+    m = factorial(args[0])
+    for a in args[1:]:
+        m //= factorial(a)
+    return m
 
 def _expand_binomial(a, b, n=2):
     """Expand a product of binomials that have the same coefficients given by a and b.
-- 
2.43.0


From 13167bbaf665a802c756b7b3532148456cea6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 39/53] fix: get_nidx used a function that is not imported

---
 coniii/enumerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..fb64c52 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -32,7 +32,7 @@
 import numpy as np
 import mpmath as mp
 import scipy.special as ss
-from itertools import combinations
+from itertools import combinations, product
 import sys
 np.set_printoptions(threshold=sys.maxsize)
 
@@ -396,7 +396,7 @@ def get_nidx(k, n):
     if k==n:
         return np.reshape(list(range(n)),(n,1))
     elif k<n:
-        allStates = bin_states(n)
+        allStates = np.array(list(product([0,1], repeat=n)))
         statesix = np.sum(allStates,1)==k
         ix = []
         for s in allStates[statesix,:]:
-- 
2.43.0


From 247818c46f6840c6ba08f78686b022ab549c5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 40/53] fix: Ising2D random iteration flipped more spins than
 asked for

---
 coniii/ising/automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 451bf94..0cb875c 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -62,7 +62,8 @@ class Ising2D():
         counter = 0
         while counter < n_iters:
             single_iteration(lattice)
-            counter += self.dim[0]*self.dim[1]
+            # systematic iteration runs through the lattice, random iteration does all n_iters at once
+            counter += self.dim[0]*self.dim[1] if systematic else n_iters
         self.lattice = lattice
 
     @staticmethod
-- 
2.43.0


From ce5e64073f5f567172900a7be3bf8e96518d4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 41/53] fix: Ising2D ignored its random number generator for
 the initial lattice

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 0cb875c..4fe032f 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
+        self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+h
-        self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
         """
-- 
2.43.0


From a7a94292539ee25c6a46e312e3e280da57f59a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 42/53] fix: deprecated Pseudo solver passed a Hessian that
 does not belong to the objective

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index c0ff54c..b25163b 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2000,7 +2000,7 @@ class Pseudo(Solver):
             Jr0 = np.zeros(self.n)
             Jr0[r] = hList[r]
             
-            XRhat = X.copy()
+            XRhat = 2.*X.copy()
             XRhat[:,r] = np.ones(len(X))
             # calculate once and pass to hessian algorithm for speed
             pairCoocRhat = self.pair_cooc_mat(XRhat)
-- 
2.43.0


From e7b2243766c201bc3ba975c44ef8fc64daf9e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 43/53] fix: Pseudo.pseudo_log_likelihood called an undefined
 function

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b25163b..be890b1 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2130,7 +2130,7 @@ class Pseudo(Solver):
             J should be symmetric
         """
 
-        return np.sum([ cond_log_likelihood(r,X,J) for r in range(len(J)) ])
+        return np.sum([ self.cond_log_likelihood(r,X,J[r]) for r in range(len(J)) ])
 #end Pseudo
 
 
-- 
2.43.0


From 546bb0f0b5397c45448e2f4ed52dc8245d3cd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 44/53] fix: pair_corr, calc_overlap and cooccurrence_matrix
 overflowed for samples of small integers

---
 coniii/mean_field_ising.py | 2 +-
 coniii/utils.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index c574401..a1fab68 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -456,7 +456,7 @@ def cooccurrence_matrix(samples, keep_diag=True):
     ndarray
     """
 
-    mat = samples.T.dot(samples)
+    mat = samples.T.dot(samples.astype(float))  # (int8 would overflow)
     mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
     mat /= len(samples)  # mat /= np.sum(mat)
     return mat
diff --git a/coniii/utils.py b/coniii/utils.py
index 855d312..bf810c5 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -107,7 +107,7 @@ def calc_overlap(sample,ignore_zeros=False):
         Instead of normalizing by the number of spins, normalize by the minimum number of
         nonzero spins.
     """
-    overlap = sample.dot(sample.T)
+    overlap = sample.dot(sample.T.astype(float))  # (int8 would overflow)
     if ignore_zeros:
         countZeros = np.zeros((len(sample),len(sample),2))
         countZeros[:,:,0] = (sample==0).sum(1)[:,None]
@@ -172,7 +172,7 @@ def pair_corr(X,
     # Calculate pairwise correlations depending on whether or not exclude_empty was set or not.
     if type(weights) is tuple:
         si = X.sum(0) * weights[0]
-        sisj = (X.T.dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
+        sisj = (X.T.dot(X.astype(float)))[np.triu_indices(X.shape[1],k=1)] * weights[1]  # (int8 would overflow)
     else:
         si = (X*weights[:,None]).sum(0)
         sisj = (X.T.dot(X*weights[:,None]))[np.triu_indices(X.shape[1],k=1)]
-- 
2.43.0


From 141a1873b6855217aeb2c07413421b4830993f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 45/53] fix: Pseudo truncated the parameters to whole numbers
 for an initial guess of integers

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index be890b1..4f6bf3d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1767,7 +1767,7 @@ class Pseudo(Solver):
         for r in range(self.n):
             # to use below...
             multipliersrix = self.get_multipliers_r(r, initial_guess)[1]
-            guess = initial_guess.copy()
+            guess = initial_guess.astype(float)
 
             # params only change the terms relevant to the particular spin being considered
             def f(params):
@@ -1832,7 +1832,7 @@ class Pseudo(Solver):
         def f(params):
             # running sums of function evaluations over all spins
             loglikelihood = 0
-            dloglikelihood = np.zeros_like(initial_guess)  # gradient
+            dloglikelihood = np.zeros(initial_guess.size)  # gradient
 
             # iterate through each spin
             for r in range(self.n):
@@ -1903,7 +1903,7 @@ class Pseudo(Solver):
         def f(params):
             # running sums of function evaluations over all spins
             loglikelihood = 0
-            dloglikelihood = np.zeros_like(initial_guess)  # gradient
+            dloglikelihood = np.zeros(initial_guess.size)  # gradient
 
             # iterate through each spin
             for r in range(self.n):
-- 
2.43.0


From ca1a464d74f20b8e730d8896e9855af771fb5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 46/53] fix: MCH and SparseMCH failed for an initial guess of
 integers

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4f6bf3d..6442111 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -871,7 +871,7 @@ class MCH(Solver):
         # parameters is stored.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
-            self._multipliers = initial_guess.copy()
+            self._multipliers = initial_guess.astype(float)
         else:
             self._multipliers = np.zeros((len(constraints)))
         tol = tol or 1/np.sqrt(self.model.sampleSize)
@@ -1203,7 +1203,7 @@ class SparseMCH(Solver):
         # the ones that have been set to 0.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
-            self._multipliers = self.fill_in(initial_guess)
+            self._multipliers = self.fill_in(initial_guess.astype(float))
         else:
             self._multipliers = self.fill_in(np.zeros(constraints.size))
         tol = tol or 1/np.sqrt(self.model.sampleSize)
-- 
2.43.0


From 9b24f5077739a370bf68de33484a3586dca3dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 47/53] fix: energies of Ising models with integer parameters
 could not be calculated

---
 coniii/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 1c97294..1bca8a8 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -194,7 +194,7 @@ class Ising(Model):
         copy of self.multipliers.
         """
 
-        self.multipliers = multipliers
+        self.multipliers = np.asarray(multipliers, dtype=float)  # calc_e takes no integers
 
         # if system is small enough, we can use enumeration to calculate observables from the multipliers
         if not self._calc_observables is None:
-- 
2.43.0


From b3f0cc7da84d78d8fda98ee313629c2b370330c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 48/53] fix: ParallelTempering did not draw its replicas from
 the generator given

---
 coniii/samplers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 7989418..4ef8d62 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -683,7 +683,10 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            # each replica has its own generator seeded by the one given
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e,
+                                             rng=np.random.RandomState(self.rng.randint(2**31-1)),
+                                             boost=False) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From 5d97430392bd8cf33d50ce0a7fe41bf0a5233080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 49/53] fix: coarse_grain of a lattice overflowed for blocks of
 more than 181 x 181 sites

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 4fe032f..e9d9d4f 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -122,13 +122,13 @@ def coarse_grain(lattice, factor):
     renormalized_lattice : ndarray
     """
 
-    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
+    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int64)
     reL, reW=reLattice.shape
 
     for i in range(factor):
         for j in range(factor):
             reLattice+=lattice[i::factor,j::factor][:reL,:reW]
-    reLattice=np.sign(reLattice)
+    reLattice=np.sign(reLattice).astype(np.int16)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
     return reLattice
-- 
2.43.0


From 1ee4bdc6095c6753844f7f27af8f9dd7e2b65514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 50/53] fix: mean-field couplings were wrong when eigenvalues
 of the correlation matrix repeat

---
 coniii/mean_field_ising.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index a1fab68..1364055 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -188,7 +188,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
             gamma = meanFieldPriorLmbda / numSamples
         else:
             gamma = 0.
-        mq,vq = scipy.linalg.eig(M)
+        # (eig() does not return orthogonal eigenvectors of repeated eigenvalues)
+        mq,vq = scipy.linalg.eigh(M)
         mqhat = 0.5*( mq-gamma +                        \
                 scipy.sqrt((mq-gamma)**2 + 4.*gamma) )
         jq = 1./mqhat #1. - 1./mqhat
-- 
2.43.0


From eddc92068dcd8ffb797c261fc97b82bfcfbb5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 51/53] fix: WolffIsing.generate_sample_parallel did not draw
 its seeds from the generator given

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 4ef8d62..da740ad 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -290,7 +290,7 @@ class WolffIsing(Sampler):
             return s
         
         pool=mp.Pool(mp.cpu_count())
-        sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
+        sample=np.vstack(pool.map(f,list(zip(sample,self.rng.randint(2**31-1,size=samplesize)))))
         pool.close()
         return sample
 
-- 
2.43.0


From 438fbcc71c5a0310b15ac9afa5996190596683f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 52/53] fix: WolffIsing overwrote the initial states that it
 was given

---
 coniii/samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index da740ad..3434ced 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -252,7 +252,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         
         if save_history:
             history = np.zeros((samplesize,self.n,n_iters+1))
@@ -277,7 +277,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         #if (n_iters%self.n)!=0:
         #    n_iters = (n_iters//self.n+1)*self.n  # hit each spin the same number of times
         #    print "Increased n_iters to %d"%n_iters
-- 
2.43.0


From b1f606beb0c6299542c7cf68a872980d5ebc2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 53/53] fix: energy history of generate_sample_py ended with an
 entry that belongs to no step

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 3434ced..d5e1db1 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1284,7 +1284,7 @@ class Metropolis(Sampler):
                 E += de
         
         if saveHistory:
-            history = np.zeros(sample_size*n_iters+1)
+            history = np.zeros(sample_size*n_iters)
 
             if systematic_iter:
                 counter = 0
-- 
2.43.0

