From 1d892cbb7a2420ae4bb8c4b24d07da4eadcafa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:59 +0000
Subject: [PATCH 01/32] fix: look up domain degeneracy by domain, not by rank

---
 pmesh/_domain.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..e37c250 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,11 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
 
+            # degeneracy is per domain, so look it up before the domain
+            # index is replaced by the rank.
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From eed52fdf41346dd3187f97bfa434e2559cf84621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 02/32] fix: apply the affine scale to the tuned PCS gradient
 window

---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..e1eb658 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -29,11 +29,11 @@
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
             V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
-                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
+                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])) * painter->scale[d]; \
             V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
-                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])) * painter->scale[d]; \
+            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])) * painter->scale[d]; \
+            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])) * painter->scale[d]; \
         } \
     } \
 \
-- 
2.43.0


From 34b5ce0a6e41a187106eec806b106fcdfadb4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 03/32] fix: use the tuned windows only when the window is not
 scaled

The integer support alone is not enough, e.g. CIC with hsml = 0.8 rounds up to
a support of 2 and was painted with the unscaled window.
---
 pmesh/_window_tuned_cic.h | 2 +-
 pmesh/_window_tuned_nnb.h | 2 +-
 pmesh/_window_tuned_pcs.h | 2 +-
 pmesh/_window_tuned_tsc.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_cic.h b/pmesh/_window_tuned_cic.h
index de10378..e448762 100644
--- a/pmesh/_window_tuned_cic.h
+++ b/pmesh/_window_tuned_cic.h
@@ -135,7 +135,7 @@ mkname(_cic_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_cic) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 2) return 0;
+    if(window->support != 2 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_cic_tuned_paint1); \
diff --git a/pmesh/_window_tuned_nnb.h b/pmesh/_window_tuned_nnb.h
index 8b3522e..643f097 100644
--- a/pmesh/_window_tuned_nnb.h
+++ b/pmesh/_window_tuned_nnb.h
@@ -103,7 +103,7 @@ mkname(_nnb_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_nnb) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 1) return 0;
+    if(window->support != 1 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_nnb_tuned_paint1); \
diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index e1eb658..7aab439 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -299,7 +299,7 @@ mkname(_pcs_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_pcs) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 4) return 0;
+    if(window->support != 4 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_pcs_tuned_paint1); \
diff --git a/pmesh/_window_tuned_tsc.h b/pmesh/_window_tuned_tsc.h
index f70731b..2b60346 100644
--- a/pmesh/_window_tuned_tsc.h
+++ b/pmesh/_window_tuned_tsc.h
@@ -188,7 +188,7 @@ mkname(_tsc_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_tsc) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 3) return 0;
+    if(window->support != 3 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_tsc_tuned_paint1); \
-- 
2.43.0


From 49ea4def8bd7112c73f01e59d5f7cbe27a51a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:11 +0000
Subject: [PATCH 04/32] fix: upsample with the ghost zone of the resampler, not
 a fixed 1.6 cells

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..9362888 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1968,7 +1968,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From 477b312a9ac25547f55ae03471797137ceb60114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:11 +0000
Subject: [PATCH 05/32] fix: raise the shape mismatch in promote on all ranks

---
 pmesh/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..fe8dbb3 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -52,7 +52,7 @@ def promote(data, comm):
     dtype_root = comm.bcast(data.dtype)
     data = data.astype(dtype_root)
     shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    if any(comm.allgather(shape_root[1:] != data.shape[1:])):
         raise ValueError('the shape of the data does not match across ranks.')
     return data
 
-- 
2.43.0


From 0061bb4d42eb6e3fa2aed93a529faa73ccfb9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:07 +0000
Subject: [PATCH 06/32] fix: send particles to all domains within a wide
 periodic smoothing

The periodic wrapping of the edges of the smoothing region lost the number of
periods, such that a region wrapping around back to the domain of the particle
was taken as an empty one.
---
 pmesh/domain.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index fe8dbb3..09d51c4 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -614,14 +614,15 @@ class GridND(object):
                     if periodic:
                         boxsize = self.edges[j][-1]
                         c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
-                        p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
-                        #print(l, p, r)
-                        sil[j, s] = l
-                        sir[j, s] = r
+                        nl, l = numpy.divmod(c - smoothing[j], boxsize)
+                        nr, r = numpy.divmod(c + smoothing[j], boxsize)
+                        # domain indices before the periodic wrapping, such that
+                        # a wide smoothing is not mistaken as a narrow one.
+                        l = self._digitize(l, self.edges[j], right=False) - 1 + nl * self.shape[j]
+                        r = self._digitize(r, self.edges[j], right=False) + nr * self.shape[j]
+                        sil[j, s] = l % self.shape[j]
+                        # no need to visit any domain more than once.
+                        sir[j, s] = l % self.shape[j] + (r - l).clip(0, self.shape[j])
                     else:
                         l = self._digitize(tmp - smoothing[j], self.edges[j], right=False)
                         r = self._digitize(tmp + smoothing[j], self.edges[j], right=False)
-- 
2.43.0


From 0cdcc57f400c09041b3255922f0014dbca60e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 07/32] fix: positions rounded up to BoxSize by remainder
 belong to the first domain

---
 pmesh/domain.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 09d51c4..c0a0040 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -47,6 +47,15 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
         out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
     return out
 
+def periodic_wrap(x, period):
+    """ wrap x into [0, period).
+
+        numpy.remainder rounds a tiny negative number to period, which belongs
+        to none of the domains.
+    """
+    x = numpy.remainder(x, period)
+    return numpy.where(x >= period, 0, x)
+
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
@@ -441,7 +450,7 @@ class GridND(object):
                 chunk = transform(pos[s])
                 for j in range(self.ndim):
                     if periodic:
-                        tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        tmp = periodic_wrap(chunk[:, j], self.edges[j][-1])
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -552,7 +561,7 @@ class GridND(object):
             s = slice(i, i + chunksize)
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
-                chunk = numpy.remainder(chunk,  BoxSize)
+                chunk = periodic_wrap(chunk, BoxSize)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
-- 
2.43.0


From 07a50b3fd220705aa2a29da0c41c59ec5a5c382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 08/32] fix: coordinates of meshes with an odd number of cells

The fold is at (N + 1) // 2, otherwise the positive most mode is given an
out of range negative coordinate.
---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 9362888..b7ee9d2 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From 0b98e6b6ed16b5ba7c8a6fa94f111f2f6d3a7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 09/32] fix: hermitian weights of meshes with an odd number of
 cells

There is no Nyquist plane if Nmesh is odd.
---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b7ee9d2..7a473e7 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -913,7 +913,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (self.Nmesh[-1] - i[-1]) % self.Nmesh[-1] != i[-1]
         y += mask * y
         return y
 
-- 
2.43.0


From 490058792ea6d79080e30e881bd3f8634445b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 10/32] fix: resample to the same mesh is only a Fourier
 transform

It used to carry on and remove the Nyquist modes.
---
 pmesh/pm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 7a473e7..850ff03 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -491,6 +491,7 @@ class Field(NDArrayLike):
         if all(out.Nmesh == self.Nmesh):
             # no resampling needed. Just do Fourier transforms.
             self.cast(type=_gettype(out), out=out)
+            return out
 
         self = self.cast(type=TransposedComplexField)
 
-- 
2.43.0


From 126246c26a1b74b79f15aa1a7251af19e6f1ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 11/32] fix: resample into an untransposed complex field

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 850ff03..453121a 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -542,8 +542,8 @@ class Field(NDArrayLike):
                    for ii, n in zip(i, self.Nmesh)])
             slab[mask] = 0
 
-        if isinstance(out, RealField):
-            complex.c2r(out)
+        if not isinstance(out, TransposedComplexField):
+            complex.cast(type=_gettype(out), out=out)
 
         return out
 
-- 
2.43.0


From 51599f331873a4abd1e85882981cb013a67ff81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 12/32] fix: use the global maximum velocity in lic

A rank local maximum gives a different ghost zone on each rank.
---
 pmesh/lic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..d5b3957 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -1,4 +1,5 @@
 import numpy
+from mpi4py import MPI
 from .window import FindResampler
 
 def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=True):
@@ -58,7 +59,8 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
+    # the displacement bound shall agree on all ranks
+    vmax = pm.comm.allreduce(max(abs(v[...]).max(initial=0) for v in vectors), op=MPI.MAX)
 
     for sign in [-1, +1]:
         x = Q.copy()
-- 
2.43.0


From 1809c39db2d1d8b5b087d2dc612ee0a4bab7f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 13/32] fix: readout_jvp ignored the gradient argument

---
 pmesh/pm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 453121a..01b4f0e 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -848,6 +848,9 @@ class RealField(Field):
 
     def readout_jvp(self, pos, v_self=None, v_pos=None, resampler=None, transform=None, gradient=None, layout=None):
         """ f_i = W_qi A_q """
+        if v_pos is not None and gradient is not None:
+            raise ValueError("gradient of gradient is not yet supported")
+
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
@@ -855,7 +858,7 @@ class RealField(Field):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From f9cf161e7be1999ee6460cc7c2b2a5d3218a0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 14/32] fix: reject meshes of unsupported precision

They were accessed as single precision.
---
 pmesh/_whitenoise.pyx | 3 ++-
 pmesh/_window.pyx     | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pmesh/_whitenoise.pyx b/pmesh/_whitenoise.pyx
index 789d70b..05b5391 100644
--- a/pmesh/_whitenoise.pyx
+++ b/pmesh/_whitenoise.pyx
@@ -24,7 +24,8 @@ cdef extern from "_whitenoise_imp.h":
     void pmesh_whitenoise_generator_fill(PMeshWhiteNoiseGenerator * self)
 
 def generate(numpy.ndarray complex, ptrdiff_t [:] start, ptrdiff_t [:] Nmesh, unsigned int seed, int unitary):
-    assert complex.dtype.kind == 'c'
+    # the generator only knows native single and double precision
+    assert complex.dtype == 'c16' or complex.dtype == 'c8'
     assert complex.ndim == 3
 
     cdef PMeshWhiteNoiseGenerator generator[1]
diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index 0435992..b5c329b 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -132,7 +132,8 @@ cdef class ResampleWindow(object):
         cdef int d
         cdef int i
 
-        assert real.dtype.kind == 'f'
+        # the kernels only know native single and double precision
+        assert real.dtype == 'f8' or real.dtype == 'f4'
 
         cdef PMeshPainter painter[1]
 
@@ -173,7 +174,8 @@ cdef class ResampleWindow(object):
         cdef int d
         cdef int i
 
-        assert real.dtype.kind == 'f'
+        # the kernels only know native single and double precision
+        assert real.dtype == 'f8' or real.dtype == 'f4'
 
         cdef PMeshPainter painter[1]
 
-- 
2.43.0


From df2cf719d54f72a2f6d765b8fae48de2fc19244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 15/32] fix: raise on unknown windows instead of calling a NULL
 kernel

---
 pmesh/_window.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index b5c329b..2b4b90e 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -100,8 +100,10 @@ cdef class ResampleWindow(object):
 
         if kind in kinds:
             type = <PMeshPainterType> <int> kinds[kind]
-        else:
+        elif kind in kinds.values():
             type = <PMeshPainterType> <int> kind
+        else:
+            raise ValueError("unknown window kind %s" % str(kind))
 
         # FIXME: change this to scaling the size of the kernel
         self.painter.support = support
-- 
2.43.0


From 9bccde772bc03fecc11d0e30e43d557f64ef0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 16/32] fix: range of the scale invariant index of odd meshes

- N // 2 is floor(-N / 2), a mode that is not on the mesh, and was aliased.
---
 pmesh/_invariant.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/_invariant.pyx b/pmesh/_invariant.pyx
index f4f209d..0430123 100644
--- a/pmesh/_invariant.pyx
+++ b/pmesh/_invariant.pyx
@@ -40,10 +40,10 @@ def get_index(inttype [:, :] x, ptrdiff_t [:] Nmesh, compressed, maxlength=None)
                 # The nyquist frequency has a confusion -- it can be either.
                 # we always map it to the positive.
                 # PMesh and FFT uses a negative nyquist freq; correct for it here.
-                if xi[d] == - Nmesh[d] // 2:
+                if 2 * xi[d] == - Nmesh[d]:
                     xi[d] = Nmesh[d] // 2
 
-                if xi[d] > Nmesh[d] // 2 or xi[d] < -Nmesh[d] // 2:
+                if xi[d] > Nmesh[d] // 2 or xi[d] < - (Nmesh[d] // 2):
                     bad = 1
             if bad:
                 r[i] = -1
-- 
2.43.0


From e6135684c44952ea676de2a5a77a704a73bc18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 17/32] fix: max_length = 0 excludes the zero mode as well

---
 pmesh/_invariant_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index af08965..3eaa31c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -67,7 +67,7 @@ ptrdiff_t pmesh_get_invariant_index(
 
     ptrdiff_t shell = absmax(ndim, x);
     /* (0, 0, 0....) */
-    if (shell == 0) return 0;
+    if (shell == 0) return max_length == 0 ? -1 : 0;
 
     ptrdiff_t side = shell * 2 + 1; 
 
-- 
2.43.0


From de9f3f72e50b51e2a889b7d9c93b468e5fe15663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 18/32] fix: gradient of the wavelet windows vanishes outside
 of the support

The conversion to int truncates towards zero, thus (-step, 0) was
looked up in the first interval of the table, where the window is zero.
---
 makewavelets.py          | 1 +
 pmesh/_window_wavelets.h | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/makewavelets.py b/makewavelets.py
index 53fe8f4..c33ccf9 100644
--- a/makewavelets.py
+++ b/makewavelets.py
@@ -39,6 +39,7 @@ def genwavelet(name):
     {
         x += %(hsupport)g;
 
+        if (x < 0) return 0;
         int i = x / %(step)e;
         if (i < 0) return 0;
         if (i >= %(tablesize)d - 1) return 0;
diff --git a/pmesh/_window_wavelets.h b/pmesh/_window_wavelets.h
index 54c4f77..4883ad8 100644
--- a/pmesh/_window_wavelets.h
+++ b/pmesh/_window_wavelets.h
@@ -470,6 +470,7 @@
     {
         x += 3.5;
 
+        if (x < 0) return 0;
         int i = x / 3.906250e-03;
         if (i < 0) return 0;
         if (i >= 1796 - 1) return 0;
@@ -1135,6 +1136,7 @@
     {
         x += 5;
 
+        if (x < 0) return 0;
         int i = x / 3.906250e-03;
         if (i < 0) return 0;
         if (i >= 2564 - 1) return 0;
@@ -1928,6 +1930,7 @@
     {
         x += 6;
 
+        if (x < 0) return 0;
         int i = x / 3.906250e-03;
         if (i < 0) return 0;
         if (i >= 3076 - 1) return 0;
@@ -2401,6 +2404,7 @@
     {
         x += 3.5;
 
+        if (x < 0) return 0;
         int i = x / 3.906250e-03;
         if (i < 0) return 0;
         if (i >= 1796 - 1) return 0;
@@ -3066,6 +3070,7 @@
     {
         x += 5;
 
+        if (x < 0) return 0;
         int i = x / 3.906250e-03;
         if (i < 0) return 0;
         if (i >= 2564 - 1) return 0;
@@ -3923,6 +3928,7 @@
     {
         x += 6.5;
 
+        if (x < 0) return 0;
         int i = x / 3.906250e-03;
         if (i < 0) return 0;
         if (i >= 3332 - 1) return 0;
-- 
2.43.0


From 429cc0300366d010bc360b5dadcbb4ca2ffffe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 19/32] fix: lic painted unit masses with the image as the
 smoothing length

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index d5b3957..2be3781 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -77,4 +77,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From 2dd5ba6cedde8d77e3ee9de8711206799dc26e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 20/32] fix: the step of lic is in pixels, also when the cells
 are not of unit size

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 2be3781..b61f95d 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -70,7 +70,7 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
             dx = x * 0.0
             layout = pm.decompose(x, smoothing=vmax * ds * 0.5 + resampler.support * 0.5)
             for d, v in enumerate(vectors):
-                dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
+                dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * (ds * pm.BoxSize[d] / pm.Nmesh[d])
             x[...] += dx * 0.5 * sign
             f[...] += texture.readout(x, layout=layout, resampler=resampler) * k * ds
             x[...] += dx * 0.5 * sign
-- 
2.43.0


From 7e033516172d11afc9054e12fd4985e76c3811ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 21/32] fix: preview with all axes in another order did not
 transpose the image

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 01b4f0e..49c9cad 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -610,7 +610,7 @@ class Field(NDArrayLike):
             removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
             result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
         else:
-            result[local_slice] += out
+            result[local_slice] += out.transpose(axes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 6c19514d3879af808e60c386dbe3fa68efca03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 22/32] fix: reindex maps the negative frequencies of meshes of
 odd size

---
 pmesh/pm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 49c9cad..4c802db 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1143,8 +1143,9 @@ def reindex(Nsrc, Ndest):
 
     """
     reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    # there are (N - 1) // 2 negative frequencies besides the nyquist
+    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - (Ndest - 1) // 2, Nsrc, 1)
+    reindex[Nsrc // 2 + 1: Ndest - (Nsrc - 1) // 2] = -1
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From 66f9d0d728504e68edd60523de451eccb19fa9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 23/32] fix: resample does not remove modes resolved by both
 meshes

---
 pmesh/pm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4c802db..d1752d0 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -532,14 +532,15 @@ class Field(NDArrayLike):
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ (ii == n // 2) & (n % 2 == 0)
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
-            # also remove the nyquist of the input
+            # also remove the nyquist of the input, where the output resolves it;
+            # otherwise n // 2 is the index of another mode.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (ii == n // 2) & (n % 2 == 0) & (n < nout)
+                   for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
         if not isinstance(out, TransposedComplexField):
-- 
2.43.0


From 293024a016ad4e6478b547021752613459c9d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 24/32] fix: resample keeps the imaginary part of the mean of
 complex fields

---
 pmesh/pm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index d1752d0..c973e48 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -523,10 +523,11 @@ class Field(NDArrayLike):
 
         # ensure the down sample is real
         for i, slab in zip(complex.slabs.i, complex.slabs):
-            mask = functools.reduce(numpy.bitwise_and,
-                 [(n - ii) % n == ii
-                    for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
+            if complex.compressed:
+                mask = functools.reduce(numpy.bitwise_and,
+                     [(n - ii) % n == ii
+                        for ii, n in zip(i, complex.Nmesh)])
+                slab.imag[mask] = 0
 
             # remove the nyquist of the output
             # FIXME: the nyquist is messy due to hermitian constraints
-- 
2.43.0


From 393d19315510460af8c4729619fd212995c352ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 25/32] fix: raise a length mismatch of exchanged columns on
 all ranks

pack_arrays raised on the ranks with mismatching columns only, while all
other ranks were waiting in the collective calls of the exchange.
---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index c0a0040..a8b67be 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -168,6 +168,9 @@ class Layout(object):
 
         """
         if pack:
+            # a mismatch on any of the ranks must be raised on all of the ranks
+            if any(self.comm.allgather(any(len(arg) != len(args[0]) for arg in args))):
+                raise ValueError('the shape of the data does not match across different columns.')
             data = pack_arrays(args)
             newdata = self._exchange(data)
             r = tuple([newdata[name] for name in newdata.dtype.names])
-- 
2.43.0


From 6af985a034ab7d3c962bc2bf5cd1f5b9a92936e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 26/32] fix: white noise of a full spectrum whose last axis is
 distributed

The presence of a mode was tested for the positive half also when the
negative half was filled; ranks without the positive modes left the
negative ones uninitialised.
---
 pmesh/_whitenoise_generics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..244a9fd 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -162,7 +162,8 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                         SAMPLE(this_rng, &ampl, &phase);
                     }
 
-                    ptrdiff_t iabs[3] = {i, j, k};
+                    /* the mode to fill; the negative half of k when sign is -1 */
+                    ptrdiff_t iabs[3] = {i, j, sign == -1 ? self->Nmesh[2] - k : k};
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -193,7 +194,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From 2ee1027b235c5153ea019b2d728c162ec9804b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 27/32] fix: white noise is Hermitian when the last axis is odd

The plane k = Nmesh / 2 is its own conjugate only for an even mesh.
---
 pmesh/_whitenoise_generics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 244a9fd..8105ad8 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -149,7 +149,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
-- 
2.43.0


From 84496ac305dbff393a04aa6c98bd287f6183fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 28/32] fix: white noise of meshes with odd or unequal sides

The seeds of the middle row and column of odd meshes were never set, and for
unequal sides the sides were mixed up: modes shared seed zero and the field
was not Hermitian. Even cubic meshes are not affected.
---
 pmesh/_whitenoise_generics.h | 11 +++++++----
 pmesh/_whitenoise_imp.c      |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8105ad8..fa99ab9 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,7 +73,10 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* spiral inside out over the first two axes; for odd or unequal sides go on until all is covered */
+    int half = ((self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1]) + 1) / 2;
+
+    for(i = 0; i < half; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
@@ -81,15 +84,15 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
         for(j = 0; j < i; j++)
             SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, self->Nmesh[0] - 1 - j, i, rng);
         for(j = 0; j < i; j++)
             SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, self->Nmesh[1] - 1 - i, rng);
         for(j = 0; j < i; j++)
             SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, self->Nmesh[0] - 1 - j, self->Nmesh[1] - 1 - i, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..8ad0c26 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,6 +31,9 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* not in the mesh; when the sides are unequal */
+    if(i < 0 || j < 0 || i >= self->Nmesh[0] || j >= self->Nmesh[1]) return;
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From 3db8676fe72a26f59f1c2e0dbd22e7f93a7cc68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:33 +0000
Subject: [PATCH 29/32] fix: white noise of meshes with odd or unequal sides
 agrees on the shared modes

---
 pmesh/_whitenoise_generics.h | 12 ++++++------
 pmesh/_whitenoise_imp.c      |  7 +++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index fa99ab9..a7cafc2 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -82,17 +82,17 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
         for(j = 0; j < i + 1; j++)
             SETSEED(self, j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
+            SETSEED(self, - 1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - j, i, rng);
+            SETSEED(self, - 1 - j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[1] - 1 - i, rng);
+            SETSEED(self, j, - 1 - i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, - 1 - i, - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - j, self->Nmesh[1] - 1 - i, rng);
+            SETSEED(self, - 1 - j, - 1 - i, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index 8ad0c26..a3c93f9 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,8 +31,11 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
-    /* not in the mesh; when the sides are unequal */
-    if(i < 0 || j < 0 || i >= self->Nmesh[0] || j >= self->Nmesh[1]) return;
+    /* i, j are signed wave numbers. skip those not in the mesh, when the sides are odd or unequal */
+    if(2 * i < - self->Nmesh[0] || 2 * i >= self->Nmesh[0]) return;
+    if(2 * j < - self->Nmesh[1] || 2 * j >= self->Nmesh[1]) return;
+    if(i < 0) i += self->Nmesh[0];
+    if(j < 0) j += self->Nmesh[1];
 
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
-- 
2.43.0


From 2db4efdaf9e097b93a9ad6bdeb5b04de51bec536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 30/32] fix: GridND.uniform makes at least one domain along
 each direction for boxes of any size and shape

---
 pmesh/domain.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a8b67be..ec855f2 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -364,14 +364,18 @@ class GridND(object):
 
         # compute a optimal shape where each domain is as cubical as possible
 
-        r = (1.0 * comm.size / numpy.prod(BoxSize) * min(BoxSize)) ** (1.0 / ndim)
-        shape = [ r * (BoxSize[i] / min(BoxSize)) for i in range(ndim)]
-        shape = numpy.array(shape)
-        imax = shape.argmax()
-        shape = numpy.int32(shape)
-        shape[shape < 1] = 1
-        shape[imax] = 1
-        shape[imax] = comm.size // numpy.prod(shape)
+        # start from the shortest side, such that there are no more domains than
+        # ranks, and never zero domains along any direction.
+        shape = numpy.ones(ndim, dtype='int32')
+        size, volume = comm.size, 1.0 * numpy.prod(BoxSize)
+        for k, i in enumerate(numpy.argsort(-numpy.asarray(BoxSize), kind='stable')[::-1]):
+            if k < ndim - 1:
+                r = (size / volume) ** (1.0 / (ndim - k)) * BoxSize[i]
+                shape[i] = max(1, int(r + 1e-6))
+            else:
+                shape[i] = size
+            size = size // shape[i]
+            volume = volume / BoxSize[i]
         assert numpy.prod(shape) <= comm.size
 
         edges = []
-- 
2.43.0


From f0ab74cde4ca2c5fafbff4ecc16e60e53a7e07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:31 +0000
Subject: [PATCH 31/32] fix: operations with an output return that output

An in-place operation (field += x) or a ufunc with out= wrote the result to
the output, but returned a copy of it: the name of the receiver was rebound to
a new field, so that further in-place operations on it did not reach the field
that was passed in, and out=array returned a field instead of the array.
---
 pmesh/pm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index c973e48..bd72647 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -186,6 +186,10 @@ class Field(NDArrayLike):
                 for x in out)
 
         result = getattr(ufunc, method)(*inputs, **kwargs)
+        if out:
+            # as in numpy, the outputs themselves are the results; a copy would
+            # detach the receiver of an in-place operation.
+            return out[0] if len(out) == 1 else out
         def cast(result):
             # booleans, cannot be reasonable Field objects
             # just return the ndarray
-- 
2.43.0


From 4cefbe99010feffa9e289adce5aad7b2f5e5e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:37 +0000
Subject: [PATCH 32/32] fix: ranks without mesh points do not claim the first
 domain of the mesh

---
 pmesh/pm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index bd72647..c1ad5e4 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1462,9 +1462,14 @@ class ParticleMesh(object):
         size = numpy.prod(shape)
         ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
+        if any(partition.local_i_shape == 0):
+            # local_i_start of a rank without mesh points tells nothing; it owns no domain.
+            ilocal = -1
         ilocals = numpy.array(self.comm.allgather(ilocal))
-        DomainAssign = numpy.empty(size, dtype='int32')
+        # domains that no rank owns are empty.
+        DomainAssign = numpy.zeros(size, dtype='int32')
         for irank, ilocal in enumerate(ilocals):
+            if ilocal < 0: continue
             start = ilocal * size // self.comm.size
             end = (ilocal + 1) * size // self.comm.size
             DomainAssign[start:end] = irank
-- 
2.43.0

