From 590a48916ddf6f8776bd5bc11d4a265f10aa1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 1/5] fix: do not add per-thread gradients again in later
 chunks of a backward pass

When a backward callback splits the backpropagation into several calls, the
per-thread (or per-shot) gradient buffers still held the contributions of the
previous calls and were added to the model gradient again.  Clear them once
they have been combined.
---
 src/deepwave/acoustic.cu    | 3 ++-
 src/deepwave/common_cpu.h   | 7 +++++--
 src/deepwave/elastic.c      | 3 ++-
 src/deepwave/elastic.cu     | 3 ++-
 src/deepwave/scalar.cu      | 9 ++++++---
 src/deepwave/scalar_born.cu | 5 ++++-
 6 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/deepwave/acoustic.cu b/src/deepwave/acoustic.cu
index 4ec7e97..d97ebd2 100644
--- a/src/deepwave/acoustic.cu
+++ b/src/deepwave/acoustic.cu
@@ -150,7 +150,7 @@ __launch_bounds__(32) __global__
 
 __launch_bounds__(128) __global__
     void combine_grad(DW_DTYPE *__restrict const grad,
-                      DW_DTYPE const *__restrict const grad_shot) {
+                      DW_DTYPE *__restrict const grad_shot) {
 #if DW_NDIM == 3
   int64_t const x = blockIdx.x * blockDim.x + threadIdx.x;
   int64_t const y = blockIdx.y * blockDim.y + threadIdx.y;
@@ -169,6 +169,7 @@ __launch_bounds__(128) __global__
 #endif
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad[i] += grad_shot[shot_idx * shot_numel + i];
+      grad_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 }
diff --git a/src/deepwave/common_cpu.h b/src/deepwave/common_cpu.h
index 29acb3e..96affab 100644
--- a/src/deepwave/common_cpu.h
+++ b/src/deepwave/common_cpu.h
@@ -28,9 +28,11 @@ static inline void add_to_wavefield(DW_DTYPE* __restrict const wavefield,
 // Combine gradients from multiple threads into a single gradient array.
 // grad_thread is expected to be laid out as n_threads blocks each of size
 // n_grid_points (i.e. threadidx * n_grid_points + i). This helper sums those
-// per-thread buffers into `grad` for the interior grid.
+// per-thread buffers into `grad` for the interior grid. The per-thread buffers
+// are cleared so that their contents are only added once when the propagation
+// is split into several calls.
 static inline void combine_grad(DW_DTYPE* __restrict const grad,
-                                DW_DTYPE const* __restrict const grad_thread,
+                                DW_DTYPE* __restrict const grad_thread,
                                 int64_t const n_threads,
                                 int64_t const n_grid_points) {
   int64_t i, threadidx;
@@ -38,6 +40,7 @@ static inline void combine_grad(DW_DTYPE* __restrict const grad,
   for (i = 0; i < n_grid_points; ++i) {
     for (threadidx = 0; threadidx < n_threads; ++threadidx) {
       grad[i] += grad_thread[threadidx * n_grid_points + i];
+      grad_thread[threadidx * n_grid_points + i] = 0;
     }
   }
 }
diff --git a/src/deepwave/elastic.c b/src/deepwave/elastic.c
index 88d0dae..9e426ae 100644
--- a/src/deepwave/elastic.c
+++ b/src/deepwave/elastic.c
@@ -369,7 +369,7 @@ static inline void record_pressure(
 
 static inline void combine_grad_elastic(
     DW_DTYPE *__restrict const grad,
-    DW_DTYPE const *__restrict const grad_thread, int64_t const n_threads,
+    DW_DTYPE *__restrict const grad_thread, int64_t const n_threads,
 #if DW_NDIM >= 3
     int64_t const nz,
 #endif
@@ -409,6 +409,7 @@ static inline void combine_grad_elastic(
         int64_t threadidx;
         for (threadidx = 0; threadidx < n_threads; ++threadidx) {
           grad[i] += grad_thread[threadidx * n_grid_points + i];
+          grad_thread[threadidx * n_grid_points + i] = 0;
         }
       }
 #if DW_NDIM >= 3
diff --git a/src/deepwave/elastic.cu b/src/deepwave/elastic.cu
index f1cda61..f3e0feb 100644
--- a/src/deepwave/elastic.cu
+++ b/src/deepwave/elastic.cu
@@ -595,7 +595,7 @@ __launch_bounds__(32) __global__ void record_adjoint_pressure_receivers(
 
 __launch_bounds__(128) __global__
     void combine_grad(DW_DTYPE *__restrict const grad,
-                      DW_DTYPE const *__restrict const grad_shot) {
+                      DW_DTYPE *__restrict const grad_shot) {
 #if DW_NDIM == 3
   int64_t const x = blockIdx.x * blockDim.x + threadIdx.x;
   int64_t const y = blockIdx.y * blockDim.y + threadIdx.y;
@@ -614,6 +614,7 @@ __launch_bounds__(128) __global__
 #endif
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad[i] += grad_shot[shot_idx * shot_numel + i];
+      grad_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 }
diff --git a/src/deepwave/scalar.cu b/src/deepwave/scalar.cu
index b89e578..461679f 100644
--- a/src/deepwave/scalar.cu
+++ b/src/deepwave/scalar.cu
@@ -164,7 +164,7 @@ __launch_bounds__(32) __global__
 #if DW_NDIM == 3
 __launch_bounds__(128) __global__
     void combine_grad_v(DW_DTYPE *__restrict const grad_v,
-                        DW_DTYPE const *__restrict const grad_v_shot) {
+                        DW_DTYPE *__restrict const grad_v_shot) {
   int64_t const x = blockIdx.x * blockDim.x + threadIdx.x + FD_PAD;
   int64_t const y = blockIdx.y * blockDim.y + threadIdx.y + FD_PAD;
   int64_t const z = blockIdx.z * blockDim.z + threadIdx.z + FD_PAD;
@@ -172,31 +172,34 @@ __launch_bounds__(128) __global__
     int64_t const i = z * ny * nx + y * nx + x;
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad_v[i] += grad_v_shot[shot_idx * shot_numel + i];
+      grad_v_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 }
 #elif DW_NDIM == 2
 __launch_bounds__(128) __global__
     void combine_grad_v(DW_DTYPE *__restrict const grad_v,
-                        DW_DTYPE const *__restrict const grad_v_shot) {
+                        DW_DTYPE *__restrict const grad_v_shot) {
   int64_t const x = blockIdx.x * blockDim.x + threadIdx.x + FD_PAD;
   int64_t const y = blockIdx.y * blockDim.y + threadIdx.y + FD_PAD;
   if (y < ny - FD_PAD && x < nx - FD_PAD) {
     int64_t const i = y * nx + x;
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad_v[i] += grad_v_shot[shot_idx * shot_numel + i];
+      grad_v_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 }
 #else /* DW_NDIM == 1 */
 __launch_bounds__(128) __global__
     void combine_grad_v(DW_DTYPE *__restrict const grad_v,
-                        DW_DTYPE const *__restrict const grad_v_shot) {
+                        DW_DTYPE *__restrict const grad_v_shot) {
   int64_t const x = blockIdx.x * blockDim.x + threadIdx.x + FD_PAD;
   if (x < nx - FD_PAD) {
     int64_t const i = x;
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad_v[i] += grad_v_shot[shot_idx * shot_numel + i];
+      grad_v_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 }
diff --git a/src/deepwave/scalar_born.cu b/src/deepwave/scalar_born.cu
index aec45c4..9caa7a7 100644
--- a/src/deepwave/scalar_born.cu
+++ b/src/deepwave/scalar_born.cu
@@ -313,7 +313,7 @@ __launch_bounds__(32) __global__
 // Combine per-shot gradients into a single gradient array (for v or scatter).
 __launch_bounds__(128) __global__
     void combine_grad(DW_DTYPE *__restrict const grad,
-                      DW_DTYPE const *__restrict const grad_shot) {
+                      DW_DTYPE *__restrict const grad_shot) {
 #if DW_NDIM == 3
   int64_t const x = blockIdx.x * blockDim.x + threadIdx.x + FD_PAD;
   int64_t const y = blockIdx.y * blockDim.y + threadIdx.y + FD_PAD;
@@ -322,6 +322,7 @@ __launch_bounds__(128) __global__
     int64_t const i = z * ny * nx + y * nx + x;
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad[i] += grad_shot[shot_idx * shot_numel + i];
+      grad_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 #elif DW_NDIM == 2
@@ -331,6 +332,7 @@ __launch_bounds__(128) __global__
     int64_t const i = y * nx + x;
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad[i] += grad_shot[shot_idx * shot_numel + i];
+      grad_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 #else /* DW_NDIM == 1 */
@@ -339,6 +341,7 @@ __launch_bounds__(128) __global__
     int64_t const i = x;
     for (int64_t shot_idx = 0; shot_idx < n_shots; ++shot_idx) {
       grad[i] += grad_shot[shot_idx * shot_numel + i];
+      grad_shot[shot_idx * shot_numel + i] = 0;
     }
   }
 #endif
-- 
2.43.0


From 90221b586b40f30e588cd9c25fd3a34fc54811b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 2/5] fix: accept ignored locations together with an initial
 wavefield

check_locations_within_extents took the minimum of an empty tensor when
every location in a tensor was IGNORE_LOCATION.
---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..72ed48f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1928,6 +1928,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From fd30e916faebf6e0436dc8dba56e773ee92936a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 3/5] fix: survey extents when every location is ignored

get_survey_extents_one_side returned an empty extent when locations were
provided but all of them were IGNORE_LOCATION.
---
 src/deepwave/common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 72ed48f..911ba11 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1761,16 +1761,22 @@ def get_survey_extents_one_side(
         Min/max index as int.
 
     """
+    # Locations that are all ignored do not constrain the extents.
+    has_location = any(
+        location is not None and bool((location[..., dim] != IGNORE_LOCATION).any())
+        for location in locations
+    )
+
     # if pad < 0, return the edge of the model in that direction (0 if left,
     # the model shape if right). Otherwise, initialise extreme_location to
     # the other side of the model so that we can find the min (left) or
     # max (right) location below.
     if side == "left":
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not has_location:
             return 0
         extreme_location = shape
     else:
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not has_location:
             return shape
         extreme_location = 0
 
-- 
2.43.0


From 42615629077c9ceb99920b3aa18504f0653c9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 4/5] fix: names of the models passed to elastic callbacks in
 3D

The 3D list of names was replaced by the 2D one, so the buoyancies were
given to callbacks under the names of the shear moduli.
---
 src/deepwave/elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..aafad38 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1482,6 +1482,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1813,6 +1814,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
-- 
2.43.0


From 99cd443fd4fa4c0398202fbefcb4f14b8c3a83da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 5/5] fix: pass every elastic wavefield to the backward
 callback

The last wavefield, m_sigmaxxx_0, was left out.
---
 src/deepwave/elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index aafad38..00ace6e 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1921,7 +1921,7 @@ class ElasticForwardFunc(torch.autograd.Function):
 
                 if backward_callback is not None:
                     callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
+                        zip(wavefield_names, grad_wavefields)
                     )
                     backward_callback(
                         deepwave.common.CallbackState(
-- 
2.43.0

