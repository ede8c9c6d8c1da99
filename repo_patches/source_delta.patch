From 14fe2ac9eb9bb6bb4b4154bad7cba34dafca1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 01/19] fix: build chunk slicing indices from the chunk being
 sampled

---
 ml4gw/dataloading/chunked_dataset.py | 52 +++++++++++++++-------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..214b5dc 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -65,30 +65,6 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         chunk = next(it)
         num_chunks, num_channels, chunk_size = chunk.shape
 
-        # if we're sampling coincidentally, we only need
-        # to sample indices on a per-batch-element basis.
-        # Otherwise, we'll need indices for both each
-        # batch sample _and_ each channel with each sample
-        if self.coincident:
-            sample_size = (self.batch_size,)
-        else:
-            sample_size = (self.batch_size, num_channels)
-
-        # slice kernels out a flattened chunk tensor
-        # index-for-index. We'll account for batch/
-        # channel indices by introducing offsets later on
-        idx = torch.arange(self.kernel_size, device=self.device)
-        idx = idx.view(1, 1, -1)
-        idx = idx.repeat(self.batch_size, num_channels, 1)
-
-        # this will just be a set of aranged channel indices
-        # repeated to offset the kernel indices in the
-        # flattened chunk tensor
-        channel_idx = torch.arange(num_channels, device=self.device)
-        channel_idx = channel_idx.view(1, -1, 1)
-        channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
-
         while True:
             # record the number of rows in the chunk, then
             # flatten it to make it easier to slice
@@ -99,6 +75,34 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 )
             chunk = chunk.reshape(-1)
 
+            # chunks may differ in shape from one another, so
+            # the indices have to be built for each of them.
+            # If we're sampling coincidentally, we only need
+            # to sample indices on a per-batch-element basis.
+            # Otherwise, we'll need indices for both each
+            # batch sample _and_ each channel with each sample
+            if self.coincident:
+                sample_size = (self.batch_size,)
+            else:
+                sample_size = (self.batch_size, num_channels)
+
+            # slice kernels out a flattened chunk tensor
+            # index-for-index. We'll account for batch/
+            # channel indices by introducing offsets later on
+            idx = torch.arange(self.kernel_size, device=self.device)
+            idx = idx.view(1, 1, -1)
+            idx = idx.repeat(self.batch_size, num_channels, 1)
+
+            # this will just be a set of aranged channel indices
+            # repeated to offset the kernel indices in the
+            # flattened chunk tensor
+            channel_idx = torch.arange(num_channels, device=self.device)
+            channel_idx = channel_idx.view(1, -1, 1)
+            channel_idx = channel_idx.repeat(
+                self.batch_size, 1, self.kernel_size
+            )
+            idx += channel_idx * chunk_size
+
             # generate batches from the current chunk
             for _ in range(self.batches_per_chunk):
                 # first sample the indices of which chunk elements
-- 
2.43.0


From 68fea916c55907595f3c23218d1841e0f5b43ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 02/19] fix: end chunked iteration cleanly when the source is
 empty

---
 ml4gw/dataloading/chunked_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 214b5dc..e1a5499 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -62,7 +62,11 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
 
     def __iter__(self) -> WaveformTensor:
         it = iter(self.chunk_it)
-        chunk = next(it)
+        try:
+            chunk = next(it)
+        except StopIteration:
+            # an empty source simply has no batches to offer
+            return
         num_chunks, num_channels, chunk_size = chunk.shape
 
         while True:
-- 
2.43.0


From 6dd4f2533bebf982b1395d62cc0c016383795370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 03/19] fix: raise when a file is too short for a requested
 window

---
 ml4gw/dataloading/hdf5_dataset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..0881e40 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -189,7 +189,16 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
                 for b, c, i in zip(
                     batch_indices, channel_indices, idx, strict=True
                 ):
-                    x[b, c] = f[self.channels[c]][i : i + self.kernel_size]
+                    kernel = f[self.channels[c]][i : i + self.kernel_size]
+                    if len(kernel) != self.kernel_size:
+                        # a single remaining sample would
+                        # silently broadcast to a full window
+                        raise ValueError(
+                            f"Channel {self.channels[c]} of file {fname} "
+                            f"has only {len(kernel)} samples at index {i}, "
+                            f"expected {self.kernel_size}"
+                        )
+                    x[b, c] = kernel
         return torch.Tensor(x)
 
     def __iter__(self) -> WaveformTensor:
-- 
2.43.0


From 5e1fc2c8cbfa437c183198e72beff2ba050612ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 04/19] fix: keep per-call spline output coordinates out of the
 module state

---
 ml4gw/transforms/spline_interpolation.py | 45 ++++++++++++++++--------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..c9d8a7e 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,22 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor | None = None):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out:
+                Output basis matrix. Defaults to the one computed
+                during initialization.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        Bx_out = self.Bx_out if Bx_out is None else Bx_out
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -305,17 +309,17 @@ class SplineInterpolate1D(SplineInterpolateBase):
 
         Z = self._validate_inputs(Z, x_out)
 
+        # coordinates given here apply to this call only
+        Bx_out = None
         if x_out is not None:
             x_out = x_out.float()
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +436,31 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self,
+        C: Tensor,
+        Bx_out: Tensor | None = None,
+        By_out: Tensor | None = None,
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out:
+                Output basis matrix along the width dimension.
+                Defaults to the one computed during initialization.
+            By_out:
+                Output basis matrix along the height dimension.
+                Defaults to the one computed during initialization.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        Bx_out = self.Bx_out if Bx_out is None else Bx_out
+        By_out = self.By_out if By_out is None else By_out
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -509,23 +526,21 @@ class SplineInterpolate2D(SplineInterpolateBase):
 
         Z, y_out = self._validate_inputs(Z, x_out, y_out)
 
+        # coordinates given here apply to this call only
+        Bx_out, By_out = None, None
         if x_out is not None:
             x_out = x_out.float()
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From 963229447b2471085fb88aba9dcda4bec5fab10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 05/19] fix: don't modify the caller's frange in
 SingleQTransform

---
 ml4gw/transforms/qtransform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..790f21c 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,8 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        # copied because unset limits get filled in below
+        self.frange = list(frange) if frange else [0, torch.inf]
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From bfe0bf8996cdf3b78b1e73c7cbe189ba15c2db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 06/19] fix: keep each Q transform call on its own Q tiles

---
 ml4gw/transforms/qtransform.py | 50 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 790f21c..5fc9235 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -308,7 +308,10 @@ class SingleQTransform(torch.nn.Module):
         return torch.unique(freqs)
 
     def get_max_energy(
-        self, fsearch_range: list[float] = None, dimension: str = "both"
+        self,
+        fsearch_range: list[float] = None,
+        dimension: str = "both",
+        qtiles: list[TimeSeries3d] = None,
     ):
         """
         Gets the maximum energy value among the QTiles. The maximum can
@@ -321,12 +324,15 @@ class SingleQTransform(torch.nn.Module):
         Optionally, a pair of frequency values can be specified for
         ``fsearch_range`` to restrict the frequencies in which the maximum
         energy value is sought.
+
+        Uses the most recently computed QTiles unless ``qtiles`` are given.
         """
         allowed_dimensions = ["both", "neither", "channel", "batch"]
         if dimension not in allowed_dimensions:
             raise ValueError(f"Dimension must be one of {allowed_dimensions}")
 
-        if self.qtiles is None:
+        qtiles = self.qtiles if qtiles is None else qtiles
+        if qtiles is None:
             raise RuntimeError(
                 "Q-tiles must first be computed with .compute_qtiles()"
             )
@@ -334,9 +340,7 @@ class SingleQTransform(torch.nn.Module):
         if fsearch_range is not None:
             start = min(torch.argwhere(self.freqs > fsearch_range[0]))
             stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
-            qtiles = self.qtiles[start:stop]
-        else:
-            qtiles = self.qtiles
+            qtiles = qtiles[start:stop]
 
         if dimension == "both":
             return max([torch.max(qtile) for qtile in qtiles])
@@ -356,24 +360,28 @@ class SingleQTransform(torch.nn.Module):
         self,
         X: TimeSeries1to3d,
         norm: str = "median",
-    ) -> None:
+    ) -> list[TimeSeries3d]:
         """
         Take the FFT of the input timeseries and calculate the transform
-        for each ``QTile``
+        for each ``QTile``. The result is both stored and returned, so that
+        callers sharing this object can hold on to their own.
         """
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
-        self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
+        qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
+        self.qtiles = qtiles
+        return qtiles
 
-    def interpolate(self) -> TimeSeries3d:
-        if self.qtiles is None:
+    def interpolate(self, qtiles: list[TimeSeries3d] = None) -> TimeSeries3d:
+        qtiles = self.qtiles if qtiles is None else qtiles
+        if qtiles is None:
             raise RuntimeError(
                 "Q-tiles must first be computed with .compute_qtiles()"
             )
         if self.interpolation_method == "spline":
             qtiles = [
-                torch.stack([self.qtiles[i] for i in idx], dim=-2)
+                torch.stack([qtiles[i] for i in idx], dim=-2)
                 for idx in self.stack_idx
             ]
             time_interped = torch.cat(
@@ -394,7 +402,7 @@ class SingleQTransform(torch.nn.Module):
                 (qtile.shape[-2], num_t_bins),
                 mode=self.interpolation_method,
             )
-            for qtile in self.qtiles
+            for qtile in qtiles
         ]
         resampled = torch.stack(resampled, dim=-2)
         resampled = F.interpolate(
@@ -428,8 +436,8 @@ class SingleQTransform(torch.nn.Module):
             have one more dimension than the input
         """
 
-        self.compute_qtiles(X, norm)
-        return self.interpolate()
+        qtiles = self.compute_qtiles(X, norm)
+        return self.interpolate(qtiles)
 
 
 class QScan(torch.nn.Module):
@@ -549,14 +557,20 @@ class QScan(torch.nn.Module):
             An interpolated Q-transform for the batch of data. Output will
             have one more dimension than the input
         """
-        for transform in self.q_transforms:
+        qtiles = [
             transform.compute_qtiles(X, norm)
+            for transform in self.q_transforms
+        ]
         idx = torch.argmax(
             torch.Tensor(
                 [
-                    transform.get_max_energy(fsearch_range=fsearch_range)
-                    for transform in self.q_transforms
+                    transform.get_max_energy(
+                        fsearch_range=fsearch_range, qtiles=tiles
+                    )
+                    for transform, tiles in zip(
+                        self.q_transforms, qtiles, strict=True
+                    )
                 ]
             )
         )
-        return self.q_transforms[idx].interpolate()
+        return self.q_transforms[idx].interpolate(qtiles[idx])
-- 
2.43.0


From 23880eeb858696dbcd48d0a5f798c7115aa5d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 07/19] fix: only treat a fittable transform as restored if all
 its parameters were

---
 ml4gw/transforms/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..e05841e 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -32,9 +32,14 @@ class FittableTransform(torch.nn.Module):
         num_errs = len(args[-1])
         ret = super()._load_from_state_dict(*args)
 
-        # if we didn't create any new errors, then
-        # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        # if we didn't create any new errors and all of our
+        # parameters were there, then we built correctly.
+        # Absent parameters aren't errors at this point, or
+        # at all for ``strict=False``, so check for them here
+        state_dict, prefix = args[:2]
+        local_names = {name for name in self.state_dict() if "." not in name}
+        complete = all(prefix + name in state_dict for name in local_names)
+        if complete and len(args[-1]) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From bfe641f7c1d61654019e9b0b53a96bd976573121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 08/19] fix: treat an offset of 0 as no offset in
 OnlineAverager

---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From 6d85ae79b5857c78041f353e32636b7305b38548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 09/19] fix: don't share memory between returned snapshots and
 the streaming state

---
 ml4gw/nn/streaming/snapshotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/streaming/snapshotter.py b/ml4gw/nn/streaming/snapshotter.py
index 0ca4893..a79efa4 100644
--- a/ml4gw/nn/streaming/snapshotter.py
+++ b/ml4gw/nn/streaming/snapshotter.py
@@ -114,6 +114,7 @@ class Snapshotter(torch.nn.Module):
         else:
             snapshots = (snapshots,)
 
-        # keep only the latest snapshot as our state
-        snapshot = snapshot[:, -self.state_size :]
+        # keep only the latest snapshot as our state. Copy it so
+        # that changing a returned snapshot in-place can't reach it
+        snapshot = snapshot[:, -self.state_size :].clone()
         return tuple(snapshots) + (snapshot,)
-- 
2.43.0


From 4296648b0d62bf41cb651f000d18f4df808630cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 10/19] fix: give OnlineAverager's initial state the dtype of
 its buffers

---
 ml4gw/nn/streaming/online_average.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index 0cc3176..e4cc647 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -70,7 +70,9 @@ class OnlineAverager(torch.nn.Module):
 
     def get_initial_state(self) -> Float[Tensor, "channel time"]:
         return torch.zeros(
-            (self.num_channels, self.state_size), device=self.weights.device
+            (self.num_channels, self.state_size),
+            dtype=self.weights.dtype,
+            device=self.weights.device,
         )
 
     def forward(
-- 
2.43.0


From e284997a9d273503352afe58b2765cee3dd5d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 11/19] fix: keep NaN out of Heterodyne's phase at 0 Hz

The phase is undefined at DC. The output there is overwritten with zeros,
so values came out right, but the backward pass multiplied its zero
gradient by the NaN and filled the whole input gradient with NaN.
---
 ml4gw/transforms/heterodyne.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..7a98298 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -103,6 +103,9 @@ class Heterodyne(torch.nn.Module):
                 Tensor of shape `(M, F)` containing complex phase factors.
         """
         phase = torch.exp((3j / 128) * (self.pi_m_f ** (-5 / 3)))
+        # the phase is undefined at 0 Hz, where the output is set to 0:
+        # a nan here would make every gradient through the transform nan
+        phase[..., 0] = 0
         return phase
 
     def forward(
-- 
2.43.0


From e4953529f991ec0fef2e4330ee446e4d9098fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 12/19] fix: let gradients flow to the output coordinates of a
 spline

bspline_basis_natural wrote each order of its recursion into the tensor
the previous orders had been saved from, so a backward pass through
coordinates given to forward() raised, and the graph, which then refers
to itself, was never freed. Build the orders out of place, and keep
the terms with repeated knots (0 by convention) from dividing by 0.
---
 ml4gw/transforms/spline_interpolation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index c9d8a7e..39f6c66 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -73,11 +73,15 @@ class SplineInterpolateBase(torch.nn.Module):
         """
         left_num = x.unsqueeze(1) - t[:m].unsqueeze(0)
         left_den = t[d : m + d] - t[:m]
+        # terms with repeated knots are 0 by convention: dividing
+        # by inf rather than 0 gives them a gradient of 0, too
+        left_den = torch.where(left_den == 0, torch.inf, left_den)
         L = left_num / left_den.unsqueeze(0)
         L = torch.nan_to_num_(L, nan=0.0, posinf=0.0, neginf=0.0)
 
         right_num = t[d + 1 : m + d + 1] - x.unsqueeze(1)
         right_den = t[d + 1 : m + d + 1] - t[1 : m + 1]
+        right_den = torch.where(right_den == 0, torch.inf, right_den)
         R = right_num / right_den.unsqueeze(0)
         R = torch.nan_to_num_(R, nan=0.0, posinf=0.0, neginf=0.0)
 
@@ -143,20 +147,21 @@ class SplineInterpolateBase(torch.nn.Module):
         m = t.shape[0] - k - 1
 
         # calculate zeroth order basis funciton
-        b = self.zeroth_order(x, k, t, n, m)
+        b = self.zeroth_order(x, k, t, n, m)[:, :, 0]
 
         zeros_tensor = torch.zeros(b.shape[0], 1)
         # recursive de Boors formula for bspline basis functions
+        # (out of place, so that gradients can flow to x)
         for d in range(1, k + 1):
             L, R = self.compute_L_R(x, t, d, m)
-            left = L * b[:, :, d - 1]
+            left = L * b
 
-            temp_b = torch.cat([b[:, 1:, d - 1], zeros_tensor], dim=1)
+            temp_b = torch.cat([b[:, 1:], zeros_tensor], dim=1)
 
             right = R * temp_b
-            b[:, :, d] = left + right
+            b = left + right
 
-        return b[:, :, -1]
+        return b
 
 
 class SplineInterpolate1D(SplineInterpolateBase):
-- 
2.43.0


From 96875bdd927016b7b286a2c433f9e8e6dbc2753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 13/19] fix: build spline bases on the device of their
 coordinates

---
 ml4gw/transforms/spline_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 39f6c66..82f1d8f 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -14,7 +14,7 @@ class SplineInterpolateBase(torch.nn.Module):
     def _compute_knots_and_basis_matrices(self, x, k, s):
         knots = self.generate_fitpack_knots(x, k)
         basis_matrix = self.bspline_basis_natural(x, k, knots)
-        identity = torch.eye(basis_matrix.shape[-1])
+        identity = torch.eye(basis_matrix.shape[-1], device=x.device)
         B_T_B = basis_matrix.T @ basis_matrix + s * identity
         return knots, basis_matrix, B_T_B
 
@@ -31,7 +31,7 @@ class SplineInterpolateBase(torch.nn.Module):
             Tensor of knot positions.
         """
         num_knots = x.shape[-1] + k + 1
-        knots = torch.zeros(num_knots, dtype=x.dtype)
+        knots = torch.zeros(num_knots, dtype=x.dtype, device=x.device)
         knots[: k + 1] = x[0]
         knots[-(k + 1) :] = x[-1]
 
@@ -116,7 +116,7 @@ class SplineInterpolateBase(torch.nn.Module):
         Returns:
             b: Tensor containing the zeroth-order B-spline basis functions.
         """
-        b = torch.zeros((n, m, k + 1))
+        b = torch.zeros((n, m, k + 1), device=x.device)
 
         mask_lower = t[: m + 1].unsqueeze(0)[:, :-1] <= x.unsqueeze(1)
         mask_upper = x.unsqueeze(1) < t[: m + 1].unsqueeze(0)[:, 1:]
@@ -149,7 +149,7 @@ class SplineInterpolateBase(torch.nn.Module):
         # calculate zeroth order basis funciton
         b = self.zeroth_order(x, k, t, n, m)[:, :, 0]
 
-        zeros_tensor = torch.zeros(b.shape[0], 1)
+        zeros_tensor = torch.zeros(b.shape[0], 1, device=x.device)
         # recursive de Boors formula for bspline basis functions
         # (out of place, so that gradients can flow to x)
         for d in range(1, k + 1):
-- 
2.43.0


From 9700604c1f45de973f98fc98b1aeeb647bfd073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 14/19] fix: make the window of a PSD fit on the device of the
 data

---
 ml4gw/transforms/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index e05841e..a99e9cc 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -62,7 +62,9 @@ class FittableSpectralTransform(FittableTransform):
             overlap = overlap or fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
-            window = torch.hann_window(nperseg, dtype=torch.float64)
+            window = torch.hann_window(
+                nperseg, dtype=torch.float64, device=x.device
+            )
             scale = 1.0 / (sample_rate * (window**2).sum())
             x = spectral_density(
                 x,
-- 
2.43.0


From 79e5cf55f30cf4d61e4d082a74beabb35ac61195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 15/19] fix: start a Snapshotter's state on the device of the
 update

---
 ml4gw/nn/streaming/snapshotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/snapshotter.py b/ml4gw/nn/streaming/snapshotter.py
index a79efa4..f5a7a76 100644
--- a/ml4gw/nn/streaming/snapshotter.py
+++ b/ml4gw/nn/streaming/snapshotter.py
@@ -90,7 +90,7 @@ class Snapshotter(torch.nn.Module):
         snapshot: Float[Tensor, "channel time2"] | None = None,
     ) -> tuple[Tensor, ...]:
         if snapshot is None:
-            snapshot = self.get_initial_state()
+            snapshot = self.get_initial_state().to(update.device)
 
         # append new data to the snapshot
         snapshot = torch.cat([snapshot, update], axis=-1)
-- 
2.43.0


From 186739a3e8d443c18511487b1a097c5eba7b6139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 16/19] fix: return the sampled indices of 1D data on its
 device

---
 ml4gw/utils/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index 93b17dd..dbdb87b 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -313,7 +313,7 @@ def sample_kernels(
         )
 
     if X.ndim == 1:
-        idx = torch.randint(len(X) - kernel_size, size=(N,))
+        idx = torch.randint(len(X) - kernel_size, size=(N,)).to(X.device)
         if return_idx:
             return slice_kernels(X, idx, kernel_size), idx
         return slice_kernels(X, idx, kernel_size)
-- 
2.43.0


From 1bc4d36976e60c455f3892e85ed8972f861b7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 17/19] fix: move chunks to the requested device

---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index e1a5499..3c1a7b9 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -77,7 +77,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                     f"Can't sample kernels of size {self.kernel_size} from "
                     f"chunk with size {chunk_size}"
                 )
-            chunk = chunk.reshape(-1)
+            chunk = chunk.reshape(-1).to(self.device)
 
             # chunks may differ in shape from one another, so
             # the indices have to be built for each of them.
-- 
2.43.0


From 5fd8d00d6aa1319a1838ce365361e1fe02c5aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 18/19] fix: normalize Q-tiles in the precision of their module

---
 ml4gw/transforms/qtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 5fc9235..677f85c 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -151,7 +151,7 @@ class QTile(torch.nn.Module):
                 energy /= means
             else:
                 raise ValueError(f"Invalid normalisation {norm}")
-            energy = energy.type(torch.float32)
+            energy = energy.type(self.window.dtype)
         return energy
 
 
-- 
2.43.0


From 9dbfa1855cf9cc33ac5b3c2fac7e880fb317b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:04 +0000
Subject: [PATCH 19/19] fix: Cosine draws are finite at the end of the random
 source's range

u / norm + sin(low) can round to just above one, where arcsin returns nan.
---
 ml4gw/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..0d449f4 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -43,7 +43,9 @@ class Cosine(dist.Distribution):
     def rsample(self, sample_shape: torch.Size = None) -> Tensor:
         sample_shape = sample_shape or torch.Size()
         u = torch.rand(sample_shape, device=self.low.device)
-        return torch.arcsin(u / self.norm + torch.sin(self.low))
+        # rounding can carry the sine just past one, where arcsin is nan
+        sine = u / self.norm + torch.sin(self.low)
+        return torch.arcsin(sine.clamp(-1, 1))
 
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
-- 
2.43.0

