From 5e1b6adfb8f75600da159bf062a78750d9937597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 01/10] fix: tiling integrand diverges when a quadrature node
 rounds past the support

s_lambda vanishes outside the open interval (1/lam, 1). When a trapezium node
rounded to just outside it (e.g. every L for lam=5, j=4 l=32 for lam=pi) the
integrand evaluated to inf/nan and all wavelet filters became nan.
---
 s2wav/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..2934fb5 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -371,6 +371,10 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
+    # s_lambda vanishes outside the open interval (1/lam, 1)
+    if s_arg <= -1.0 or s_arg >= 1.0:
+        return 0.0
+
     integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
 
     return integrand
-- 
2.43.0


From cf97ddb9caecc7a3ab05b388ba6fb9a7582e0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 02/10] fix: j_max one scale too large at exact powers of lam

log(27)/log(3) rounds to 3.0000000000000004, so j_max(27, 3) was 4 and the
transforms asserted on the empty extra scale.
---
 s2wav/samples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..6cb3b07 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -573,7 +573,9 @@ def j_max(L: int, lam: float = 2.0) -> int:
     Returns:
         int: The maximum wavelet scale used.
     """
-    return int(np.ceil(np.log(L) / np.log(lam)))
+    J = int(np.ceil(np.log(L) / np.log(lam)))
+    # The ratio of logarithms can round past an exact power of lam
+    return J - 1 if J > 0 and lam ** (J - 1) >= L else J
 
 
 def wavelet_shape_check(
-- 
2.43.0


From 1b202533b6c756bcb68404c8df68c61e546bb971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 03/10] fix: vectorised and JAX spin normalisation crash for
 spin0 != 0

The range of 2|s| factors was reshaped to 2|s|+1 and combined with el by a dot
product instead of a sum, so every spin0 != 0 call raised.
---
 s2wav/filters.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 2934fb5..0fea526 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -664,9 +664,10 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    factor = np.arange(-abs(spin) + 1.0, abs(spin) + 1.0).reshape(1, 2 * abs(spin))
+    factor = np.prod(el.reshape(len(el), 1) + factor, axis=1)
+    factor = np.where(el < abs(spin), 1.0, factor)  # undefined for el < |spin|
+    return np.sqrt(factor ** np.sign(spin))
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -728,6 +729,7 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    factor = jnp.arange(-abs(spin) + 1.0, abs(spin) + 1.0).reshape(1, 2 * abs(spin))
+    factor = jnp.prod(el.reshape(len(el), 1) + factor, axis=1)
+    factor = jnp.where(el < abs(spin), 1.0, factor)  # undefined for el < |spin|
+    return jnp.sqrt(factor ** np.sign(spin))
-- 
2.43.0


From 58d2c5bf976f593209306caf2bf1e756c8b2cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 04/10] fix: zero wavelet generating functions below J_min in
 vectorised/JAX filters

The looped generator leaves scales below J_min at zero; the vectorised and JAX
versions of it returned non-zero kernels there.
---
 s2wav/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 0fea526..7c195b2 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -189,6 +189,7 @@ def filters_axisym_vectorised(
     k = k_lam(L, lam)
     diff = (np.roll(k, -1, axis=0) - k)[:-1]
     diff[diff < 0] = 0
+    diff[:J_min] = 0
     return np.sqrt(diff), np.sqrt(k[J_min])
 
 
@@ -287,6 +288,7 @@ def filters_axisym_jax(
     k = k_lam_jax(L, lam)
     diff = (jnp.roll(k, -1, axis=0) - k)[:-1]
     diff = jnp.where(diff < 0, jnp.zeros((J + 1, L)), diff)
+    diff = diff.at[:J_min].set(0)
     return jnp.sqrt(diff), jnp.sqrt(k[J_min])
 
 
-- 
2.43.0


From 57202da0aef1a33bccaccdf09578b25b26b91a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 05/10] fix: keep the minimum harmonic index of a scale below
 its band-limit

For non-integer lam the top scale can have ceil(lam^(J-1)) == L, and the
underlying transforms assert L_lower < L (e.g. L=2, lam=1.5).
---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 6cb3b07..e7708bd 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,7 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From 9f6775043d3def03d2fcd1b4bf852a7b5767778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 06/10] fix: scaling coefficients of band-limit 1 have the
 sampled shape

With J_min=0 analysis returned a (1, 1) array for every sampling, which does not
match samples.f_scal for mwss, dh and healpix and which synthesis then rejects.
---
 s2wav/transforms/wavelet.py                  | 3 ++-
 s2wav/transforms/wavelet_c.py                | 3 ++-
 s2wav/transforms/wavelet_precompute.py       | 3 ++-
 s2wav/transforms/wavelet_precompute_torch.py | 2 ++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..6c1481b 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,8 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, multiresolution=True)
+        f_scal = jnp.full(shape, temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..59f3e07 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,8 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, multiresolution=True)
+        f_scal = jnp.full(shape, flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..60d431e 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,8 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, multiresolution=True)
+        f_scal = jnp.full(shape, temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..6080dc1 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,9 +201,11 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, multiresolution=True)
         f_scal = temp * torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
         )
+        f_scal = f_scal[0, 0] * torch.ones(shape, dtype=torch.float64)
     else:
         f_scal = spherical.inverse_transform_torch(
             temp, precomps[1], Ls, sampling, reality, spin, nside
-- 
2.43.0


From ad92e810c2bc554b086b8047390ad777685a633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 07/10] fix: flm_to_analysis with J_max below j_max uses the
 kernel of its own scale

Only the last scale j_max shares the kernel of the scale before it; the shift was
applied to the last requested scale instead.
---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 60d431e..b57b1b1 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -304,7 +304,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 6080dc1..d9db12e 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -285,7 +285,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From adce960e48e6baec2e7b9792816d889da4f0eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 08/10] fix: full precomputes can be generated for spin signals

The precompute transforms take a spin, but the kernel generator hard-coded spin 0,
so the coefficients of a spin signal were silently wrong.
---
 s2wav/transforms/construct.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..d73b1c6 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,9 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin of the signal for which the spherical kernels are
+            generated. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +70,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From f85b76ebeb2069b1cc7b8732e4a7e96aac08168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 09/10] fix: C backend crashes when the scaling band-limit does
 not exceed |spin|

The SSHT/ducc0 library rejects spin >= L; the scaling coefficients of such a
signal are identically zero.
---
 s2wav/transforms/wavelet_c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 59f3e07..b268c9e 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -67,9 +67,13 @@ def synthesis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    f_scal_lm = ssht_forward(
-        f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
-    )
+    # A spin signal has no scaling content when the scaling band-limit is at most |spin|
+    if Ls <= abs(spin):
+        f_scal_lm = jnp.zeros((Ls, 2 * Ls - 1), dtype=jnp.complex128)
+    else:
+        f_scal_lm = ssht_forward(
+            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+        )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
@@ -146,7 +150,7 @@ def analysis(
             )
         )
 
-    if Ls == 1:
+    if Ls <= max(1, abs(spin)):
         shape = samples.f_scal(L, J_min, lam, sampling, multiresolution=True)
         f_scal = jnp.full(shape, flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
-- 
2.43.0


From 4d5d57656518913d24c4b682cc1fcf6ad3ceedcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:11 +0000
Subject: [PATCH 10/10] fix: transforms called without filters generate the
 default filters

The README and docstrings document filters as optional (s2wav.analysis(f, L, N)),
but leaving them out raised a TypeError.
---
 s2wav/transforms/wavelet.py                  | 16 ++++++++++++++++
 s2wav/transforms/wavelet_c.py                | 16 ++++++++++++++++
 s2wav/transforms/wavelet_precompute.py       | 16 ++++++++++++++++
 s2wav/transforms/wavelet_precompute_torch.py | 16 ++++++++++++++++
 4 files changed, 64 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 6c1481b..414291e 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 import s2fft
 from s2wav import samples
+from s2wav import filters as filter_factory
 from s2wav.transforms import construct
 
 
@@ -71,6 +72,11 @@ def synthesis(
             L, N, J_min, lam, sampling, nside, True, reality
         )
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = jnp.zeros((L, 2 * L - 1), dtype=jnp.complex128)
@@ -155,6 +161,11 @@ def analysis(
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
         )
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     wav_lm = jnp.einsum(
@@ -263,6 +274,11 @@ def flm_to_analysis(
             L, N, J_min, lam, sampling, nside, False, reality
         )
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam
+        )[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     wav_lm = jnp.einsum(
         "jln, l->jln",
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index b268c9e..ac8c9bd 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -5,6 +5,7 @@ from functools import partial
 import s2fft
 from s2fft.transforms.c_backend_spherical import ssht_forward, ssht_inverse
 from s2wav import samples
+from s2wav import filters as filter_factory
 
 
 def synthesis(
@@ -64,6 +65,11 @@ def synthesis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -134,6 +140,11 @@ def analysis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -196,6 +207,11 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam
+        )[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index b57b1b1..d74ed47 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav import filters as filter_factory
 
 
 @partial(jit, static_argnums=(2, 3, 4, 5, 6, 7, 8, 9))
@@ -71,6 +72,11 @@ def synthesis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = jnp.zeros((L, 2 * L - 1), dtype=jnp.complex128)
@@ -164,6 +170,11 @@ def analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     wav_lm = jnp.einsum(
@@ -278,6 +289,11 @@ def flm_to_analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam
+        )[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     wav_lm = jnp.einsum(
         "jln, l->jln",
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index d9db12e..78b4e1c 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -2,6 +2,7 @@ import torch
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav import filters as filter_factory
 
 
 def synthesis(
@@ -68,6 +69,11 @@ def synthesis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin, using_torch=True
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = torch.zeros((L, 2 * L - 1), dtype=torch.complex128)
@@ -157,6 +163,11 @@ def analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, spin, using_torch=True
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -265,6 +276,11 @@ def flm_to_analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filter_factory.filters_directional_vectorised(
+            L, N, J_min, lam, using_torch=True
+        )[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
 
     f_wav_lmn = samples.construct_flmn_torch(L, N, J_min, J, lam, True)
-- 
2.43.0

