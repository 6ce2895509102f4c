From 5390d97eb659c24cf0d8a258d53c108af91ae686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 01/13] fix: tiling integrand is zero outside its compact
 support

Rounding of the quadrature nodes can place a node at or marginally beyond the
edge of (1/lam, 1), where exp(-2/(1-s^2)) divides by zero or overflows, so that
filters were nan (e.g. lam = 2.7, 3.5, 5, 7, 10) or a ZeroDivisionError was
raised (e.g. lam = 5.5).
---
 s2wav/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..9e1ce54 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -371,6 +371,10 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
+    # The integrand is compactly supported on (1/lam, 1)
+    if abs(s_arg) >= 1.0:
+        return 0.0
+
     integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
 
     return integrand
-- 
2.43.0


From 6ba8f28ff25ebe808616da91a6ea248e48c17348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 02/13] fix: spin normalisation of vectorised and JAX filters

The vectorised and JAX variants raised on reshape for every non-zero spin0, and
multiplied rather than shifted the harmonic degree, unlike the looped variant.
---
 s2wav/filters.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 9e1ce54..439d8a6 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -664,9 +664,10 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    el = np.maximum(el, abs(spin))  # not defined for el < |spin|
+    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin))
+    factor = el.reshape(len(el), 1) + factor
+    return np.sqrt(np.prod(factor, axis=1, dtype=np.float64) ** (np.sign(spin)))
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -728,6 +729,7 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    el = jnp.maximum(el, abs(spin))  # not defined for el < |spin|
+    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin))
+    factor = el.reshape(len(el), 1) + factor
+    return jnp.sqrt(jnp.prod(factor, axis=1, dtype=jnp.float64) ** (np.sign(spin)))
-- 
2.43.0


From e23a114480166805ebbb528569372201adb552d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 03/13] fix: vectorised and JAX filters vanish for scales below
 J_min

The looped generators leave scales j < J_min empty; the vectorised and JAX
versions populated them, so that summing over all returned scales violated the
admissibility condition for J_min > 0.
---
 s2wav/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 439d8a6..ce08714 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -189,6 +189,7 @@ def filters_axisym_vectorised(
     k = k_lam(L, lam)
     diff = (np.roll(k, -1, axis=0) - k)[:-1]
     diff[diff < 0] = 0
+    diff[:J_min] = 0
     return np.sqrt(diff), np.sqrt(k[J_min])
 
 
@@ -287,6 +288,7 @@ def filters_axisym_jax(
     k = k_lam_jax(L, lam)
     diff = (jnp.roll(k, -1, axis=0) - k)[:-1]
     diff = jnp.where(diff < 0, jnp.zeros((J + 1, L)), diff)
+    diff = diff.at[:J_min].set(0)
     return jnp.sqrt(diff), jnp.sqrt(k[J_min])
 
 
-- 
2.43.0


From 67a834e2a4df6b382e0c14021f303fee9c9bb122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 04/13] fix: harmonic window of a wavelet scale is never empty

For dilation parameters for which no integer degree falls within the support of
the highest scale (e.g. L=6, lam=1.5, or L=27, lam=3) the lower bound reached
the band-limit, and the underlying transforms raised.
---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..3ffdd76 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,7 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From c9d42ae8dfb455b15483cf43ed1214cca74783df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 05/13] fix: pass nside when allocating wavelet coefficients in
 base analysis

---
 s2wav/transforms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/transforms/base.py b/s2wav/transforms/base.py
index 931c101..8b4c01a 100644
--- a/s2wav/transforms/base.py
+++ b/s2wav/transforms/base.py
@@ -306,7 +306,7 @@ def analysis(
 
     f_scal_lm = samples.construct_flm(L, J_min, lam, multiresolution)
     f_wav_lmn = samples.construct_flmn(L, N, J_min, lam, multiresolution)
-    f_wav = samples.construct_f(L, N, J_min, lam, sampling, multiresolution)
+    f_wav = samples.construct_f(L, N, J_min, lam, sampling, nside, multiresolution)
 
     # Generate the directional wavelet kernels
     wav_lm, scal_l = filters.filters_directional_vectorised(
-- 
2.43.0


From e6c127b62aa489c4fbd54a8235d615f85b61eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 06/13] fix: precompute flm_to_analysis uses the kernel of its
 own scale for J_max

Only the highest scale of the full tiling shares its kernel with the previous
one; with J_max below it, the last requested scale was transformed with the
kernel of scale J_max - 1 and raised on shape mismatch.
---
 s2wav/transforms/wavelet_precompute.py       | 5 +++--
 s2wav/transforms/wavelet_precompute_torch.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..86a628b 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -277,7 +277,8 @@ def flm_to_analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
-    J = J_max if J_max is not None else samples.j_max(L, lam)
+    J_full = samples.j_max(L, lam)
+    J = J_max if J_max is not None else J_full
     wav_lm = jnp.einsum(
         "jln, l->jln",
         jnp.conj(filters),
@@ -303,7 +304,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < J_full else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..65f3bf7 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -263,7 +263,8 @@ def flm_to_analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
-    J = J_max if J_max is not None else samples.j_max(L, lam)
+    J_full = samples.j_max(L, lam)
+    J = J_max if J_max is not None else J_full
 
     f_wav_lmn = samples.construct_flmn_torch(L, N, J_min, J, lam, True)
     f_wav = samples.construct_f_torch(L, J_min, J, lam)
@@ -283,7 +284,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < J_full else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From f2207a624a5c8b34c891c9a78fea8449ad29e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 07/13] fix: scaling coefficients keep their sampled shape at
 band-limit one

The band-limit one special case returned an array of shape (1, 1) whatever the
sampling scheme, rather than the shape given by samples.f_scal; the C backend
then failed to synthesise such coefficients for mwss and dh sampling.
---
 s2wav/transforms/wavelet.py                  | 5 ++++-
 s2wav/transforms/wavelet_c.py                | 5 ++++-
 s2wav/transforms/wavelet_precompute.py       | 5 ++++-
 s2wav/transforms/wavelet_precompute_torch.py | 9 +++++++--
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..6bee927 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,10 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = jnp.broadcast_to(
+            temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)),
+            samples.f_scal(L, J_min, lam, sampling, nside, True),
+        )
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..a0c0daa 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,10 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = jnp.broadcast_to(
+            flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)),
+            samples.f_scal(L, J_min, lam, sampling, None, True),
+        )
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 86a628b..69c9203 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,10 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = jnp.broadcast_to(
+            temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)),
+            samples.f_scal(L, J_min, lam, sampling, nside, True),
+        )
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 65f3bf7..c532cf5 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,8 +201,13 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
-            torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
+        f_scal = (
+            temp[0, 0]
+            * torch.sqrt(torch.tensor(1 / (4 * torch.pi), dtype=torch.float64))
+            * torch.ones(
+                samples.f_scal(L, J_min, lam, sampling, nside, True),
+                dtype=torch.float64,
+            )
         )
     else:
         f_scal = spherical.inverse_transform_torch(
-- 
2.43.0


From 230e926ab119b3a3d9422042b1b7f27ad378c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 08/13] fix: full precomputes can be generated for the spin of
 the signal

The precompute transforms accept a spin but the spherical kernels were always
those of spin 0, so that transforms of spin signals were silently wrong.
---
 s2wav/transforms/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..6cdf04a 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,8 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin (integer) of input signal. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +69,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From d7686d9a8c065a7a9be05d321a62763ba69b2342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 09/13] fix: C backend flm_to_analysis rejects healpix sampling

As analysis and synthesis do, rather than failing with an obscure TypeError.
---
 s2wav/transforms/wavelet_c.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index a0c0daa..e942842 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -194,6 +194,9 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if sampling.lower() == "healpix":
+        raise ValueError("SSHT C backend does not support healpix sampling.")
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
-- 
2.43.0


From 13d069a9383f51d8a31985e45dd80db7fd312696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 10/13] fix: C backend supports scaling band-limits at or below
 the spin

SSHT raises for |spin| >= band-limit, where the scaling coefficients vanish; the
other backends return zeros.
---
 s2wav/transforms/wavelet_c.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index e942842..7f2b37f 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -67,9 +67,13 @@ def synthesis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    f_scal_lm = ssht_forward(
-        f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
-    )
+    if abs(spin) >= Ls:
+        # There are no scaling coefficients below the spin number
+        f_scal_lm = jnp.zeros((Ls, 2 * Ls - 1), dtype=jnp.complex128)
+    else:
+        f_scal_lm = ssht_forward(
+            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+        )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
@@ -151,6 +155,11 @@ def analysis(
             flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)),
             samples.f_scal(L, J_min, lam, sampling, None, True),
         )
+    elif abs(spin) >= Ls:
+        # There are no scaling coefficients below the spin number
+        f_scal = jnp.zeros(
+            samples.f_scal(L, J_min, lam, sampling, None, True), dtype=jnp.complex128
+        )
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
-- 
2.43.0


From d0e20aa232e65062ed7a5422e514e63ee2ac63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:23 +0000
Subject: [PATCH 11/13] fix: generate the default wavelet filters when none are
 provided

analysis, synthesis and flm_to_analysis default to filters=None, and the README
calls them without filters, but this raised a TypeError.
---
 s2wav/transforms/wavelet.py   |  7 +++++++
 s2wav/transforms/wavelet_c.py | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 6bee927..4ba4c81 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 import s2fft
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 from s2wav.transforms import construct
 
 
@@ -66,6 +67,8 @@ def synthesis(
         [1] B. Leidstedt et. al., "S2LET: A code to perform fast wavelet analysis on the sphere", A&A, vol. 558, p. A128, 2013.
         [2] J. McEwen et. al., "Directional spin wavelets on the sphere", arXiv preprint arXiv:1509.06749 (2015).
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, True, reality
@@ -151,6 +154,8 @@ def analysis(
         f_scal (jnp.ndarray): Array of scaling pixel-space coefficients
             with shape :math:`[n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
@@ -260,6 +265,8 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
     if precomps is None:
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 7f2b37f..3050147 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -5,6 +5,7 @@ from functools import partial
 import s2fft
 from s2fft.transforms.c_backend_spherical import ssht_forward, ssht_inverse
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -64,6 +65,9 @@ def synthesis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -134,6 +138,9 @@ def analysis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -206,6 +213,9 @@ def flm_to_analysis(
     if sampling.lower() == "healpix":
         raise ValueError("SSHT C backend does not support healpix sampling.")
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
-- 
2.43.0


From 1af8f6ed968306549454fd383a2429dbf5e3c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:20 +0000
Subject: [PATCH 12/13] fix: give N its documented default of 1 in
 synthesis_looped and the kernel constructors

---
 s2wav/transforms/base.py      | 2 +-
 s2wav/transforms/construct.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/s2wav/transforms/base.py b/s2wav/transforms/base.py
index 8b4c01a..ac480e7 100644
--- a/s2wav/transforms/base.py
+++ b/s2wav/transforms/base.py
@@ -8,7 +8,7 @@ def synthesis_looped(
     f_wav: np.ndarray,
     f_scal: np.ndarray,
     L: int,
-    N: int,
+    N: int = 1,
     J_min: int = 0,
     lam: float = 2.0,
     spin: int = 0,
diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 6cdf04a..54f2d88 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -12,7 +12,7 @@ from s2wav import samples
 
 def generate_full_precomputes(
     L: int,
-    N: int,
+    N: int = 1,
     J_min: int = 0,
     lam: float = 2.0,
     sampling: str = "mw",
@@ -84,7 +84,7 @@ def generate_full_precomputes(
 
 def generate_wigner_precomputes(
     L: int,
-    N: int,
+    N: int = 1,
     J_min: int = 0,
     lam: float = 2.0,
     sampling: str = "mw",
-- 
2.43.0


From 514b1b089dc9a40d29b41eb2a342c28aeba7d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 13/13] fix: round N_j down, not up, to the parity of N, so
 that it never exceeds L_j

---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 3ffdd76..af09a64 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -126,7 +126,7 @@ def LN_j(
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-        Nj += (Nj + N) % 2
+        Nj -= (Nj + N) % 2
     return Lj, Nj, L0j
 
 
-- 
2.43.0

