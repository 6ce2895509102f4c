#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))])))
S='s2wav/samples.py'; F='s2wav/filters.py'; B='s2wav/transforms/base.py'; W='s2wav/transforms/wavelet.py'
C='s2wav/transforms/wavelet_c.py'; PJ='s2wav/transforms/wavelet_precompute.py'; PT='s2wav/transforms/wavelet_precompute_torch.py'; K='s2wav/transforms/construct.py'
TR=[B,W,C,PJ,PT]
CFG=["inputs","configurations"]
TESTS="The tests sample L=8 (16 for filters), N=2,3, lam=2, one J_min, spin 0, full resolution never, J_max never, healpix never; the claim is over every value of those parameters."

prop("C01","Scale band-limits and harmonic windows cover every filter",
 "For every band-limit L, dilation lam, directionality N and scale j, the reported harmonic window [L0_j, L_j), azimuthal order N_j and scaling band-limit contain every non-zero entry of the wavelet and scaling filters, are never empty, never exceed L, and N_j keeps the parity of N. With multiresolution off every scale is reported at full resolution (L, N, lower limit 0). The number of scales is ceil(log L / log lam), so that the scales reach L, and scal/wavelet helpers count them consistently.",
 CFG,"all L>=2, lam>1, N>=1, 0<=J_min<J, all scales j, multiresolution on/off",TESTS,[S,F],
 "samples.LN_j, wav_j_bandlimit, L0_j, scal_bandlimit, j_max give the windows; filters.k_lam gives the support")
prop("C02","Sample-shape helpers agree with the coefficients transforms use",
 "For every configuration the helper functions that report or allocate coefficient shapes (scaling map, wavelet map at scale j, scaling and Wigner harmonic coefficients, number of scales, per-scale allocation lists) give exactly the shapes, in the same order, that the analysis transforms return and the synthesis transforms consume. The shape check accepts every output of a multiresolution or full-resolution analysis and rejects coefficients of any other shape or number of scales.",
 CFG,"all L, N, J_min, lam, sampling, nside, multiresolution, J_max",TESTS,[S]+TR,
 "samples.f_scal, f_wav_j, flmn_wav_j, construct_f*, construct_flm*, construct_flmn*, n_wav_scales, wavelet_shape_check")
prop("C03","Filters tile the harmonic plane exactly (admissibility)",
 "For every L, N, J_min, lam and every degree l at or above the spin, 4pi/(2l+1)*|phi_l|^2 + 8pi^2/(2l+1)*sum_{j,n}|psi^j_{ln}|^2 equals one when spin0 is zero, for every directional filter generator, and phi_l^2 + sum_j psi^j_l^2 equals one for the axisymmetric profiles. This is the identity on which exact reconstruction rests.",
 CFG,"all L, N, J_min, lam, spin; all degrees l; every filter generator",TESTS,[F,S],
 "filters.k_lam telescoping in filters_axisym*, directional tiling tiling_direction*, normalisations in filters_directional*")
prop("C04","All filter generators produce the same filters",
 "The looped, vectorised and JAX axisymmetric and directional filter generators, with or without conversion to Torch tensors, return arrays of the same shape and the same values for every L, N, J_min, lam, spin and spin0, including rows of scales below J_min and degrees below the spin.",
 CFG,"all L, N, J_min, lam, spin, spin0 (both signs), using_torch",
 "Tests compare variants only at L=16, two lam, spin=0, spin0=0, J_min=0,2.",[F,S],
 "filters_axisym/_vectorised/_jax, filters_directional/_vectorised/_jax, tiling_direction/_jax, k_lam/_jax, _spin_normalization/_vectorised/_jax, binomial_coefficient/_jax")
prop("C05","Filters have the documented support, symmetry and parity",
 "For every configuration a wavelet filter is zero at scales below J_min, at degrees below max(|spin|,|spin0|), at orders |m| >= N or |m| > l or of the wrong parity (N+m even), and outside its scale's harmonic window, while the scaling filter is zero at degrees at or above lam**J_min and below the spin. The filters satisfy psi_{l,-m} = (-1)^m conj(psi_{lm}) and the axisymmetric profiles are non-negative.",
 CFG,"all L, N, J_min, lam, spin, spin0; all j, l, m; every generator",TESTS,[F],
 "filters_directional* masks, tiling_direction* parity and order conditions, k_lam branches")
prop("C06","Every backend computes the same analysis transform",
 "For every valid configuration, the analysis of a signal in each backend (looped, vectorised, JAX, C/SSHT, precompute JAX, precompute Torch) is, scale by scale from J_min to J, the Wigner inverse at band-limits (L_j, N_j) of f_lm * conj(psi^j_ln) * 8pi^2/(2l+1), together with the spherical inverse at the scaling band-limit of f_lm * phi_l * sqrt(4pi/(2l+1)). No backend drops, duplicates, reorders or mis-aligns a scale, degree, order m or orientation n.",
 CFG,"all L, N, J_min, lam, spin, sampling, nside, reality, multiresolution; all signals",TESTS,TR+[S],
 "analysis in base/wavelet/wavelet_c/wavelet_precompute/wavelet_precompute_torch; _generate_and_apply_wavelets/_scaling")
prop("C07","Every backend computes the same synthesis transform",
 "For every valid configuration, synthesis in each backend is the spherical inverse at band-limit L of sum_j sum_n (Wigner forward of the j-th wavelet coefficients)_{lmn} * psi^j_ln plus (spherical forward of the scaling coefficients)_{lm} * phi_l * sqrt(4pi/(2l+1)). No backend drops, duplicates or mis-aligns a scale, degree, order or orientation.",
 CFG,"all L, N, J_min, lam, spin, sampling, nside, reality, multiresolution; all coefficients",TESTS,TR+[S],
 "synthesis in the five transform modules; _sum_over_wavelet_and_scaling")
prop("C08","flm_to_analysis equals the wavelet part of analysis, for every J_max",
 "For every configuration flm_to_analysis applied to the harmonic coefficients of a signal returns exactly the wavelet coefficients that analysis returns for that signal, and with J_max given it returns exactly the scales J_min..J_max of them, each computed with its own band-limits and its own precomputed kernel.",
 CFG,"all L, N, J_min, J_max<=J, lam, sampling, nside, reality; four backends",
 "No test passes J_max, and flm_to_analysis is compared only at L=8, N=2,3, lam=2.",[W,C,PJ,PT],
 "flm_to_analysis in wavelet, wavelet_c, wavelet_precompute, wavelet_precompute_torch")
prop("C09","Precomputed kernels match the transform that consumes them",
 "For every configuration the kernel lists built for a transform contain, for each scale, a kernel for exactly the band-limits, azimuthal order, sampling, nside, reality, direction and spin with which analysis, synthesis and flm_to_analysis later apply the element they pick, including the kernel shared by the last two scales and the two spherical kernels. Torch kernels hold the same values as the JAX ones.",
 CFG,"all L, N, J_min, J_max, lam, sampling, nside, reality, forward, spin, using_torch",TESTS,[K,W,PJ,PT],
 "construct.generate_full_precomputes, generate_wigner_precomputes; precomps[...] indexing with the J shift")
prop("C10","Analysis followed by synthesis reconstructs the signal",
 "For every valid configuration and backend, substituting the coefficients produced by analysis into synthesis gives back every harmonic coefficient of the band-limited signal: each f_lm reaches the final inverse transform with total weight exactly one, for all l >= |spin| and all m, and nothing else reaches it.",
 CFG,"all band-limited signals, all L, N, J_min, lam, spin, reality, multiresolution; all backends",TESTS,TR+[F,S],
 "composition of analysis and synthesis with the default filters")
prop("C11","Caller's sampling, nside, reality and spin reach every transform",
 "In every public transform each forward or inverse harmonic transform it performs uses the caller's sampling scheme, nside and reality flag unchanged, the caller's spin on the sphere, and the band-limit of the object being transformed; no call falls back to a default or to another scale's value.",
 CFG,"all values of sampling, nside, reality, spin in every public transform of every backend",
 "Tests never use healpix, nside or spin != 0, and use non-mw sampling only in round trips.",TR+[K],
 "arguments of the s2fft/SSHT calls in the transform and construct modules")
prop("C12","Transforms never modify inputs and have no hidden state",
 "No public function modifies an array, list, filter or kernel passed to it, and its result depends only on its arguments: repeated calls, in any order and with any other calls in between, return the same values, and modifying a returned array never changes a later result.",
 ["inputs","histories"],"all call histories and all inputs of every public function",
 "Tests call each function once per process state and never compare inputs before and after.",[S,F]+TR+[K],
 "in-place updates (+=, slice stores, *=), module globals, memoisation decorators, mutable defaults")
prop("C13","JAX and Torch transforms stay differentiable end to end",
 "In the JAX, C-backend and Torch transforms every dependence of the outputs on the signal, harmonic or wavelet-coefficient inputs is carried by differentiable operations: no detaching, gradient stopping, conversion to NumPy or Python scalars, rounding or in-place loss lies on a path from an input to an output.",
 CFG,"all inputs and configurations of analysis, synthesis, flm_to_analysis in the JAX, C and Torch modules",
 "Gradient tests exist for a single small configuration of the JAX/C modules only and none checks Torch gradients at all branches.",[W,C,PJ,PT],
 "data paths from f, flm, f_wav, f_scal to the returned arrays")
prop("C14","Computations are carried out in double precision",
 "Every harmonic buffer, filter, weight and kernel used by the generators and transforms is held in double precision (float64/complex128) from input to output: no single-precision allocation, cast, or default-dtype intermediate (such as an integer Torch range turned into float32) lies on a path to a result. Real storage is never used where complex values are required.",
 CFG,"all configurations; every array allocated or converted in the package",
 "Tests compare at loose tolerances for small L, where a single-precision weight goes unnoticed.",[S,F]+TR+[K],
 "dtype arguments and promotions in samples.construct_*, filters, transforms")
prop("C15","JIT-compiled functions treat every configuration argument as static",
 "Every function compiled with JAX marks as static exactly the arguments that decide shapes, loop bounds, Python branches or string options, and none of its array arguments, so that it can be called with any valid positional configuration without tracer errors and never reuses a result compiled for another configuration or for other data.",
 CFG,"all jitted functions and all argument combinations",
 "Tests call each jitted function with a few positional patterns; defaults and other branches are never traced.",[S,F,W,C,PJ],
 "static_argnums/static_argnames of the jit decorators versus the use of each parameter")
prop("C16","Invalid configurations are rejected with an error",
 "Axisymmetric and directional filter generation raises ValueError whenever J_min is negative or not below the maximum scale; the C backend raises ValueError for healpix in any letter case in analysis, synthesis and flm_to_analysis; the precompute transforms raise ValueError when kernels are missing; base synthesis rejects coefficients of the wrong shape or number. None of these errors is raised for a valid configuration.",
 CFG,"all L, lam, J_min, sampling strings, presence of kernels, coefficient shapes",
 "Tests check one invalid J_min and one healpix call.",[F,C,PJ,PT,B,S],
 "raise/assert statements and the conditions guarding them")
prop("C17","Omitting filters or kernels equals passing the generated ones",
 "In the transforms that generate filters or kernels when they are not supplied, the generated objects are those of the caller's own L, N, J_min, lam, spin, sampling, nside, reality and direction, so that the result is the same as when the caller passes the output of the corresponding generator.",
 CFG,"all configurations, with filters and kernels each given or omitted",
 "The tests always pass filters explicitly.",[W,C,K,F],
 "the `is None` defaults in wavelet and wavelet_c")
prop("C18","Real-signal shortcuts agree with the general complex transform",
 "For real spin-0 signals, analysis, synthesis and flm_to_analysis with reality switched on build the same harmonic coefficients (every order m >= 0, and every order and orientation that a later step reads) as with it switched off, in every backend.",
 CFG,"all real signals, all configurations, reality on versus off",TESTS,TR,
 "the `if reality` branches in base, the real-part selection in wavelet_c, reality arguments of all transforms")
prop("C19","Public entry points and backends expose one consistent interface",
 "Every documented public name resolves to the function of the backend it names, and the analysis, synthesis, flm_to_analysis and filter functions of all backends accept the shared parameters in the same order with the same default values, so that a call written for one backend means the same thing in another.",
 ["programs","configurations"],"all public names, all calls that pass shared parameters by position or by default",
 "Tests call each backend with explicit full positional arguments.",['s2wav/__init__.py']+TR+[F,S,K],
 "re-exports in s2wav/__init__.py, parameter order and defaults of the public functions")
prop("C20","Filter construction is free of singularities for every lam > 1",
 "For every L, real lam > 1, N, J_min and spin, every quotient, exponential, logarithm, square root and gamma function evaluated while building tilings, filters and normalisations is evaluated inside its domain, so that filters are always finite; in particular integration nodes at or beyond the ends of the tiling kernel's support contribute zero.",
 CFG,"all real lam > 1 (also values for which 1/lam is not exact), all L, N, J_min, spin, spin0",
 "Tests use lam=2 and 3 only, where node coordinates happen to be exact.",[F,S],
 "tiling_integrand, part_scaling_fn, k_lam(_jax), binomial_coefficient, _spin_normalization*")
prop("C21","Full-resolution and scattering modes of the base transforms",
 "With multiresolution off, base analysis and synthesis use the full band-limit L, azimuthal order N and lower limit 0 for every scale and for the scaling part, and otherwise compute the same convolution; with scattering on, base analysis returns the moduli of the wavelet coefficients and the same scaling coefficients. A non-zero spin0 only changes the filters.",
 CFG,"all configurations with multiresolution off, scattering on, or spin0 != 0",
 "Tests never switch multiresolution off or scattering on and never use spin0.",[B,S,F],
 "multiresolution/scattering/spin0 parameters of base.analysis, synthesis and looped variants")
# not claimed
prop("C90","Round-trip error is at machine precision",
 "The numerical error of a round trip stays below about 1e-13 for every band-limit, in every backend.",
 CFG,"all signals and band-limits","Tests check small L only.",TR,"floating-point behaviour of s2fft recursions and FFTs")
prop("C91","Transforms run within the promised time and memory complexity",
 "The directional wavelet transform costs O(N L^3) time, and multiresolution reduces memory accordingly.",
 CFG,"all L, N","Not tested.",TR,"s2fft kernels, XLA compilation")
prop("C92","Gradients are numerically correct",
 "The gradients returned by JAX and Torch equal the true derivatives to machine precision.",
 CFG,"all inputs","Tests check one configuration.",[W,C,PJ,PT],"JAX/Torch autodiff and s2fft custom VJPs")
prop("C93","Results are identical on CPU, GPU and multiple devices",
 "Transforms give the same values on every JAX/Torch device and under distribution.",
 ["schedules","configurations"],"all devices","Only CPU is available.",[W,PJ,PT],"XLA/CUDA back ends")
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
