#!/usr/bin/env python3
"""Regenerates known_findings.jsonl (never called by a check)."""
import json, os
F = [
 ("C20","5390d97","filters.tiling_integrand divided by zero / overflowed at and beyond the ends of the kernel's support (e.g. lam=1.1 gives nan filters)"),
 ("C04","6ba8f28","_spin_normalization_vectorised/_jax crashed (gamma of negative, shape) for spin0 != 0, unlike the looped generator"),
 ("C04","e23a114","vectorised and JAX filters kept non-zero rows at scales below J_min, unlike the looped generators (also C05)"),
 ("C01","67a834e","LN_j returned an empty harmonic window (L0_j >= L_j) when lam**(j-1) >= L, e.g. L=4, lam=4.5"),
 ("C11","c9d42ae","base.analysis allocated healpix coefficients without nside (TypeError); also C21"),
 ("C08","e6c127b","precompute flm_to_analysis applied another scale's kernel when J_max < J; also C09"),
 ("C02","f2207a6","f_scal reported shape (1,1) at scaling band-limit one although the sampled map has the sampling's own shape"),
 ("C09","230e926","generate_full_precomputes could only build spin-0 spherical kernels"),
 ("C16","d7686d9","C backend flm_to_analysis accepted healpix sampling"),
 ("C06","13d069a","C backend analysis/synthesis failed inside SSHT when |spin| >= scaling band-limit; also C07"),
 ("C17","d0e20aa","filters=None (the default) crashed in wavelet.py and wavelet_c.py instead of generating the filters; also C19"),
 ("C19","1af8f6e","N had no default in synthesis_looped and the kernel constructors although documented as defaulting to 1"),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl"), "w") as f:
    for p, c, w in F:
        f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, line=f"fixed: property={p} {c} {w}")) + "\n")
