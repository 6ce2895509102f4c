"""Semantics of the s2fft entry points, as transform / kernel records.

A transform call becomes an ``xf`` node (operation, roles, data); its result is
an array of ``xel`` elements.  The models fix positional order, defaults and
output shapes of s2fft 1.2.0; nothing of s2fft is executed.
"""
from __future__ import annotations
from . import terms as tm
from .terms import Term, const, add, sub, mul, ZERO, ONE, NONE
from .values import *
from .arrays import Undecided

MISSING = object()


def _sig(s):
    out = []
    for p in s.split(","):
        p = p.strip()
        if "=" in p:
            n, d = p.split("=")
            d = {"None": None, "False": False, "True": True}.get(d, d)
            if isinstance(d, str) and d.lstrip("-").isdigit():
                d = int(d)
            out.append((n, const(d)))
        else:
            out.append((p, MISSING))
    return out


S_BASE_SPH = "spin=0,sampling=mw,nside=None,reality=False,L_lower=0"
T = {}


def _add(names, op, fw, sig, kt=None):
    for n in names:
        T[n] = (op, fw, _sig(sig), kt)


for d in ("forward", "inverse"):
    o = "fwd" if d == "forward" else "inv"
    _add([f"s2fft.base_transforms.spherical.{d}"], f"sph_{o}", "np", "x,L,spin=0,sampling=mw,nside=None,reality=False,L_lower=0" + (",iter=0" if o == "fwd" else ""))
    _add([f"s2fft.base_transforms.spherical._{d}"], f"sph_{o}", "np", "x,L,spin=0,sampling=mw,method=sov,nside=None,reality=False,L_lower=0")
    _add([f"s2fft.base_transforms.wigner.{d}"], f"wig_{o}", "np", "x,L,N,L_lower=0,sampling=mw,reality=False,nside=None")
    for fw, sfx in (("np", "_numpy"), ("jnp", "_jax")):
        ex = ",spmd=False" if fw == "jnp" else ""
        _add([f"s2fft.{d}{sfx}", f"s2fft.transforms.spherical.{d}{sfx}"], f"sph_{o}", fw,
             f"x,L,spin=0,nside=None,sampling=mw,reality=False,precomps=None{ex},L_lower=0" + (",use_healpix_custom_primitive=False" if fw == "jnp" and o == "fwd" else ""), "rec")
        _add([f"s2fft.wigner.{d}{sfx}", f"s2fft.transforms.wigner.{d}{sfx}"], f"wig_{o}", fw,
             "x,L,N,nside=None,sampling=mw,reality=False,precomps=None,L_lower=0", "rec")
    _add([f"s2fft.{d}", f"s2fft.transforms.spherical.{d}"], f"sph_{o}", "method",
         "x,L,spin=0,nside=None,sampling=mw,method=numpy,reality=False,precomps=None,spmd=False,L_lower=0" + (",iter=None" if o == "fwd" else "") + ",_ssht_backend=1", "rec")
    _add([f"s2fft.wigner.{d}", f"s2fft.transforms.wigner.{d}"], f"wig_{o}", "method",
         "x,L,N,nside=None,sampling=mw,method=numpy,reality=False,precomps=None,L_lower=0,_ssht_backend=1", "rec")
    _add([f"s2fft.wigner.{d}_jax_ssht", f"s2fft.transforms.wigner.{d}_jax_ssht"], f"wig_{o}", "jnp",
         "x,L,N,L_lower=0,sampling=mw,reality=False,_ssht_backend=1", "ssht")
    _add([f"s2fft.transforms.c_backend_spherical.ssht_{d}"], f"sph_{o}", "jnp",
         "x,L,spin=0,reality=False,ssht_sampling=0,_ssht_backend=1", "ssht")
    for fw, sfx in (("np", ""), ("jnp", "_jax"), ("torch", "_torch")):
        _add([f"s2fft.precompute_transforms.spherical.{d}_transform{sfx}"], f"sph_{o}", fw, "x,precomps,L,sampling,reality,spin,nside", "full")
        _add([f"s2fft.precompute_transforms.wigner.{d}_transform{sfx}"], f"wig_{o}", fw, "x,precomps,L,N,sampling,reality,nside", "full")
    _add([f"s2fft.precompute_transforms.spherical.{d}"], f"sph_{o}", "method", "x,L,spin=0,precomps=None,sampling=mw,reality=False,method=jax,nside=None" + (",iter=0" if o == "fwd" else ""), "full")
    _add([f"s2fft.precompute_transforms.wigner.{d}"], f"wig_{o}", "method", "x,L,N,precomps=None,sampling=mw,reality=False,method=jax,nside=None", "full")

ALIAS_ARG = {"flm": "x", "f": "x", "flmn": "x", "kernel": "precomps"}

K = {}
for n in ("s2fft.generate_precomputes_wigner", "s2fft.recursions.price_mcewen.generate_precomputes_wigner"):
    for sfx, fw in (("", "np"), ("_jax", "jnp")):
        K[n + sfx] = ("wig_rec", fw, _sig("L,N,sampling=mw,nside=None,forward=False,reality=False,L_lower=0"))
for n in ("s2fft.generate_precomputes", "s2fft.recursions.price_mcewen.generate_precomputes"):
    for sfx, fw in (("", "np"), ("_jax", "jnp")):
        K[n + sfx] = ("sph_rec", fw, _sig("L,spin=0,sampling=mw,nside=None,forward=False,L_lower=0" + (",betas=None" if sfx else "")))
_c = "s2fft.precompute_transforms.construct."
K[_c + "wigner_kernel_jax"] = ("wig_full", "jnp", _sig("L,N,reality=False,sampling=mw,nside=None,forward=False,mode=auto"))
K[_c + "wigner_kernel"] = ("wig_full", "np", _sig("L,N,reality=False,sampling=mw,nside=None,forward=False,mode=auto,using_torch=False"))
K[_c + "spin_spherical_kernel_jax"] = ("sph_full", "jnp", _sig("L,spin=0,reality=False,sampling=mw,nside=None,forward=True,recursion=auto"))
K[_c + "spin_spherical_kernel"] = ("sph_full", "np", _sig("L,spin=0,reality=False,sampling=mw,nside=None,forward=True,using_torch=False,recursion=auto"))

KROLES = {
    "wig_rec": ("L", "N", "sampling", "nside", "forward", "reality", "L_lower"),
    "sph_rec": ("L", "spin", "sampling", "nside", "forward", "L_lower"),
    "wig_full": ("L", "N", "reality", "sampling", "nside", "forward"),
    "sph_full": ("L", "spin", "reality", "sampling", "nside", "forward"),
}

SAMP = ["mw", "mwss", "dh", "gl"]


def bind(it, sig, args, kw, path):
    env = {}
    names = [n for n, _ in sig]
    if len(args) > len(names):
        it.event("call_error", what=f"too many arguments for {path}")
        raise Undecided(f"too many arguments for {path}")
    for n, v in zip(names, args):
        env[n] = v
    for k, v in kw.items():
        k = ALIAS_ARG.get(k, k) if k not in names else k
        if k not in names or k in env:
            it.event("call_error", what=f"bad argument {k} for {path}")
            raise Undecided(f"bad argument {k} for {path}")
        env[k] = v
    for n, d in sig:
        if n not in env:
            if d is MISSING:
                it.event("call_error", what=f"missing argument {n} for {path}")
                raise Undecided(f"missing argument {n} for {path}")
            env[n] = d
    return env


def scalar(it, v, what):
    d = it.deref(v)
    if isinstance(d, Arr) and d.ndim == 0:
        d = d.at()
    if isinstance(d, GatedV):
        return tm.ite(d.c, scalar(it, d.a, what), scalar(it, d.b, what))
    if not isinstance(d, Term):
        raise Undecided(f"{what}: {d!r}")
    return d


def smatch(sampling, opts):
    """condition sampling.lower() in opts"""
    if tm.is_const(sampling):
        v = tm.cval(sampling)
        return tm.TRUE if isinstance(v, str) and v.lower() in opts else tm.FALSE
    return tm.bor(*[tm.eq(tm.app("lower", sampling, kind="s"), const(o)) for o in opts])


def s2_shape(L, sampling, nside):
    hp = smatch(sampling, ("healpix",))
    if hp is tm.TRUE:
        if nside is NONE:
            return None
        return (mul(const(12), tm.power(nside, const(2))),)
    if hp is not tm.FALSE:
        raise Undecided("symbolic sampling scheme")
    if smatch(sampling, ("mw", "gl")) is tm.TRUE:
        return (L, sub(tm.scale(2, L), ONE))
    if smatch(sampling, ("mwss",)) is tm.TRUE:
        return (add(L, ONE), tm.scale(2, L))
    if smatch(sampling, ("dh",)) is tm.TRUE:
        return (tm.scale(2, L), sub(tm.scale(2, L), ONE))
    return None


def so3_shape(L, N, sampling, nside):
    s = s2_shape(L, sampling, nside)
    if s is None:
        return None
    return (sub(tm.scale(2, N), ONE),) + tuple(s)


def flm_shape(L):
    return (L, sub(tm.scale(2, L), ONE))


def flmn_shape(L, N):
    return (sub(tm.scale(2, N), ONE), L, sub(tm.scale(2, L), ONE))


def kernel_term(it, v):
    """kernel argument -> role term"""
    d = it.deref(v)
    if isinstance(d, Term):
        return d
    if isinstance(d, GatedV):
        return tm.ite(d.c, kernel_term(it, d.a), kernel_term(it, d.b))
    if isinstance(d, Arr):
        vs, body = d.inst()
        return tm.lam(vs, body)
    if isinstance(d, (ListV, TupleV)):
        if not d.items:
            return const("empty kernel")
        d0 = it.deref(d.items[0])
        if isinstance(d0, Arr):
            return tm.app("kernel_list", *[kernel_term(it, x) for x in d.items], kind="k")
    if isinstance(d, Unknown):
        raise Undecided(d.reason)
    raise Undecided("kernel argument")


def call(it, path, args, kw):
    if not path.startswith("s2fft"):
        return None
    if path in T:
        return transform(it, path, args, kw)
    if path in K:
        return kernel(it, path, args, kw)
    m = path.rsplit(".", 2)
    if len(m) == 3 and m[1] in ("s2_samples", "so3_samples"):
        return sampling_fn(it, m[1], m[2], args, kw)
    return it.unknown(f"unmodelled s2fft function {path}")


def raise_(it, what):
    from .interp import PathDead
    it.event("raise", exc="ValueError", what=what, external=True)
    it.st = None
    raise PathDead()


def sampling_fn(it, mod, name, args, kw):
    if mod == "s2_samples":
        sigs = {"f_shape": "L=None,sampling=mw,nside=None", "flm_shape": "L", "ntheta": "L=None,sampling=mw,nside=None", "nphi_equiang": "L,sampling=mw",
                "elm2ind": "el,m", "ncoeff": "L"}
    else:
        sigs = {"f_shape": "L,N,sampling=mw,nside=None", "flmn_shape": "L,N", "_ngamma": "N", "_nalpha": "L,sampling=mw", "_nbeta": "L,sampling=mw"}
    if name not in sigs:
        return it.unknown(f"unmodelled {mod}.{name}")
    env = bind(it, _sig(sigs[name]), args, kw, f"{mod}.{name}")
    a = {k: scalar(it, v, f"{mod}.{name} argument {k}") for k, v in env.items()}
    if name == "f_shape":
        if mod == "s2_samples":
            sh = s2_shape(a["L"], a["sampling"], a["nside"])
        else:
            s = a["sampling"]
            if tm.is_const(s) and s.args[0] not in SAMP and not (isinstance(s.args[0], str) and s.args[0].lower() == "healpix"):
                sh = None
            else:
                sh = so3_shape(a["L"], a["N"], s, a["nside"])
        if sh is None:
            return raise_(it, "sampling scheme not supported")
        return TupleV(list(sh))
    if name == "flm_shape":
        return TupleV(list(flm_shape(a["L"])))
    if name == "flmn_shape":
        return TupleV(list(flmn_shape(a["L"], a["N"])))
    if name == "_ngamma":
        return sub(tm.scale(2, a["N"]), ONE)
    if name == "elm2ind":
        return add(tm.power(a["el"], const(2)), a["el"], a["m"])
    if name == "ncoeff":
        return tm.power(a["L"], const(2))
    if name == "ntheta" and smatch(a["sampling"], ("healpix",)) is tm.TRUE:
        return sub(tm.scale(4, a["nside"]), ONE)
    sh = s2_shape(a["L"], a["sampling"], NONE)
    if sh is None:
        return raise_(it, "sampling scheme not supported")
    return sh[0] if name in ("ntheta", "_nbeta") else sh[1]


def kernel(it, path, args, kw):
    kt, fw, sig = K[path]
    env = bind(it, sig, args, kw, path)
    roles = []
    for n in KROLES[kt]:
        roles.append((n, scalar(it, env[n], f"{path} argument {n}")))
    k = tm.kern(kt, roles, it.site_str())
    it.event("kernel", kt=kt, roles=dict(roles), K=k)
    ut = env.get("using_torch")
    if ut is not None and isinstance(ut, Term) and ut is tm.TRUE:
        fw = "torch"
    return kern_arr(k, fw)


def kern_arr(k, fw):
    """three-dimensional stand-in for the kernel object"""
    kk = []
    for n in range(3):
        kk.append(tm.app(f"kshape{n}", k, kind="i"))
    return Arr(kk, lambda idx: tm.xel(k, *idx), "complex128" if False else "float64", fw)


def transform(it, path, args, kw):
    op, fw, sig, kt = T[path]
    env = bind(it, sig, args, kw, path)
    if fw == "method":
        m = scalar(it, env["method"], "method")
        if not tm.is_const(m):
            raise Undecided("symbolic transform method")
        mm = m.args[0]
        fw = {"numpy": "np", "jax": "jnp", "torch": "torch", "jax_ssht": "jnp", "jax_healpy": "jnp", "cuda": "jnp"}.get(mm)
        if fw is None:
            return raise_(it, f"method {mm} not recognised")
        if mm == "jax_ssht":
            kt = "ssht"
    x = it.deref(env["x"])
    if isinstance(x, GatedV):
        from .lib import want
        x = want(it, x, fw)
    if isinstance(x, (ListV, TupleV, SeqV)):
        from .lib import to_array
        x = to_array(it, x, fw)
        x = it.deref(x)
    if not isinstance(x, Arr):
        if isinstance(x, Term) and not tm.has_unk(x):
            it.event("xshape", op=op, got=(), want=None, path=path)
        raise Undecided(f"data of {path}: {x!r}")
    L = scalar(it, env["L"], f"{path} L")
    wig = op.startswith("wig")
    sampling = env.get("sampling")
    if "ssht_sampling" in env:
        s = scalar(it, env["ssht_sampling"], "ssht_sampling")
        if not tm.is_const(s):
            raise Undecided("symbolic ssht sampling index")
        v = tm.cval(s)
        sampling = const(SAMP[v]) if v in (0, 1, 2, 3) else const("invalid")
    sampling = scalar(it, sampling, f"{path} sampling")
    reality = scalar(it, env["reality"], f"{path} reality")
    nside = scalar(it, env["nside"], f"{path} nside") if "nside" in env else NONE
    L_lower = scalar(it, env["L_lower"], f"{path} L_lower") if "L_lower" in env else ZERO
    roles = [("L", L)]
    N = None
    if wig:
        N = scalar(it, env["N"], f"{path} N")
        roles.append(("N", N))
    else:
        roles.append(("spin", scalar(it, env["spin"], f"{path} spin")))
    roles += [("L_lower", L_lower), ("sampling", sampling), ("nside", nside), ("reality", reality)]
    kern = NONE
    if "precomps" in env:
        kern = kernel_term(it, env["precomps"])
        kv = it.deref(env["precomps"])
        if isinstance(kv, Arr) and kv.dtype in ("float32", "complex64"):
            it.event("kernel_use", path=path, dtype=kv.dtype)
    roles.append(("kern", kern))
    roles.append(("kt", const(kt)))
    fwd = op.endswith("fwd")
    grid = so3_shape(L, N, sampling, nside) if wig else s2_shape(L, sampling, nside)
    if grid is None:
        return raise_(it, "sampling scheme not supported")
    harm = flmn_shape(L, N) if wig else flm_shape(L)
    want_sh, out_sh = (grid, harm) if fwd else (harm, grid)
    for k, v in roles:
        if k != "kern":
            it.concretise(v, f"static argument {k} of {path}")
    it.event("xshape", op=op, got=x.shape, want=want_sh, path=path)
    if x.ndim != len(want_sh):
        raise Undecided(f"rank of the data of {path}")
    # what the library routines themselves refuse (established from s2fft's source and by calling it)
    if kt == "ssht":
        if wig:
            it.event("xpre", path=path, ok=tm.le(N, L), why="needs at most L azimuthal components", v=N)
        else:
            sp = dict(roles)["spin"]
            it.event("xpre", path=path, ok=tm.lt(tm.fn("abs", sp), L), why="needs a spin number below the band-limit", v=sp)
    elif kt == "full" and wig and fwd and fw in ("jnp", "torch") and tm.is_const(sampling) and tm.cval(sampling) in ("mw", "mwss"):
        it.event("xpre", path=path, ok=tm.le(const(2), N), why="drops the orientation axis of length 1", v=N, L=L)
    if it.jit_depth() and fw == "np" and x.fw == "jnp":
        it.event("jit_host", what=path)
    vs, body = x.inst()
    host = False
    if fw == "np" and x.fw in ("jnp", "torch"):
        body = tm.fn("host", body)
    data = (tm.lam(vs, body), tuple(x.shape))
    X = tm.xf(op, roles, data, it.site_str())
    it.event("xf", op=op, roles=dict(roles), X=X, dtype=x.dtype, shape=x.shape, path=path, fw=fw, xfw=x.fw)
    dt = "complex128"
    kind = "c"
    if not fwd and reality is tm.TRUE:
        dt, kind = "float64", "f"
    if x.dtype in ("float32", "complex64") and fw != "np":
        dt = {"complex128": "complex64", "float64": "float32"}[dt]
    return Arr(out_sh, lambda idx: tm.xel(X, *idx, kind=kind), dt, fw)
