"""Argument models: how the public entry points are called, what their inputs
and the filter generators denote, and the analysis runs shared by the rules."""
from __future__ import annotations
import math, time
from . import terms as tm
from .terms import const, add, sub, mul, ZERO, ONE, NONE, TRUE, FALSE
from .values import *
from .interp import Program, Interp, PathDead
from .arrays import Undecided
from . import s2model as s2
from . import eval as evm
from .eval import Ev, Undef, Budget

L = tm.sym("L", "i", 2)
N = tm.sym("N", "i", 1)
J_min = tm.sym("J_min", "i", 0)
lam = tm.sym("lam", "f", 1)
spin = tm.sym("spin", "i")
spin0 = tm.sym("spin0", "i")
nside = tm.sym("nside", "i", 1)
J_max = tm.sym("J_max", "i", 0)
jsym = tm.sym("j", "i", 0)
SYMS = dict(L=L, N=N, J_min=J_min, lam=lam, spin=spin, spin0=spin0, nside=nside, J_max=J_max, j=jsym)

JT = tm.fn("ceil", tm.div(tm.fn("log", L), tm.fn("log", lam)))
tm.FACTS[:] = [sub(L, N), sub(JT, add(J_min, ONE)), sub(J_max, J_min), sub(JT, J_max)]

PKG = "s2wav"
TR = "s2wav.transforms."


# ------------------------------------------------------------------ numeric stand-ins for the filters
_KC = {}


def _int(t, la):
    s = (t - 1 / la) * (2 * la / (la - 1)) - 1
    if abs(s) >= 1:
        return 0.0
    d = 1 - s * s
    return math.exp(-2 / d) / t if d > 1e-15 else 0.0


def _quad(a, b, la, n=300):
    if abs(a - b) < 1e-14:
        return 0.0
    h = (b - a) / n
    v = [_int(a + i * h, la) for i in range(n + 1)]
    return h * (sum(v) - 0.5 * (v[0] + v[-1]))


def kap(Lv, la):
    key = (Lv, la)
    if key not in _KC:
        J = jmax(Lv, la)
        nrm = _quad(1 / la, 1, la)
        k = []
        for j in range(J + 2):
            row = []
            for l in range(Lv):
                if l < la ** (j - 1) - 1e-12:
                    row.append(1.0)
                elif l > la ** j + 1e-12:
                    row.append(0.0)
                else:
                    row.append(_quad(l / la ** j, 1.0, la) / nrm)
            k.append(row)
        _KC[key] = k
    return _KC[key]


def jmax(Lv, la):
    x = math.log(Lv) / math.log(la)
    r = round(x)
    return r if abs(x - r) < 1e-9 else math.ceil(x)


def s_lm(Nv, l, m):
    if l < 1 or abs(m) > l or abs(m) >= Nv or (Nv + m) % 2 == 0:
        return 0
    g = min(Nv - 1, l) if (Nv + l) % 2 else min(Nv - 1, l - 1)
    b = (g - m) // 2
    v = math.sqrt(math.comb(g, b) / 2 ** g) if 0 <= b <= g else 0.0
    return v if Nv % 2 else 1j * v


def snorm(l, s):
    if s == 0:
        return 1.0
    f = 1.0
    for q in range(-abs(s) + 1, abs(s) + 1):
        f *= l + q
    return (-1) ** s * (math.sqrt(f) if s > 0 else math.sqrt(1 / f))


class Data:
    """interpretation of input arrays (mode: 'free' or 'real' signals)"""

    def __init__(self, val, real=False):
        self.val, self.real = val, real

    def elem_psi(self, ev, real, Lv, Nv, Jm, la, sp, sp0, j, l, ni):
        J = jmax(Lv, la)
        if not (0 <= l < Lv and 0 <= ni < 2 * Lv - 1 and 0 <= j <= J):
            if (Lv, la) != (self.val.get("L"), self.val.get("lam")):
                # filters of another configuration: reading past their end fails or yields garbage
                return evm.hsh("outside", Lv, la, j, l, ni)
            raise Undef("filter index out of range")
        m = ni - (Lv - 1)
        if j < Jm or l < max(abs(sp), abs(sp0)) or abs(m) > l:
            return 0
        k = kap(Lv, la)
        d = k[j + 1][l] - k[j][l]
        s = s_lm(Nv, l, m)
        if d <= 0 or s == 0:
            return 0
        return math.sqrt((2 * l + 1) / (8 * math.pi ** 2)) * math.sqrt(d) * s * snorm(l, sp0)

    def elem_phi(self, ev, real, Lv, Nv, Jm, la, sp, sp0, l):
        if not 0 <= l < Lv:
            if Lv != self.val.get("L"):
                return evm.hsh("outside", Lv, l)
            raise Undef("filter index out of range")
        if l < max(abs(sp), abs(sp0)):
            return 0
        return math.sqrt((2 * l + 1) / (4 * math.pi)) * math.sqrt(kap(Lv, la)[Jm][l]) * snorm(l, sp0)

    def elem_f(self, ev, real, *i):
        return evm.hshr("f", *i) if self.real or real else evm.hsh("f", *i)

    def elem_f_scal(self, ev, real, *i):
        return evm.hshr("fs", *i) if self.real or real else evm.hsh("fs", *i)

    def elem_f_wav(self, ev, real, *i):
        return evm.hshr("fw", *i) if self.real or real else evm.hsh("fw", *i)

    def elem_flm(self, ev, real, l, mi):
        m = mi - (self.val["L"] - 1)
        if abs(m) > l:
            return 0
        if not self.real:
            return evm.hsh("flm", l, m)
        if m == 0:
            return evm.hshr("flm", l, 0)
        z = evm.hsh("flm", l, abs(m))
        if m < 0:
            z = z.conjugate() * (-1) ** m
        return z


# ------------------------------------------------------------------ filter summaries
FILTERS = {"filters_directional": "np", "filters_directional_vectorised": "np", "filters_directional_jax": "jnp"}


def psi_arr(a, fw):
    J = tm.fn("ceil", tm.div(tm.fn("log", a["L"]), tm.fn("log", a["lam"])))
    key = [a[k] for k in ("L", "N", "J_min", "lam", "spin", "spin0")]
    return Arr((add(J, ONE), a["L"], sub(tm.scale(2, a["L"]), ONE)), lambda idx: tm.elem("psi", *key, *idx), "complex128", fw)


def phi_arr(a, fw):
    key = [a[k] for k in ("L", "N", "J_min", "lam", "spin", "spin0")]
    return Arr((a["L"],), lambda idx: tm.elem("phi", *key, *idx, kind="f"), "float64", fw)


def filter_hook(it, f, env):
    """assume-guarantee summary of the filter generators (rules C03-C05 check them)"""
    if f.mod.name != "s2wav.filters" or f.name not in FILTERS:
        return None
    a = {}
    for k in ("L", "N", "J_min", "lam", "spin", "spin0"):
        v = env.get(k)
        v = it.deref(v) if v is not None else None
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at()
        if not isinstance(v, tm.Term) or tm.has_unk(v):
            return None
        a[k] = v
    if set(env) - set(a) - {"using_torch"}:
        return None
    for k, v in a.items():
        it.concretise(v, f"argument {k} of {f.name}")
    fw = FILTERS[f.name]
    ut = env.get("using_torch")
    if ut is not None:
        if ut is TRUE:
            fw = "torch"
        elif ut is not FALSE:
            return None
    it.event("filters", args=a, func_name=f.name)
    o = ("cache", f.name) if f.cached else None
    return TupleV([it.box(psi_arr(a, fw), o), it.box(phi_arr(a, fw), o)])


# ------------------------------------------------------------------ entry points
BACK = {
    "looped": ("base", "_looped", "np"),
    "base": ("base", "", "np"),
    "jax": ("wavelet", "", "jnp"),
    "c": ("wavelet_c", "", "jnp"),
    "pre": ("wavelet_precompute", "", "jnp"),
    "torch": ("wavelet_precompute_torch", "", "torch"),
}


class Run:
    pass


class Missing(Exception):
    """a public entry point (or parameter) the property is about is not there"""


import os
ROOT = os.environ.get("S2SA_ROOT", "/repo")
PROGRAM = {}


def program(root=None):
    root = root or ROOT
    if root not in PROGRAM:
        PROGRAM[root] = Program(root)
    return PROGRAM[root]


def fresh(root=None, hook=True):
    it = Interp(program(root).fresh())
    if hook:
        it.hook = filter_hook
    return it


def get_func(it, mod, name):
    if mod not in it.prog.modules:
        raise Missing(f"module {mod}")
    env = it.module_env(mod)
    v = env.get(name)
    if v is None:
        raise Missing(f"{mod}.{name}")
    v = it.deref(v)
    return v


def names_of(it, mod):
    if mod not in it.prog.modules:
        raise Missing(f"module {mod}")
    return {k: it.deref(v) for k, v in it.module_env(mod).items()}


def invoke(it, mod, name, kw, pos=()):
    """analyse one call; returns a Run"""
    r = Run()
    r.it = it
    r.mod, r.name = mod, name
    r.error = None
    r.dead = False
    e0, u0 = len(it.events), len(it.unknowns)
    f = get_func(it, mod, name)
    r.func = f
    it.pc = []
    t = time.time()
    st0 = it.st
    try:
        if isinstance(f, FuncV):
            r.value = it.call_func(f, list(pos), dict(kw), entry=True)
        else:
            r.value = it.call(f, list(pos), dict(kw), None)
    except PathDead:
        r.value = None
        r.dead = True
        it.st = st0
    except (Undecided, RecursionError) as ex:
        r.value = Unknown(str(ex))
        it.unknowns.append(f"{type(ex).__name__}: {ex}")
    r.pc = list(it.pc)
    it.pc = []
    r.wall = time.time() - t
    r.events = it.events[e0:]
    r.unknowns = it.unknowns[u0:]
    r.line = getattr(getattr(f, "node", None), "lineno", 0)
    r.file = it.rel(f.mod.path) if isinstance(f, FuncV) else mod
    r.where = f"{r.file}:{r.line}:{name}"
    return r


def samples_call(it, name, *pos, **kw):
    """result of a samples helper on symbolic arguments (events muted), or None"""
    st, u, pc = it.st, len(it.unknowns), it.pc
    it.mute += 1
    it.pc = []
    try:
        f = get_func(it, "s2wav.samples", name)
        v = it.deref(it.call_func(f, list(pos), kw, entry=True))
        return v
    except (Missing, PathDead, Undecided):
        return None
    finally:
        it.mute -= 1
        it.pc = pc
        it.st = it.st or st
        del it.unknowns[u:]


_LN = {}


def LN(it, j, multires=TRUE):
    """(Lj, Nj, L0j) as the code reports them (rule C01 checks that report)"""
    key = (it.prog.root, j, multires)
    if key not in _LN:
        v = samples_call(it, "LN_j", L, j, N, lam, multires)
        r = None
        if isinstance(v, TupleV) and len(v.items) == 3:
            xs = [it.deref(x) for x in v.items]
            if all(isinstance(x, tm.Term) and not tm.has_unk(x) for x in xs):
                r = tuple(xs)
        _LN[key] = r or spec_LN(j, multires)
    return _LN[key]


def spec_LN(j, multires=TRUE):
    if multires is FALSE:
        return L, N, ZERO
    j = tm.ite(tm.eq(j, ZERO), ONE, j)
    Lj = tm.mn(tm.fn("ceil", tm.power(lam, add(j, ONE))), L)
    L0 = tm.mn(tm.fn("ceil", tm.power(lam, sub(j, ONE))), sub(Lj, ONE))
    Nj = tm.mn(N, Lj)
    Nj = sub(Nj, tm.mod(add(Nj, N), const(2)))
    return Lj, Nj, L0


_LS = {}


def Ls(it, multires=TRUE):
    key = (it.prog.root, multires)
    if key not in _LS:
        v = samples_call(it, "scal_bandlimit", L, J_min, lam, multires)
        if not isinstance(v, tm.Term) or tm.has_unk(v):
            v = L if multires is FALSE else tm.mn(tm.fn("ceil", tm.power(lam, J_min)), L)
        _LS[key] = v
    return _LS[key]


_JT = {}


def JTERM(it):
    key = it.prog.root
    if key not in _JT:
        v = samples_call(it, "j_max", L, lam)
        _JT[key] = v if isinstance(v, tm.Term) and not tm.has_unk(v) else JT
    return _JT[key]


class Ctx:
    """one calling context of a backend"""

    def __init__(self, backend, sampling="mw", reality=False, filters=True, precomps=True, multires=True,
                 scattering=False, jmax=False, sp0=False, spin_zero=False):
        self.backend, self.sampling, self.reality = backend, sampling, reality
        self.filters, self.precomps, self.multires = filters, precomps, multires
        self.scattering, self.jmax, self.sp0 = scattering, jmax, sp0
        self.spin_zero = spin_zero or reality
        self.module, self.sfx, self.fw = BACK[backend]

    def key(self):
        return tuple(sorted((k, v) for k, v in self.__dict__.items()))

    def show(self):
        s = f"{self.backend} sampling={self.sampling} reality={self.reality}"
        if self.backend in ("jax", "c", "pre", "torch"):
            s += f" filters={'given' if self.filters else 'None'}"
        if self.backend in ("jax", "pre", "torch"):
            s += f" precomps={'given' if self.precomps else 'None'}"
        if self.backend in ("base", "looped"):
            s += f" multiresolution={self.multires}"
            if self.scattering:
                s += " scattering=True"
        if self.jmax:
            s += " J_max given"
        return s

    @property
    def nside(self):
        return nside if self.sampling.lower() == "healpix" else NONE

    @property
    def spin(self):
        return ZERO if self.spin_zero else spin

    @property
    def spin0(self):
        return spin0 if self.sp0 else ZERO


def param(it, v, name):
    return it.box(v, ("param", name))


def data_f(it, c):
    k = "f" if c.reality else "c"
    sh = s2.s2_shape(L, const(c.sampling), c.nside)
    return param(it, Arr(sh, lambda i: tm.elem("f", *i, kind=k), "float64" if c.reality else "complex128", c.fw), "f")


def data_flm(it, c):
    return param(it, Arr(s2.flm_shape(L), lambda i: tm.elem("flm", *i), "complex128", c.fw), "flm")


def data_fwav(it, c):
    k = "f" if c.reality else "c"
    M = const(c.multires)

    def at(q):
        Lj, Nj, _ = LN(it, add(q, J_min), M)
        return Arr(s2.so3_shape(Lj, Nj, const(c.sampling), c.nside), lambda i: tm.elem("f_wav", q, *i, kind=k),
                   "float64" if c.reality else "complex128", c.fw)
    return param(it, SeqV(add(sub(JTERM(it), J_min), ONE), at), "f_wav")


def data_fscal(it, c):
    k = "f" if c.reality else "c"
    return param(it, Arr(s2.s2_shape(Ls(it, const(c.multires)), const(c.sampling), c.nside), lambda i: tm.elem("f_scal", *i, kind=k),
                         "float64" if c.reality else "complex128", c.fw), "f_scal")


def filt_args(c):
    return dict(L=L, N=N, J_min=J_min, lam=lam, spin=c.spin, spin0=c.spin0)


def given_filters(it, c, kind):
    a = filt_args(c)
    if kind == "flm_to_analysis":
        a["spin"] = ZERO
    p = param(it, psi_arr(a, c.fw), "filters")
    if kind == "flm_to_analysis":
        return p
    return TupleV([p, param(it, phi_arr(a, c.fw), "filters")])


def given_precomps(it, c, kind):
    """what the package's own kernel constructor returns for this configuration"""
    fwd = const(kind == "synthesis")
    kw = dict(L=L, N=N, J_min=J_min, lam=lam, sampling=const(c.sampling), nside=c.nside, forward=fwd, reality=const(c.reality))
    u = len(it.unknowns)
    if c.backend == "jax":
        r = invoke(it, TR + "construct", "generate_wigner_precomputes", kw)
    else:
        if c.backend == "torch":
            kw["using_torch"] = TRUE
        if kind == "flm_to_analysis":
            kw["nospherical"] = TRUE
        elif c.spin is not ZERO:
            kw["spin"] = c.spin
        r = invoke(it, TR + "construct", "generate_full_precomputes", kw)
    it.precomp_run = r
    return mark_param(it, r.value, "precomps")


def mark_param(it, v, name):
    """objects built for the caller become caller-owned inputs"""
    if isinstance(v, Ref):
        it.meta[v.cid]["origin"] = ("param", name)
        d = it.deref(v)
        if isinstance(d, ListV):
            for x in d.items:
                mark_param(it, x, name)
    elif isinstance(v, TupleV):
        for x in v.items:
            mark_param(it, x, name)
    return v


RUNS = {}


def run(c, kind, root=None, hook=True):
    """analyse `kind` (analysis | synthesis | flm_to_analysis) of a backend in context c"""
    key = (c.key(), kind, root, hook)
    if key not in RUNS:
        RUNS[key] = run_in(fresh(root, hook), c, kind)
    return RUNS[key]


def run_in(it, c, kind, every=False):
    mod = TR + c.module
    name = kind + c.sfx
    f = get_func(it, mod, name)
    if not isinstance(f, FuncV):
        raise Missing(f"{mod}.{name} is not a plain function")
    names = set(it.param_names(f))
    kw = dict(L=L, N=N, J_min=J_min, lam=lam, sampling=const(c.sampling), reality=const(c.reality))
    if kind != "flm_to_analysis":
        kw["spin"] = c.spin
    if c.backend != "c":
        kw["nside"] = c.nside
    if c.backend in ("base", "looped"):
        kw["multiresolution"] = const(c.multires)
        kw["spin0"] = c.spin0
        if kind == "analysis" and c.backend == "base":
            kw["scattering"] = const(c.scattering)
    else:
        if c.filters:
            kw["filters"] = given_filters(it, c, kind)
        if c.backend != "c" and c.precomps:
            kw["precomps"] = given_precomps(it, c, kind)
        if c.jmax:
            kw["J_max"] = J_max
    if kind == "analysis":
        kw["f"] = data_f(it, c)
    elif kind == "synthesis":
        kw["f_wav"] = data_fwav(it, c)
        kw["f_scal"] = data_fscal(it, c)
    else:
        kw["flm"] = data_flm(it, c)
    miss = [k for k in kw if k not in names]
    if miss:
        raise Missing(f"parameter {miss[0]} of {mod}.{name}")
    if every:      # pass every remaining option explicitly, at its default
        for n in it.param_names(f):
            d = it.deref(f.defaults[n]) if n in f.defaults else None
            if n not in kw and isinstance(d, tm.Term) and d.kind != "n":
                kw[n] = d
    r = invoke(it, mod, name, kw)
    pr = getattr(it, "precomp_run", None)
    r.pre_unknowns = pr.unknowns if pr is not None else []
    r.pre_run = pr
    r.ctx = c
    r.kind = kind
    return r


# ------------------------------------------------------------------ reading results

def seq_of(it, v):
    """(length term, element function) of a list-like value, or None"""
    v = it.deref(v)
    if isinstance(v, (ListV, TupleV)):
        items = v.items
        return const(len(items)), (lambda k: it.deref(items[k] if isinstance(k, int) else Unknown("symbolic index into a literal list"))), len(items)
    if isinstance(v, SeqV):
        return v.n, (lambda k: it.deref(v.at(k if isinstance(k, tm.Term) else const(k)))), None
    if isinstance(v, GatedV):
        a, b = seq_of(it, v.a), seq_of(it, v.b)
        if a is None or b is None:
            return None
        return tm.ite(v.c, a[0], b[0]), (lambda k: gate(v.c, a[1](k), b[1](k))), None
    return None


def resolve(it, v, ev, env=None):
    """content of a value at a valuation (conditional values resolved)"""
    for _ in range(50):
        v = it.deref(v)
        if isinstance(v, GatedV):
            v = v.a if ev(v.c, env) else v.b
            continue
        return v
    return v
