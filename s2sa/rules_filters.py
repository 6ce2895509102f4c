"""Rules about band-limits and filter generators: C01, C03, C04, C05, C20."""
from __future__ import annotations
import itertools
import math
from . import terms as tm
from .terms import const, ZERO, ONE, NONE, TRUE, FALSE
from .values import *
from . import model as M
from .model import L, N, J_min, lam, spin, spin0, jsym, Data, jmax
from .decide import *
from .eval import Ev, Undef, Budget, close, isbad

FM = "s2wav.filters"
SM = "s2wav.samples"
AX = ("filters_axisym", "filters_axisym_vectorised", "filters_axisym_jax")
DIR = ("filters_directional", "filters_directional_vectorised", "filters_directional_jax")

#        L, N, J_min, lam, spin, spin0
FVALS = [
    (8, 3, 0, 2.0, 0, 0), (8, 2, 1, 2.0, 1, 0), (5, 3, 0, 2.0, -1, 0), (7, 4, 1, 1.5, -2, 1), (6, 1, 0, 3.0, 0, -1),
    (9, 5, 1, 2.7, 2, 2), (4, 4, 0, 2.0, 0, 0), (2, 1, 0, 2.0, 0, 0), (12, 3, 2, 2.0, 1, 0), (10, 6, 1, 3.0, 0, -2),
    (6, 3, 1, 2.0, 3, 1), (9, 6, 0, 2.0, 1, 3), (8, 8, 2, 2.0, 0, 0), (10, 7, 3, 1.4, -3, 0), (3, 3, 0, 2.0, 2, 0),
    (9, 2, 1, 3.0, 0, 0), (11, 4, 0, 1.7, 0, 0), (9, 3, 2, 2.0, 0, 1), (10, 4, 1, 4.0, -1, -3),
]
FMORE = [
    (16, 5, 2, 2.0, 0, 0), (17, 3, 3, 2.0, 1, -3), (13, 7, 1, 4.0, -1, 2), (14, 3, 0, 5.0, -3, 0), (12, 12, 4, 1.3, 0, 0),
    (20, 9, 2, 2.2, 4, 0), (9, 9, 1, 1.25, 0, -4), (32, 2, 4, 2.0, 0, 0), (25, 1, 0, 5.0, 0, 0), (27, 6, 1, 3.0, -2, 0),
]


def fvals(tier):
    out = []
    for l, n, jm, la, sp, s0 in FVALS + (FMORE if tier == "thorough" else []):
        if jm < jmax(l, la):
            out.append(dict(L=l, N=n, J_min=jm, lam=la, spin=sp, spin0=s0, J_max=jmax(l, la), nside=4))
    return out


_XV = {}


def gvals(gs, tier):
    """fvals plus configurations that reach branches of the generators which fvals do not"""
    base = fvals(tier)
    roots = []
    for g in gs:
        r = g.run
        roots += list(r.pc)
        v = g.it.deref(r.value)
        for x in (v.items if isinstance(v, (TupleV, ListV)) else []):
            x = g.it.deref(x)
            if isinstance(x, Arr):
                roots += [*x.shape, x.inst()[1]]
    key = (tier, tuple(g.label for g in gs))
    if key not in _XV:
        bv = [x for x in boundary_vals(roots, dict(L=8, N=2, J_min=0, lam=2.0, spin=0, spin0=0, nside=4, J_max=3), limit=40) if x not in base]
        _XV[key] = bv[:8] + cover_vals(roots, base + bv[:8], cap=8)
    return base + _XV[key]


FK = ("L", "N", "J_min", "lam", "spin", "spin0")


class Gen:
    """one filter generator, analysed once with symbolic arguments"""

    def __init__(self, name, torch=False):
        self.name, self.torch = name, torch
        self.dir = name in DIR
        self.label = name + ("(using_torch=True)" if torch else "")
        self.run = None
        self.why = None
        kw = dict(L=L, J_min=J_min, lam=lam)
        if self.dir:
            kw.update(N=N, spin=spin, spin0=spin0)
        it = M.fresh(hook=False)
        try:
            f = M.get_func(it, FM, name)
            if not isinstance(f, FuncV):
                raise M.Missing(f"{FM}.{name} is not a function")
            ps = set(it.param_names(f))
            if torch:
                if "using_torch" not in ps:
                    raise M.Missing(f"parameter using_torch of {name}")
                kw["using_torch"] = TRUE
            miss = [k for k in kw if k not in ps]
            if miss:
                raise M.Missing(f"parameter {miss[0]} of {name}")
            self.run = M.invoke(it, FM, name, kw)
            self.it = it
        except (M.Missing, Undecided) as ex:
            self.why = str(ex)
        self.cache = {}

    def where(self):
        return self.run.where if self.run else f"{FM}:{self.name}"

    def arrays(self, ev):
        v = M.resolve(self.it, self.run.value, ev)
        if not isinstance(v, (TupleV, ListV)) or len(v.items) != 2:
            raise Undef("result is not a pair")
        a, b = (M.resolve(self.it, x, ev) for x in v.items)
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            raise Undef("result is not a pair of arrays")
        return a, b

    def eval(self, v, noise=None):
        """(psi shape, {idx: value}, phi shape, [values]) at a valuation"""
        key = tuple(v[k] for k in FK) + (noise,)
        if key in self.cache:
            r = self.cache[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            ev = Ev(v, Data(v), strict=True)
            ev.noise = noise
            a, b = self.arrays(ev)
            sa, sb = dims(ev, a.shape), dims(ev, b.shape)
            if len(sa) != (3 if self.dir else 2) or len(sb) != 1:
                r = (sa, None, sb, None)
            else:
                r = (sa, {p: value_at(a, p, ev) for p in itertools.product(*[range(n) for n in sa])},
                     sb, [value_at(b, (i,), ev) for i in range(sb[0])])
        except (Undef, Budget) as ex:
            self.cache[key] = ex
            raise
        self.cache[key] = r
        return r


_GENS = {}


def gen(name, torch=False):
    k = (name, torch)
    if k not in _GENS:
        _GENS[k] = Gen(name, torch)
    return _GENS[k]


def gens(rep, names, torch=False, crash=True, tier="quick"):
    out = []
    for n in names:
        for t in ((False, True) if torch and n != "filters_directional_jax" and n in DIR else (False,)):
            g = gen(n, t)
            if g.run is None:
                rep.undec("anchor", n, g.why)
                continue
            rep.use(g.run)
            if g.run.unknowns:
                rep.undec("generator", g.where(), g.run.unknowns[0])
                continue
            if crash:
                if not check_survives(rep, g.run, fvals(tier), "generator-accepts-valid"):
                    continue
                check_crashes(rep, g.run, fvals(tier), "generator-no-crash")
            out.append(g)
    return out


def shape_want(g, v):
    J = jmax(v["L"], v["lam"])
    return ((J + 1, v["L"], 2 * v["L"] - 1) if g.dir else (J + 1, v["L"])), (v["L"],)


def each(rep, rule, gs, tier, vs, body, noise=None):
    """run body(g, v, psi, phi) for all generators and valuations; first failure per generator reported"""
    for g in gs:
        n = 0
        for v in vs:
            try:
                sa, A, sb, B = g.eval(v, noise)
            except (Undef, Budget) as ex:
                rep.undec(rule, g.where(), f"{g.label}: {ex or 'budget'} [{wit(v, FK)}]")
                break
            wa, wb = shape_want(g, v)
            if A is not None and sa != wa and (sa[1:], sb) == (wa[1:], wb):
                # another number of scales: a scale that is not there is zero
                A = dict(A)
                for k in itertools.product(*[range(n) for n in wa]):
                    A.setdefault(k, 0.0)
                sa = wa
            if A is None or (sa, sb) != (wa, wb):
                # shapes are C04's business
                rep.undec(rule, g.where(), f"{g.label}: unexpected shapes {sa} {sb}")
                break
            msg = body(g, v, A, B)
            if msg:
                rep.bad(rule, g.where(), f"{g.label}: {msg} [{wit(v, FK)}]", wit(v, FK))
                break
            n += 1
            rep.val_used.add(wit(v, FK))
        rep.ok(rule, n, site=g.where())


# ------------------------------------------------------------------ C03
def c03(rep, tier):
    gs = gens(rep, AX + DIR, tier=tier)
    vs = []
    for v in gvals(gs, tier):
        v = dict(v, spin0=0)
        if v not in vs:
            vs.append(v)

    def body(g, v, A, B):
        Lv = v["L"]
        J = max(k[0] for k in A)
        for l in range(Lv):
            if g.dir:
                if l < abs(v["spin"]):
                    continue
                s = 4 * math.pi / (2 * l + 1) * abs(B[l]) ** 2
                s += 8 * math.pi ** 2 / (2 * l + 1) * sum(abs(A[j, l, n]) ** 2 for j in range(J + 1) for n in range(2 * Lv - 1))
            else:
                s = abs(B[l]) ** 2 + sum(abs(A[j, l]) ** 2 for j in range(J + 1))
            if not close(s, 1.0, 1e-9):
                return f"admissibility sum at degree l={l} is {fmt(float(s)) if not isinstance(s, complex) else s} instead of 1"
        return None
    each(rep, "admissibility", gs, tier, vs, body)


# ------------------------------------------------------------------ C04
def c04(rep, tier):
    for fam in (AX, DIR):
        gs = gens(rep, fam, torch=True, tier=tier)
        vs = gvals(gs, tier)
        for v in vs:
            res = {}
            for g in gs:
                try:
                    res[g] = g.eval(v)
                except (Undef, Budget) as ex:
                    rep.undec("generators-agree", g.where(), f"{g.label}: {ex} [{wit(v, FK)}]")
            if len(res) < 2:
                continue
            groups = []
            for g, r in res.items():
                for grp in groups:
                    d = differ(res[grp[0]], r)
                    if d is None:
                        grp.append(g)
                        break
                else:
                    groups.append([g])
            if len(groups) == 1:
                rep.ok("generators-agree", len(res), site=gs[0].where())
                rep.val_used.add(wit(v, FK))
                continue
            groups.sort(key=lambda q: (-len(q), 0 if q[0].name in (AX[0], DIR[0]) else 1))
            base = groups[0][0]
            for grp in groups[1:]:
                for g in grp:
                    d = differ(res[base], res[g])
                    rep.bad("generators-agree", g.where(), f"{g.label} and {base.label} differ: {d} [{wit(v, FK)}]", wit(v, FK))


def differ(x, y):
    sa, A, sb, B = x
    ta, C, tb, D = y
    if sa != ta:
        return f"wavelet filter shapes {sa} and {ta}"
    if sb != tb:
        return f"scaling filter shapes {sb} and {tb}"
    if A is None or C is None:
        return None
    for i, (p, q) in enumerate(zip(B, D)):
        if not close(p, q, 1e-9):
            return f"phi[{i}] = {fmt(p)} and {fmt(q)}"
    for k, p in A.items():
        if not close(p, C[k], 1e-9):
            return f"psi{list(k)} = {fmt(p)} and {fmt(C[k])}"
    return None


# ------------------------------------------------------------------ C05
def c05(rep, tier):
    gs = gens(rep, AX + DIR, torch=True, tier=tier)

    def body(g, v, A, B):
        Lv, Nv, Jm, la = v["L"], v["N"], v["J_min"], v["lam"]
        nz = lambda x: isbad(x) or abs(x) > 1e-10
        lmin = max(abs(v["spin"]), abs(v["spin0"])) if g.dir else 0
        for l in range(Lv):
            if nz(B[l]):
                if l >= la ** Jm - 1e-9 and l > 0:
                    return f"scaling filter is non-zero at degree l={l} >= lam**J_min"
                if l < lmin:
                    return f"scaling filter is non-zero at degree l={l} below the spin"
            if not g.dir and (isinstance(B[l], complex) and abs(B[l].imag) > 1e-12 or complex(B[l]).real < -1e-12):
                return f"axisymmetric scaling profile is negative or complex at l={l}"
        for k, x in A.items():
            j, l = k[0], k[1]
            if not g.dir and (abs(complex(x).imag) > 1e-12 or complex(x).real < -1e-12):
                return f"axisymmetric profile is negative or complex at j={j}, l={l}"
            if not nz(x):
                if g.dir and nz(A[j, l, 2 * Lv - 2 - k[2]]):
                    return f"psi_(l,-m) != (-1)^m conj(psi_lm) at j={j}, l={l}, m={k[2] - Lv + 1}"
                continue
            if j < Jm:
                return f"wavelet filter is non-zero at scale j={j} below J_min"
            if not (la ** (j - 1) - 1e-9 <= l <= la ** (j + 1) + 1e-9):
                return f"wavelet filter of scale j={j} is non-zero at degree l={l}, outside its harmonic window"
            if l < lmin:
                return f"wavelet filter is non-zero at degree l={l} below the spin"
            if g.dir:
                m = k[2] - (Lv - 1)
                if abs(m) > l:
                    return f"wavelet filter is non-zero at order m={m} above its degree l={l}"
                if abs(m) >= Nv:
                    return f"wavelet filter is non-zero at order m={m} >= N"
                if (Nv + m) % 2 == 0:
                    return f"wavelet filter is non-zero at order m={m} of the wrong parity"
                y = A[j, l, Lv - 1 - m]
                if not close(y, (-1) ** m * complex(x).conjugate(), 1e-9):
                    return f"psi_(l,-m) != (-1)^m conj(psi_lm) at j={j}, l={l}, m={m}"
        return None
    each(rep, "support-and-symmetry", gs, tier, gvals(gs, tier), body)


# ------------------------------------------------------------------ C22
_KT = {}


def kfun(la, t):
    """documented generating function: int_t^1 / int_(1/lam)^1 of s_lam(t')^2 dt'/t'"""
    if t <= 1 / la:
        return 1.0
    if t >= 1:
        return 0.0
    k = (la, round(t, 12))
    if k not in _KT:
        _KT[k] = M._quad(t, 1.0, la, 2000) / M._quad(1 / la, 1.0, la, 2000)
    return _KT[k]


def eta2(Nv, l, m):
    """documented squared directionality coefficient"""
    if abs(m) > l or abs(m) >= Nv or (Nv + m) % 2 == 0 or l == 0:
        return 0.0
    g = min(Nv - 1, l if (Nv + l) % 2 else l - 1)
    k = (g - m) // 2
    return math.comb(g, k) / 2 ** g if 0 <= k <= g and (g - m) % 2 == 0 else 0.0


def spinfac(l, s):
    if abs(s) > l:
        return 0.0
    return (-1) ** s * math.sqrt(math.factorial(l + s) / math.factorial(l - s))


def c22(rep, tier):
    """the filters against their published closed form; the tolerance admits the error of any reasonable quadrature"""
    tol = 2e-3
    gs = gens(rep, AX + DIR, torch=True, tier=tier)

    def body(g, v, A, B):
        Lv, Nv, Jm, la = v["L"], v["N"], v["J_min"], v["lam"]
        lmin = max(abs(v["spin"]), abs(v["spin0"])) if g.dir else 0
        fac = [(spinfac(l, v["spin0"]) if v["spin0"] else 1.0) if g.dir else 1.0 for l in range(Lv)]
        nu = 1.0 if Nv % 2 else 1j

        def off(x, ref, ph, sc):
            """x differs from ph*sqrt(ref)*sc"""
            if isbad(x):
                return True
            y = complex(x) / (ph * sc)
            return abs(abs(y) ** 2 - ref) > tol or (ref > 2 * tol and abs(y - abs(y)) > 1e-6 * abs(y))
        for l in range(lmin, Lv):
            sc = abs(fac[l]) * (math.sqrt((2 * l + 1) / (4 * math.pi)) if g.dir else 1.0)
            ph = -1.0 if fac[l] < 0 else 1.0
            ref = kfun(la, l / la ** Jm)
            if off(B[l], ref, ph, sc):
                return f"scaling filter at degree l={l} is {fmt(B[l])} instead of about {fmt(ph * sc * math.sqrt(ref))}, its documented value"
        for k, x in A.items():
            j, l = k[0], k[1]
            if j < Jm or l < lmin:
                continue
            ref = max(0.0, kfun(la, l / la ** (j + 1)) - kfun(la, l / la ** j))
            sc, ph = abs(fac[l]), (-1.0 if fac[l] < 0 else 1.0)
            if g.dir:
                e = eta2(Nv, l, k[2] - Lv + 1)
                sc *= math.sqrt((2 * l + 1) / (8 * math.pi ** 2))
                ph = ph * nu
                ref *= e
            if off(x, ref, ph, sc):
                return f"wavelet filter at {k} is {fmt(x)} instead of about {fmt(ph * sc * math.sqrt(ref))}, its documented value"
        return None
    each(rep, "documented-form", gs, tier, gvals(gs, tier), body)
    # documented building blocks, where they exist under their public names
    for nm in ("k_lam", "k_lam_jax"):
        r = helper(rep, nm, dict(L=L, lam=lam))
        if r is None:
            continue
        pts = [dict(L=9, lam=2.0), dict(L=7, lam=1.5), dict(L=8, lam=3.0)] + ([dict(L=20, lam=la) for la in TV] if tier == "thorough" else [])
        value_check(rep, "documented-generating-function", r, nm, pts, lambda v, p: kfun(v["lam"], p[1] / v["lam"] ** p[0]), tol)
    for nm in ("tiling_direction", "tiling_direction_jax"):
        r = helper(rep, nm, dict(L=L, N=N))
        if r is None:
            continue
        pts = [dict(L=l, N=n) for l in range(2, 10 if tier == "thorough" else 8) for n in range(1, l + 1)]
        value_check(rep, "documented-directionality", r, nm, pts,
                    lambda v, p: (1 if v["N"] % 2 else 1j) * math.sqrt(eta2(v["N"], p[0], p[1] - v["L"] + 1)), 1e-9)
    r = helper(rep, "tiling_integrand", dict(t=tm.sym("t", "f", 0), lam=lam))
    if r is not None:
        pts = [dict(t=1 / la + (1 - 1 / la) * i / 9.0, lam=la) for la in TV for i in range(1, 9)]
        value_check(rep, "documented-kernel", r, "tiling_integrand", pts, lambda v, p: M._int(v["t"], v["lam"]), 1e-9)


def value_check(rep, rule, r, nm, pts, want, tol):
    n = 0
    for v in pts:
        ev = Ev(v, None, strict=True)
        try:
            a = M.resolve(r.it, r.value, ev)
            if isinstance(a, Term):
                a = Arr((), lambda idx, a=a: a, "float64", "py")
            if not isinstance(a, Arr):
                raise Undef("not an array")
            bad = None
            for p in allpoints(dims(ev, a.shape)):
                x = value_at(a, p, ev)
                y = want(v, p)
                if isbad(x) or abs(x - y) > tol:
                    bad = (p, x, y)
                    break
        except (Undef, Budget) as ex:
            rep.undec(rule, r.where, f"{nm}: {ex}")
            return
        if bad:
            w = ", ".join(f"{k}={q}" for k, q in v.items())
            rep.bad(rule, r.where, f"{nm} is {fmt(bad[1])} instead of {fmt(bad[2])}, its documented value, at {bad[0]} [{w}]", w)
            return
        n += 1
    rep.ok(rule, n, site=r.where)


# ------------------------------------------------------------------ C20
TV = (1.05, 1.1, 1.3, 1.5, 2.0, 2.5, 2.7, 3.0, 3.3, 5.0, 7.7)


def c20(rep, tier):
    gs = gens(rep, AX + DIR, tier=tier, crash=False)
    vs = gvals(gs, tier)

    def body(g, v, A, B):
        for l, x in enumerate(B):
            if isbad(x):
                return f"scaling filter is not finite at l={l}"
            if abs(x) > 1e4:
                return f"scaling filter is unbounded at l={l}"
        for k, x in A.items():
            if isbad(x):
                return f"wavelet filter is not finite at {k}"
            if abs(x) > 1e4:
                return f"wavelet filter is unbounded at {k}"
        return None
    each(rep, "filters-finite", gs, tier, vs, body)
    # quadrature sums carry rounding errors: no square root may rely on their difference being non-negative
    nv = [dict(v, spin=0, spin0=0) for v in vs[:2]] + ([dict(v, spin=0, spin0=0) for v in vs[4:7]] if tier == "thorough" else [])
    for seed in (1, 2):
        each(rep, "filters-finite-under-rounding", gs, tier, nv, body, noise=seed)
    for g in gs:
        domains(rep, g.run, vs[:8] if tier == "quick" else vs)
    # the kernel and its quadrature on their own
    t = tm.sym("t", "f", 0)
    r = helper(rep, "tiling_integrand", dict(t=t, lam=lam))
    if r is not None:
        pts = []
        for la in TV:
            for e, sg in ((1.0, 1), (1 / la, -1)):
                for d in (0.0, 1e-16, 2e-16, 4e-16, 1e-15, 1e-14, 1e-12, 1e-9, 1e-6, 1e-3, 0.1):
                    for s in (1, -1):
                        x = e * (1 + s * d)
                        if x > 0:
                            pts.append((x, la))
            for i in range(1, 12):
                pts.append((1 / la + (1 - 1 / la) * i / 12.0, la))
        n = 0
        for x, la in pts:
            v = dict(t=x, lam=la)
            ev = Ev(v, None, strict=True)
            try:
                y = M.resolve(r.it, r.value, ev)
                y = y.at() if isinstance(y, Arr) else y
                y = ev(y)
            except (Undef, Budget, AttributeError, TypeError) as ex:
                rep.undec("integrand-domain", r.where, ex)
                break
            s = (x - 1 / la) * (2 * la / (la - 1)) - 1
            if isbad(y) or isinstance(y, complex):
                rep.bad("integrand-domain", r.where, f"tiling kernel is not finite at t={x!r} [lam={la}]", f"t={x!r}, lam={la}")
                break
            if abs(s) >= 1 and abs(y) > 1e-9:
                rep.bad("integrand-domain", r.where, f"tiling kernel is {fmt(y)} instead of zero at t={x!r}, at or beyond the end of its support [lam={la}]", f"t={x!r}, lam={la}")
                break
            if y < 0 or y > 1 / x + 1e-9:
                rep.bad("integrand-domain", r.where, f"tiling kernel is {fmt(y)} at t={x!r} [lam={la}]", f"t={x!r}, lam={la}")
                break
            n += 1
        rep.ok("integrand-domain", n, site=r.where)
        vv = [dict(t=x, lam=la) for x, la in pts]
        domains(rep, r, vv)
    for nm in ("k_lam", "k_lam_jax"):
        r = helper(rep, nm, dict(L=L, lam=lam))
        if r is None:
            continue
        n = 0
        for la in TV[(2 if tier == "quick" else 0):]:
            for Lv in ((6, 9) if tier == "quick" else (3, 6, 9, 16)):
                v = dict(L=Lv, lam=la)
                ev = Ev(v, None, strict=True)
                try:
                    a = M.resolve(r.it, r.value, ev)
                    if not isinstance(a, Arr):
                        raise Undef("not an array")
                    bad = None
                    for p in allpoints(dims(ev, a.shape)):
                        y = value_at(a, p, ev)
                        if isbad(y) or abs(y) > 1 + 1e-6 or (not isinstance(y, complex) and y < -1e-9):
                            bad = (p, y)
                            break
                except (Undef, Budget) as ex:
                    rep.undec("generating-function-range", r.where, f"{ex}")
                    break
                if bad:
                    rep.bad("generating-function-range", r.where, f"{nm} is {fmt(bad[1])} at {bad[0]}, outside [0, 1] [L={Lv}, lam={la}]", f"L={Lv}, lam={la}")
                    break
                n += 1
        rep.ok("generating-function-range", n, site=r.where)
    r = helper(rep, "part_scaling_fn", dict(a=tm.sym("a", "f", 0), b=tm.sym("b", "f", 0), n=tm.sym("n", "i", 1), lam=lam))
    if r is not None:
        vv = [dict(a=a, b=1.0, n=n, lam=la) for la in TV for a in (1 / la, (1 / la + 1) / 2, 0.999, 1.0) for n in (3, 7, 30)]
        n = 0
        for v in vv:
            ev = Ev(v, None, strict=True)
            try:
                y = M.resolve(r.it, r.value, ev)
                y = y.at() if isinstance(y, Arr) else y
                y = ev(y)
            except (Undef, Budget, AttributeError, TypeError) as ex:
                rep.undec("quadrature-finite", r.where, ex)
                break
            if isbad(y) or isinstance(y, complex) or y < -1e-12 or y > math.log(v["lam"]) + 1:
                rep.bad("quadrature-finite", r.where, f"quadrature of the tiling kernel over [{v['a']}, {v['b']}] is {fmt(y)} [lam={v['lam']}, n={v['n']}]", str(v))
                break
            n += 1
        rep.ok("quadrature-finite", n, site=r.where)
        domains(rep, r, vv)


def helper(rep, name, kw):
    it = M.fresh(hook=False)
    try:
        f = M.get_func(it, FM, name)
        if not isinstance(f, FuncV) or [k for k in kw if k not in it.param_names(f)]:
            return None
        r = M.invoke(it, FM, name, kw)
    except (M.Missing, Undecided):
        return None      # internal helper reorganised: the filters themselves are still checked
    rep.use(r)
    if r.unknowns:
        rep.undec("helper", r.where, r.unknowns[0])
        return None
    return r


def domains(rep, run, vs, rule="domain"):
    """scalar quotients with a zero denominator, powers of zero to a negative exponent"""
    evs = [e for e in run.events if e.kind in ("divide", "power")]
    sites = {}
    for e in evs:
        sites.setdefault((e.site, e.kind, e.data["den"] if e.kind == "divide" else e.data["base"], e.data.get("exp")), e)
    for e in sites.values():
        n = 0
        den = e.data["den"] if e.kind == "divide" else e.data["base"]
        if tm.is_const(den) and tm.cval(den) != 0:
            rep.ok(rule, 1, proved=True, site=e.site)
            continue
        if tm.has_unk(den):
            continue
        known = {t for t, _ in e.ivs}
        if den.fv - known:
            continue
        for v in vs:
            ev = Ev(v, Data(v) if "L" in v else None, strict=True, budget=4_000_000)
            try:
                bad = None
                for env in iter_ivs(ev, e.ivs, 400):
                    if not holds(ev, e.pc, env):
                        continue
                    d = ev(den, env)
                    if d == 0 and (e.kind == "divide" or ev(e.data["exp"], env) < 0):
                        bad = env
                        break
                if bad is not None:
                    ks = [k for k in v if k not in ("J_max", "nside")]
                    rep.bad(rule, f"{e.site}:{e.func}", f"quotient evaluated with a zero denominator [{wit(v, ks)}]", wit(v, ks))
                    break
                n += 1
            except (Undef, Budget, TypeError):
                break
        rep.ok(rule, n, site=e.site)


# ------------------------------------------------------------------ C01
def c01(rep, tier):
    it = M.fresh(hook=False)
    fn = {}
    j = jsym
    specs = dict(
        LN=("LN_j", (L, j, N, lam, TRUE)), LNf=("LN_j", (L, j, N, lam, FALSE)),
        Lj=("wav_j_bandlimit", (L, j, lam, TRUE)), Ljf=("wav_j_bandlimit", (L, j, lam, FALSE)),
        L0=("L0_j", (j, lam)), Ls=("scal_bandlimit", (L, J_min, lam, TRUE)), Lsf=("scal_bandlimit", (L, J_min, lam, FALSE)),
        J=("j_max", (L, lam)), n=("n_wav_scales", (L, N, J_min, lam)))
    for k, (nm, pos) in specs.items():
        try:
            r = M.invoke(it, SM, nm, {}, pos)
        except (M.Missing, Undecided) as ex:
            rep.undec("anchor", nm, ex)
            continue
        r.ctx = None
        rep.use(r)
        if r.unknowns:
            rep.undec("helper", r.where, r.unknowns[0])
            continue
        v = it.deref(r.value)
        items = [it.deref(x) for x in v.items] if isinstance(v, (TupleV, ListV)) else [v]
        items = [x.at() if isinstance(x, Arr) and x.ndim == 0 else x for x in items]
        if not all(isinstance(x, Term) for x in items) or len(items) != (3 if k in ("LN", "LNf") else 1):
            rep.undec("helper", r.where, "unexpected result")
            continue
        fn[k] = (r, items)
    roots = [t for r, its in fn.values() for t in its]
    lams = sorted({2.0, 1.05, 1.1, 1.25, 1.5, 1.7, 2.2, 2.7, 3.0, 4.0, 5.5, 8.0} | {x for b in harvest(roots).get("lam", ()) for x in (b - 0.01, b, b + 0.01) if x > 1.04})
    Ls = sorted({2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 31, 32, 33, 48, 64, 65, 100, 127, 128, 129, 256, 257, 512, 1000, 1024, 1025} |
                {int(x) + d for b in harvest(roots).get("L", ()) for x in (b,) for d in (-1, 0, 1) if 2 <= x < 5000})
    if tier == "quick":
        lams = [x for x in lams if x not in (1.05, 5.5)]
    stats = {k: 0 for k in fn}
    failed = set()
    hn = sorted(int(b) + d for b in harvest(roots).get("N", ()) for d in (-1, 0, 1))

    def bad(k, msg, v, ks=("L", "N", "lam", "j")):
        if k in failed:
            return
        failed.add(k)
        r = fn[k][0]
        rep.bad("window-covers-filter" if k not in ("J", "n") else "number-of-scales", r.where, f"{msg} [{wit(v, ks)}]", wit(v, ks))

    def num(ev, t):
        x = ev(t)
        if isinstance(x, float) and abs(x - round(x)) < 1e-9:
            x = int(round(x))
        return x

    PS = None
    for la in lams:
        for Lv in Ls:
            if Lv > 130 and la < 1.5:
                continue
            J = jmax(Lv, la)
            base = dict(L=Lv, lam=la, N=1, j=0, J_min=0, spin=0, spin0=0)
            try:
                if "J" in fn and "J" not in failed:
                    ev = Ev(base)
                    x = num(ev, fn["J"][1][0])
                    if x != J and x != math.ceil(math.log(Lv) / math.log(la)):     # the documented formula, exactly or as rounded
                        bad("J", f"maximum scale is {x} where lam**{x} " + ("< L" if x < J else f">= L already holds at {J}"), base, ("L", "lam"))
                    stats["J"] += 1
                if "n" in fn and "n" not in failed and "J" in fn:
                    for jm in sorted({0, 1, 2, J - 1} & set(range(J))):
                        for Nv in sorted({1, 2, min(5, Lv)}):
                            v = dict(base, N=Nv, J_min=jm)
                            ev = Ev(v)
                            x, y = num(ev, fn["n"][1][0]), num(ev, fn["J"][1][0])
                            if x != y - jm + 1:
                                bad("n", f"n_wav_scales counts {x} scales although the scales run from {jm} to {y}", v, ("L", "N", "lam", "J_min"))
                    stats["n"] += 1
                for jv in range(0, J + 1):
                    sup = [l for l in (math.floor(la ** (jv - 1)), math.floor(la ** (jv - 1)) + 1, math.ceil(la ** (jv + 1)) - 1) if la ** (jv - 1) + 1e-9 < l < la ** (jv + 1) - 1e-9]
                    lo = math.floor(la ** (jv - 1) + 1e-9) + 1 if jv > 0 else 1
                    hi = min(math.ceil(la ** (jv + 1) - 1e-9) - 1, Lv - 1)
                    while lo <= hi and kapd(la, jv, lo) <= 0:
                        lo += 1
                    while hi >= lo and kapd(la, jv, hi) <= 0:
                        hi -= 1
                    for Nv in sorted({1, 2, 3, 5, 8, Lv - 1, Lv} | set(hn)):
                        if not 1 <= Nv <= Lv:
                            continue
                        v = dict(base, N=Nv, j=jv)
                        ev = Ev(v)
                        if "LN" in fn and "LN" not in failed:
                            a, b, c = (num(ev, t) for t in fn["LN"][1])
                            if not all(isinstance(q, int) for q in (a, b, c)):
                                bad("LN", f"band-limits ({a}, {b}, {c}) are not integers", v)
                            elif not (1 <= a <= Lv):
                                bad("LN", f"band-limit L_j={a} is not between 1 and L", v)
                            elif not (0 <= c < a):
                                bad("LN", f"harmonic window [{c}, {a}) is empty or starts below zero", v)
                            elif not (1 <= b <= Lv):
                                bad("LN", f"azimuthal order N_j={b} is not between 1 and L", v)
                            elif (b + Nv) % 2:
                                bad("LN", f"azimuthal order N_j={b} loses the parity of N", v)
                            elif lo <= hi and not (c <= lo and hi < a):
                                bad("LN", f"harmonic window [{c}, {a}) misses filter degrees {lo}..{hi}", v)
                            elif lo <= hi and topm(Nv, hi) > b - 1:
                                bad("LN", f"azimuthal order N_j={b} misses filter orders up to {topm(Nv, hi)}", v)
                            stats["LN"] += 1
                        if "LNf" in fn and "LNf" not in failed:
                            a, b, c = (num(ev, t) for t in fn["LNf"][1])
                            if (a, b, c) != (Lv, Nv, 0):
                                bad("LNf", f"full-resolution scale is reported as ({a}, {b}, {c}) instead of ({Lv}, {Nv}, 0)", v)
                            stats["LNf"] += 1
                    v = dict(base, j=jv, J_min=jv)
                    ev = Ev(v)
                    if "Lj" in fn and "Lj" not in failed:
                        a = num(ev, fn["Lj"][1][0])
                        if not 1 <= a <= Lv or (lo <= hi and hi >= a):
                            bad("Lj", f"wavelet band-limit {a} does not contain filter degrees {lo}..{hi} or exceeds L", v, ("L", "lam", "j"))
                        stats["Lj"] += 1
                    if "Ljf" in fn and "Ljf" not in failed:
                        a = num(ev, fn["Ljf"][1][0])
                        if a != Lv:
                            bad("Ljf", f"full-resolution wavelet band-limit is {a}", v, ("L", "lam", "j"))
                        stats["Ljf"] += 1
                    if "L0" in fn and "L0" not in failed:
                        a = num(ev, fn["L0"][1][0])
                        if a < 0 or (lo <= hi and a > lo):
                            bad("L0", f"lower harmonic limit {a} cuts filter degrees from {lo}", v, ("L", "lam", "j"))
                        stats["L0"] += 1
                    if jv < J:
                        top = min(math.ceil(la ** jv - 1e-9) - 1, Lv - 1)
                        while top > 0 and jv > 0 and kapv(la, jv, top) <= 0:
                            top -= 1
                        if "Ls" in fn and "Ls" not in failed:
                            a = num(ev, fn["Ls"][1][0])
                            if not 1 <= a <= Lv or a <= top:
                                bad("Ls", f"scaling band-limit {a} does not contain scaling filter degrees 0..{top} or exceeds L", v, ("L", "lam", "J_min"))
                            stats["Ls"] += 1
                        if "Lsf" in fn and "Lsf" not in failed:
                            a = num(ev, fn["Lsf"][1][0])
                            if a != Lv:
                                bad("Lsf", f"full-resolution scaling band-limit is {a}", v, ("L", "lam", "J_min"))
                            stats["Lsf"] += 1
            except (OverflowError, ZeroDivisionError) as ex:
                bad("J", f"a band-limit or scale count cannot be computed ({ex})", base, ("L", "lam"))
            except (Undef, Budget, TypeError, ValueError) as ex:
                rep.undec("helper", SM, f"{ex} [{wit(base)}]")
    for k, n in stats.items():
        rep.ok("window:" + k, n, site=fn[k][0].where)
    # the filters the package itself generates lie inside the windows it reports
    gs = gens(rep, DIR, tier=tier, crash=False)
    if "LN" in fn and "Ls" in fn:
        def body(g, v, A, B):
            lim = {}
            for jv in range(v["J_min"], jmax(v["L"], v["lam"]) + 1):
                ev = Ev(dict(v, j=jv))
                lim[jv] = [num(ev, t) for t in fn["LN"][1]]
            ls = num(Ev(v), fn["Ls"][1][0])
            for l, x in enumerate(B):
                if (isbad(x) or abs(x) > 1e-10) and l >= ls:
                    return f"scaling filter is non-zero at l={l}, outside the reported scaling band-limit {ls}"
            for (jv, l, n), x in A.items():
                if (isbad(x) or abs(x) > 1e-10) and jv in lim:
                    a, b, c = lim[jv]
                    if not c <= l < a:
                        return f"wavelet filter j={jv} is non-zero at l={l}, outside the reported window [{c}, {a})"
                    if abs(n - v["L"] + 1) >= b:
                        return f"wavelet filter j={jv} is non-zero at order {n - v['L'] + 1}, outside the reported N_j={b}"
            return None
        each(rep, "window-covers-generated-filter", gs, tier, gvals(gs, tier), body)


def kapv(la, j, l):
    """generating function k_j(l), up to normalisation"""
    if l < la ** (j - 1):
        return 1.0
    return M._quad(l / la ** j, 1.0, la, 60) if l < la ** j else 0.0


def kapd(la, j, l):
    """is filter j non-zero at l (k_(j+1)(l) - k_j(l)), coarsely"""
    if la ** (j - 1) < l < la ** j:
        n = M._quad(1 / la, 1.0, la, 60)
        return max(0.0, n - M._quad(l / la ** j, 1.0, la, 60))
    if la ** j <= l < la ** (j + 1):
        return M._quad(l / la ** (j + 1), 1.0, la, 60)
    return 0.0


def topm(Nv, l):
    """largest |m| with a non-zero directionality coefficient at degree l or below"""
    m = min(Nv - 1, l)
    if (Nv + m) % 2 == 0:
        m -= 1
    return m
