"""Reference semantics of the transforms, as value graphs.

The mathematical definition (see C06-C08 in properties.jsonl), written with the
same term constructors the interpreter uses, so that reference and extracted
graphs are compared in one domain."""
from __future__ import annotations
import math
from . import terms as tm
from .terms import const, add, sub, mul, ZERO, ONE, NONE
from .values import Arr
from . import s2model as s2
from . import model as M
from .model import L, N, J_min, lam, J_max

PI = math.pi


def roles(Lr, c, **kw):
    r = [("L", Lr)]
    if "N" in kw:
        r.append(("N", kw["N"]))
    else:
        r.append(("spin", kw["spin"]))
    r += [("L_lower", kw.get("L_lower", ZERO)), ("sampling", const(c.sampling)), ("nside", c.nside), ("reality", const(c.reality)),
          ("kern", NONE), ("kt", const(None))]
    return tuple(r)


def lamdata(shape, g):
    vs = tuple(tm.iv("x", s) for s in shape)
    return (tm.lam(vs, g(*vs)), tuple(shape))


def psi(c, j, l, ni, sp=None):
    a = M.filt_args(c)
    if sp is not None:
        a["spin"] = sp
    return tm.elem("psi", *[a[k] for k in ("L", "N", "J_min", "lam", "spin", "spin0")], j, l, ni)


def phi(c, l):
    a = M.filt_args(c)
    return tm.elem("phi", *[a[k] for k in ("L", "N", "J_min", "lam", "spin", "spin0")], l, kind="f")


def twol1(l):
    return add(tm.scale(2, l), ONE)


def forward_f(c):
    k = "f" if c.reality else "c"
    sh = s2.s2_shape(L, const(c.sampling), c.nside)
    X = tm.xf("sph_fwd", roles(L, c, spin=c.spin), lamdata(sh, lambda *i: tm.elem("f", *i, kind=k)))
    return lambda l, mi: tm.xel(X, l, mi)


def wav_coeff(it, c, flm, q, sp=None, win=False, low=True):
    """(shape, element function) of wavelet coefficients at list position q

    win: the same function written with the parity of the steerable filters (C05): only every second order contributes;
    low: whether the transform is told the lower limit below which its operand vanishes"""
    Mr = const(c.multires)
    j = add(q, J_min)
    Lj, Nj, L0 = M.LN(it, j, Mr)

    def d(ni, l, mi):
        n = sub(ni, sub(Nj, ONE))
        m = sub(mi, sub(Lj, ONE))
        v = mul(flm(l, add(m, sub(L, ONE))), tm.fn("conj", psi(c, j, l, add(n, sub(L, ONE)), sp)), const(8 * PI ** 2), tm.power(twol1(l), const(-1)))
        if win:
            n2 = sub(tm.scale(2, tm.fdiv(ni, const(2))), sub(Nj, ONE))   # == n, as ni is even
            v = mul(flm(l, add(m, sub(L, ONE))), tm.fn("conj", psi(c, j, l, add(n2, sub(L, ONE)), sp)), const(8 * PI ** 2), tm.power(twol1(l), const(-1)))
            return tm.ite(tm.band(tm.eq(tm.mod(ni, const(2)), ZERO), tm.le(L0, l)), v, ZERO)
        # orders beyond the full-resolution array do not exist (N_j <= L)
        return tm.ite(tm.band(tm.le(tm.fn("abs", n), sub(L, ONE)), tm.le(L0, l)), v, ZERO)
    X = tm.xf("wig_inv", roles(Lj, c, N=Nj, L_lower=L0 if low else ZERO), lamdata(s2.flmn_shape(Lj, Nj), d))
    sh = s2.so3_shape(Lj, Nj, const(c.sampling), c.nside)
    k = "f" if c.reality else "c"
    if c.scattering:
        return sh, lambda *i: tm.fn("abs", tm.xel(X, *i, kind=k))
    return sh, lambda *i: tm.xel(X, *i, kind=k)


def scal_coeff(it, c, flm):
    Lsv = M.Ls(it, const(c.multires))

    def d(l, mi):
        m = sub(mi, sub(Lsv, ONE))
        return mul(flm(l, add(m, sub(L, ONE))), phi(c, l), tm.fn("sqrt", tm.div(const(4 * PI), twol1(l))))
    X = tm.xf("sph_inv", roles(Lsv, c, spin=c.spin), lamdata(s2.flm_shape(Lsv), d))
    sh = s2.s2_shape(Lsv, const(c.sampling), c.nside)
    k = "f" if c.reality else "c"
    return sh, lambda *i: tm.xel(X, *i, kind=k)


def n_scales(it, c):
    top = J_max if c.jmax else M.JTERM(it)
    return add(sub(top, J_min), ONE)


def analysis(it, c, win=False, low=True):
    flm = forward_f(c)
    return n_scales(it, c), (lambda q: wav_coeff(it, c, flm, q, None, win, low)), scal_coeff(it, c, flm)


def flm_to_analysis(it, c, win=False, low=True):
    flm = lambda l, mi: tm.elem("flm", l, mi)
    return n_scales(it, c), (lambda q: wav_coeff(it, c, flm, q, ZERO, win, low)), None


def synthesis(it, c, win=False, low=True):
    k = "f" if c.reality else "c"
    Mr = const(c.multires)
    Lsv = M.Ls(it, Mr)
    q = tm.iv("q", n_scales(it, c))
    j = add(q, J_min)
    Lj, Nj, L0 = M.LN(it, j, Mr)
    shw = s2.so3_shape(Lj, Nj, const(c.sampling), c.nside)
    W = tm.xf("wig_fwd", roles(Lj, c, N=Nj, L_lower=L0 if low else ZERO), lamdata(shw, lambda *i: tm.elem("f_wav", q, *i, kind=k)))
    S = tm.xf("sph_fwd", roles(Lsv, c, spin=c.spin), lamdata(s2.s2_shape(Lsv, const(c.sampling), c.nside), lambda *i: tm.elem("f_scal", *i, kind=k)))

    def d(l, mi):
        m = sub(mi, sub(L, ONE))
        if win:
            k_ = tm.iv("n", Nj)
            t = mul(tm.xel(W, tm.scale(2, k_), l, add(m, sub(Lj, ONE))), psi(c, j, l, add(sub(L, Nj), tm.scale(2, k_))))
            t = tm.mk_sum(k_, Nj, t)
            w = tm.mk_sum(q, n_scales(it, c), tm.ite(tm.band(tm.lt(l, Lj), tm.le(L0, l), tm.le(sub(L, Lj), mi), tm.lt(mi, add(L, Lj, const(-1)))), t, ZERO))
            s = mul(tm.xel(S, l, add(m, sub(Lsv, ONE))), phi(c, l), tm.fn("sqrt", tm.div(const(4 * PI), twol1(l))))
            return add(w, tm.ite(tm.band(tm.lt(l, Lsv), tm.le(sub(L, Lsv), mi), tm.lt(mi, add(L, Lsv, const(-1)))), s, ZERO))
        ni = tm.iv("n", sub(tm.scale(2, Nj), ONE))
        n = sub(ni, sub(Nj, ONE))
        t = mul(tm.xel(W, ni, l, add(m, sub(Lj, ONE))), psi(c, j, l, add(n, sub(L, ONE))))
        t = tm.ite(tm.band(tm.le(tm.fn("abs", n), sub(L, ONE)), tm.lt(l, Lj), tm.le(L0, l)), t, ZERO)
        w = tm.mk_sum(q, n_scales(it, c), tm.mk_sum(ni, sub(tm.scale(2, Nj), ONE), t))
        s = mul(tm.xel(S, l, add(m, sub(Lsv, ONE))), phi(c, l), tm.fn("sqrt", tm.div(const(4 * PI), twol1(l))))
        return add(w, tm.ite(tm.lt(l, Lsv), s, ZERO))
    Y = tm.xf("sph_inv", roles(L, c, spin=c.spin), lamdata(s2.flm_shape(L), d))
    sh = s2.s2_shape(L, const(c.sampling), c.nside)
    return sh, lambda *i: tm.xel(Y, *i, kind=k)
