"""Rules about shapes, errors and the public interface: C02, C16, C19."""
from __future__ import annotations
import ast
from . import terms as tm
from .terms import const, add, sub, ZERO, ONE, NONE, TRUE, FALSE
from .values import *
from . import model as M, spec
from . import s2model as s2
from .model import Ctx, Data, jmax, L, N, J_min, lam, spin, spin0, jsym, J_max
from .decide import *
from .eval import Ev, Undef, Budget
from .rules_transform import get_run, decidable, parts, ctx_vals, shown_context, ALLB, contexts
from .rules_filters import AX, DIR, FM, SM


# ------------------------------------------------------------------ C02
def call(rep, it, name, kw, rule, valid=True):
    try:
        f = M.get_func(it, SM, name)
        if not isinstance(f, FuncV):
            raise M.Missing(f"{name} is not a function")
        ps = it.param_names(f)
        miss = [k for k in kw if k not in ps]
        if miss:
            raise M.Missing(f"parameter {miss[0]} of {name}")
        r = M.invoke(it, SM, name, kw)
    except (M.Missing, Undecided) as ex:
        rep.undec("anchor", name, ex)
        return None
    rep.use(r)
    if r.unknowns:
        rep.undec(rule, r.where, r.unknowns[0])
        return None
    if r.dead and valid:
        rs = [e for e in r.events if e.kind in ("raise", "assert")]
        e = rs[-1] if rs else None
        cfg = ", ".join(f"{k}={tm.cval(v)}" for k, v in kw.items() if isinstance(v, Term) and tm.is_const(v) and v.kind != "n")
        rep.bad(rule, f"{e.site}:{e.func}" if e else r.where, f"{name} raises for every valid configuration with {cfg}")
        return None
    return r


def shape_of(it, r, ev, env=None):
    """concrete tuple reported by a shape helper, or the shape of an allocated array"""
    v = M.resolve(it, r.value, ev, env)
    if isinstance(v, Arr):
        return tuple(int(ev(x, env)) for x in v.shape)
    if isinstance(v, (TupleV, ListV)):
        out = []
        for x in v.items:
            x = M.resolve(it, x, ev, env)
            if isinstance(x, Arr) and x.ndim == 0:
                x = x.at()
            if not isinstance(x, Term):
                raise Undef("shape entry")
            out.append(int(ev(x, env)))
        return tuple(out)
    if isinstance(v, Term):
        return int(ev(v, env))
    raise Undef(f"helper returns {type(v).__name__}")


def shapes_list(it, r, ev):
    sq = M.seq_of(it, M.resolve(it, r.value, ev))
    if sq is None:
        raise Undef("helper does not return a list")
    out = []
    for q in range(int(ev(sq[0]))):
        a = M.resolve(it, sq[1](q), ev)
        if isinstance(a, Arr):
            out.append(tuple(int(ev(x)) for x in a.shape))
        elif isinstance(a, (ListV, TupleV)) and not a.items:
            out.append(None)
        else:
            raise Undef(f"list element is {type(a).__name__}")
    return out


# scaling band-limits above two with a dilation that is not an integer
SHAPE_VALS = [dict(L=l, N=n, J_min=jm, lam=la, spin=0, spin0=0, nside=max(1, l // 2), J_max=jmax(l, la))
              for l, n, jm, la in ((9, 3, 2, 2.3), (12, 4, 3, 1.6), (20, 5, 2, 2.6), (30, 2, 2, 3.3))]


def c02(rep, tier):
    rule = "helper-shapes"
    cfgs = [("mw", True), ("mwss", True), ("dh", True), ("gl", True), ("mw", False), ("dh", False), ("healpix", True), ("healpix", False)]
    for s, mr in cfgs:
        S, MR = const(s), const(mr)
        ns = M.nside if s == "healpix" else NONE
        it = M.fresh()
        com = dict(L=L, lam=lam)
        H = {}
        H["f_scal"] = call(rep, it, "f_scal", dict(com, J_min=J_min, sampling=S, nside=ns, multiresolution=MR), rule)
        H["f_wav_j"] = call(rep, it, "f_wav_j", dict(com, j=jsym, N=N, sampling=S, nside=ns, multiresolution=MR), rule)
        H["construct_f"] = call(rep, it, "construct_f", dict(com, N=N, J_min=J_min, sampling=S, nside=ns, multiresolution=MR), rule)
        if s == "mw":
            H["flmn_wav_j"] = call(rep, it, "flmn_wav_j", dict(com, j=jsym, N=N, multiresolution=MR), rule)
            for k in ("construct_flm", "construct_flm_jax"):
                H[k] = call(rep, it, k, dict(com, J_min=J_min, multiresolution=MR), rule)
            H["construct_flmn"] = call(rep, it, "construct_flmn", dict(com, N=N, J_min=J_min, multiresolution=MR), rule)
            for k in ("construct_flmn_jax", "construct_flmn_torch"):
                H[k] = call(rep, it, k, dict(com, N=N, J_min=J_min, J_max=NONE, multiresolution=MR), rule)
                H[k + "+"] = call(rep, it, k, dict(com, N=N, J_min=J_min, J_max=J_max, multiresolution=MR), rule)
            for k in ("construct_f_jax", "construct_f_torch"):
                H[k] = call(rep, it, k, dict(com, J_min=J_min, J_max=NONE), rule)
                H[k + "+"] = call(rep, it, k, dict(com, J_min=J_min, J_max=J_max), rule)
            H["n_wav_scales"] = call(rep, it, "n_wav_scales", dict(com, N=N, J_min=J_min), rule)
        # what the transforms really return / consume
        runs = []
        for b in ALLB:
            if b == "c" and s == "healpix":
                continue
            if not mr and b not in ("base", "looped"):
                continue
            r = get_run(rep, Ctx(b, s, False, multires=mr), "analysis")
            if r is not None and not r.dead and decidable(rep, r, rule):
                runs.append(r)
        vs = SHAPE_VALS + vals(tier)
        if s != "mw":
            vs = vs[:10]
        if s == "healpix":
            vs = [dict(v, nside=max(1, v["L"] // 2)) for v in vs[:4]]
        vs = with_jmax(vs) if s == "mw" and mr else vs
        failed = set()

        def bad(k, msg, v):
            if k in failed:
                return
            failed.add(k)
            rep.bad(rule, H[k].where, f"{k.rstrip('+')}: {msg} (sampling={s}, multiresolution={mr}) [{wit(v)}]", wit(v))
        memo = {}
        for v in vs:
            ev = Ev(v, Data(v))
            J = jmax(v["L"], v["lam"])
            key = (v["L"], v["N"], v["J_min"], v["lam"], v["spin"])
            try:
                if key not in memo:
                    memo[key] = [(r, [dims(ev, a.shape) for _, a in parts(r, "analysis", ev)]) for r in runs]
                got = memo[key]
            except (Undef, Budget) as ex:
                rep.undec(rule, "analysis", ex)
                continue
            if not got:
                continue
            ref = got[0][1]
            agree = True
            for r, sh in got[1:]:
                if sh != ref:
                    agree = False
            if not agree:
                # transforms disagree with each other: which is right is C06's business; compare helpers with each
                pass
            lims = []
            for j in range(v["J_min"], J + 1):
                lims.append(tuple(int(ev(x)) for x in M.LN(it, const(j), MR)))
            Lsv = int(ev(M.Ls(it, MR)))
            for k, r in H.items():
                if r is None or k in failed:
                    continue
                try:
                    if k == "f_scal":
                        g = shape_of(it, r, ev)
                        for rr, sh in got:
                            if g != sh[-1]:
                                bad(k, f"reports {g} but {rr.file}:{rr.name} returns scaling coefficients of shape {sh[-1]}", v)
                    elif k == "n_wav_scales":
                        g = shape_of(it, r, ev)
                        for rr, sh in got:
                            if g != len(sh) - 1:
                                bad(k, f"reports {g} scales but {rr.file}:{rr.name} returns {len(sh) - 1}", v)
                    elif k == "f_wav_j":
                        for q in range(len(ref) - 1):
                            e2 = Ev(dict(v, j=q + v["J_min"]))
                            g = shape_of(it, r, e2)
                            for rr, sh in got:
                                if q < len(sh) - 1 and g != sh[q]:
                                    bad(k, f"reports {g} at scale j={q + v['J_min']} but {rr.file}:{rr.name} returns shape {sh[q]}", v)
                    elif k == "construct_f":
                        g = shapes_list(it, r, ev)
                        if g != ref[:-1]:
                            bad(k, f"allocates shapes {g} but analysis returns {ref[:-1]}", v)
                    elif k == "flmn_wav_j":
                        for q, (a, b, _) in enumerate(lims):
                            e2 = Ev(dict(v, j=q + v["J_min"]))
                            g = shape_of(it, r, e2)
                            if g != (2 * b - 1, a, 2 * a - 1):
                                bad(k, f"reports {g} at scale j={q + v['J_min']} instead of {(2 * b - 1, a, 2 * a - 1)}", v)
                    elif k in ("construct_flm", "construct_flm_jax"):
                        g = shape_of(it, r, ev)
                        if g != (Lsv, 2 * Lsv - 1):
                            bad(k, f"allocates {g} instead of {(Lsv, 2 * Lsv - 1)}", v)
                    elif k.startswith("construct_flmn"):
                        g = shapes_list(it, r, ev)
                        w = [(2 * b - 1, a, 2 * a - 1) for a, b, _ in lims]
                        if k.endswith("+"):
                            w = w[:v["J_max"] - v["J_min"] + 1]
                        if g != w:
                            bad(k, f"allocates shapes {g} instead of {w}", v)
                    elif k.startswith("construct_f_"):
                        g = shapes_list(it, r, ev)
                        w = (v["J_max"] if k.endswith("+") else J) - v["J_min"] + 1
                        if len(g) != w:
                            bad(k, f"allocates {len(g)} scales instead of {w}", v)
                    rep.ok(rule, 1, site=r.where)
                except (Undef, Budget, TypeError) as ex:
                    rep.undec(rule, r.where, f"{k}: {ex}")
                    failed.add(k)
            rep.val_used.add(wit(v))
        for k, r in H.items():
            if r is not None:
                check_crashes(rep, r, vs[:6], rule)
                check_survives(rep, r, [dict(v, j=v["J_min"]) for v in vs[:6]], rule)
    shape_check(rep, tier)


def rejects(r, ev, own=False):
    """does an assertion or exception certainly fire at this valuation?"""
    if r.dead:
        return True
    for e in r.events:
        if e.kind == "raise" and holds_ex(ev, e):
            return True
        if e.kind == "assert" and fails_ex(ev, e):
            return True
        if e.kind == "bounds" and e.data.get("fw") != "jnp":
            for env in iter_ivs(ev, e.ivs, 200):
                if holds(ev, e.pc, env) and not -ev(e.data["dim"], env) <= ev(e.data["idx"], env) < ev(e.data["dim"], env):
                    return True
        if e.kind in ("xshape", "shape"):
            if own and e.kind == "xshape":
                continue        # what s2fft does with a wrong shape is not s2wav's rejection
            for env in iter_ivs(ev, e.ivs, 200):
                if not holds(ev, e.pc, env):
                    continue
                if e.kind == "xshape":
                    if e.data["want"] is None or tuple(ev(x, env) for x in e.data["got"]) != tuple(ev(x, env) for x in e.data["want"]):
                        return True
                else:
                    x, y = ev(e.data["a"], env), ev(e.data["b"], env)
                    if x != y and x != 1 and y != 1:
                        return True
    return any(not ev(c) for c in r.pc)


def bad_inputs(it, c):
    """(label, f_w, f_s) with one thing wrong"""
    MR = const(c.multires)
    n = add(sub(M.JTERM(it), J_min), ONE)
    smp, ns = const(c.sampling), c.nside

    def at(q, d=None):
        Lj, Nj, _ = M.LN(it, add(q, J_min), MR)
        sh = list(s2.so3_shape(Lj, Nj, smp, ns))
        if d is not None:
            ax, k, cond = d
            sh[ax] = add(sh[ax], tm.ite(cond(q), const(k), ZERO))
        return Arr(tuple(sh), lambda i: tm.elem("f_wav", q, *i), "complex128", "np")

    def seq(nn, d=None):
        return M.param(it, SeqV(nn, lambda q: at(q, d)), "f_wav")

    def scal(d=None, ndim=None):
        sh = list(s2.s2_shape(M.Ls(it, MR), smp, ns))
        if d is not None:
            sh[d[0]] = add(sh[d[0]], const(d[1]))
        if ndim:
            sh = [ONE] + sh
        return M.param(it, Arr(tuple(sh), lambda i: tm.elem("f_scal", *i), "complex128", "np"), "f_scal")
    ok = seq(n), scal()
    yield "valid coefficients", ok[0], ok[1], True
    yield "one scale too few", seq(sub(n, ONE)), ok[1], False
    yield "one scale too many", seq(add(n, ONE)), ok[1], False
    rank = len(s2.so3_shape(L, N, smp, ns))
    for ax in range(rank):
        for k in (1, 2, -2 if ax == 0 else 3):
            if k < 0:
                continue
            yield f"first scale with axis {ax} {k} too long", seq(n, (ax, k, lambda q: tm.eq(q, ZERO))), ok[1], False
            yield f"last scale with axis {ax} {k} too long", seq(n, (ax, k, lambda q: tm.eq(q, sub(n, ONE)))), ok[1], False
            yield f"second scale with axis {ax} {k} too long", seq(n, (ax, k, lambda q: tm.eq(q, ONE))), ok[1], False
    for ax in range(len(s2.s2_shape(L, smp, ns))):
        for k in (1, 2):
            yield f"scaling map with axis {ax} {k} too long", ok[0], scal((ax, k)), False
    def permuted(flat):
        def arr(q):
            sh = list(at(q).shape)
            if flat:
                sh = sh[:-2] + [tm.mul(sh[-2], sh[-1])]
            else:
                sh[-1], sh[-2] = sh[-2], sh[-1]
            return Arr(tuple(sh), lambda i: tm.elem("f_wav", q, *i), "complex128", "np")
        return M.param(it, SeqV(n, arr), "f_wav")
    yield "scales with the last two axes swapped", permuted(False), ok[1], False
    yield "scales with the last two axes flattened", permuted(True), ok[1], False
    yield "scaling map of another rank", ok[0], scal(None, True), False


def shape_check(rep, tier):
    for s, mr in (("mw", True), ("mw", False), ("dh", True), ("mwss", False), ("healpix", True), ("healpix", False)):
        c = Ctx("base", s, False, multires=mr)
        it0 = M.fresh()
        for i, (label, *_x) in enumerate(bad_inputs(it0, c)):
            it = M.fresh()
            label, fw, fs, good = list(bad_inputs(it, c))[i]
            kw = dict(f_w=fw, f_s=fs, L=L, N=N, J_min=J_min, lam=lam, sampling=const(s), nside=c.nside, multiresolution=const(mr))
            r = call(rep, it, "wavelet_shape_check", kw, "shape-check", valid=good)
            if r is None:
                return
            judge(rep, "shape-check", r, label, good, c, tier)


def judge(rep, rule, r, label, good, c, tier, exc=None):
    n = 0
    for v in ctx_vals(c, tier)[:8]:
        ev = Ev(v, Data(v))
        try:
            rj = rejects(r, ev, own=not good)
        except (Undef, Budget) as ex:
            rep.undec(rule, r.where, f"{label}: {ex}")
            return
        if good and rj:
            rep.bad(rule, r.where, f"{r.name} rejects {label}{shown_context(c)} [{wit(v)}]", wit(v))
            return
        if not good and not rj:
            rep.bad(rule, r.where, f"{r.name} accepts {label}{shown_context(c)} [{wit(v)}]", wit(v))
            return
        n += 1
        rep.val_used.add(wit(v))
    rep.ok(rule, n, site=r.where)


# ------------------------------------------------------------------ C16
VE = ("ValueError",)


def c16(rep, tier):
    # J_min outside [0, J)
    rule = "J_min-rejected"
    for name in AX + DIR:
        kw = dict(L=L, J_min=J_min, lam=lam)
        if name in DIR:
            kw.update(N=N, spin=spin, spin0=ZERO)
        it = M.fresh(hook=False)
        old = list(tm.FACTS)
        tm.FACTS[:] = [f for f in old if J_min not in [x for x in tm.walk(f)]]
        try:
            jm = tm.sym("J_min_any", "i")
            kw["J_min"] = jm
            try:
                f = M.get_func(it, FM, name)
                if not isinstance(f, FuncV) or any(k not in it.param_names(f) for k in kw):
                    raise M.Missing(f"{name} with parameters {sorted(kw)}")
                r = M.invoke(it, FM, name, kw)
            except (M.Missing, Undecided) as ex:
                rep.undec(rule, name, ex)
                continue
        finally:
            tm.FACTS[:] = old
        rep.use(r)
        rs = [e for e in r.events if e.kind == "raise"]
        n = 0
        for l, la in ((8, 2.0), (5, 2.0), (7, 1.5), (6, 3.0), (9, 2.7), (12, 2.0), (16, 2.0), (17, 2.0), (33, 2.0), (20, 1.3), (3, 2.0), (2, 2.0), (10, 4.0), (64, 2.0), (128, 2.0)):
            J = jmax(l, la)
            stop = False
            for jv in (-5, -2, -1, 0, 1, J - 2, J - 1, J, J + 1, J + 4):
                v = dict(L=l, N=min(2, l), lam=la, J_min_any=jv, J_min=jv, spin=0, spin0=0)
                ev = Ev(v, Data(v), budget=2_000_000)
                try:
                    fired = [e for e in rs if holds_ex(ev, e)] if not r.dead else rs[:1]
                except (Undef, Budget) as ex:
                    rep.undec(rule, r.where, ex)
                    stop = True
                    break
                want = jv < 0 or jv >= J
                if want and not fired:
                    rep.bad(rule, r.where, f"{name} accepts J_min={jv} although the maximum scale is {J} [L={l}, lam={la}]", f"L={l}, lam={la}, J_min={jv}")
                elif want and not any(isve(e) for e in fired[:1]):
                    rep.bad(rule, f"{fired[0].site}:{fired[0].func}", f"{name} raises {fired[0].data.get('exc')} instead of ValueError for J_min={jv} [L={l}, lam={la}]")
                elif not want and fired:
                    rep.bad(rule, f"{fired[0].site}:{fired[0].func}", f"{name} rejects the valid J_min={jv} (maximum scale {J}) [L={l}, lam={la}]", f"L={l}, lam={la}, J_min={jv}")
                else:
                    n += 1
                    continue
                stop = True
                break
            if stop:
                break
        rep.ok(rule, n, site=r.where)
    # healpix in the C backend
    rule = "c-backend-healpix-rejected"
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for s in ("healpix", "HEALPIX", "Healpix", "HEALPix", "heaLPix"):
            for fl in (True, False):
                for rl in (False, True):
                    c = Ctx("c", s, rl, filters=fl)
                    r = get_run(rep, c, kind)
                    if r is None:
                        continue
                    must_raise(rep, rule, r, f"{r.name} with sampling={s!r}")
        for s in ("mw", "MW", "mwss", "dh", "DH", "gl"):
            c = Ctx("c", s.lower() if s not in ("MW", "DH") else s, False)
            r = get_run(rep, c, kind)
            if r is not None and not r.unknowns:
                check_survives(rep, r, ctx_vals(c, tier)[:4], "accepts-valid")
    # kernels missing in the precompute transforms
    rule = "missing-kernels-rejected"
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for b in ("pre", "torch"):
            for fl in (True, False):
                for rl in (False, True):
                    for jm in ((False, True) if kind == "flm_to_analysis" else (False,)):
                        r = get_run(rep, Ctx(b, "mw", rl, filters=fl, precomps=False, jmax=jm), kind)
                        if r is not None:
                            must_raise(rep, rule, r, f"{r.file}:{r.name} without kernels")
    # base synthesis rejects wrong coefficients
    rule = "wrong-coefficients-rejected"
    for b in ("base", "looped"):
        for mr in (True, False):
            c = Ctx(b, "mw", False, multires=mr)
            k = len(list(bad_inputs(M.fresh(), c)))
            for i in range(k):
                it = M.fresh()
                label, fw, fs, good = list(bad_inputs(it, c))[i]
                kw = dict(f_wav=fw, f_scal=fs, L=L, N=N, J_min=J_min, lam=lam, spin=ZERO, spin0=ZERO, sampling=const("mw"), nside=NONE, reality=FALSE, multiresolution=const(mr))
                try:
                    f = M.get_func(it, M.TR + c.module, "synthesis" + c.sfx)
                    if not isinstance(f, FuncV) or any(k not in it.param_names(f) for k in kw):
                        raise M.Missing("synthesis parameters")
                    r = M.invoke(it, M.TR + c.module, "synthesis" + c.sfx, kw)
                except (M.Missing, Undecided) as ex:
                    rep.undec(rule, b, ex)
                    break
                r.ctx, r.kind = c, "synthesis"
                rep.use(r)
                c0 = Ctx(b, "mw", False, multires=mr, spin_zero=True)
                judge(rep, rule, r, label, good, c0, tier)
    # none of the errors is raised for a valid configuration
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for c in contexts(kind, "quick"):
            r = get_run(rep, c, kind)
            if r is not None and not r.unknowns:
                vs = ctx_vals(c, tier)
                check_survives(rep, r, vs, "accepts-valid")


def isve(e):
    return e.data.get("exc") in VE


def must_raise(rep, rule, r, what):
    if not r.dead:
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
            return
        # a certain failure of another kind still is not the documented ValueError
        rep.bad(rule, r.where, f"{what} is accepted instead of raising ValueError")
        return
    rs = [e for e in r.events if e.kind in ("raise", "assert")]
    first = rs[-1] if rs else None
    if first is not None and first.kind == "raise" and not first.data.get("external") and (first.data.get("none") or not first.data.get("implicit")) and first.data.get("exc") not in VE:
        rep.bad(rule, f"{first.site}:{first.func}", f"{what} raises {first.data.get('exc')} instead of ValueError")
        return
    if first is not None and first.kind == "assert":
        rep.bad(rule, f"{first.site}:{first.func}", f"{what} fails an assertion instead of raising ValueError")
        return
    rep.ok(rule, 1, proved=True, site=r.where)


# ------------------------------------------------------------------ C19
ALIASES = {
    "analysis": ("wavelet", "analysis"), "synthesis": ("wavelet", "synthesis"), "flm_to_analysis": ("wavelet", "flm_to_analysis"),
    "analysis_c": ("wavelet_c", "analysis"), "synthesis_c": ("wavelet_c", "synthesis"), "flm_to_analysis_c": ("wavelet_c", "flm_to_analysis"),
    "analysis_base": ("base", "analysis"), "synthesis_base": ("base", "synthesis"),
    "analysis_precomp_jax": ("wavelet_precompute", "analysis"), "synthesis_precomp_jax": ("wavelet_precompute", "synthesis"),
    "analysis_precomp_torch": ("wavelet_precompute_torch", "analysis"), "synthesis_precomp_torch": ("wavelet_precompute_torch", "synthesis"),
}
SUBMODULES = {"filters": "s2wav.filters", "samples": "s2wav.samples", "transforms": "s2wav.transforms", "construct": "s2wav.transforms.construct"}
ORDER = {
    "analysis": ["f", "L", "N", "J_min", "lam", "spin", "spin0", "sampling", "nside", "reality", "filters", "precomps"],
    "synthesis": ["f_wav", "f_scal", "L", "N", "J_min", "lam", "spin", "spin0", "sampling", "nside", "reality", "filters", "precomps"],
    "flm_to_analysis": ["flm", "L", "N", "J_min", "J_max", "lam", "sampling", "nside", "reality", "filters", "precomps"],
    "filters_axisym": ["L", "J_min", "lam"],
    "filters_directional": ["L", "N", "J_min", "lam", "spin", "spin0"],
    "precomputes": ["L", "N", "J_min", "lam", "sampling", "nside", "forward", "reality"],
}
DEFAULTS = dict(N=1, J_min=0, lam=2.0, spin=0, spin0=0, sampling="mw", nside=None, reality=False, filters=None, precomps=None, J_max=None,
                multiresolution=False, scattering=False, forward=False, using_torch=False, nospherical=False)
REQUIRED = {
    "analysis": {"looped": [], "base": [], "jax": ["filters", "precomps", "nside"], "c": ["filters"], "pre": ["filters", "precomps", "nside"], "torch": ["filters", "precomps", "nside"]},
}
# samples helpers called by position across the package and by users
SAMPLES = {
    "f_scal": ["L", "J_min", "lam", "sampling", "nside", "multiresolution"], "n_wav_scales": ["L", "N", "J_min", "lam"], "L0_j": ["j", "lam"],
    "LN_j": ["L", "j", "N", "lam", "multiresolution"], "f_wav_j": ["L", "j", "N", "lam", "sampling", "nside", "multiresolution"],
    "construct_f": ["L", "N", "J_min", "lam", "sampling", "nside", "multiresolution"], "construct_flm": ["L", "J_min", "lam", "multiresolution"],
    "scal_bandlimit": ["L", "J_min", "lam", "multiresolution"], "flmn_wav_j": ["L", "j", "N", "lam", "multiresolution"],
    "wav_j_bandlimit": ["L", "j", "lam", "multiresolution"], "construct_flmn": ["L", "N", "J_min", "lam", "multiresolution"], "j_max": ["L", "lam"],
    "construct_flm_jax": ["L", "J_min", "lam", "multiresolution"], "construct_f_jax": ["L", "J_min", "J_max", "lam"],
    "construct_f_torch": ["L", "J_min", "J_max", "lam"], "construct_flmn_jax": ["L", "N", "J_min", "J_max", "lam", "multiresolution"],
    "construct_flmn_torch": ["L", "N", "J_min", "J_max", "lam", "multiresolution"],
    "wavelet_shape_check": ["f_w", "f_s", "L", "N", "J_min", "lam", "sampling", "nside", "multiresolution"],
}


def signature(it, f):
    """[(name, default term or None, keyword-only?)] or None when it cannot be read off"""
    while getattr(f, "wrapped", None) is not None:
        f = f.wrapped
    a = f.node.args
    if a.vararg or a.kwarg:
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = []
    for n in pos:
        out.append((n, f.defaults.get(n) if isinstance(f.defaults, dict) else None, False))
    for x in a.kwonlyargs:
        out.append((x.arg, f.defaults.get(x.arg) if isinstance(f.defaults, dict) else None, True))
    return out


def c19(rep, tier):
    it = M.fresh()
    rule = "public-name"
    try:
        env = it.module_env("s2wav")
    except Exception as ex:
        rep.undec(rule, "s2wav", ex)
        return
    n = 0
    for name, (mod, fn) in ALIASES.items():
        v = env.get(name)
        v = it.deref(v) if v is not None else None
        if v is None:
            rep.bad(rule, "s2wav/__init__.py", f"public name s2wav.{name} is gone")
            continue
        try:
            w = M.get_func(it, M.TR + mod, fn)
        except M.Missing:
            rep.bad(rule, f"s2wav/transforms/{mod}.py", f"{mod}.{fn} is gone")
            continue
        if isinstance(v, FuncV) and isinstance(w, FuncV):
            if v.node is not w.node:
                # wrapping in the alias is allowed only if it is the function of that backend
                rep.bad(rule, "s2wav/__init__.py", f"s2wav.{name} is {v.mod.name}.{v.name} instead of {mod}.{fn}")
                continue
            n += 1
        else:
            rep.undec(rule, f"s2wav.{name}", f"{type(v).__name__}")
    for name, mod in SUBMODULES.items():
        v = env.get(name)
        v = it.deref(v) if v is not None else None
        if v is None:
            if mod in it.prog.modules:
                rep.bad(rule, "s2wav/__init__.py", f"public name s2wav.{name} is gone")
            continue
        mn = getattr(v, "name", None) or getattr(v, "path", None)
        if mn is not None and mn != mod:
            rep.bad(rule, "s2wav/__init__.py", f"s2wav.{name} is {mn} instead of {mod}")
            continue
        n += 1
    rep.ok(rule, n, proved=True, site="s2wav/__init__.py")

    rule = "signature"
    groups = []
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for b in ALLB:
            if kind == "flm_to_analysis" and b in ("looped", "base"):
                continue
            mod, sfx, _ = M.BACK[b]
            need = [p for p in ORDER[kind] if not (
                (p == "spin0" and b not in ("looped", "base")) or (p in ("filters", "precomps") and b in ("looped", "base")) or
                (p in ("nside", "precomps") and b == "c"))]
            if b in ("looped", "base"):
                need = need + ["multiresolution"]      # every other backend is multiresolution
            groups.append((M.TR + mod, kind + sfx, need))
    for f in AX:
        groups.append((FM, f, ORDER["filters_axisym"]))
    for f in DIR:
        groups.append((FM, f, ORDER["filters_directional"]))
    for f in ("generate_full_precomputes", "generate_wigner_precomputes"):
        groups.append((M.TR + "construct", f, ORDER["precomputes"]))
    for f, need in SAMPLES.items():
        groups.append((SM, f, need))
    for mod, fn, need in groups:
        try:
            f = M.get_func(it, mod, fn)
        except M.Missing:
            rep.bad("public-name", mod, f"public function {mod}.{fn} is gone")
            continue
        if not isinstance(f, FuncV):
            rep.undec(rule, f"{mod}.{fn}", type(f).__name__)
            continue
        sg = signature(it, f)
        where = f"{it.rel(f.mod.path)}:{f.node.lineno}:{fn}"
        rep.functions.add(f"{mod}.{fn}")
        if sg is None:
            rep.undec(rule, where, "variadic signature")
            continue
        names = [p for p, _, _ in sg]
        miss = [p for p in need if p not in names]
        if miss:
            rep.bad(rule, where, f"{fn} does not accept the shared parameter {miss[0]}")
            continue
        common = [p for p in names if p in need]
        if common != need:
            k = next(i for i in range(len(need)) if common[i] != need[i])
            rep.bad(rule, where, f"{fn} takes {common[k]} where the other backends take {need[k]}")
            continue
        kwo = [p for p, _, k in sg if k and p in need]
        if kwo:
            rep.bad(rule, where, f"{fn} accepts {kwo[0]} only by keyword")
            continue
        # a new parameter between shared ones shifts positional calls
        last = max(names.index(p) for p in need)
        extra = [p for i, p in enumerate(names) if p not in need and i < last and p not in OLD.get(fn, ())]
        if extra:
            rep.bad(rule, where, f"new parameter {extra[0]} of {fn} precedes shared parameters")
            continue
        bad = None
        for p, d, k in sg:
            if p not in need or p not in DEFAULTS:
                continue
            if fn in ("flmn_wav_j", "wav_j_bandlimit") and p == "j":
                continue
            want = True if p == "multiresolution" and mod.startswith(M.TR) else DEFAULTS[p]
            if d is None:
                bad = f"{fn} has no default for {p} (documented default {want!r})"
                break
            d = it.deref(d)
            if not isinstance(d, Term) or not tm.is_const(d):
                if isinstance(d, (TupleV, ListV)):
                    bad = f"default of {p} in {fn} is a {type(d).__name__} instead of {want!r}"
                    break
                rep.undec(rule, where, f"default of {p}")
                continue
            got = d.args[0]
            if got != want or (isinstance(got, bool) != isinstance(want, bool)) or (got is None) != (want is None):
                bad = f"default of {p} in {fn} is {got!r} instead of {want!r}"
                break
        if bad:
            rep.bad(rule, where, bad)
            continue
        rep.ok(rule, len(need), proved=True, site=where)


# parameters of today's signatures that are not shared by all backends but precede shared ones
OLD = {
    "analysis": ("spin0", "multiresolution", "scattering"), "synthesis": ("spin0", "multiresolution"),
    "analysis_looped": ("spin0", "multiresolution"), "synthesis_looped": ("spin0", "multiresolution"),
}
