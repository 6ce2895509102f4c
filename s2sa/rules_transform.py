"""Rules about the transforms: C06-C11, C17, C18, C21."""
from __future__ import annotations
from . import terms as tm
from .terms import const, add, sub, ZERO, ONE, NONE, TRUE, FALSE
from .values import *
from . import model as M, spec
from .model import Ctx, Data, jmax
from .decide import *
from .eval import Ev, Undef, Budget, X, Kern, ASK, kernel_status, expected_kernel

ALLB = ("looped", "base", "jax", "c", "pre", "torch")
SAMPLINGS = ("mw", "mwss", "dh", "gl")


def contexts(kind, tier, reality=(False, True), backends=ALLB):
    out = []
    for b in backends:
        if kind == "flm_to_analysis" and b in ("looped", "base"):
            continue
        for rl in reality:
            for s in SAMPLINGS:
                if s != "mw" and rl and tier == "quick":
                    continue
                out.append(Ctx(b, s, rl, sp0=s == "mw"))
            if b in ("jax", "c"):
                out.append(Ctx(b, "mw", rl, filters=False, precomps=False))
        if b != "c":
            out.append(Ctx(b, "healpix", False))
    return out


def get_run(rep, c, kind, **kw):
    """run or None; missing anchors are reported by C19 (here: undecided)"""
    try:
        r = M.run(c, kind, **kw)
    except M.Missing as ex:
        rep.undec("anchor", f"{c.module}.{kind}{c.sfx}", f"{ex} not found")
        return None
    except Undecided as ex:
        rep.undec("anchor", f"{c.module}.{kind}{c.sfx}", ex)
        return None
    rep.use(r)
    return r


def decidable(rep, r, rule):
    if r.unknowns or r.pre_unknowns:
        rep.undec(rule, r.where, (r.unknowns or r.pre_unknowns)[0])
        return False
    return True


def result_pair(r, ev):
    v = M.resolve(r.it, r.value, ev)
    if isinstance(v, (TupleV, ListV)) and len(v.items) == 2:
        return M.resolve(r.it, v.items[0], ev), M.resolve(r.it, v.items[1], ev)
    return None


def shown_context(c):
    return " (" + c.show() + ")"


def ctx_vals(c, tier, small=False):
    vs = vals(tier, spin_zero=c.spin_zero, sp0=c.sp0)
    if c.sampling != "mw":
        vs = vs[:5] if tier == "quick" else vs[:12]
    if small:
        vs = vs[:6]
    if c.sampling == "healpix":
        vs = [dict(v, nside=max(1, v["L"] // 2)) for v in vs[:3]]
    if c.jmax:
        vs = with_jmax(vs)
    return vs


def roots_of(r):
    """terms of the result, for boundary harvesting"""
    out = list(r.pc)

    def add_v(v, depth=0):
        v = r.it.deref(v)
        if isinstance(v, Arr):
            out.extend(v.shape)
            out.append(v.inst()[1])
        elif isinstance(v, (TupleV, ListV)):
            for x in v.items:
                add_v(x, depth + 1)
        elif isinstance(v, SeqV):
            out.append(v.n)
            add_v(v.inst()[1], depth + 1)
        elif isinstance(v, GatedV):
            out.append(v.c)
            add_v(v.a)
            add_v(v.b)
        elif isinstance(v, Term):
            out.append(v)
    if r.value is not None:
        add_v(r.value)
    return out


def check_list(rep, rule, r, c, v, ev, got, nref, eref, label):
    """compare a list of per-scale arrays with the reference list"""
    sq = M.seq_of(r.it, got)
    if sq is None:
        raise Undef(f"{label} is not a list")
    n = ev(sq[0])
    nw = ev(nref)
    if n != nw:
        rep.bad(rule, r.where, f"{label} has {rndi(n)} scales instead of {rndi(nw)}{shown_context(c)} [{wit(v)}]", wit(v))
        return False
    good = True
    for q in range(int(n)):
        a = M.resolve(r.it, sq[1](q), ev)
        if isinstance(a, (ListV, TupleV)) and not a.items:
            rep.bad(rule, r.where, f"{label} at scale j={q + v['J_min']} are never computed: the entry is an empty list{shown_context(c)} [{wit(v)}]", wit(v))
            return False
        if not isinstance(a, Arr):
            raise Undef(f"{label}[{q}] is {type(a).__name__}")
        sh, f = eref(const(q))
        w = FArr(sh, f)
        where = site_of(a, r)
        if not compare_arrays(rep, rule, where, a, w, v, ev, f"{label} at scale j={q + v['J_min']}", note=shown_context(c)):
            good = False
            break
    return good


def site_of(a, r):
    try:
        for x in tm.walk(a.inst()[1]):
            if x.op == "xf" and x in tm.XSITE:
                return f"{tm.XSITE[x]}:{r.name}"
    except Exception:
        pass
    return r.where


_REFS = {}


def ref(r, c, kind):
    key = (c.key(), kind)
    if key not in _REFS:
        fn = getattr(spec, kind)
        out = fn(r.it, c)
        if kind != "synthesis":
            n, e, s = out
            memo = {}

            def e2(q, e=e, memo=memo):
                if q not in memo:
                    memo[q] = e(q)
                return memo[q]
            out = (n, e2, s)
        _REFS[key] = out
    return _REFS[key]


def symbolic_same(r, c, kind):
    """is the extracted graph, for symbolic scale, identical to the reference (all parameters)?

    the reference has several spellings: with the full sum over orders or with the orders of the wrong parity left out,
    and with or without telling the transform the lower limit below which its operand vanishes"""
    return any(symbolic_same1(r, c, kind, win, low) for win in (True, False) for low in (True, False))


def symbolic_same1(r, c, kind, win, low):
    try:
        rf = getattr(spec, kind)(r.it, c, win, low)
        if kind == "synthesis":
            a = r.it.deref(r.value)
            w = FArr(*rf)
            if len(a.shape) != len(w.shape):
                return False
            vs, body = a.inst()
            b2 = tm.subst(w.body, dict(zip(w.vs, vs)))
            return strip_same(body, b2) and all(x is y for x, y in zip(a.shape, w.shape))
        got = r.it.deref(r.value)
        lst = got.items[0] if kind == "analysis" else got
        sq = M.seq_of(r.it, lst)
        if sq is None or sq[2] is not None or sq[0] is not rf[0]:
            return False
        q = tm.iv("q", rf[0])
        a = r.it.deref(sq[1](q))
        sh, f = rf[1](q)
        vs, body = a.inst()
        if not (strip_same(body, f(*vs)) and all(x is y for x, y in zip(a.shape, sh))):
            return False
        return kind != "analysis" or scaling_same(r, c, r.it.deref(got.items[1]), rf[2])
    except Exception:
        return False


def scaling_same(r, c, a, rf):
    """scaling coefficients; the cases L_s = 1 and |spin| >= L_s may be written out"""
    Lsv = M.Ls(r.it, const(c.multires))
    if isinstance(a, GatedV):
        arms = []
        while isinstance(a, GatedV):
            arms.append((a.c, r.it.deref(a.a)))
            a = r.it.deref(a.b)
        arms.append((None, a))
    else:
        arms = [(None, a)]
    for cond, x in arms:
        sh, f = rf
        if not isinstance(x, Arr) or len(x.shape) != len(sh) or not all(p is q for p, q in zip(x.shape, sh)):
            return False
        vs, body = x.inst()
        want = f(*vs)
        while True:
            one = cond is not None and cond is tm.eq(Lsv, ONE)
            high = cond is not None and cond is tm.le(Lsv, tm.fn("abs", c.spin))
            if body.op == "ite" and cond is None and (body.args[0] is tm.eq(Lsv, ONE) or body.args[0] is tm.le(Lsv, tm.fn("abs", c.spin))):
                if not scaling_arm(body.args[0], body.args[1], want, Lsv):
                    return False
                body = body.args[2]
                continue
            break
        if one or high:
            if not scaling_arm(cond, body, want, Lsv):
                return False
        elif cond is not None or not strip_same(body, want):
            return False
    return True


def scaling_arm(cond, body, want, Lsv):
    if cond is not tm.eq(Lsv, ONE):
        return body is ZERO
    d = want.args[0].args[2][0]        # inverse transform at band-limit 1: f_00 Y_00
    v = tm.subst(d.args[1], dict(zip(d.args[0], (ZERO, ZERO))))
    w = tm.mul(v, tm.fn("sqrt", const(1 / (4 * spec.PI))))
    (c1, d1), (c2, d2) = tm.as_lin(body), tm.as_lin(w)
    if c1 != 0 or c2 != 0 or len(d1) != 1 or len(d2) != 1:
        return strip_same(body, w)
    (x, k), (y, h) = list(d1.items())[0], list(d2.items())[0]
    return abs(k - h) < 1e-12 and strip_same(x, y)


def strip_same(a, b):
    def strip(t):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                if x.op == "xf":
                    rl = tuple((n, NONE if n in ("kern", "kt") else go(y)) for n, y in x.args[1])
                    r = tm.xf(x.args[0], rl, tm._gotup(x.args[2], go))
                else:
                    r = tm.rebuild(x, go)
                memo[x] = r
            return r
        return go(t)
    return same_graph(strip(a), strip(b))


def transform_rule(rep, kind, rule, cs, tier, survive=True, crash=True):
    for c in cs:
        r = get_run(rep, c, kind)
        if r is None:
            continue
        vs = ctx_vals(c, tier)
        if survive and not r.dead and not r.unknowns:
            check_survives(rep, r, vs, rule)
        elif r.dead and not r.unknowns:
            check_survives(rep, r, vs, rule)
            continue
        if crash and c.sampling != "healpix":
            check_crashes(rep, r, vs, rule)
        if not decidable(rep, r, rule):
            continue
        bv = boundary_vals(roots_of(r), dict(L=8, N=2, J_min=0, lam=2.0, spin=0, spin0=0, nside=4, J_max=3)) if c.sampling == "mw" else []
        if c.spin_zero:
            bv = [dict(x, spin=0) for x in bv]
        if not c.sp0:
            bv = [dict(x, spin0=0) for x in bv]
        if c.sampling == "mw":
            fix = dict(J_max=None) if not c.jmax else {}
            if c.spin_zero:
                fix["spin"] = 0
            if not c.sp0:
                fix["spin0"] = 0
            bv = bv + cover_vals(roots_of(r), vs + bv, fix, limit=24)
        sym = symbolic_same(r, c, kind)
        if sym:
            rep.ok(rule + ":identity", 1, proved=True, site=r.where)
        done = 0
        for v in vs + bv:
            ev = Ev(v, Data(v, c.reality))
            try:
                if compare_kind(rep, rule, r, c, kind, v, ev):
                    done += 1
                else:
                    break
            except Undef as ex:
                rep.undec(rule, r.where, f"{ex} {shown_context(c)} [{wit(v)}]")
                break
            except Budget:
                rep.undec(rule, r.where, f"evaluation budget [{wit(v)}]")
        rep.ok(rule + ":values", done, site=r.where)
        for v in vs:
            rep.val_used.add(wit(v))


def compare_kind(rep, rule, r, c, kind, v, ev):
    rf = ref(r, c, kind)
    if kind == "synthesis":
        a = M.resolve(r.it, r.value, ev)
        if not isinstance(a, Arr):
            raise Undef(f"result is {type(a).__name__}")
        return compare_arrays(rep, rule, site_of(a, r), a, FArr(*rf), v, ev, "reconstructed signal", note=shown_context(c))
    if kind == "analysis":
        p = result_pair(r, ev)
        if p is None:
            raise Undef("result is not a pair")
        if not check_list(rep, rule, r, c, v, ev, p[0], rf[0], rf[1], "wavelet coefficients"):
            return False
        a = p[1]
        if not isinstance(a, Arr):
            raise Undef(f"scaling coefficients are {type(a).__name__}")
        return compare_arrays(rep, rule, site_of(a, r), a, FArr(*rf[2]), v, ev, "scaling coefficients", note=shown_context(c))
    return check_list(rep, rule, r, c, v, ev, r.value, rf[0], rf[1], "wavelet coefficients")


def c06(rep, tier):
    transform_rule(rep, "analysis", "analysis-equals-reference", contexts("analysis", tier), tier)


def c07(rep, tier):
    transform_rule(rep, "synthesis", "synthesis-equals-reference", contexts("synthesis", tier), tier)


def c08(rep, tier):
    cs = contexts("flm_to_analysis", tier)
    cs += [Ctx(b, "mw", rl, jmax=True) for b in ("jax", "c", "pre", "torch") for rl in (False, True)]
    cs += [Ctx(b, "mw", False, filters=False, precomps=False, jmax=True) for b in ("jax", "c")]
    transform_rule(rep, "flm_to_analysis", "flm_to_analysis-equals-reference", cs, tier)


# ------------------------------------------------------------------ C21
def c21(rep, tier):
    cs = []
    for b in ("looped", "base"):
        for rl in (False, True):
            cs.append(Ctx(b, "mw", rl, multires=False))
            cs.append(Ctx(b, "mw", rl, multires=True, sp0=True))
        cs.append(Ctx(b, "dh", False, multires=False))
        cs.append(Ctx(b, "mw", False, multires=False, sp0=True))
    transform_rule(rep, "synthesis", "full-resolution-synthesis", cs, tier)
    cs = cs + [Ctx("base", "mw", rl, multires=m, scattering=True) for rl in (False, True) for m in (True, False)]
    cs += [Ctx("base", "mwss", False, scattering=True), Ctx("base", "mw", False, scattering=True, sp0=True)]
    cs += [Ctx("base", "healpix", False, multires=False), Ctx("base", "healpix", False, multires=False, scattering=True)]
    transform_rule(rep, "analysis", "full-resolution-analysis", cs, tier)


# ------------------------------------------------------------------ C23
_EDGE = [
    # L, N, J_min, lam, spin, spin0
    (2, 1, 0, 2.0, 0, 0), (2, 2, 0, 2.0, 1, 1), (3, 3, 1, 2.0, -2, 0), (4, 4, 1, 2.0, 3, -3), (4, 1, 0, 4.0, 0, 0), (9, 9, 1, 3.0, 8, 0), (9, 1, 0, 9.0, 0, 2),
    (8, 1, 2, 2.0, 0, 0), (16, 16, 3, 2.0, -7, 1), (5, 2, 0, 8.0, 1, 0), (6, 6, 5, 1.4, 0, 0), (10, 3, 12, 1.2, 1, -1), (27, 4, 2, 3.0, -1, 0), (25, 5, 1, 5.0, 0, 0), (32, 3, 0, 2.0, 2, 0),
    (3, 1, 0, 2.0, 2, 2), (7, 7, 0, 6.9, -6, 0), (12, 11, 2, 2.3, 0, -4), (13, 2, 1, 12.0, 0, 0), (15, 8, 3, 1.9, 5, 0),
]


def dense_vals(n):
    """valid configurations: the edges of every parameter's range, then a spread of the pool"""
    out = []
    for l, nn, jm, la, sp, s0 in _EDGE:
        J = jmax(l, la)
        if jm < J:
            out.append(dict(L=l, N=nn, J_min=jm, lam=la, spin=sp, spin0=s0, nside=max(1, l // 2), J_max=jm))
            if len(out) % 3 == 0:
                out[-1]["J_max"] = J
    pool = [v for v in val_pool() if v["L"] <= 24]
    return out + pool[:: max(1, len(pool) // n)][:n]


def fit(c, vs):
    """the valuations as configurations of context c"""
    out = []
    for v in vs:
        w = dict(v)
        if c.spin_zero:
            w["spin"] = 0
        if not c.sp0:
            w["spin0"] = 0
        if not c.jmax:
            w["J_max"] = jmax(w["L"], w["lam"])
        if w not in out:
            out.append(w)
    return out


def event_roots(r):
    out = list(r.pc)
    for e in r.events:
        if e.kind in CRASH + ("raise", "assert"):
            out += [p for p in e.pc]
            out += [x for x in e.data.values() if isinstance(x, tm.Term)]
    return out


def c23(rep, tier):
    rule = "valid-configuration-accepted"
    dv = dense_vals(40 if tier == "quick" else 240)
    cs = []
    for b in ALLB:
        for rl in (False, True):
            cs.append(Ctx(b, "mw", rl, sp0=b in ("base", "looped")))
            if b in ("base", "looped"):
                cs.append(Ctx(b, "mw", rl, multires=False))
            if b in ("jax", "c"):
                cs.append(Ctx(b, "mw", rl, filters=False, precomps=False))
            if tier == "thorough":
                cs += [Ctx(b, s, rl) for s in ("mwss", "dh", "gl")]
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for c in cs + ([Ctx(b, "mw", rl, jmax=True) for b in ("jax", "c", "pre", "torch") for rl in (False, True)] if kind == "flm_to_analysis" else []):
            if kind == "flm_to_analysis" and c.backend in ("looped", "base"):
                continue
            r = get_run(rep, c, kind)
            if r is None:
                continue
            accepted(rep, rule, r, c, dv)
            if r.pre_run is not None:
                pr = r.pre_run
                pr.ctx = c
                if id(pr) not in _SEEN23:
                    _SEEN23[id(pr)] = pr
                    accepted(rep, rule, pr, c, dv)
    from . import rules_filters as F
    for n in F.AX + F.DIR:
        g = F.gen(n)
        if g.run is None:
            rep.undec("anchor", n, g.why)
            continue
        rep.use(g.run)
        if g.run.unknowns:
            rep.undec(rule, g.where(), g.run.unknowns[0])
            continue
        if check_survives(rep, g.run, dv, rule):
            check_crashes(rep, g.run, dv[::2], rule)
    from . import rules_state as S
    S.trace_all(rep, rule, tier)


_SEEN23 = {}


def accepted(rep, rule, r, c, dv):
    if r.unknowns:
        rep.undec(rule, r.where, r.unknowns[0])
        if r.dead:
            return
    vs = fit(c, dv)
    if c.sampling == "mw":
        fix = {}
        if not c.jmax:
            fix["J_max"] = None
        if c.spin_zero:
            fix["spin"] = 0
        if not c.sp0:
            fix["spin0"] = 0
        vs = vs + [x for x in cover_vals(event_roots(r), vs, fix, cap=12, limit=40) if x not in vs]
    if not check_survives(rep, r, vs, rule):
        return
    check_crashes(rep, r, vs, rule)
    check_pre(rep, r, vs, rule)
    check_kernel_sizes(rep, r, vs[:: max(1, len(vs) // 12)], rule)
    for v in vs:
        rep.val_used.add(wit(v))


def low(x):
    return x.lower() if isinstance(x, str) else x


def check_kernel_sizes(rep, r, vs, rule):
    """a kernel given to a transform has the band-limits and sampling of that transform (its contraction fails otherwise)"""
    for e in r.events:
        if e.kind != "xf" or e.data["roles"].get("kern") in (None, NONE):
            continue
        n = 0
        for v in vs:
            ev = Ev(v, Data(v, r.ctx.reality), budget=1_000_000)
            bad = None
            try:
                for env in iter_ivs(ev, e.ivs, 60):
                    if not holds(ev, e.pc, env):
                        continue
                    d = {k: ev(x, env) for k, x in e.data["roles"].items() if isinstance(x, tm.Term)}
                    k = d.get("kern")
                    if hasattr(k, "vs"):
                        k = k(*[ASK] * len(k.vs))
                    if not isinstance(k, Kern):
                        continue
                    wig = e.data["op"].startswith("wig")
                    for q in ("L", "sampling") + (("N",) if wig else ()):
                        if q in k.roles and low(k.roles[q]) != low(d[q]) and not (q == "N" and 1 in (k.roles[q], d[q])):
                            bad = f"a kernel for {q}={k.roles[q]} is given to the transform for {q}={d[q]}, whose array shapes do not match"
                    if bad:
                        rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['path']} in {r.name}: {bad}{shown_context(r.ctx)} [{wit(v)}]", wit(v))
                        break
                    n += 1
            except (Undef, Budget, AttributeError, TypeError):
                break
            if bad:
                break
        rep.ok(rule, n, site=e.site)


def check_pre(rep, r, vs, rule):
    """preconditions of the library transforms hold at every reached call"""
    for e in r.events:
        if e.kind != "xpre":
            continue
        seen = set()
        for v in vs:
            ev = Ev(v, Data(v, r.ctx.reality))
            try:
                for env in iter_ivs(ev, e.ivs, 200):
                    if not holds(ev, e.pc, env) or ev(e.data["ok"], env):
                        continue
                    kind = ""
                    if "L" in e.data:
                        lj = int(ev(e.data["L"], env))
                        n = min(v["N"], lj)
                        n -= (n + v["N"]) % 2
                        if n == 1:
                            kind = f" (a configuration that has a single orientation{'' if v['N'] == 1 else ' at this scale'})"
                    if kind not in seen:
                        seen.add(kind)
                        rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['path']} {e.data['why']}: {rndi(ev(e.data['v'], env))} given by {r.name}{kind} [{wit(v)}]", wit(v))
                rep.ok(rule, 1, site=e.site)
            except (Undef, Budget) as ex:
                rep.undec(rule, f"{e.site}:{e.func}", ex)
                break


# ------------------------------------------------------------------ comparing two runs

def same_runs(rep, rule, ra, rb, kind, vs, label, real=False):
    """results of two analysed calls are equal at the valuations"""
    done = 0
    for v in vs:
        ev = Ev(v, Data(v, real))
        try:
            if not same_values(rep, rule, ra, rb, kind, v, ev, label):
                break
            done += 1
            rep.val_used.add(wit(v))
        except Undef as ex:
            rep.undec(rule, ra.where, f"{ex} {label} [{wit(v)}]")
            break
        except Budget:
            rep.undec(rule, ra.where, f"evaluation budget [{wit(v)}]")
    rep.ok(rule, done, site=ra.where)


def parts(r, kind, ev):
    """[(label, Arr)] of a transform result at a valuation"""
    out = []

    def lst(v):
        sq = M.seq_of(r.it, v)
        if sq is None:
            raise Undef("wavelet coefficients are not a list")
        n = int(ev(sq[0]))
        for q in range(n):
            out.append((f"wavelet coefficients at list position {q}", M.resolve(r.it, sq[1](q), ev)))
    if kind == "synthesis":
        out.append(("reconstructed signal", M.resolve(r.it, r.value, ev)))
    elif kind == "analysis":
        p = result_pair(r, ev)
        if p is None:
            raise Undef("result is not a pair")
        lst(p[0])
        out.append(("scaling coefficients", p[1]))
    else:
        lst(M.resolve(r.it, r.value, ev))
    for n, a in out:
        if not isinstance(a, Arr):
            raise Undef(f"{n} is {type(a).__name__}")
    return out


def same_values(rep, rule, ra, rb, kind, v, ev, label):
    pa, pb = parts(ra, kind, ev), parts(rb, kind, ev)
    if len(pa) != len(pb):
        rep.bad(rule, ra.where, f"{len(pa)} results instead of {len(pb)}: {label} [{wit(v)}]", wit(v))
        return False
    for (n, a), (_, b) in zip(pa, pb):
        if not compare_arrays(rep, rule, site_of(a, ra), a, b, v, ev, n, note=" " + label):
            return False
    return True


# ------------------------------------------------------------------ C17
def c17(rep, tier):
    rule = "omitted-equals-generated"
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for b in ("jax", "c", "pre", "torch"):
            cases = [("mw", False), ("mw", True), ("dh", False)] + ([("healpix", False)] if b != "c" else [])
            for s, rl in cases:
                for jm in ((False, True) if kind == "flm_to_analysis" and s == "mw" else (False,)):
                    full = get_run(rep, Ctx(b, s, rl, jmax=jm), kind)
                    if full is None or full.dead or not decidable(rep, full, rule):
                        continue
                    vs = ctx_vals(full.ctx, tier)
                    for fl, pr in ((False, True), (True, False), (False, False)):
                        if b == "c" and not (fl, pr) == (False, True):
                            continue
                        c = Ctx(b, s, rl, filters=fl, precomps=pr, jmax=jm)
                        r = get_run(rep, c, kind)
                        if r is None:
                            continue
                        if b in ("pre", "torch"):
                            # these backends require both; when they accept an omitted one the result must agree
                            if r.dead or r.unknowns or not pr:
                                continue
                        if r.dead:
                            check_survives(rep, r, vs, rule)
                            continue
                        if not decidable(rep, r, rule):
                            continue
                        check_survives(rep, r, vs, rule)
                        same_runs(rep, rule, r, full, kind, vs, f"when {'filters' if not fl else ''}{' and ' if not fl and not pr else ''}{'kernels' if not pr else ''} are omitted{shown_context(c)}", rl)


# ------------------------------------------------------------------ C18
def c18(rep, tier):
    rule = "real-equals-complex"
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for b in ALLB:
            if kind == "flm_to_analysis" and b in ("looped", "base"):
                continue
            opts = [dict()]
            if b in ("looped", "base"):
                opts.append(dict(multires=False))
                opts.append(dict(sp0=True))
            if kind == "flm_to_analysis":
                opts.append(dict(jmax=True))
            for s in (("mw",) if tier == "quick" else SAMPLINGS):
                for o in opts:
                    ca, cb = Ctx(b, s, True, **o), Ctx(b, s, False, spin_zero=True, **o)
                    ra, rb = get_run(rep, ca, kind), get_run(rep, cb, kind)
                    if ra is None or rb is None:
                        continue
                    if ra.dead or rb.dead:
                        check_survives(rep, ra, ctx_vals(ca, tier), rule)
                        check_survives(rep, rb, ctx_vals(cb, tier), rule)
                        continue
                    if not decidable(rep, ra, rule) or not decidable(rep, rb, rule):
                        continue
                    vs = ctx_vals(ca, tier)
                    same_runs(rep, rule, ra, rb, kind, vs, f"between reality=True and reality=False{shown_context(ca)}", True)


# ------------------------------------------------------------------ C11
def c11(rep, tier):
    rule = "arguments-reach-transforms"
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        cs = contexts(kind, tier)
        for b in ALLB:
            if kind == "flm_to_analysis" and b in ("looped", "base"):
                continue
            for s in ("mwss", "dh", "gl"):
                cs.append(Ctx(b, s, True))
            if b != "c":
                cs.append(Ctx(b, "healpix", True))
            if b in ("jax", "c"):
                cs.append(Ctx(b, "dh", False, filters=False, precomps=False))
                cs.append(Ctx(b, "gl", True, filters=False, precomps=False))
                if b == "jax":
                    cs.append(Ctx(b, "healpix", False, filters=False, precomps=False))
            if b in ("looped", "base"):
                cs += [Ctx(b, "dh", True, multires=False), Ctx(b, "healpix", False, multires=False), Ctx(b, "mwss", False, multires=False, sp0=True)]
                if kind == "analysis" and b == "base":
                    cs += [Ctx(b, "healpix", False, multires=False, scattering=True), Ctx(b, "gl", True, scattering=True)]
            if kind == "flm_to_analysis":
                cs += [Ctx(b, s, rl, jmax=True) for s, rl in (("dh", False), ("gl", True))]
        seen = set()
        for c in cs:
            if c.key() in seen:
                continue
            seen.add(c.key())
            r = get_run(rep, c, kind)
            if r is None or r.dead:
                continue
            check_roles(rep, rule, r, c, tier)
            # sampled arrays allocated for the result use the caller's sampling and nside too
            if c.sampling == "healpix" and not r.unknowns:
                check_crashes(rep, r, ctx_vals(c, tier)[:2], rule)


def check_roles(rep, rule, r, c, tier):
    vs = ctx_vals(c, tier)[:7]
    for e in r.events:
        if e.kind != "xf":
            continue
        ro = e.data["roles"]
        wig = e.data["op"].startswith("wig")
        bad = None
        n = 0
        for v in vs:
            ev = Ev(v, Data(v, c.reality), budget=4_000_000)
            try:
                for env in iter_ivs(ev, e.ivs, 60):
                    if not holds(ev, e.pc, env):
                        continue
                    got = {k: ev(ro[k], env) for k in ("sampling", "reality", "nside", "L") + (("N",) if wig else ("spin",))}
                    s = got["sampling"]
                    if not isinstance(s, str) or s.lower() != c.sampling.lower():
                        bad = f"sampling {s!r} instead of the caller's {c.sampling!r}"
                    elif bool(got["reality"]) != c.reality:
                        bad = f"reality={got['reality']} instead of the caller's {c.reality}"
                    elif c.sampling == "healpix" and got["nside"] != v["nside"]:
                        bad = f"nside={got['nside']} instead of the caller's {v['nside']}"
                    elif not wig and got["spin"] != (0 if c.spin_zero or r.kind == "flm_to_analysis" else v["spin"]):
                        bad = f"spin={got['spin']} instead of the caller's {v['spin']}"
                    elif not wig and got["L"] not in (v["L"], ev(M.Ls(r.it, const(c.multires)))):
                        bad = f"band-limit {got['L']} instead of L or the scaling band-limit"
                    elif wig and not any((got["L"], got["N"]) == tuple(ev(x) for x in M.LN(r.it, const(j), const(c.multires))[:2])
                                         for j in range(v["J_min"], jmax(v["L"], v["lam"]) + 1)):
                        bad = f"band-limits ({got['L']}, {got['N']}) of no scale"
                    if bad:
                        rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['path']} in {r.name} uses {bad}{shown_context(c)} [{wit(v)}]", wit(v))
                        break
                    n += 1
                if bad:
                    break
            except (Undef, Budget) as ex:
                rep.undec(rule, f"{e.site}:{e.func}", ex)
                break
        rep.ok(rule, n, site=e.site)


# ------------------------------------------------------------------ C09
CON = M.TR + "construct"


def c09(rep, tier):
    rule = "kernel-matches-transform"
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for b in ("jax", "pre", "torch"):
            cs = [Ctx(b, s, rl) for s in SAMPLINGS for rl in (False, True)] + [Ctx(b, "healpix", False), Ctx(b, "healpix", True)]
            if b == "jax":
                cs += [Ctx(b, "mw", rl, precomps=False) for rl in (False, True)] + [Ctx(b, "healpix", False, precomps=False)]
            if kind == "flm_to_analysis":
                cs += [Ctx(b, "mw", rl, jmax=True) for rl in (False, True)]
                cs += [Ctx(b, "dh", False, jmax=True)]
                if b == "jax":
                    cs += [Ctx(b, "mw", False, precomps=False, jmax=True)]
            for c in cs:
                r = get_run(rep, c, kind)
                if r is None or r.dead or not decidable(rep, r, rule):
                    continue
                kernels(rep, rule, r, c, tier)
    torch_kernels(rep, tier)


def kernels(rep, rule, r, c, tier):
    vs = ctx_vals(c, tier)
    if r.pre_run is not None:
        pr = r.pre_run
        if pr.dead:
            rep.bad(rule, pr.where, f"{pr.name} raises in a valid configuration{shown_context(c)}")
            return
        check_crashes(rep, pr, vs, rule)
    crash = [e for e in r.events if e.kind == "bounds" and "list" in e.data["what"]]
    for e in r.events:
        if e.kind != "xf":
            continue
        n = 0
        bad = None
        for v in vs:
            ev = Ev(v, Data(v, c.reality), budget=6_000_000)
            try:
                for env in iter_ivs(ev, e.ivs, 60):
                    if not holds(ev, e.pc, env):
                        continue
                    x = ev(e.data["X"], env)
                    bad = kernel_status(x.op, x.d)
                    if bad:
                        k = x.d.get("kern")
                        rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['path']} in {r.name}: {bad}{shown_context(c)} [{wit(v)}]", wit(v))
                        break
                    n += 1
                if bad:
                    break
            except (Undef, Budget, AttributeError) as ex:
                rep.undec(rule, f"{e.site}:{e.func}", ex)
                break
        rep.ok(rule, n, site=e.site)
    for v in vs:
        ev = Ev(v, Data(v, c.reality))
        for e in crash:
            try:
                for env in iter_ivs(ev, e.ivs):
                    if holds(ev, e.pc, env):
                        x, d = ev(e.data["idx"], env), ev(e.data["dim"], env)
                        if not -d <= x < d:
                            rep.bad(rule, f"{e.site}:{e.func}", f"kernel list index {rndi(x)} out of range for {rndi(d)} kernels [{wit(v)}]", wit(v))
                            break
            except (Undef, Budget):
                pass


def torch_kernels(rep, tier):
    """the Torch lists hold the same kernels, in the same places, as the JAX ones"""
    rule = "torch-kernels-equal"
    for name in ("generate_full_precomputes", "generate_wigner_precomputes"):
        for fwd in (False, True):
            for rl in (False, True):
                for ns in ((False, True) if name == "generate_full_precomputes" else (False,)):
                    kw = dict(L=M.L, N=M.N, J_min=M.J_min, lam=M.lam, sampling=const("mw"), nside=NONE, forward=const(fwd), reality=const(rl))
                    if name == "generate_full_precomputes":
                        kw["nospherical"] = const(ns)
                    it = M.fresh()
                    try:
                        ra = M.invoke(it, CON, name, dict(kw, using_torch=FALSE))
                        rb = M.invoke(it, CON, name, dict(kw, using_torch=TRUE))
                    except (M.Missing, Undecided) as ex:
                        rep.undec(rule, name, ex)
                        continue
                    rep.use(ra)
                    if ra.unknowns or rb.unknowns or ra.dead or rb.dead:
                        rep.undec(rule, ra.where, (ra.unknowns + rb.unknowns + ["raises"])[0])
                        continue
                    n = 0
                    for v in vals(tier)[:8]:
                        ev = Ev(v)
                        try:
                            d = diff_kernels(it, ev, ra.value, rb.value)
                        except (Undef, Budget) as ex:
                            rep.undec(rule, ra.where, ex)
                            break
                        if d:
                            rep.bad(rule, ra.where, f"{name}(using_torch=True) differs from the JAX kernels: {d} [{wit(v)}, forward={fwd}, reality={rl}]", wit(v))
                            break
                        n += 1
                    rep.ok(rule, n, site=ra.where)


def diff_kernels(it, ev, a, b, path="result"):
    a, b = M.resolve(it, a, ev), M.resolve(it, b, ev)
    if isinstance(a, (TupleV, ListV, SeqV)) and isinstance(b, (TupleV, ListV, SeqV)):
        sa, sb = M.seq_of(it, a), M.seq_of(it, b)
        n, m = int(ev(sa[0])), int(ev(sb[0]))
        if n != m:
            return f"{path} has {m} elements instead of {n}"
        for q in range(n):
            d = diff_kernels(it, ev, sa[1](q), sb[1](q), f"{path}[{q}]")
            if d:
                return d
        return None
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.shape) != len(b.shape):
            return f"{path} has another rank"
        p = (1, 2, 1, 0, 0, 0)[:len(a.shape)]
        x, y = value_at(a, p, ev), value_at(b, p, ev)
        if not close(x, y):
            return f"{path} holds another kernel"
        return None
    if type(a) is not type(b):
        raise Undef(f"{path}: {type(a).__name__} and {type(b).__name__}")
    return None


# ------------------------------------------------------------------ C10
def given_real_filters(it, c):
    """the package's own generator output (not the summary)"""
    r = M.invoke(it, "s2wav.filters", "filters_directional_vectorised" if c.fw != "jnp" else "filters_directional_jax",
                 dict(L=M.L, N=M.N, J_min=M.J_min, lam=M.lam, spin=c.spin) | (dict(using_torch=TRUE) if c.fw == "torch" else {}))
    return r.value


def round_trip(c):
    it = M.fresh(hook=False)
    mod = M.TR + c.module
    kw = dict(L=M.L, N=M.N, J_min=M.J_min, lam=M.lam, sampling=const(c.sampling), reality=const(c.reality), spin=c.spin)
    if c.backend != "c":
        kw["nside"] = c.nside
    ka, ks = dict(kw), dict(kw)
    if c.backend in ("base", "looped"):
        for k in (ka, ks):
            k["multiresolution"] = const(c.multires)
    else:
        if c.filters:
            f = given_real_filters(it, c)
            ka["filters"] = ks["filters"] = f
        if c.backend != "c" and c.precomps:
            ka["precomps"] = M.given_precomps(it, c, "analysis")
            ks["precomps"] = M.given_precomps(it, c, "synthesis")
    ka["f"] = M.data_f(it, c)
    e0, u0 = len(it.events), len(it.unknowns)
    ra = M.invoke(it, mod, "analysis" + c.sfx, ka)
    if ra.dead or ra.unknowns:
        return ra, None
    v = it.deref(ra.value)
    if not isinstance(v, (TupleV, ListV)) or len(v.items) != 2:
        return ra, None
    ks["f_wav"], ks["f_scal"] = v.items
    rs = M.invoke(it, mod, "synthesis" + c.sfx, ks)
    for r in (ra, rs):
        r.ctx, r.kind, r.pre_unknowns, r.pre_run = c, "round trip", [], None
    return ra, rs


def c10(rep, tier):
    rule = "reconstruction"
    cs = []
    for b in ALLB:
        for rl in (False, True):
            cs.append(Ctx(b, "mw", rl))
            if b in ("looped", "base"):
                cs.append(Ctx(b, "mw", rl, multires=False))
            if b in ("jax", "c"):
                cs.append(Ctx(b, "mw", rl, filters=False, precomps=False))
        cs.append(Ctx(b, "dh", False))
        if tier == "thorough":
            cs += [Ctx(b, s, rl) for s in ("mwss", "gl") for rl in (False, True)]
    for c in cs:
        try:
            ra, rs = round_trip(c)
        except (M.Missing, Undecided) as ex:
            rep.undec(rule, c.module, ex)
            continue
        if rs is None:
            if not ra.dead:
                rep.undec(rule, ra.where, (ra.unknowns or ["unexpected result"])[0])
            else:
                ra.ctx, ra.kind = c, "round trip"
                check_survives(rep, ra, ctx_vals(c, tier), rule)
            continue
        rep.use(rs)
        vs = ctx_vals(c, tier)
        if rs.dead:
            check_survives(rep, rs, vs, rule)
            continue
        if rs.unknowns:
            rep.undec(rule, rs.where, rs.unknowns[0])
            continue
        for r in (ra, rs):
            check_survives(rep, r, vs, rule)
        if tier == "thorough":
            check_crashes(rep, ra, vs[:6], rule)
            check_crashes(rep, rs, vs[:6], rule)
        k = "f" if c.reality else "c"
        sh = spec.s2.s2_shape(M.L, const(c.sampling), c.nside)
        fl = spec.forward_f(c)
        Y = tm.xf("sph_inv", spec.roles(M.L, c, spin=c.spin), spec.lamdata(spec.s2.flm_shape(M.L), fl))
        want = FArr(sh, lambda *i: tm.xel(Y, *i, kind=k))
        done = 0
        for v in vs:
            ev = Ev(v, Data(v, c.reality), rewrite=True)
            try:
                a = M.resolve(rs.it, rs.value, ev)
                if not isinstance(a, Arr):
                    raise Undef(f"result is {type(a).__name__}")
                d = dims(ev, a.shape)
                if d != dims(ev, want.shape):
                    rep.bad(rule, rs.where, f"reconstructed signal has shape {d}{shown_context(c)} [{wit(v)}]", wit(v))
                    break
                p = tuple(0 for _ in d)
                x, y = value_at(a, p, ev), value_at(want, p, ev)
                if not close(x, y, 1e-8):
                    rep.bad(rule, lost(rs, ra, ev, v), f"analysis followed by synthesis does not return the signal{shown_context(c)} [{wit(v)}{which(rs, ev, a, want, v)}]", wit(v))
                    break
                done += 1
                rep.val_used.add(wit(v))
            except Undef as ex:
                rep.undec(rule, rs.where, f"{ex}{shown_context(c)} [{wit(v)}]")
                break
            except Budget:
                rep.undec(rule, rs.where, f"evaluation budget [{wit(v)}]")
        rep.ok(rule, done, site=rs.where)


def lost(rs, ra, ev, v):
    return rs.where


def which(rs, ev, a, want, v):
    """name a harmonic coefficient whose weight is not one"""
    try:
        def data(arr):
            _, body = arr.inst()
            while body.op == "ite":
                body = body.args[1] if ev(body.args[0]) else body.args[2]
            return ev(body.args[0], {}) if body.op == "xel" else None
        x, y = data(a), data(want)
        if x is None or y is None:
            return ""
        Lv = v["L"]
        for l in range(abs(v["spin"]), Lv):
            for m in range(0 if x.real else -l, l + 1):
                g, w = x.lam(l, Lv - 1 + m), y.lam(l, Lv - 1 + m)
                if not close(g, w, 1e-8):
                    return f"; f_lm at l={l}, m={m} reaches the output with weight {fmt(complex(g / w))}"
    except Exception:
        pass
    return ""
