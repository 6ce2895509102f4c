"""Deciding obligations: normal-form identity first, then random interpretation
of the residual terms at a fixed set of valuations."""
from __future__ import annotations
import itertools, time, math
from . import terms as tm
from .terms import const, Term
from .values import *
from . import model as M
from .model import Data, jmax
from .eval import Ev, Undef, Budget, close, isbad, X, kernel_status, show_roles
from .arrays import Undecided


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.viol = []
        self.undecided = []
        self.notes = []
        self.obl = 0            # obligations decided to hold
        self.proved = 0         # ... of which by normal-form identity (all parameters)
        self.evals = 0          # ... of which by random interpretation
        self.functions = set()
        self.contexts = []
        self.sites = set()
        self.val_used = set()
        self.samples = []
        self.rule_counts = {}
        self.seen = set()

    def ok(self, rule, n=1, proved=False, site=None):
        self.obl += n
        self.rule_counts[rule] = self.rule_counts.get(rule, 0) + n
        if proved:
            self.proved += n
        else:
            self.evals += n
        if site:
            self.sites.add(site)

    def bad(self, rule, where, what, witness=None):
        key = (rule, where, what.split(" [")[0])
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append(dict(rule=rule, where=where, what=what, witness=witness))

    def undec(self, rule, where, why):
        self.undecided.append(dict(rule=rule, where=where, why=str(why)[:300]))

    def use(self, run):
        for m, n in run.it.funcs_seen:
            self.functions.add(f"{m}.{n}")
        if getattr(run, "ctx", None) is not None:
            self.contexts.append(f"{run.kind}: {run.ctx.show()}")


# ------------------------------------------------------------------ valuations
BASE_VALS = [
    # L, N, J_min, lam, spin
    (8, 3, 0, 2.0, 0), (8, 2, 1, 2.0, 1), (5, 3, 0, 2.0, -1), (7, 4, 1, 1.5, -2), (6, 1, 0, 3.0, 0),
    (9, 5, 1, 2.7, 2), (4, 4, 0, 2.0, 0), (3, 2, 0, 2.0, 1), (2, 1, 0, 2.0, 0), (12, 3, 2, 2.0, 1),
    (10, 6, 1, 3.0, 0), (6, 3, 1, 2.0, 3), (9, 6, 0, 2.0, 1), (8, 7, 0, 2.0, -1),
]
MORE_VALS = [
    (16, 5, 2, 2.0, 0), (11, 2, 0, 1.3, 1), (13, 7, 1, 4.0, -1), (5, 5, 1, 2.0, 0), (17, 4, 3, 2.0, 2), (14, 3, 0, 5.0, -3),
    (9, 9, 0, 2.0, 0), (7, 1, 2, 1.6, 1), (15, 6, 1, 3.5, 0), (10, 2, 3, 1.8, -2),
]


SP0_VALS = [(9, 4, 2, 2.0, 1, 1), (12, 5, 2, 2.3, -1, -3), (8, 3, 1, 3.0, 2, 2), (6, 3, 1, 2.0, -1, -1)]


def vals(tier="quick", spin_zero=False, sp0=False, extra=()):
    out = []
    k = 0
    for l, n, jm, la, sp, *s0 in list(BASE_VALS) + (list(MORE_VALS) if tier == "thorough" else []) + list(extra) + (SP0_VALS if sp0 else []):
        if jm >= jmax(l, la) or n > l:
            continue
        if spin_zero:
            sp = 0
        v = dict(L=l, N=n, J_min=jm, lam=la, spin=sp, spin0=0, nside=max(1, l // 2), J_max=jmax(l, la))
        if s0:
            v["spin0"] = s0[0]
        elif sp0 and jm:        # the lowest degrees stay in play where the scaling band-limit is one
            v["spin0"] = (1, -1, 2, 0)[k % 4]
            k += 1
        out.append(v)
    return out


def with_jmax(vs):
    out = []
    for v in vs:
        J = jmax(v["L"], v["lam"])
        for jm in sorted({v["J_min"], (v["J_min"] + J) // 2, J - 1, J}):
            if v["J_min"] <= jm <= J:
                w = dict(v)
                w["J_max"] = jm
                out.append(w)
    return out


def wit(v, keys=("L", "N", "J_min", "lam", "spin")):
    return ", ".join(f"{k}={v[k]}" for k in keys if k in v)


def harvest(roots, limit=96):
    """boundary values of the parameters that the extracted graph branches on"""
    out = {}
    seen = set()
    for t in roots:
        for x in tm.walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("ge0", "gt0", "eq0", "eqs") :
                if x.op == "eqs":
                    continue
                c, d = tm.as_lin(x.args[0])
                if len(d) == 1 and isinstance(c, (int, float)):
                    s, k = next(iter(d.items()))
                    if s.op == "sym" and isinstance(k, (int, float)) and k:
                        b = -c / k
                        out.setdefault(s.args[0], set()).add(b)
            elif x.op == "mod" and x.args[0].op == "sym" and tm.is_const(x.args[1]):
                out.setdefault(x.args[0].args[0], set()).add(float(tm.cval(x.args[1])))
    return out


def boundary_vals(roots, base, limit=80):
    """valuations on both sides of the parameter thresholds found by harvest"""
    h = harvest(roots)
    out = []
    for name, bs in h.items():
        for b in sorted(bs):
            for d in (-1, 0, 1):
                v = dict(base)
                x = b + d
                if name == "lam":
                    x = b + d * 0.01
                    if x <= 1.05 or x > 12:
                        continue
                else:
                    x = int(math.floor(x))
                v[name] = x
                if name == "L":
                    if not 2 <= x <= limit:
                        continue
                    v["N"] = min(2, x)
                    v["J_min"] = 0 if x < 16 else 2
                if name == "N":
                    if not 1 <= x <= 12:
                        continue
                    v["L"] = max(v["L"], x)
                if name == "spin" or name == "spin0":
                    if abs(x) > 8:
                        continue
                    v["L"] = max(v["L"], abs(x) + 2)
                if name == "J_min":
                    if not 0 <= x <= 5:
                        continue
                    v["L"] = max(v["L"], int(v["lam"] ** (x + 1)) + 1)
                if name == "nside":
                    if x < 1:
                        continue
                if v["J_min"] >= jmax(v["L"], v["lam"]) or v["J_min"] < 0:
                    continue
                v["J_max"] = jmax(v["L"], v["lam"]) if name != "J_max" else x
                if not v["J_min"] <= v["J_max"] <= jmax(v["L"], v["lam"]):
                    continue
                if v not in out:
                    out.append(v)
    return out[:14]


_POOL = []


def val_pool():
    """valid configurations from which condition coverage draws, cheapest first"""
    if not _POOL:
        import random
        rnd = random.Random(20240611)
        seen = set()
        lams = (1.2, 1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 2.0, 2.0, 2.0, 2.2, 2.5, 2.7, 3.0, 3.5, 4.0, 5.0, 6.0, 8.0)
        while len(_POOL) < 2600:
            l = rnd.choice((rnd.randint(2, 10), rnd.randint(2, 20), rnd.randint(2, 40)))
            la = rnd.choice(lams)
            J = jmax(l, la)
            if J < 1:
                continue
            m = min(l - 1, rnd.choice((0, 1, 2, 4, 8)))
            v = (l, rnd.randint(1, l), rnd.randint(0, J - 1), la, rnd.randint(-m, m), rnd.choice((0, 0, rnd.randint(-m, m))))
            if v in seen:
                continue
            seen.add(v)
            _POOL.append(dict(L=v[0], N=v[1], J_min=v[2], lam=v[3], spin=v[4], spin0=v[5], nside=max(1, l // 2), J_max=rnd.randint(v[2], J)))
        _POOL.sort(key=lambda v: v["L"])
    return _POOL


_HARD = {"xel", "xf", "sum", "prod", "last", "any", "all", "maxr", "minr", "unk", "lam", "el", "data"}


def cover_vals(roots, have, fix=None, cap=10, limit=24, conj=True):
    """configurations that take a branch of the graph no configuration in
    `have` takes (condition coverage over the comparisons in the graph)"""
    atoms, seen = [], set()
    for t in roots:
        for x in tm.walk(t):
            if x in seen:
                continue
            seen.add(x)
            if (x.op in ("ge0", "gt0", "eq0") or conj and x.op in ("and", "or") and len(x.args) <= 5) and not (tm.ops_in(x) & _HARD) and len(x.fv) <= 2 and all(v.op == "iv" for v in x.fv):
                atoms.append(x)
            elif x.op in ("min", "max") and len(x.args) == 2 and not (tm.ops_in(x) & _HARD) and len(x.fv) <= 2 and all(v.op == "iv" for v in x.fv):
                # either argument may be the smaller one
                for c in (tm.lt(x.args[0], x.args[1]), tm.lt(x.args[1], x.args[0])):
                    if not tm.is_const(c) and c not in seen:
                        seen.add(c)
                        atoms.append(c)
    out = []
    got = {x: set() for x in atoms}

    def outcomes(x, v, ev):
        if not x.fv:
            yield bool(ev(x))
            return
        vs = sorted(x.fv, key=lambda q: q.id)
        rng = [(0, 1, 2, 3, v["L"] // 2, v["L"] - 2, v["L"] - 1)] * len(vs)
        for p in itertools.product(*rng):
            yield bool(ev(x, dict(zip(vs, p))))

    rare = {}

    def feed(v, targets):
        ev = Ev(v, None)
        new = False
        for x in targets:
            try:
                for o in outcomes(x, v, ev):
                    if o not in got[x]:
                        got[x].add(o)
                        new = True
                        if have_done:
                            rare[x, o] = [v]
                        if len(got[x]) == 2:
                            break
            except Exception:
                got[x] |= {True, False}     # not decidable from the configuration alone
        return new
    have_done = False
    for v in have:
        feed(v, [x for x in atoms if len(got[x]) < 2])
    left = [x for x in atoms if len(got[x]) < 2]
    if not left:
        return out
    have_done = True
    for v in val_pool():
        if v["L"] > limit or len(out) >= cap or not left and not rare:
            break
        w = dict(v, **(fix or {}))
        if "J_max" in (fix or {}) and fix["J_max"] is None:
            w["J_max"] = jmax(w["L"], w["lam"])
        if left and feed(w, left):
            out.append(w)
            left = [x for x in left if len(got[x]) < 2]
            continue
        # a branch this rare is looked at in up to three configurations of growing size
        for (x, o), seen_ in list(rare.items()):
            if w["L"] < seen_[-1]["L"] + 3:
                continue
            try:
                if any(q == o for q in outcomes(x, w, Ev(w, None))):
                    seen_.append(w)
                    if w not in out:
                        out.append(w)
                    if len(seen_) == 3:
                        del rare[x, o]
            except Exception:
                del rare[x, o]
    return out


# ------------------------------------------------------------------ index points

def points(shape, n=4, seed=0):
    if any(s <= 0 for s in shape):
        return []
    out = [tuple(0 for _ in shape), tuple(s - 1 for s in shape)]
    out.append(tuple((s * 5 + 3 + i * 7) // 11 % s for i, s in enumerate(shape)))
    out.append(tuple((s * 7 + 1 + i * 3) // 9 % s for i, s in enumerate(shape)))
    r = []
    for p in out[:n]:
        if p not in r:
            r.append(p)
    return r


def allpoints(shape, cap=4000):
    n = 1
    for s in shape:
        n *= max(0, s)
    if n <= cap:
        return list(itertools.product(*[range(s) for s in shape]))
    from .eval import sample_points
    return list(sample_points(tuple(shape), cap))


def dims(ev, shape):
    r = []
    for s in shape:
        x = ev(s)
        if isinstance(x, float):
            if abs(x - round(x)) > 1e-9:
                raise Undef("non-integer dimension")
            x = int(round(x))
        r.append(int(x))
    return tuple(r)


def value_at(arr, idx, ev):
    """evaluate array element (Arr) at concrete index"""
    vs, body = arr.inst()
    return ev(body, dict(zip(vs, idx)))


class FArr:
    """array given by shape terms and an element function (reference side)"""

    def __init__(self, shape, f):
        self.shape = tuple(shape)
        self.vs = tuple(tm.iv("x", s) for s in shape)
        self.body = f(*self.vs)
        self._inst = (self.vs, self.body)

    def inst(self):
        return self._inst


# ------------------------------------------------------------------ alpha-normal form
_CIV = {}


def canon(t, depth=0):
    """replace bound variables by canonical ones (per nesting depth)"""
    memo = {}

    def civ(d, k):
        key = (d, k)
        if key not in _CIV:
            _CIV[key] = tm.iv(f"c{d}_{k}")
        return _CIV[key]

    def go(t, d):
        key = (t, d)
        r = memo.get(key)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op in ("sum", "prod", "maxr", "minr", "any", "all"):
            v = civ(d, 0)
            b = go(tm.subst(a[2], {a[0]: v}), d + 1)
            T = go(a[1], d)
            r = tm.mk_sum(v, T, b) if op == "sum" else tm.mk_prod(v, T, b) if op == "prod" else tm.mk_red(op, v, T, b)
        elif op == "last":
            v = civ(d, 0)
            m = {a[0]: v}
            r = tm.mk_last(v, go(a[1], d), go(tm.subst(a[2], m), d + 1), go(tm.subst(a[3], m), d + 1), go(a[4], d))
        elif op == "lam":
            vs = tuple(civ(d, i + 1) for i in range(len(a[0])))
            r = tm.lam(vs, go(tm.subst(a[1], dict(zip(a[0], vs))), d + 1))
        else:
            r = tm.rebuild(t, lambda x: go(x, d))
        memo[key] = r
        return r
    return go(t, depth)


def same_graph(a, b):
    if a is b:
        return True
    try:
        return canon(a) is canon(b)
    except RecursionError:
        return False


# ------------------------------------------------------------------ crash obligations
CRASH = ("bounds", "shape", "xshape", "unpack", "call_error")


def iter_ivs(ev, ivs, cap=1500):
    """concrete values of the loop variables of an event"""
    env = {}
    out = []

    def rec(i):
        if len(out) >= cap:
            return
        if i == len(ivs):
            out.append(dict(env))
            return
        t, T = ivs[i]
        n = ev(T, env)
        n = int(ev.ceil(n)) if not isinstance(n, int) else n
        rng = range(max(0, n))
        if n > 24:
            rng = list(range(8)) + list(range(n // 2 - 2, n // 2 + 2)) + list(range(n - 8, n))
        for k in rng:
            env[t] = k
            rec(i + 1)
        env.pop(t, None)
    rec(0)
    return out


def holds(ev, conds, env):
    for c in conds:
        if not ev(c, env):
            return False
    return True


def check_crashes(rep, run, vs, rule="no-crash", data_real=None):
    """shape, bounds and call obligations of every reached site, at the valuations"""
    evs = [e for e in run.events if e.kind in CRASH]
    if not evs:
        return
    real = run.ctx.reality if getattr(run, "ctx", None) else False
    for e in evs:
        if e.kind in ("unpack", "call_error"):
            # unconditional unless its path is infeasible
            for v in vs:
                ev = Ev(v, Data(v, real))
                try:
                    for env in iter_ivs(ev, e.ivs, 50):
                        if holds(ev, e.pc, env):
                            what = e.data.get("what") or f"cannot unpack {e.data.get('m')} values into {e.data.get('n')}"
                            rep.bad(rule, f"{e.site}:{e.func}", f"call fails: {what} [{wit(v)}]", wit(v))
                            break
                except (Undef, Budget):
                    pass
    for v in vs:
        ev = Ev(v, Data(v, real), budget=3_000_000)
        for e in evs:
            try:
                if e.kind == "bounds":
                    ix, dm = e.data["idx"], e.data["dim"]
                    if tm.is_const(ix) and tm.is_const(dm) and isinstance(tm.cval(ix), int) and -tm.cval(dm) <= tm.cval(ix) < tm.cval(dm):
                        continue
                    if e.data.get("fw") == "jnp":
                        continue
                    free = (ix.fv | dm.fv) - {t for t, _ in e.ivs}
                    if free:
                        continue
                    for env in iter_ivs(ev, e.ivs):
                        if not holds(ev, e.pc, env):
                            continue
                        x, d = ev(ix, env), ev(dm, env)
                        if not -d <= x < d:
                            rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['what']} {rndi(x)} out of range for length {rndi(d)} [{wit(v)}]", wit(v))
                            break
                    else:
                        rep.ok(rule, 1, site=e.site)
                elif e.kind == "shape":
                    a, b = e.data["a"], e.data["b"]
                    if a is b:
                        continue
                    if (a.fv | b.fv) - {t for t, _ in e.ivs}:
                        continue
                    for env in iter_ivs(ev, e.ivs):
                        if not holds(ev, e.pc, env):
                            continue
                        x, y = ev(a, env), ev(b, env)
                        if x != y and x != 1 and y != 1:
                            rep.bad(rule, f"{e.site}:{e.func}", f"array dimensions {rndi(x)} and {rndi(y)} do not match [{wit(v)}]", wit(v))
                            break
                    else:
                        rep.ok(rule, 1, site=e.site)
                elif e.kind == "xshape":
                    got, want = e.data["got"], e.data["want"]
                    if want is None or len(got) != len(want):
                        for env in iter_ivs(ev, e.ivs, 60):
                            if holds(ev, e.pc, env):
                                rep.bad(rule, f"{e.site}:{e.func}", f"data of rank {len(got)} passed to {e.data['path']} [{wit(v)}]", wit(v))
                                break
                        continue
                    if all(g is w for g, w in zip(got, want)):
                        rep.ok(rule, 1, proved=True, site=e.site)
                        continue
                    for env in iter_ivs(ev, e.ivs, 200):
                        if not holds(ev, e.pc, env):
                            continue
                        g = tuple(int(ev(x, env)) for x in got)
                        w = tuple(int(ev(x, env)) for x in want)
                        if g != w:
                            rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['path']} receives data of shape {g} where its band-limits need {w} [{wit(v)}]", wit(v))
                            break
                    else:
                        rep.ok(rule, 1, site=e.site)
            except Undef as ex:
                pass
            except Budget:
                rep.undec(rule, e.site, "evaluation budget")


def rndi(x):
    return int(x) if isinstance(x, float) and x.is_integer() else x


def check_survives(rep, run, vs, rule="accepts-valid"):
    """no raise / failing assert on a valid configuration"""
    conds = list(run.pc)
    if run.dead:
        rs = [e for e in run.events if e.kind in ("raise", "assert")]
        e = rs[-1] if rs else None
        rep.bad(rule, f"{e.site}:{e.func}" if e else run.where, f"{run.name} always raises in this context ({run.ctx.show() if getattr(run,'ctx',None) else ''})")
        return False
    good = True
    for c in conds:
        if c is tm.TRUE:
            continue
        done = 0
        for v in vs:
            ev = Ev(v, Data(v, getattr(run, "ctx", None) and run.ctx.reality))
            try:
                if not ev(c):
                    loc = run.where
                    for e in run.events:
                        if e.kind in ("raise", "assert"):
                            try:
                                if e.kind == "raise" and holds_ex(ev, e) or e.kind == "assert" and fails_ex(ev, e):
                                    loc = f"{e.site}:{e.func}"
                                    break
                            except (Undef, Budget):
                                pass
                    rep.bad(rule, loc, f"{run.name} raises on a valid configuration ({run.ctx.show() if getattr(run,'ctx',None) else ''}) [{wit(v)}]", wit(v))
                    good = False
                    break
                done += 1
            except (Undef, Budget) as ex:
                rep.undec(rule, run.where, ex)
                break
        else:
            rep.ok(rule, done, site=run.where)
    for e in run.events:
        # assertions, and exceptions raised inside loops, are not part of the final path condition
        if not (e.kind == "assert" or e.kind == "raise" and e.ivs) or e.data.get("caught"):
            continue
        for v in vs:
            ev = Ev(v, Data(v, getattr(run, "ctx", None) and run.ctx.reality))
            try:
                if (fails_ex if e.kind == "assert" else holds_ex)(ev, e):
                    rep.bad(rule, f"{e.site}:{e.func}", f"{run.name} {'fails an assertion' if e.kind == 'assert' else 'raises ' + str(e.data.get('exc'))} on a valid configuration ({run.ctx.show() if getattr(run,'ctx',None) else ''}) [{wit(v)}]", wit(v))
                    good = False
                    break
                rep.ok(rule, 1, site=e.site)
            except (Undef, Budget) as ex:
                rep.undec(rule, f"{e.site}:{e.func}", ex)
                break
    return good


def holds_ex(ev, e):
    return any(holds(ev, e.pc, env) for env in iter_ivs(ev, e.ivs, 200))


def fails_ex(ev, e):
    return any(holds(ev, e.pc, env) and not ev(e.data["cond"], env) for env in iter_ivs(ev, e.ivs, 200))


# ------------------------------------------------------------------ comparing arrays

def compare_arrays(rep, rule, where, got, want, v, ev, label, pts=None, shape_only=False, tol=1e-9, note=""):
    """got: Arr from the analysed code; want: FArr; returns True if equal at v"""
    sg, sw = dims(ev, got.shape), dims(ev, want.shape)
    if sg != sw:
        rep.bad(rule, where, f"{label} has shape {sg} instead of {sw}{note} [{wit(v)}]", wit(v))
        return False
    if shape_only:
        return True
    ps = pts(sw) if pts else points(sw)
    for p in ps:
        a = value_at(got, p, ev)
        b = value_at(want, p, ev)
        if not close(a, b, tol):
            rep.bad(rule, where, f"{label} differs from the reference{note} [{wit(v)}; index {p}: {fmt(a)} instead of {fmt(b)}]", wit(v))
            return False
    return True


def fmt(x):
    if isinstance(x, complex):
        return f"{x.real:.6g}{x.imag:+.6g}j"
    if isinstance(x, float):
        return f"{x:.6g}"
    return str(x)
