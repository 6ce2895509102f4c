"""Rules about state, gradients, precision and tracing: C12-C15."""
from __future__ import annotations
from . import terms as tm
from .terms import const, add, sub, ZERO, ONE, NONE, TRUE, FALSE
from .values import *
from . import model as M
from . import s2model as s2
from .model import Ctx, Data, jmax, L, N, J_min, lam, spin, spin0, jsym, J_max
from .decide import *
from .eval import Ev, Undef, Budget
from .rules_transform import get_run, decidable, ctx_vals, shown_context, parts, ALLB
from .rules_filters import FM, SM

CM = "s2wav.transforms.construct"
DATA = ("f", "flm", "f_wav", "f_scal")


# ------------------------------------------------------------------ runs of every public function
def transform_contexts(state=False):
    """(context, kind) pairs that reach every branch of the transforms"""
    out = []
    for kind in ("analysis", "synthesis", "flm_to_analysis"):
        for b in ALLB:
            if kind == "flm_to_analysis" and b in ("looped", "base"):
                continue
            cs = [Ctx(b, "mw", False), Ctx(b, "mw", True), Ctx(b, "dh", False), Ctx(b, "gl", True), Ctx(b, "mwss", False)]
            if b != "c":
                cs.append(Ctx(b, "healpix", False))
            if b in ("looped", "base"):
                cs += [Ctx(b, "mw", False, multires=False), Ctx(b, "mw", True, multires=False), Ctx(b, "mw", False, sp0=True)]
                if kind == "analysis" and b == "base":
                    cs += [Ctx(b, "mw", False, scattering=True), Ctx(b, "mw", True, multires=False, scattering=True)]
            if b in ("jax", "c"):
                cs += [Ctx(b, "mw", rl, filters=False, precomps=False) for rl in (False, True)]
            if kind == "flm_to_analysis":
                cs += [Ctx(b, "mw", rl, jmax=True) for rl in (False, True)]
            if state and b == "c":
                for c in cs:
                    c.fw = "np"
            out += [(c, kind) for c in cs]
    return out


HELP = {
    SM: ("f_scal", "n_wav_scales", "L0_j", "LN_j", "f_wav_j", "construct_f", "construct_f_jax", "construct_f_torch", "construct_flm", "construct_flm_jax",
         "scal_bandlimit", "flmn_wav_j", "wav_j_bandlimit", "construct_flmn", "construct_flmn_jax", "construct_flmn_torch", "j_max", "wavelet_shape_check",
         "binomial_coefficient", "binomial_coefficient_jax"),
    FM: ("filters_axisym", "filters_directional", "filters_axisym_vectorised", "filters_directional_vectorised", "filters_axisym_jax", "filters_directional_jax",
         "tiling_integrand", "part_scaling_fn", "k_lam", "k_lam_jax", "tiling_direction", "tiling_direction_jax"),
    CM: ("generate_full_precomputes", "generate_wigner_precomputes"),
}


def helper_args(it, f, opt):
    """symbolic arguments by parameter name; None when a required one is not known"""
    S = dict(M.SYMS, sampling=const(opt.get("sampling", "mw")), reality=const(opt.get("reality", False)), multiresolution=const(opt.get("multires", True)),
             using_torch=const(opt.get("torch", False)), forward=const(opt.get("forward", False)), nospherical=const(opt.get("nospherical", False)),
             scattering=const(opt.get("scattering", False)), nside=M.nside if opt.get("sampling") == "healpix" else NONE,
             J_max=J_max if opt.get("jmax") else NONE, n=tm.sym("N", "i", 1), k=tm.sym("J_min", "i", 0), t=tm.sym("t", "f"), a=tm.sym("t", "f"), b=ONE)
    c = Ctx("base", opt.get("sampling", "mw"), False, multires=opt.get("multires", True))
    kw = {}
    for p in it.param_names(f):
        if p == "f_w":
            kw[p] = M.data_fwav(it, c)
        elif p == "f_s":
            kw[p] = M.data_fscal(it, c)
        elif p in S:
            kw[p] = S[p]
        elif p == "el":
            kw[p] = Arr((L,), lambda i: i[0], "int", "jnp")
        elif p == "quad_iters":
            kw[p] = const(40)
        elif p not in f.defaults:
            return None
    if f.name in ("part_scaling_fn", "_part_scaling_fn_jax"):
        kw["n"] = const(40)
    return kw


def helper_runs(rep, opts=({}, )):
    for mod, names in HELP.items():
        for n in names:
            for o in opts:
                it = M.fresh(hook=False)
                try:
                    f = M.get_func(it, mod, n)
                    if not isinstance(f, FuncV):
                        raise M.Missing(f"{mod}.{n} is not a plain function")
                except M.Missing as ex:
                    rep.undec("anchor", f"{mod}.{n}", ex)
                    break
                ps = set(it.param_names(f))
                if any(REL.get(k, k) not in ps for k in o):
                    continue
                kw = helper_args(it, f, o)
                if kw is None:
                    rep.undec("anchor", f"{mod}.{n}", "unknown required parameter")
                    break
                try:
                    r = M.invoke(it, mod, n, kw)
                except Undecided as ex:
                    rep.undec("anchor", f"{mod}.{n}", ex)
                    continue
                r.opt, r.kwargs = o, kw
                rep.use(r)
                yield r


REL = {"multires": "multiresolution", "torch": "using_torch", "jmax": "J_max"}
OPTS = ({}, {"multires": False}, {"sampling": "dh"}, {"sampling": "healpix"}, {"torch": True}, {"forward": True}, {"reality": True}, {"jmax": True}, {"nospherical": True}, {"scattering": True})


def hvals(tier):
    out = []
    for v in vals(tier):
        J = jmax(v["L"], v["lam"])
        for q, j in enumerate(sorted({v["J_min"], J})):
            out.append(dict(v, j=j, t=0.7 if q else 0.3, J_max=(J + v["J_min"]) // 2))
    return out


def feasible(e, vs, real=False):
    """a valuation at which the construct of an event is reached, or None"""
    for v in vs:
        ev = Ev(v, Data(v, real))
        try:
            for env in iter_ivs(ev, e.ivs, 200):
                if holds(ev, e.pc, env):
                    return v
        except (Undef, Budget):
            continue
    return None


# ------------------------------------------------------------------ C12
OWN = {"param": "modifies its argument {0} in place", "cache": "modifies a value held by the cache {0}"}


def aliases(it, v, pc=(), depth=0):
    """(origin, conditions) of module-level or cached mutable objects reachable from a returned value"""
    if depth > 6:
        return
    if isinstance(v, GatedV):
        yield from aliases(it, v.a, tuple(pc) + (v.c,), depth + 1)
        yield from aliases(it, v.b, tuple(pc) + (tm.bnot(v.c),), depth + 1)
        return
    if isinstance(v, (TupleV,)):
        for x in v.items:
            yield from aliases(it, x, pc, depth + 1)
        return
    if isinstance(v, (Ref, View, ElemView, AttrView)):
        d = it.deref(v)
        if not isinstance(d, (Arr, ListV, SeqV, DictV, ObjV)):
            return
        if isinstance(d, Arr) and d.fw == "jnp":
            return
        root = it.root(v)
        m = it.meta.get(root, {})
        for o in (m.get("origin", ("?",)),) + tuple(m.get("origins", ())):
            if o[0] in ("cache", "memo", "global", "default"):
                yield o, pc
        al = m.get("alias")
        if al is not None:
            o = it.meta.get(al, {}).get("origin", ("?",))
            if o[0] in ("cache", "memo", "global", "default"):
                yield o, pc
        if isinstance(d, ListV):
            for x in d.items:
                yield from aliases(it, x, pc, depth + 1)
        elif isinstance(d, SeqV):
            x = d.inst()[1]
            yield from aliases(it, x, pc, depth + 1)


def state_events(rep, r, vs, real, rule, label):
    n = 0
    for e in r.events:
        o = e.data.get("origin", ("?",))
        if e.kind == "mutate" and o[0] in OWN:
            v = feasible(e, vs, real)
            if v is not None:
                rep.bad(rule + ":inputs-unmodified", f"{e.site}:{e.func}", f"{r.name} {OWN[o[0]].format(o[1])}{label} [{wit(v)}]", wit(v))
            n += 1
        elif e.kind == "global_config":
            v = feasible(e, vs, real)
            if v is not None:
                rep.bad(rule + ":no-hidden-state", f"{e.site}:{e.func}", f"{r.name} changes the global configuration through {e.data['what']}{label} [{wit(v)}]", wit(v))
        elif e.kind == "trace_leak":
            v = feasible(e, vs, real)
            if v is not None:
                rep.bad(rule + ":no-hidden-state", f"{e.site}:{e.func}", f"{r.name} stores an array computed while tracing in the cache {e.data['name']}, which later calls read{label} [{wit(v)}]", wit(v))
    for o, pc in (aliases(r.it, r.value) if r.value is not None else ()):
        ok = None
        for v in vs:
            try:
                ev = Ev(v, Data(v, real))
                if all(ev(c) for c in list(pc) + list(r.pc)):
                    ok = v
                    break
            except (Undef, Budget):
                continue
        if ok is not None:
            what = {"cache": "the cached object of", "memo": "the object stored in", "global": "the module-level object", "default": "the"}[o[0]]
            rep.bad(rule + ":fresh-results", r.where, f"{r.name} returns {what} {o[1]} itself, so modifying the result changes later results{label} [{wit(ok)}]", wit(ok))
    f = r.func
    if isinstance(f, FuncV) and getattr(f, "donate", False):
        rep.bad(rule + ":inputs-unmodified", r.where, f"{r.name} donates argument buffers, which are invalid after the call")
    bad = nondet_in(r)
    if bad:
        rep.bad(rule + ":no-hidden-state", r.where, f"the result of {r.name} depends on {bad}, which changes from call to call{label}")
    sites = {e.site for e in r.events if e.kind == "mutate"}
    rep.ok(rule, 1 + len(sites), proved=True, site=r.where)
    for s in sites:
        rep.sites.add(s)


def result_terms(r, with_data=True):
    """every term a result denotes (elements, shapes, transform data)"""
    out = []
    seen = set()

    def val(v, d=0):
        v = r.it.deref(v)
        if isinstance(v, Arr):
            out.append(v.inst()[1])
        elif isinstance(v, (TupleV, ListV)):
            for x in v.items:
                val(x, d + 1)
        elif isinstance(v, SeqV):
            val(v.inst()[1], d + 1)
        elif isinstance(v, GatedV):
            val(v.a, d + 1)
            val(v.b, d + 1)
        elif isinstance(v, Term):
            out.append(v)
        elif isinstance(v, ObjV):
            for x in v.attrs.values():
                val(x, d + 1)
    if r.value is not None:
        val(r.value)
    return out


def all_nodes(ts):
    seen = set()
    for t in ts:
        for x in tm.walk(t):
            if x not in seen:
                seen.add(x)
                yield x


def nondet_in(r):
    for x in all_nodes(result_terms(r)):
        if x.op == "elem" and isinstance(x.args[0], str) and x.args[0].startswith("nondet:"):
            return x.args[0][7:]
    return None


# --- adequacy of memo keys
def signature(it, v, ev, env):
    """comparable content of a stored value at a valuation"""
    v = M.resolve(it, v, ev, env)
    if isinstance(v, Term):
        return ("t", rnd(ev(v, env)))
    if isinstance(v, Arr):
        sh = tuple(int(ev(s, env)) for s in v.shape)
        vs, body = v.inst()
        els = []
        for p in points(sh, 4):
            e2 = dict(env or {})
            e2.update(zip(vs, p))
            els.append(rnd(ev(body, e2)))
        return ("a", sh, v.fw, tuple(els))
    if isinstance(v, (TupleV, ListV)):
        return ("l", tuple(signature(it, x, ev, env) for x in v.items))
    if isinstance(v, SeqV):
        n = int(ev(v.n, env))
        return ("l", tuple(signature(it, v.at(const(q)), ev, env) for q in range(n)))
    if isinstance(v, (ExtV, FuncV)):
        return ("f", getattr(v, "path", getattr(v, "name", "?")))
    raise Undef(f"stored {type(v).__name__}")


def rnd(x):
    if isinstance(x, complex):
        return (rnd(x.real), rnd(x.imag)) if abs(x.imag) > 1e-12 else rnd(x.real)
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return float(f"{float(x):.9g}") if x == x and abs(x) != float("inf") else str(x)
    return repr(x)


def key_value(it, idx, ev, env):
    out = []
    for i in idx:
        i = it.deref(i)
        if isinstance(i, TupleV):
            out.append(key_value(it, i.items, ev, env))
        elif isinstance(i, Term):
            x = ev(i, env)
            out.append(rnd(x))
        else:
            raise Undef(f"key component {type(i).__name__}")
    return tuple(out)


def variations(vs):
    """valuations and their one-parameter variations"""
    out = []
    for v in vs:
        out.append(v)
        for k, alt in (("L", (v["L"] + 1, v["L"] + 3)), ("N", (1, 2, 3, 4)), ("J_min", (0, 1, 2)), ("lam", (2.0, 3.0, 1.7)), ("spin", (0, 1, -1, 2)), ("spin0", (0, 1)), ("nside", (v["nside"] + 1,)), ("J_max", None)):
            J = jmax(v["L"], v["lam"])
            for x in alt if alt is not None else range(v["J_min"], J + 1):
                w = dict(v)
                w[k] = x
                if k != "J_max":
                    w["J_max"] = jmax(w["L"], w["lam"])
                if w["N"] > w["L"] or w["J_min"] >= jmax(w["L"], w["lam"]) or w in out:
                    continue
                out.append(w)
    return out


class Memo:
    """entries of every module-level cache, over all analysed calls"""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule
        self.tab = {}
        self.failed = set()
        self.count = 0

    def feed(self, r, vs, real, label):
        st = [e for e in r.events if e.kind == "global_dict_store"]
        if not st:
            return
        for e in st:
            name = e.data["name"]
            if name in self.failed:
                continue
            c = e.data["content"]
            for x in all_nodes(result_terms(_Val(r.it, c))):
                if x.op == "elem" and x.args[0] in DATA:
                    v = feasible(e, vs, real)
                    if v is not None:
                        self.bad(name, e, f"{r.name} stores a value that depends on the data {x.args[0]} in the module-level cache {name}, under a key that does not{label}", v)
                    break
            sp = vs[:3] if not r.name.startswith("filters") else vs[:2]
            for v in variations(sp):
                w = dict(v)
                ev = Ev(w, Data(w, real))
                try:
                    for env in iter_ivs(ev, e.ivs, 60):
                        if not holds(ev, e.pc, env):
                            continue
                        k = key_value(r.it, e.data["key"], ev, env)
                        s = signature(r.it, c, ev, env)
                        self.count += 1
                        t = self.tab.setdefault(name, {})
                        if k in t and t[k][0] != s:
                            o = t[k][1]
                            df = ", ".join(f"{q}: {o.get(q)} and {w.get(q)}" for q in w if o.get(q) != w.get(q)) or "different arguments"
                            self.bad(name, e, f"two calls of {r.name} that need different values ({df}) use the same entry {k} of the module-level cache {name}{label}", w)
                            break
                        t.setdefault(k, (s, dict(w, call=r.name + label)))
                    if name in self.failed:
                        break
                except (Undef, Budget) as ex:
                    self.rep.undec(self.rule, e.site, ex)
                    break

    def bad(self, name, e, msg, v):
        self.failed.add(name)
        self.rep.bad(self.rule + ":cache-key", f"{e.site}:{e.func}", f"{msg} [{wit(v)}]", wit(v))


class _Val:
    def __init__(self, it, value):
        self.it, self.value = it, value


# --- second call in the state the first call left behind
PRIME = "'"


def renamer():
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == "sym" and t.args[0] in M.SYMS:
                i = tm.SYMINFO[t.args[0]]
                r = tm.sym(t.args[0] + PRIME, i["kind"], i["lb"])
            elif t.op == "elem" and t.args[0] in DATA:
                r = tm.elem("old_" + t.args[0], *[go(x) for x in t.args[1:]], kind=t.kind)
            else:
                r = tm.rebuild(t, go)
            memo[t] = r
        return r
    return go


def rename_val(v, go):
    if isinstance(v, Term):
        return go(v)
    if isinstance(v, Arr):
        vs, body = v.inst()
        b2 = go(body)
        return Arr(tuple(go(s) for s in v.shape), lambda idx: tm.subst(b2, dict(zip(vs, idx))), v.dtype, v.fw)
    if isinstance(v, TupleV):
        return TupleV([rename_val(x, go) for x in v.items], v.names, v.cls)
    if isinstance(v, ListV):
        return ListV([rename_val(x, go) for x in v.items])
    if isinstance(v, SeqV):
        k, val = v.inst()
        val2 = rename_val(val, go)
        return SeqV(go(v.n), lambda i: subst_val(val2, {k: i}), v.tup)
    if isinstance(v, GatedV):
        return GatedV(go(v.c), rename_val(v.a, go), rename_val(v.b, go))
    if isinstance(v, DictV):
        return DictV({k: rename_val(x, go) for k, x in v.items.items()}, v.sym, v.glob,
                     [([rename_val(i, go) for i in idx], rename_val(x, go), go(c)) for idx, x, c in v.symitems])
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: rename_val(x, go) for k, x in v.attrs.items()})
    return v


def rename_state(it):
    """the persistent state after a call, as left by an earlier call with other arguments"""
    go = renamer()
    seen = set()

    def cells(v):
        if isinstance(v, Ref):
            if v.cid in seen:
                return
            seen.add(v.cid)
            d = it.st.heap.get(v.cid)
            inner(d)
        elif isinstance(v, (View, AttrView)):
            cells(v.base)
        else:
            inner(v)

    def inner(d):
        if isinstance(d, (TupleV, ListV)):
            for x in d.items:
                cells(x)
        elif isinstance(d, DictV):
            for x in d.items.values():
                cells(x)
            for _, x, _c in d.symitems:
                cells(x)
        elif isinstance(d, ObjV):
            for x in d.attrs.values():
                cells(x)
        elif isinstance(d, GatedV):
            cells(d.a)
            cells(d.b)
        elif isinstance(d, FuncV):
            for x in d.defaults.values():
                cells(x)
            sc = d.scope
            while sc is not None:
                for x in it.st.scopes.get(sc, {}).values():
                    if isinstance(x, Ref):
                        cells(x)
                sc = it.scope_parent.get(sc)
    for m in it.prog.modules.values():
        for k, v in list((m.env or {}).items()) if getattr(m, "env", None) else ():
            if isinstance(v, (Term, Arr, TupleV, GatedV)):
                m.env[k] = rename_val(v, go)
            cells(v)
    for c in seen:
        if c in it.st.heap:
            it.st.heap[c] = rename_val(it.st.heap[c], go)


class OldData(Data):
    def __getattr__(self, n):
        if n.startswith("elem_old_"):
            from . import eval as evm
            return lambda ev, real, *i: evm.hshr("old", n, *i) if self.real or real else evm.hsh("old", n, *i)
        raise AttributeError(n)


def history_vals(vs):
    out = []
    for v in vs[:3]:
        out.append((v, v))
        for w in variations([v])[1:]:
            out.append((v, w))
    return out


def second_call(rep, rule, first, again, fresh, kind, vs, real, label):
    """result of a call after another one == result of the same call in a fresh process"""
    n = 0
    for v, w in history_vals(vs):
        val = dict(v)
        val.update({k + PRIME: x for k, x in w.items()})
        ev = Ev(val, OldData(val, real))
        try:
            a = signature(again.it, again.value, ev, {})
            b = signature(fresh.it, fresh.value, ev, {})
            alive = all(ev(c) for c in again.pc)
        except Undef as ex:
            rep.undec(rule, fresh.where, f"second call: {ex}")
            return
        except Budget:
            continue
        n += 1
        if a != b or not alive:
            df = ", ".join(f"{q}={w[q]}" for q in w if w[q] != v[q]) or "the same arguments"
            site = next((f"{e.site}:{e.func}" for e in first.events if e.kind in ("global_store", "global_dict_store") or e.kind == "mutate" and e.data["origin"][0] in ("global", "default", "cache", "memo")), fresh.where)
            rep.bad(rule + ":no-hidden-state", site, f"{fresh.name} {'returns something else' if alive else 'fails'} after an earlier call with {df}{label} [{wit(v)}]", wit(v))
            return
    rep.ok(rule + ":history", n, site=fresh.where)


def has_state(r):
    for e in r.events:
        if e.kind == "global_store" or e.kind == "mutate" and e.data["origin"][0] in ("global", "default", "memo"):
            return True
    return False


def c12(rep, tier):
    rule = "pure"
    memo = Memo(rep, rule)
    todo = []
    for c, kind in transform_contexts(state=True):
        r = get_run(rep, c, kind)
        if r is None:
            continue
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        vs = ctx_vals(c, tier, small=True)
        state_events(rep, r, vs, c.reality, rule, shown_context(c))
        memo.feed(r, vs, c.reality, shown_context(c))
        if r.pre_run is not None:
            state_events(rep, r.pre_run, vs, c.reality, rule, shown_context(c))
            memo.feed(r.pre_run, vs, c.reality, shown_context(c))
        if has_state(r):
            todo.append((r, c, kind, vs))
        for v in vs:
            rep.val_used.add(wit(v))
    hv = hvals(tier)
    for r in helper_runs(rep, OPTS):
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        lab = f" ({', '.join(f'{k}={v}' for k, v in r.opt.items())})" if r.opt else ""
        state_events(rep, r, hv, False, rule, lab)
        memo.feed(r, hv, False, lab)
        if has_state(r):
            history_helper(rep, rule, r, hv, lab)
    rep.ok(rule + ":cache-key", memo.count)
    for r, c, kind, vs in todo:
        history_transform(rep, rule, r, c, kind, vs)


def history_helper(rep, rule, r, vs, lab):
    it = r.it
    if r.dead:
        return
    rename_state(it)
    kw = helper_args(it, r.func, r.opt)
    again = M.invoke(it, r.mod, r.name, kw)
    it2 = M.fresh(hook=False)
    fr = M.invoke(it2, r.mod, r.name, helper_args(it2, M.get_func(it2, r.mod, r.name), r.opt))
    if again.unknowns or fr.unknowns or again.dead or fr.dead:
        rep.undec(rule, r.where, (again.unknowns + fr.unknowns + ["second call does not return"])[0])
        return
    second_call(rep, rule, r, again, fr, None, vs, False, lab)


def history_transform(rep, rule, r, c, kind, vs):
    old = M.RUNS
    try:
        M.RUNS = {}
        first = M.run(c, kind)
        if first.dead:
            return
        rename_state(first.it)
        again = M.run_in(first.it, c, kind)
        M.RUNS = {}
        fr = M.run(c, kind)
    finally:
        M.RUNS = old
    if again.unknowns or fr.unknowns or again.dead or fr.dead:
        rep.undec(rule, r.where, (again.unknowns + fr.unknowns + ["second call does not return"])[0])
        return
    second_call(rep, rule, first, again, fr, kind, vs, c.reality, shown_context(c))


# ------------------------------------------------------------------ feasible occurrences of a node
def occurrences(root, bad):
    """(node, conditions) of nodes with bad(node) reachable from root, with the branch conditions on the way"""
    has = {}

    def contains(t):
        r = has.get(t)
        if r is None:
            has[t] = False
            r = bad(t) or any(contains(k) for k in kids(t))
            has[t] = r
        return r
    out = []
    seen = set()

    def go(t, conds):
        if len(out) > 6 or (t, conds) in seen or not contains(t):
            return
        seen.add((t, conds))
        if bad(t):
            out.append((t, conds))
            return
        if t.op == "ite":
            c, a, b = t.args
            go(c, conds)
            go(a, conds | {c})
            go(b, conds | {tm.bnot(c)})
            return
        for k in kids(t):
            go(k, conds)
    go(root, frozenset())
    return out


def kids(t):
    return tm.subterms(t)


def feasible_conds(conds, vs, real):
    """a valuation under which the (index-free) conditions hold together"""
    cs = [c for c in conds if not c.fv]
    for v in vs:
        try:
            ev = Ev(v, Data(v, real))
            if all(ev(c) for c in cs):
                return v
        except (Undef, Budget):
            continue
    return None


BIG = ((33, 3, 1, 2.0, 0), (65, 2, 2, 2.0, 1), (129, 4, 3, 2.0, 0), (257, 1, 4, 2.0, 0), (40, 13, 0, 2.0, 0), (48, 5, 2, 1.4, 3), (2048, 2, 0, 2.0, 0))


def wide_vals(c, tier, roots=()):
    vs = ctx_vals(c, tier)
    for l, n, jm, la, sp in BIG:
        vs.append(dict(L=l, N=n, J_min=jm, lam=la, spin=0 if c.spin_zero else sp, spin0=0, nside=max(1, l // 2), J_max=jmax(l, la)))
    vs += boundary_vals(roots, dict(L=8, N=2, J_min=0, lam=2.0, spin=0, spin0=0, nside=4, J_max=3), limit=4096) if roots else []
    return vs


# ------------------------------------------------------------------ C13
NONDIFF = {"host": "is converted to a NumPy array or Python number", "detach": "is detached from the gradient graph", "rint": "is rounded", "floor": "is rounded down",
           "ceil": "is rounded up", "trunc": "is truncated to an integer", "sign": "is reduced to its sign", "round": "is rounded"}


def data_below():
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            memo[t] = False
            r = t.op == "elem" and t.args[0] in DATA or any(go(k) for k in kids(t))
            memo[t] = r
        return r
    return go


def c13(rep, tier):
    rule = "differentiable"
    for c, kind in transform_contexts():
        if c.backend in ("looped", "base"):
            continue
        r = get_run(rep, c, kind)
        if r is None or r.dead:
            continue
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        ts = result_terms(r)
        db = data_below()
        n = 0

        def bad(t):
            return t.op == "fn" and t.args[0] in NONDIFF and any(db(k) for k in kids(t))
        vs = None
        for t in ts:
            n += 1
            for x, conds in occurrences(t, bad):
                vs = vs or wide_vals(c, tier, ts)
                v = feasible_conds(conds, vs, c.reality)
                if v is None:
                    rep.undec(rule, r.where, f"{NONDIFF[x.args[0]]} on a path not reached at any valuation")
                    continue
                d = sorted({y.args[0] for y in tm.walk(x) if y.op == "elem" and y.args[0] in DATA})
                rep.bad(rule, grad_site(r, x), f"the dependence of {r.name} on {', '.join(d)} {NONDIFF[x.args[0]]}, so gradients do not flow{shown_context(c)} [{wit(v)}]", wit(v))
        for e in r.events:
            if e.kind == "jit_host":
                v = feasible(e, ctx_vals(c, tier, small=True), c.reality)
                if v is not None:
                    rep.bad(rule, f"{e.site}:{e.func}", f"{e.data['what']} is applied to traced data{shown_context(c)} [{wit(v)}]", wit(v))
        rep.ok(rule, n, proved=True, site=r.where)


def grad_site(r, x):
    s = getattr(tm, "FSITE", {}).get(x)
    return f"{s}:{r.name}" if s else r.where


# ------------------------------------------------------------------ C14
SINGLE = ("float32", "complex64")


def low_dtypes(it, v, pc=(), depth=0):
    """(dtype, conditions) of single-precision or real/integer arrays in a returned value"""
    v = it.deref(v) if not isinstance(v, GatedV) else v
    if isinstance(v, GatedV):
        yield from low_dtypes(it, v.a, tuple(pc) + (v.c,), depth + 1)
        yield from low_dtypes(it, v.b, tuple(pc) + (tm.bnot(v.c),), depth + 1)
    elif isinstance(v, Arr):
        yield v.dtype, pc
    elif isinstance(v, (TupleV, ListV)):
        for x in v.items:
            yield from low_dtypes(it, x, pc, depth + 1)
    elif isinstance(v, SeqV):
        yield from low_dtypes(it, v.inst()[1], pc, depth + 1)


def precision(rep, rule, r, c, vs, label, real):
    ts = result_terms(r)
    n = 0
    for t in ts:
        n += 1
        for x, conds in occurrences(t, lambda t: t.op == "fn" and t.args[0] == "lossy"):
            v = feasible_conds(conds, vs(), real)
            if v is None:
                rep.undec(rule, r.where, "single-precision value on a path not reached at any valuation")
                continue
            rep.bad(rule, grad_site(r, x), f"a value of {r.name} passes through single precision{label} [{wit(v)}]", wit(v))
    for dt, pc in (low_dtypes(r.it, r.value) if r.value is not None else ()):
        n += 1
        if dt in SINGLE:
            v = feasible_conds(pc, vs(), real)
            if v is not None:
                rep.bad(rule, r.where, f"{r.name} returns {dt}{label} [{wit(v)}]", wit(v))
    for e in r.events:
        if e.kind in ("xf", "kernel_use") and e.data.get("dtype") in SINGLE:
            v = feasible(e, vs(), real)
            if v is not None:
                rep.bad(rule, f"{e.site}:{e.func}", f"{'kernel' if e.kind == 'kernel_use' else 'data'} of {e.data['path']} is {e.data['dtype']}{label} [{wit(v)}]", wit(v))
            n += 1
        elif e.kind == "real_store":
            v = imag_lost(e, vs(), real)
            if v is not None:
                rep.bad(rule, f"{e.site}:{e.func}", f"complex values are stored in a {e.data['to']} array in {e.func}{label} [{wit(v)}]", wit(v))
            n += 1
    rep.ok(rule, n, proved=True, site=r.where)


def imag_lost(e, vs, real):
    """a valuation at which a complex value with non-zero imaginary part is stored in a real array"""
    a = e.data["value"]
    for v in vs[:10]:
        ev = Ev(v, Data(v, real))
        try:
            for env in iter_ivs(ev, e.ivs, 40):
                if not holds(ev, e.pc, env):
                    continue
                if isinstance(a, Arr):
                    sh = tuple(int(ev(s, env)) for s in a.shape)
                    vs_, body = a.inst()
                    for p in points(sh, 4):
                        x = ev(body, dict(env, **{}) | dict(zip(vs_, p)))
                        if isinstance(x, complex) and abs(x.imag) > 1e-9 * max(1, abs(x)):
                            return v
                else:
                    x = ev(a, env)
                    if isinstance(x, complex) and abs(x.imag) > 1e-9 * max(1, abs(x)):
                        return v
        except (Undef, Budget, TypeError):
            continue
    return None


def c14(rep, tier):
    rule = "double-precision"
    for c, kind in transform_contexts():
        r = get_run(rep, c, kind)
        if r is None or r.dead:
            continue
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        memo = []

        def vs(c=c, r=r, memo=memo):
            if not memo:
                memo.append(wide_vals(c, tier, result_terms(r)))
            return memo[0]
        precision(rep, rule, r, c, vs, shown_context(c), c.reality)
        if r.pre_run is not None and not r.pre_run.dead:
            precision(rep, rule, r.pre_run, c, vs, shown_context(c), c.reality)
    hv = hvals(tier)
    for r in helper_runs(rep, OPTS):
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        if r.dead:
            continue
        lab = f" ({', '.join(f'{k}={v}' for k, v in r.opt.items())})" if r.opt else ""
        precision(rep, rule, r, None, lambda: hv + [dict(v, j=v["J_min"], t=0.5) for v in wide_vals(Ctx("base", sp0=True), tier)], lab, False)


# ------------------------------------------------------------------ C15
TRACE = ("concretise", "jit_static_array", "jit_string", "jit_host", "jit_array_truth", "unhashable")


def said(e):
    d = e.data
    if e.kind == "concretise":
        return f"the value of traced {', '.join(d['params'])} is needed at compile time ({d['what']})"
    if e.kind == "jit_static_array":
        return f"parameter {d['param']} of {d['func']} is static but receives arrays or lists, which are unhashable and would be baked in"
    if e.kind == "jit_string":
        return f"parameter {d['param']} of {d['func']} receives strings but is not static"
    if e.kind == "unhashable":
        return f"parameter {d['param']} of the memoised function {d['func']} receives an unhashable value"
    if e.kind == "jit_array_truth":
        return "the truth value of a traced array is needed at compile time"
    return f"{d['what']} is applied to a traced array"


def untrace(it, t):
    m = getattr(it, "traced", {})
    while True:
        r = tm.subst(t, m) if m else t
        if r is t:
            return r
        t = r


def trace_report(rep, rule, r, it, vs, real, label):
    bad = [e for e in r.events if e.kind in TRACE]
    for e in bad:
        e.pc = [untrace(it, x) for x in e.pc]
        e.ivs = [(t, untrace(it, T)) for t, T in e.ivs]
        v = feasible(e, vs, real)
        if v is not None:
            rep.bad(rule, r.where if e.site.startswith("?") else f"{e.site}:{e.func}", f"{said(e)}{label} [{wit(v)}]", wit(v))
        else:
            rep.undec(rule, f"{e.site}:{e.func}", f"{said(e)}, on a path not reached at any valuation")
    n = sum(1 for e in r.events if e.kind == "jit_call") + 1
    if not bad:
        rep.ok(rule, n, proved=True, site=r.where)


def jitted(rep):
    """(module, name) of every function of the package that is compiled with JAX"""
    it = M.fresh(hook=False)
    out = []
    for mod in (SM, FM, CM, M.TR + "base", M.TR + "wavelet", M.TR + "wavelet_c", M.TR + "wavelet_precompute", M.TR + "wavelet_precompute_torch"):
        try:
            scope = M.names_of(it, mod)
        except M.Missing as ex:
            rep.undec("anchor", mod, ex)
            continue
        for n, v in scope.items():
            if isinstance(v, FuncV) and v.jit is not None and v.mod.name == mod:
                out.append((mod, n, v))
    return out


def c15(rep, tier):
    rule = "static-arguments"
    for mod, n, f in jitted(rep):
        if getattr(f, "jit_bad", None):
            rep.bad(rule, f"{M.fresh(hook=False).rel(f.mod.path)}:{f.node.lineno}:{n}", f"static_argnums {f.jit_bad} are not parameters of {n}", {})
    trace_all(rep, rule, tier)


def trace_all(rep, rule, tier):
    """every compiled function can be traced by JAX: transforms with every parameter passed, the others on their own"""
    for c, kind in transform_contexts():
        if c.backend not in ("jax", "c", "pre"):
            continue
        it = M.fresh(None, True)
        it.trace_jit = True
        try:
            r = M.run_in(it, c, kind, True)
        except M.Missing as ex:
            rep.undec(rule, f"{c.module}.{kind}", ex)
            continue
        rep.use(r)
        trace_report(rep, rule, r, it, ctx_vals(c, tier, small=True), c.reality, shown_context(c))
    # every other compiled function, called on its own
    hv = hvals(tier)
    for mod, n, f in jitted(rep):
        if mod.startswith(M.TR) and n in ("analysis", "synthesis", "flm_to_analysis"):
            continue
        for o in OPTS:
            it = M.fresh(hook=False)
            it.trace_jit = True
            g = M.get_func(it, mod, n)
            ps = set(it.param_names(g))
            if any(REL.get(k, k) not in ps for k in o):
                continue
            kw = helper_args(it, g, o)
            if kw is None:
                break    # reached through its callers only
            r = M.invoke(it, mod, n, kw)
            rep.use(r)
            lab = f" ({', '.join(f'{k}={v}' for k, v in o.items())})" if o else ""
            trace_report(rep, rule, r, it, [dict(v, t=0.75, j=v["J_min"], spin0=s0) for v in hv for s0 in (v["spin0"], 2)], False, lab)


# ------------------------------------------------------------------ C24
FWN = {"np": "NumPy", "jnp": "JAX", "torch": "Torch"}
FWB = {"looped": "np", "base": "np", "jax": "jnp", "c": "jnp", "pre": "jnp", "torch": "torch"}


def frameworks(it, v, path="", pc=()):
    """(position, framework, conditions) of every array in a returned value"""
    v = it.deref(v) if not isinstance(v, GatedV) else v
    if isinstance(v, GatedV):
        yield from frameworks(it, v.a, path, tuple(pc) + (v.c,))
        yield from frameworks(it, v.b, path, tuple(pc) + (tm.bnot(v.c),))
    elif isinstance(v, Arr):
        yield path, v.fw, pc
    elif isinstance(v, (TupleV, ListV)):
        for k, x in enumerate(v.items):
            yield from frameworks(it, x, f"{path}[{k}]", pc)
    elif isinstance(v, SeqV):
        yield from frameworks(it, v.inst()[1], path + "[*]", pc)


def own_framework(rep, rule, r, want, vs, label, real):
    n = 0
    for path, fw, pc in frameworks(r.it, r.value) if r.value is not None else ():
        n += 1
        if fw not in FWN:
            rep.undec(rule, r.where, f"framework of result{path} of {r.name} is not known")
        elif fw != want:
            v = feasible_conds(pc, vs(), real)
            if v is not None:
                rep.bad(rule, r.where, f"result{path} of {r.name} is a {FWN[fw]} array instead of a {FWN[want]} one{label} [{wit(v)}]", wit(v))
    rep.ok(rule, n, proved=True, site=r.where)


def c24(rep, tier):
    rule = "own-framework"
    for c, kind in transform_contexts():
        r = get_run(rep, c, kind)
        if r is None or r.dead:
            continue
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        own_framework(rep, rule, r, FWB[c.backend], lambda: wide_vals(c, tier, result_terms(r)), shown_context(c), c.reality)
    hv = hvals(tier)
    combos = tuple({"torch": True, **o} for o in OPTS if o and "torch" not in o)
    for r in helper_runs(rep, OPTS + combos):
        if r.unknowns:
            rep.undec(rule, r.where, r.unknowns[0])
        if r.dead:
            continue
        n = r.name
        if r.opt.get("torch") or n.endswith("_torch"):
            want = "torch"
        elif n.endswith("_jax") or n.startswith("generate_"):
            want = "jnp"
        else:
            want = "np"
        lab = f" ({', '.join(f'{k}={v}' for k, v in r.opt.items())})" if r.opt else ""
        own_framework(rep, rule, r, want, lambda: hv, lab, False)
