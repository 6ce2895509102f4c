"""Array algebra on index functions: indexing, stores, broadcasting, einsum."""
from __future__ import annotations
from . import terms as tm
from .terms import Term, const, add, sub, mul, ite, ZERO, ONE, NONE
from .values import *


class Undecided(Exception):
    pass


def clamp(x, dim):
    if tm.is_const(x):
        v = tm.cval(x)
        if not isinstance(v, int):
            raise Undecided("non-integer slice bound")
        if v < 0:
            y = add(dim, x)
            return y if tm.prove_ge0(y) else tm.mx(y, ZERO)
        if v == 0:
            return ZERO
    if tm.prove_ge0(x):
        if tm.prove_ge0(sub(dim, x)):
            return x
        return tm.mn(x, dim)
    if tm.prove_ge0(sub(const(-1), x)):
        y = add(dim, x)
        return y if tm.prove_ge0(y) else tm.mx(y, ZERO)
    return ite(tm.ge0(x), tm.mn(x, dim), tm.mx(add(x, dim), ZERO))


def norm_slice(sl, dim):
    """-> (start, step:int, length)"""
    a, b, c = sl.a, sl.b, sl.c
    step = 1
    if c is not None and not (tm.is_const(c) and tm.cval(c) is None):
        if not tm.is_const(c) or not isinstance(tm.cval(c), int) or tm.cval(c) == 0:
            raise Undecided("symbolic slice step")
        step = tm.cval(c)
    isn = lambda x: x is None or (tm.is_const(x) and tm.cval(x) is None)
    if step > 0:
        start = ZERO if isn(a) else clamp(a, dim)
        stop = dim if isn(b) else clamp(b, dim)
        d = sub(stop, start)
        if step != 1:
            d = tm.fdiv(add(d, const(step - 1)), const(step))
        ln = d if tm.prove_ge0(d) or tm.prove_ge0(sub(stop, start)) else tm.mx(d, ZERO)
        return start, step, ln
    if isn(a):
        start = sub(dim, ONE)
    else:
        start = tm.mn(clamp(a, dim), sub(dim, ONE)) if not (tm.is_const(a) and tm.cval(a) < 0) else tm.mx(add(a, dim), const(-1))
    if isn(b):
        stop = const(-1)
    else:
        stop = clamp(b, dim)
    d = sub(start, stop)
    if step != -1:
        d = tm.fdiv(add(d, const(-step - 1)), const(-step))
    ln = d if tm.prove_ge0(d) else tm.mx(d, ZERO)
    return start, step, ln


class IndexSpec:
    """meaning of  base[items]"""

    def __init__(self, shape, items, note=None):
        self.shape = tuple(shape)
        comps = []  # per item
        n_ell = sum(isinstance(i, EllipsisV) for i in items)
        used = 0
        for i in items:
            if isinstance(i, EllipsisV) or (isinstance(i, Term) and tm.is_const(i) and tm.cval(i) is None):
                continue
            if isinstance(i, Arr) and i.dtype == "bool":
                used += i.ndim
            else:
                used += 1
        if used > len(shape):
            raise Undecided("too many indices")
        items = list(items)
        if n_ell == 0:
            items.append(EllipsisV())
        ax = 0
        self.bounds = []
        for i in items:
            if isinstance(i, EllipsisV):
                for _ in range(len(shape) - used):
                    comps.append(("slice", ax, ZERO, 1, shape[ax]))
                    ax += 1
            elif isinstance(i, Term) and tm.is_const(i) and tm.cval(i) is None:
                comps.append(("new",))
            elif isinstance(i, Term):
                if i.kind == "b":
                    raise Undecided("boolean scalar index")
                if i.op == "unk":
                    raise Undecided(i.args[0])
                e = tm.wrap(i, shape[ax])
                self.bounds.append((i, shape[ax]))
                comps.append(("int", ax, e))
                ax += 1
            elif isinstance(i, SliceV):
                comps.append(("slice", ax) + norm_slice(i, shape[ax]))
                ax += 1
            elif isinstance(i, Arr) and i.dtype == "bool":
                comps.append(("mask", ax, i))
                ax += i.ndim
            elif isinstance(i, Arr):
                comps.append(("fancy", ax, i))
                ax += 1
            else:
                raise Undecided(f"index {i!r}")
        self.comps = comps
        self.has_mask = any(c[0] == "mask" for c in comps)
        fancy = [k for k, c in enumerate(comps) if c[0] == "fancy"]
        self.fancy = fancy
        # output layout: list of ('axis', comp) / ('fshape', n)
        out = []
        self.out_layout = []
        fshape = ()
        if fancy:
            fshape = bshape([comps[k][2].shape for k in fancy])
            # ints next to fancy count as advanced; contiguous check
            adv = [k for k, c in enumerate(comps) if c[0] in ("fancy", "int")]
            contiguous = all(comps[k][0] in ("fancy", "int") for k in range(adv[0], adv[-1] + 1))
            pos = adv[0] if contiguous else None
        self.fshape = fshape
        layout = []
        placed = False
        if fancy and pos is None:
            layout.extend(("f", d) for d in range(len(fshape)))
            placed = True
        for k, c in enumerate(comps):
            if fancy and not placed and k == pos:
                layout.extend(("f", d) for d in range(len(fshape)))
                placed = True
            if c[0] == "slice":
                layout.append(("s", k))
            elif c[0] == "new":
                layout.append(("n", k))
        self.layout = layout
        shp = []
        for kind, x in layout:
            if kind == "f":
                shp.append(fshape[x])
            elif kind == "n":
                shp.append(ONE)
            else:
                shp.append(comps[x][4])
        self.out_shape = tuple(shp)

    def to_base(self, idx):
        """output index -> base index"""
        if self.has_mask:
            raise Undecided("boolean-mask read")
        fidx = [None] * len(self.fshape)
        sidx = {}
        for (kind, x), i in zip(self.layout, idx):
            if kind == "f":
                fidx[x] = i
            elif kind == "s":
                sidx[x] = i
        base = []
        for k, c in enumerate(self.comps):
            if c[0] == "int":
                base.append(c[2])
            elif c[0] == "slice":
                base.append(add(c[2], tm.scale(c[3], sidx[k])))
            elif c[0] == "fancy":
                a = c[2]
                base.append(tm.wrap(bat(a, fidx), self.shape[c[1]]))
        return tuple(base)

    def from_base(self, bidx):
        """base index -> (condition, output index); None when not invertible"""
        cond = []
        out = {}
        fout = None
        for k, c in enumerate(self.comps):
            if c[0] == "int":
                cond.append(tm.eq(bidx[c[1]], c[2]))
            elif c[0] == "slice":
                _, ax, start, step, ln = c
                i = bidx[ax]
                d = sub(i, start) if step > 0 else sub(start, i)
                if abs(step) == 1:
                    o = d
                    if start is ZERO and ln is self.shape[ax]:
                        pass
                    else:
                        cond.append(tm.ge0(o))
                        cond.append(tm.lt(o, ln))
                else:
                    s = const(abs(step))
                    cond.append(tm.ge0(d))
                    cond.append(tm.eq(tm.mod(d, s), ZERO))
                    o = tm.fdiv(d, s)
                    cond.append(tm.lt(o, ln))
                out[k] = o
            elif c[0] == "mask":
                _, ax, m = c
                cond.append(m.at(*bidx[ax:ax + m.ndim]))
            elif c[0] == "fancy":
                a = c[2]
                if a.ndim != 1 or len(self.fancy) != 1:
                    raise Undecided("store through index arrays")
                # invertible only for affine ranges: a[i] = s + i
                v = tm.iv("p", a.shape[0])
                body = a.at(v)
                r = sub(body, v)
                if v in r.fv:
                    r2 = sub(body, tm.scale(-1, v))
                    raise Undecided("store through non-affine index array")
                d = sub(bidx[c[1]], r)
                cond.append(tm.ge0(d))
                cond.append(tm.lt(d, a.shape[0]))
                fout = [d]
        oidx = []
        for kind, x in self.layout:
            if kind == "f":
                oidx.append(fout[x])
            elif kind == "s":
                oidx.append(out[x])
            else:
                oidx.append(ZERO)
        return tm.simp_cond(tm.band(*cond)), tuple(oidx)


# ------------------------------------------------------------------ broadcasting

SHAPE_OBL = []  # collected shape obligations (dim a, dim b)


def same_dim(a, b):
    if a is b:
        return True
    return False


def bshape(shapes, note=None):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for d in range(n):
        cur = None
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if cur is None or (tm.is_const(cur) and tm.cval(cur) == 1):
                cur = x
            elif tm.is_const(x) and tm.cval(x) == 1:
                pass
            elif x is cur:
                pass
            else:
                SHAPE_OBL.append((cur, x))
                # prefer the structurally simpler
                if tm.is_const(x) and not tm.is_const(cur):
                    cur = x
        out.append(cur if cur is not None else ONE)
    return tuple(out)


def bat(a, idx, shape=None):
    """element of array/scalar a at broadcast output index idx"""
    if isinstance(a, Term):
        return a
    n = len(idx)
    sub_idx = []
    for k, s in enumerate(a.shape):
        i = idx[n - a.ndim + k]
        if tm.is_const(s) and tm.cval(s) == 1:
            i = ZERO
        elif shape is not None and shape[n - a.ndim + k] is not s:
            i = ite(tm.eq(s, ONE), ZERO, i)
        sub_idx.append(i)
    return a.at(*sub_idx)


def join_fw(vals):
    fws = [v.fw for v in vals if isinstance(v, Arr)]
    if not fws:
        return None
    if "torch" in fws:
        return "torch"
    if "jnp" in fws:
        return "jnp"
    return "np"


def elementwise(g, *vals, dtype=None):
    """apply scalar function g to broadcast operands (terms or Arr)"""
    arrs = [v for v in vals if isinstance(v, Arr)]
    if not arrs:
        return g(*vals)
    shape = bshape([a.shape for a in arrs])
    fw = join_fw(arrs)

    def f(idx):
        return g(*[bat(v, idx, shape) for v in vals])
    return Arr(shape, f, dtype, fw)


def store(arr, spec, val, mode="set", opf=None):
    """functional array update"""
    osh = spec.out_shape
    if isinstance(val, Arr) and not spec.has_mask:
        va = [s for s in val.shape]
        k = len(va) - len(osh)
        if k > 0:
            if not all(tm.is_const(s) and tm.cval(s) == 1 for s in va[:k]):
                raise Undecided("store of higher-rank value")
            val = reshape_lead(val, k)
        bshape([osh, val.shape])
    if spec.has_mask and isinstance(val, Arr):
        raise Undecided("masked store of an array")

    def f(idx):
        c, o = spec.from_base(idx)
        old = arr.at(*idx)
        if c is tm.FALSE:
            return old
        v = val if isinstance(val, Term) else bat(val, o, osh)
        if mode == "set":
            return ite(c, v, old)
        if mode == "add":
            return add(old, ite(c, v, ZERO))
        return ite(c, opf(old, v), old)
    return Arr(arr.shape, f, arr.dtype, arr.fw)


def reshape_lead(a, k):
    return Arr(a.shape[k:], lambda idx: a.at(*([ZERO] * k + list(idx))), a.dtype, a.fw)


def take(arr, spec):
    if not spec.out_shape:
        return arr.at(*spec.to_base(()))
    return Arr(spec.out_shape, lambda idx: arr.at(*spec.to_base(idx)), arr.dtype, arr.fw)


def einsum(sub_s, ops, fw):
    s = sub_s.replace(" ", "")
    if "." in s:
        raise Undecided("einsum ellipsis")
    if "->" in s:
        ins, out = s.split("->")
    else:
        ins = s
        cnt = {}
        for ch in ins.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise Undecided("einsum operand count")
    dims = {}
    for lab, o in zip(ins, ops):
        nd = o.ndim if isinstance(o, Arr) else 0
        if len(lab) != nd:
            raise Undecided("einsum rank mismatch")
        for ch, d in zip(lab, o.shape if nd else ()):
            if ch in dims and dims[ch] is not d:
                SHAPE_OBL.append((dims[ch], d))
                if tm.is_const(dims[ch]) and tm.cval(dims[ch]) == 1:
                    dims[ch] = d
            else:
                dims.setdefault(ch, d)
    contracted = [c for c in dict.fromkeys("".join(ins)) if c not in out]
    vs = {c: tm.iv(c, dims[c]) for c in contracted}
    shape = tuple(dims[c] for c in out)

    def f(idx):
        env = dict(zip(out, idx))
        env.update(vs)
        p = mul(*[o.at(*[env[c] for c in lab]) if isinstance(o, Arr) else o for lab, o in zip(ins, ops)])
        for c in reversed(contracted):
            p = tm.mk_sum(vs[c], dims[c], p)
        return p
    dt = None
    for o in ops:
        d = o.dtype if isinstance(o, Arr) else kind_dtype(o.kind)
        dt = d if dt is None else join_dtype(dt, d)
    if not shape:
        return f(())
    return Arr(shape, f, dt, fw)


def reduce_axis(a, axis, how):
    """how: function (iv, T, body) -> Term"""
    if axis is None:
        r = a
        while isinstance(r, Arr):
            r = reduce_axis(r, r.ndim - 1, how)
        return r
    if axis < 0:
        axis += a.ndim
    v = tm.iv("r", a.shape[axis])
    shape = a.shape[:axis] + a.shape[axis + 1:]

    def f(idx):
        full = idx[:axis] + (v,) + idx[axis:]
        return how(v, a.shape[axis], a.at(*full))
    if not shape:
        return f(())
    return Arr(shape, f, a.dtype, a.fw)


def prod_terms(ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def reshape(a, newshape):
    newshape = list(newshape)
    neg1 = [i for i, s in enumerate(newshape) if tm.is_const(s) and tm.cval(s) == -1]
    if neg1:
        old_core = [s for s in a.shape if not (tm.is_const(s) and tm.cval(s) == 1)]
        new_core = [s for i, s in enumerate(newshape) if i not in neg1 and not (tm.is_const(s) and tm.cval(s) == 1)]
        rest = list(old_core)
        ok = True
        for s in new_core:
            if s in rest:
                rest.remove(s)
            else:
                ok = False
        if ok:
            newshape[neg1[0]] = prod_terms(rest)
        else:
            newshape[neg1[0]] = tm.fdiv(prod_terms(a.shape), prod_terms(new_core))
    is1 = lambda s: tm.is_const(s) and tm.cval(s) == 1
    old_core = [(k, s) for k, s in enumerate(a.shape) if not is1(s)]
    new_core = [(k, s) for k, s in enumerate(newshape) if not is1(s)]
    if len(old_core) == len(new_core):
        for (_, s), (_, s2) in zip(old_core, new_core):
            if s is not s2:
                SHAPE_OBL.append((s, s2))

        def f(idx):
            base = [ZERO] * a.ndim
            for (ko, _), (kn, _) in zip(old_core, new_core):
                base[ko] = idx[kn]
            return a.at(*base)
        return Arr(tuple(newshape), f, a.dtype, a.fw)

    def g(idx):
        flat = ZERO
        for i, s in zip(idx, newshape):
            flat = add(mul(flat, s), i)
        base = []
        for s in reversed(a.shape):
            base.append(tm.mod(flat, s))
            flat = tm.fdiv(flat, s)
        return a.at(*reversed(base))
    return Arr(tuple(newshape), g, a.dtype, a.fw)
