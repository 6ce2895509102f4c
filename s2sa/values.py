"""Abstract values of the interpreter (everything that is not a scalar term)."""
from __future__ import annotations
from . import terms as tm
from .terms import Term


class Val:
    pass


class Unknown(Val):
    def __init__(self, reason):
        self.reason = str(reason)

    def __repr__(self):
        return f"Unknown({self.reason})"


class Arr(Val):
    """array as an index function: shape terms + closure index terms -> element term"""
    __slots__ = ("shape", "f", "dtype", "fw", "_c", "_inst", "host")

    def __init__(self, shape, f, dtype=None, fw="np"):
        self.shape = tuple(shape)
        self.f = f
        self.dtype = dtype
        self.fw = fw
        self._c = {}
        self._inst = None

    def at(self, *idx):
        r = self._c.get(idx)
        if r is None:
            r = self.f(idx)
            if not isinstance(r, Term):
                r = tm.unk("array element is not a scalar")
            self._c[idx] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)

    def inst(self):
        if self._inst is None:
            vs = tuple(tm.iv("x", s) for s in self.shape)
            self._inst = (vs, self.at(*vs))
        return self._inst

    def map(self, g, dtype=None):
        return Arr(self.shape, lambda idx: g(self.at(*idx)), dtype or self.dtype, self.fw)

    def with_(self, **kw):
        a = Arr(kw.get("shape", self.shape), kw.get("f", self.f), kw.get("dtype", self.dtype), kw.get("fw", self.fw))
        if "f" not in kw and "shape" not in kw:
            a._c = self._c
            a._inst = self._inst
        return a

    def __repr__(self):
        return f"Arr{list(self.shape)}:{self.dtype}:{self.fw}"


class TupleV(Val):
    def __init__(self, items, names=None, cls=None):
        self.items = list(items)
        self.names = names
        self.cls = cls

    def __repr__(self):
        return f"Tuple{self.items}"


class ListV(Val):
    """heap content: list of known length"""

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"List{self.items}"


class SeqV(Val):
    """heap content / immutable sequence with symbolic length"""

    def __init__(self, n, f, tup=False):
        self.n = n
        self.f = f
        self.tup = tup
        self._c = {}
        self._inst = None

    def at(self, k):
        r = self._c.get(k)
        if r is None:
            r = self.f(k)
            self._c[k] = r
        return r

    def inst(self):
        if self._inst is None:
            k = tm.iv("k", self.n)
            self._inst = (k, self.at(k))
        return self._inst

    def __repr__(self):
        return f"Seq[{self.n}]"


class SeqC(Val):
    """heap content inside a loop body: loop-carried list + updates of this iteration"""

    def __init__(self, lp, cid, base, ops=()):
        self.lp = lp      # LoopCtx
        self.cid = cid    # carry id
        self.base = base  # pre-loop list value
        self.ops = tuple(ops)  # ('append', v) | ('set', idx, v)

    def __repr__(self):
        return f"SeqC{self.ops}"


class DictV(Val):
    """items: constant keys; symitems: (index terms, value) stores with symbolic keys;
    glob: name of the module-level (or default-argument) dict, None for an ordinary local dict"""

    def __init__(self, items=None, sym=None, glob=None, symitems=()):
        self.items = dict(items or {})
        self.sym = sym
        self.glob = glob
        self.symitems = list(symitems)

    def __repr__(self):
        return f"Dict{self.items}"


class ObjV(Val):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})


class Ref(Val):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Ref({self.cid})"


class View(Val):
    """numpy/torch view: handle on a region of another handle"""
    __slots__ = ("base", "spec", "shape")

    def __init__(self, base, spec):
        self.base = base
        self.spec = spec  # IndexSpec


class ElemView(Val):
    """element of a (symbolic) list that holds mutable arrays"""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base = base
        self.idx = idx


class AttrView(Val):
    """x.real / x.imag of a mutable array handle"""
    __slots__ = ("base", "part")

    def __init__(self, base, part):
        self.base = base
        self.part = part


class GatedV(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Gated({self.c!r},{self.a!r},{self.b!r})"


class RangeV(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV(Val):
    """lazy iterable: extent + element function"""

    def __init__(self, n, f):
        self.n, self.f = n, f


class SliceV(Val):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class EllipsisV(Val):
    pass


class AtV(Val):
    """jax  x.at  and  x.at[idx]"""

    def __init__(self, base, spec=None):
        self.base, self.spec = base, spec


class ModV(Val):
    def __init__(self, mod):
        self.mod = mod


class ExtV(Val):
    """external object by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"


class FuncV(Val):
    def __init__(self, node, mod, scope=None, name=None, defaults=None, kwdefaults=None, cls=None):
        self.node = node
        self.mod = mod
        self.scope = scope
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = defaults or {}
        self.jit = None       # None or set of static parameter names
        self.cached = False
        self.bound = None
        self.cls = cls
        self.decor = []

    def copy(self):
        f = FuncV(self.node, self.mod, self.scope, self.name, self.defaults, None, self.cls)
        f.jit, f.cached, f.bound, f.decor = self.jit, self.cached, self.bound, list(self.decor)
        for k in ("jit_bad", "donate", "static", "prop", "clsm", "nograd", "wrapped"):
            if hasattr(self, k):
                setattr(f, k, getattr(self, k))
        return f

    def __repr__(self):
        return f"Func({self.name})"


class ClassV(Val):
    def __init__(self, node, mod, name):
        self.node, self.mod, self.name = node, mod, name
        self.attrs = {}
        self.fields = None
        self.kind = "class"


class PartialV(Val):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class BoundV(Val):
    """method of an abstract value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class BuiltinV(Val):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def subst_val(v, m, cf=None):
    """substitute in an abstract value"""
    if isinstance(v, Term):
        return tm.subst(v, m, cf)
    if isinstance(v, Arr):
        vs, body = v.inst()
        b2 = tm.subst(body, m, cf)
        sh = tuple(tm.subst(s, m, cf) for s in v.shape)
        if b2 is body and all(x is y for x, y in zip(sh, v.shape)):
            return v
        return Arr(sh, lambda idx: tm.subst(b2, dict(zip(vs, idx))), v.dtype, v.fw)
    if isinstance(v, TupleV):
        return TupleV([subst_val(x, m, cf) for x in v.items], v.names, v.cls)
    if isinstance(v, ListV):
        return ListV([subst_val(x, m, cf) for x in v.items])
    if isinstance(v, SeqV):
        k, val = v.inst()
        val2 = subst_val(val, m, cf)
        return SeqV(tm.subst(v.n, m, cf), lambda i: subst_val(val2, {k: i}), v.tup)
    if isinstance(v, GatedV):
        c = tm.subst(v.c, m, cf)
        if c.op == "const":
            return subst_val(v.a if c.args[0] else v.b, m, cf)
        return gate(c, subst_val(v.a, m, cf), subst_val(v.b, m, cf))
    if isinstance(v, RangeV):
        return RangeV(*[tm.subst(x, m, cf) for x in (v.lo, v.hi, v.step)])
    if isinstance(v, DictV):
        return DictV({k: subst_val(x, m, cf) for k, x in v.items.items()}, v.sym, v.glob, v.symitems)
    if isinstance(v, ObjV):
        return ObjV(v.cls, {k: subst_val(x, m, cf) for k, x in v.attrs.items()})
    if isinstance(v, PartialV):
        return PartialV(v.fn, [subst_val(x, m, cf) for x in v.args], {k: subst_val(x, m, cf) for k, x in v.kwargs.items()})
    return v


def gate(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        return tm.ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        sh = tuple(tm.ite(c, x, y) for x, y in zip(a.shape, b.shape))
        return Arr(sh, lambda idx: tm.ite(c, a.at(*idx), b.at(*idx)), join_dtype(a.dtype, b.dtype), a.fw if a.fw == b.fw else "jnp")
    if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
        return TupleV([gate(c, x, y) for x, y in zip(a.items, b.items)], a.names, a.cls)
    if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
        return ListV([gate(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return SeqV(tm.ite(c, a.n, b.n), lambda k: gate(c, a.at(k), b.at(k)), a.tup)
    if isinstance(a, SeqC) and isinstance(b, SeqC) and a.cid == b.cid and len(a.ops) == len(b.ops):
        ops = []
        for x, y in zip(a.ops, b.ops):
            if x is y:
                ops.append(x)
            elif x[0] == y[0] == "append":
                ops.append(("append", gate(c, x[1], y[1])))
            elif x[0] == y[0] == "set" and x[1] is y[1]:
                ops.append(("set", x[1], gate(c, x[2], y[2])))
            else:
                return Unknown("conditionally different list updates")
        return SeqC(a.lp, a.cid, a.base, ops)
    if isinstance(a, SeqC) and isinstance(b, SeqC) and a.cid == b.cid:
        # one side has extra conditional element updates: set(i, ite(c, new, old))
        short, long, pos = (b, a, True) if len(a.ops) > len(b.ops) else (a, b, False)
        n = len(short.ops)
        if all(x is y for x, y in zip(short.ops, long.ops)) and all(o[0] == "set" for o in long.ops[n:]):
            return SeqC(a.lp, a.cid, a.base, long.ops[:n] + tuple(("condset", o[1], o[2], c if pos else tm.bnot(c)) for o in long.ops[n:]))
    if isinstance(a, DictV) and isinstance(b, DictV) and a.glob is not None and a.glob == b.glob:
        n = 0
        while n < min(len(a.symitems), len(b.symitems)) and a.symitems[n] is b.symitems[n]:
            n += 1
        return DictV(a.items, a.sym or b.sym, a.glob, a.symitems[:n] + [(i, v, tm.band(q, c)) for i, v, q in a.symitems[n:]]
                     + [(i, v, tm.band(q, tm.bnot(c))) for i, v, q in b.symitems[n:]])
    if isinstance(a, DictV) and isinstance(b, DictV) and set(a.items) == set(b.items) and not a.symitems and not b.symitems:
        return DictV({k: gate(c, a.items[k], b.items[k]) for k in a.items})
    if isinstance(a, ObjV) and isinstance(b, ObjV) and set(a.attrs) == set(b.attrs) and a.cls is b.cls:
        return ObjV(a.cls, {k: gate(c, a.attrs[k], b.attrs[k]) for k in a.attrs})
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid:
        return a
    if isinstance(a, ElemView) and isinstance(b, ElemView) and isinstance(a.base, Ref) and isinstance(b.base, Ref) and a.base.cid == b.base.cid:
        return ElemView(a.base, tm.ite(c, a.idx, b.idx))
    return GatedV(c, a, b)


_DT = ["bool", "int", "float32", "float64", "complex64", "complex128"]


class CondDt(str):
    """dtype chosen by a condition; reads as the wider of the two"""
    def __new__(cls, c, a, b):
        r = str.__new__(cls, join_dtype(a, b) or a)
        r.c, r.a, r.b = c, a, b
        return r


def join_dtype(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if a not in _DT or b not in _DT:
        return None
    s = {a, b}
    if s == {"float64", "complex64"}:
        return "complex128"
    return max(a, b, key=_DT.index)


def kind_dtype(k):
    return {"b": "bool", "i": "int", "f": "float64", "c": "complex128"}.get(k)


def dtype_kind(d):
    if d is None:
        return "c"
    return {"bool": "b", "int": "i", "float32": "f", "float64": "f", "complex64": "c", "complex128": "c"}.get(d, "?")
