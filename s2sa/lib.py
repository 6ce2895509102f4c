"""Models of builtins, NumPy, jax.numpy, torch, math, functools, ...

Every model maps abstract values to abstract values; nothing is executed.
A function without a model evaluates to Unknown (obligations that depend on it
are then undecided)."""
from __future__ import annotations
import ast, math
from . import terms as tm
from .terms import Term, const, add, sub, mul, ite, ZERO, ONE, TRUE, FALSE, NONE
from .values import *
from . import arrays as ar
from .arrays import Undecided, IndexSpec

SCALAR_OPS = {
    ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: tm.div,
    ast.FloorDiv: tm.fdiv, ast.Mod: tm.mod, ast.Pow: tm.power,
    ast.BitAnd: lambda a, b: tm.band(tm.truth(a), tm.truth(b)) if a.kind == "b" and b.kind == "b" else tm.app("bitand", a, b, kind="i"),
    ast.BitOr: lambda a, b: tm.bor(tm.truth(a), tm.truth(b)) if a.kind == "b" and b.kind == "b" else tm.app("bitor", a, b, kind="i"),
    ast.BitXor: lambda a, b: tm.bnot(ite(a, b, tm.bnot(b))) if a.kind == "b" and b.kind == "b" else tm.app("bitxor", a, b, kind="i"),
    ast.LShift: lambda a, b: mul(a, tm.power(const(2), b)),
    ast.RShift: lambda a, b: tm.fdiv(a, tm.power(const(2), b)),
}

FWS = ("np", "jnp", "torch")

_INTS = ("int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "long", "intp", "int_", "short", "uint")
_DT = {"float64": "float64", "double": "float64", "float_": "float64", "float32": "float32", "single": "float32", "half": "float32",
       "float16": "float32", "bfloat16": "float32",
       "complex128": "complex128", "cdouble": "complex128", "complex_": "complex128", "complex64": "complex64", "cfloat": "complex64",
       "csingle": "complex64", "complex": "complex128", "bool": "bool", "bool_": "bool", "longdouble": "float64"}
for _i in _INTS:
    _DT[_i] = "int"


FLOATDT = ("float32", "float64", "complex64", "complex128")


def depends_on_data(t):
    return any(x.op in ("elem", "xel") for x in tm.walk(t))


def hostify(t, how="host"):
    """scalar taken out of the differentiable graph"""
    return tm.fn(how, t) if t.kind in ("f", "c") and not tm.is_const(t) and depends_on_data(t) else t


def parse_dtype(it, v):
    v = it.deref(v)
    if v is None or (isinstance(v, Term) and v.kind == "n"):
        return None
    if isinstance(v, ExtV):
        fw, _, nm = v.path.partition(".")
        if nm == "float":
            return "float32" if fw == "torch" else "float64"
        if nm == "complex":
            return "complex128"
        if nm in _DT:
            return _DT[nm]
    if isinstance(v, BuiltinV):
        return {"float": "float64", "int": "int", "complex": "complex128", "bool": "bool"}.get(v.name)
    if isinstance(v, Term) and tm.is_const(v) and isinstance(tm.cval(v), str):
        s = tm.cval(v)
        return _DT.get(s, "float64" if s in ("float", "f8", "d") else {"c16": "complex128", "c8": "complex64", "f4": "float32", "f": "float32", "i8": "int", "i4": "int"}.get(s))
    if isinstance(v, TupleV) and v.cls == "dtype":
        return v.names
    if isinstance(v, DtypeV):
        return v.dt
    if isinstance(v, GatedV):
        a, b = parse_dtype(it, v.a), parse_dtype(it, v.b)
        if a == b:
            return a
        if a in FLOATDT and b in FLOATDT:
            return CondDt(v.c, a, b)
    raise Undecided("dtype")


class DtypeV(Val):
    def __init__(self, dt, fw):
        self.dt, self.fw = dt, fw


def dtype_arg(it, kw, args=None, pos=None, default=None):
    v = kw.get("dtype")
    if v is None and args is not None and pos is not None and len(args) > pos:
        v = args[pos]
    if v is None:
        return default
    if isinstance(v, DtypeV):
        return v.dt
    d = parse_dtype(it, v)
    return d if d is not None else default


def deflt(fw):
    return "float32" if fw == "torch" else "float64"


def cast(it, a, dt):
    """astype"""
    if dt is None:
        return a
    if isinstance(dt, CondDt):
        r = it.under(dt.c, lambda k: cast(it, a, dt.a if k else dt.b))
        if isinstance(r, Arr):
            r.dtype = dt
        return r
    if isinstance(a, Term):
        t = a
        if dt in ("float32", "complex64") and not small_const(t):
            t = tm.fn("lossy", t)
        if dt in ("float64", "float32") and t.kind == "c":
            t = tm.fn("real", t)
        if dt == "int" and t.kind in ("f", "c"):
            t = tm.fn("trunc", t)
        if dt == "bool":
            t = tm.truth(t)
        return t
    if dt in ("float64", "float32", "int") and a.dtype in ("complex128", "complex64"):
        it.event("real_store", value=a, to=dt)
    lossy = dt in ("float32", "complex64") and a.dtype not in ("float32", "complex64", "bool")

    def g(t):
        if t.op == "unk":
            return t
        if lossy and not small_const(t):
            t = tm.fn("lossy", t)
        if dt in ("float64", "float32") and t.kind == "c":
            t = tm.fn("real", t)
        if dt == "int" and t.kind in ("f", "c"):
            t = tm.fn("trunc", t)
        if dt == "bool" and t.kind != "b":
            t = tm.truth(t)
        return t
    r = a.map(g)
    r.dtype = dt
    return r


def small_const(t):
    return tm.is_const(t) and isinstance(tm.cval(t), (int, float, complex)) and (tm.cval(t) in (0, 1, -1, 2, 0.5) or (isinstance(tm.cval(t), int)))


def dt_of(v):
    if isinstance(v, Arr):
        return v.dtype
    return kind_dtype(v.kind)


def result_dtype(op, vals):
    """dtype of an elementwise arithmetic result, with framework promotion rules"""
    arrs = [v for v in vals if isinstance(v, Arr)]
    fw = ar.join_fw(arrs)
    dt = None
    for a in arrs:
        if a.dtype is None:
            return None
        dt = a.dtype if dt is None else join_dtype(dt, a.dtype)
    for s in vals:
        if isinstance(s, Term):
            k = s.kind
            if k not in ("b", "i", "f", "c"):
                return None
            if k == "c":
                if dt in ("float32", "complex64"):
                    dt = "complex64" if fw != "np" else "complex128"
                elif dt in ("int", "bool"):
                    dt = "complex64" if fw == "torch" else "complex128"
                else:
                    dt = "complex128"
            elif k == "f" and dt in ("int", "bool"):
                dt = deflt(fw)
            elif k == "i" and dt == "bool":
                dt = "int"
    if op == "div" and dt in ("int", "bool"):
        dt = deflt(fw)
    if op == "pow" and dt == "bool":
        dt = "int"
    return dt


def lossy_wrap(vals, dt, r):
    """values created in single precision out of exact/double operands"""
    if isinstance(r, Arr) and dt in ("float32", "complex64"):
        f0 = r.f
        return Arr(r.shape, lambda idx: _lz(f0(idx)), dt, r.fw)
    return r


def _lz(t):
    if tm.is_const(t) or t.op == "unk" or t.kind in ("b", "i"):
        return t
    if t.op == "fn" and t.args[0] == "lossy":
        return t
    return tm.fn("lossy", t)


def arr_binop(it, op, f, a, b):
    nm = {ast.Div: "div", ast.Pow: "pow"}.get(type(op))
    boolop = isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor))
    dt = result_dtype(nm, [a, b])
    if boolop and all(dt_of(x) == "bool" for x in (a, b)):
        dt = "bool"

    def g(x, y):
        if x.op == "unk":
            return x
        if y.op == "unk":
            return y
        return f(x, y)
    r = it.guard(lambda: ar.elementwise(g, a, b, dtype=dt))
    if isinstance(r, Arr):
        r = lossy_wrap([a, b], dt, r)
        return it.box(r)
    return r


def matmul(it, a, b):
    a, b = it.deref(a), it.deref(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise_ = it.unknown("matmul of non-arrays")
        return raise_
    fw = ar.join_fw([a, b])
    al = "zyxwvu"[: a.ndim - 2] if a.ndim > 2 else ""
    if a.ndim == 1 and b.ndim == 1:
        s = "i,i->"
    elif a.ndim == 2 and b.ndim == 1:
        s = "ij,j->i"
    elif a.ndim == 1 and b.ndim == 2:
        s = "i,ij->j"
    elif a.ndim == 2 and b.ndim == 2:
        s = "ij,jk->ik"
    elif a.ndim == 3 and b.ndim == 3:
        s = "aij,ajk->aik"
    elif a.ndim == 3 and b.ndim == 2:
        s = "aij,jk->aik"
    elif a.ndim == 2 and b.ndim == 3:
        s = "ij,ajk->aik"
    elif a.ndim == 3 and b.ndim == 1:
        s = "aij,j->ai"
    else:
        return it.unknown("matmul ranks")
    r = it.guard(lambda: ar.einsum(s, [a, b], fw))
    return it.box(r) if isinstance(r, Arr) else r


def to_array(it, v, fw, dtype=None):
    """np.array / jnp.array / torch.tensor of a Python value"""
    v = it.deref(v)
    if isinstance(v, Arr):
        r = v.with_(fw=fw)
        return cast(it, r, dtype) if dtype and dtype != v.dtype else r
    if isinstance(v, Term):
        if fw == "torch" and dtype is None and v.kind in ("f", "c"):
            return tm.fn("lossy", v) if not small_const(v) else v
        return cast(it, v, dtype) if dtype else v
    if isinstance(v, GatedV):
        return gate(v.c, to_array(it, v.a, fw, dtype), to_array(it, v.b, fw, dtype))
    if isinstance(v, RangeV):
        n = nonneg(it.range_len(v))
        return Arr((n,), lambda q: add(v.lo, mul(v.step, q[0])), "int", fw)
    if isinstance(v, IterV):
        v = SeqV(v.n, v.f)
    if isinstance(v, (ListV, TupleV)):
        items = [it.deref(x) for x in v.items]
        if not items:
            return Arr((ZERO,), lambda i: ZERO, deflt(fw), fw)
        items = [to_array(it, x, fw, dtype) if not isinstance(x, (Arr, Term)) else x for x in items]
        if all(isinstance(x, Term) for x in items):
            if any(x.kind not in ("b", "i", "f", "c") for x in items):
                raise Undecided("array of non-numeric values")
            k = max((x.kind for x in items), key=lambda q: "bifc".index(q))
            dt = kind_dtype(k)
            if fw == "torch" and dtype is None:
                dt = {"float64": "float32", "complex128": "complex64"}.get(dt, dt)
            if dtype:
                dt = dtype

            def f(idx):
                i = idx[0]
                if tm.is_const(i) and 0 <= tm.cval(i) < len(items):
                    return items[tm.cval(i)]
                r = items[-1]
                for q in range(len(items) - 2, -1, -1):
                    r = ite(tm.eq(i, const(q)), items[q], r)
                return r
            return Arr((const(len(items)),), f, dt, fw)
        if all(isinstance(x, Arr) for x in items):
            return stack(it, items, 0, fw, dtype)
        raise Undecided("ragged array")
    if isinstance(v, SeqV):
        k, e = v.inst()
        e = it.deref(e)
        if isinstance(e, Term):
            dt = kind_dtype(e.kind)
            if fw == "torch" and dtype is None:
                dt = {"float64": "float32", "complex128": "complex64"}.get(dt, dt)
            return Arr((v.n,), lambda i: it.deref(v.at(i[0])), dtype or dt, fw)
        if isinstance(e, (TupleV, ListV, SeqV, RangeV, IterV, GatedV)):
            return to_array(it, SeqV(v.n, lambda q: to_array(it, it.deref(v.at(q)), fw, dtype)), fw, dtype)
        if isinstance(e, Arr):
            if any(k in s.fv for s in e.shape):
                raise Undecided("ragged array")
            return Arr((v.n,) + e.shape, lambda i: it.deref(v.at(i[0])).at(*i[1:]), dtype or e.dtype, fw)
    raise Undecided(f"array of {type(v).__name__}")


def stack(it, items, axis, fw, dtype=None):
    n = items[0].ndim
    if axis < 0:
        axis += n + 1
    sh = list(items[0].shape)
    for x in items[1:]:
        if x.ndim != n:
            raise Undecided("stack of different ranks")
        for a, b in zip(sh, x.shape):
            if a is not b:
                ar.SHAPE_OBL.append((a, b))
    dt = items[0].dtype
    for x in items[1:]:
        dt = join_dtype(dt, x.dtype)

    def f(idx):
        i = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        if tm.is_const(i):
            return items[tm.cval(i)].at(*rest)
        r = items[-1].at(*rest)
        for q in range(len(items) - 2, -1, -1):
            r = ite(tm.eq(i, const(q)), items[q].at(*rest), r)
        return r
    sh.insert(axis, const(len(items)))
    return Arr(tuple(sh), f, dtype or dt, fw)


def concat(it, items, axis, fw):
    n = items[0].ndim
    if axis < 0:
        axis += n
    dt = items[0].dtype
    for x in items[1:]:
        if x.ndim != n:
            raise Undecided("concatenate ranks")
        dt = join_dtype(dt, x.dtype)
        for k in range(n):
            if k != axis and x.shape[k] is not items[0].shape[k]:
                ar.SHAPE_OBL.append((items[0].shape[k], x.shape[k]))
    offs = [ZERO]
    for x in items:
        offs.append(add(offs[-1], x.shape[axis]))

    def f(idx):
        i = idx[axis]
        q = len(items) - 1
        r = items[q].at(*(idx[:axis] + (sub(i, offs[q]),) + idx[axis + 1:]))
        for q in range(len(items) - 2, -1, -1):
            r = ite(tm.lt(i, offs[q + 1]), items[q].at(*(idx[:axis] + (sub(i, offs[q]),) + idx[axis + 1:])), r)
        return r
    sh = list(items[0].shape)
    sh[axis] = offs[-1]
    return Arr(tuple(sh), f, dt, fw)


def nonneg(n):
    return n if tm.prove_ge0(n) else tm.mx(n, ZERO)


def shape_of(it, v):
    v = it.deref(v)
    if isinstance(v, Term):
        it.concretise(v, "array dimension")
        if v.op == "unk":
            raise Undecided(v.args[0])
        return (v,)
    if isinstance(v, (TupleV, ListV)):
        out = []
        for x in v.items:
            x = it.deref(x)
            if not isinstance(x, Term) or x.op == "unk":
                raise Undecided("shape element")
            it.concretise(x, "array dimension")
            out.append(x)
        return tuple(out)
    if isinstance(v, GatedV):
        a, b = shape_of(it, v.a), shape_of(it, v.b)
        if len(a) == len(b):
            return tuple(ite(v.c, x, y) for x, y in zip(a, b))
    if isinstance(v, Unknown):
        raise Undecided(v.reason)
    raise Undecided("shape")


def full_arr(shape, val, dt, fw):
    return Arr(shape, lambda idx: val, dt, fw)


def get(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def as_int(it, v, default=None):
    if v is None:
        return default
    v = it.deref(v)
    if isinstance(v, Term) and tm.is_const(v):
        c = tm.cval(v)
        if c is None:
            return None
        if isinstance(c, int):
            return c
    raise Undecided("symbolic axis")


def want(it, v, fw="np"):
    """array or scalar term operand"""
    v = it.deref(v)
    if isinstance(v, (Arr, Term)):
        if isinstance(v, Term) and v.op == "unk":
            raise Undecided(v.args[0])
        return v
    if isinstance(v, (ListV, TupleV, SeqV, RangeV, IterV)):
        return to_array(it, v, fw)
    if isinstance(v, Unknown):
        raise Undecided(v.reason)
    if isinstance(v, GatedV):
        g = gate(v.c, want(it, v.a, fw), want(it, v.b, fw))
        if isinstance(g, (Arr, Term)):
            return g
    raise Undecided(f"operand {type(v).__name__}")


def usc(t, g):
    return t if t.op == "unk" else g(t)


def unary(it, v, g, fw, dt=None, name=None):
    v = want(it, v, fw)
    if isinstance(v, Term):
        r = usc(v, g)
        if fw == "torch" and name in FLOATY and v.kind in ("i", "b") and not tm.is_const(r):
            r = tm.fn("lossy", r)
        return r
    d = v.dtype if dt is None else dt(v.dtype)
    if name in FLOATY and v.dtype in ("int", "bool"):
        d = deflt(v.fw if v.fw == "torch" else fw if fw == "torch" else "np")
    r = v.map(lambda t: usc(t, g))
    r.dtype = d
    r.fw = out_fw(v, fw)
    return lossy_wrap([v], d, r) if d in ("float32", "complex64") else r


def out_fw(v, fw):
    if fw == "np" and isinstance(v, Arr) and v.fw == "torch":
        return "torch"
    if fw == "np" and isinstance(v, Arr) and v.fw == "jnp":
        return "np"   # numpy function applied to a JAX array: host array
    return fw


FLOATY = {"sqrt", "exp", "log", "sin", "cos", "loggamma"}


def realdt(d):
    return {"complex128": "float64", "complex64": "float32"}.get(d, d)


def _host(it, v, fw):
    """value leaves the differentiable framework (numpy function on jax/torch data)"""
    return v


UN = {
    "sqrt": lambda t: tm.fn("sqrt", t), "exp": lambda t: tm.fn("exp", t), "log": lambda t: tm.fn("log", t),
    "conj": lambda t: tm.fn("conj", t), "conjugate": lambda t: tm.fn("conj", t),
    "real": lambda t: tm.fn("real", t), "imag": lambda t: tm.fn("imag", t),
    "abs": lambda t: tm.fn("abs", t), "absolute": lambda t: tm.fn("abs", t), "fabs": lambda t: tm.fn("abs", t),
    "ceil": lambda t: tm.fn("ceil", t), "floor": lambda t: tm.fn("floor", t), "trunc": lambda t: tm.fn("trunc", t), "fix": lambda t: tm.fn("trunc", t),
    "round": lambda t: tm.fn("rint", t), "rint": lambda t: tm.fn("rint", t), "around": lambda t: tm.fn("rint", t),
    "sign": lambda t: tm.fn("sign", t), "square": lambda t: mul(t, t), "negative": tm.neg, "reciprocal": lambda t: tm.div(ONE, t),
    "sin": lambda t: tm.fn("sin", t), "cos": lambda t: tm.fn("cos", t), "tan": lambda t: tm.fn("tan", t),
    "log2": lambda t: tm.div(tm.fn("log", t), const(math.log(2))), "log10": lambda t: tm.div(tm.fn("log", t), const(math.log(10))),
    "expm1": lambda t: sub(tm.fn("exp", t), ONE), "log1p": lambda t: tm.fn("log", add(t, ONE)),
    "logical_not": lambda t: tm.bnot(tm.truth(t)), "isnan": lambda t: tm.app("isnan", t, kind="b"), "isfinite": lambda t: tm.app("isfinite", t, kind="b"),
    "conj_physical": lambda t: tm.fn("conj", t), "resolve_conj": lambda t: t, "exp2": lambda t: tm.power(const(2.0), t), "positive": lambda t: t,
    "nan_to_num": lambda t: tm.app("nan_to_num", t, kind=t.kind), "angle": lambda t: tm.fn("angle", t), "gammaln": lambda t: tm.fn("loggamma", t), "lgamma": lambda t: tm.fn("loggamma", t),
}
UNDT = {"real": realdt, "imag": realdt, "abs": realdt, "absolute": realdt, "fabs": realdt, "logical_not": lambda d: "bool", "isnan": lambda d: "bool", "isfinite": lambda d: "bool", "angle": realdt}

BIN = {"add": (add, None), "subtract": (sub, None), "multiply": (mul, None), "mul": (mul, None), "divide": (tm.div, "div"), "true_divide": (tm.div, "div"), "div": (tm.div, "div"),
       "power": (tm.power, "pow"), "pow": (tm.power, "pow"), "float_power": (tm.power, "div"), "floor_divide": (tm.fdiv, None), "mod": (tm.mod, None), "remainder": (tm.mod, None), "fmod": (tm.mod, None),
       "maximum": (tm.mx, None), "minimum": (tm.mn, None), "fmax": (tm.mx, None), "fmin": (tm.mn, None),
       "sub": (sub, None)}
CMP = {"equal": tm.eq, "eq": tm.eq, "not_equal": tm.ne, "ne": tm.ne, "less": tm.lt, "lt": tm.lt, "less_equal": tm.le, "le": tm.le, "greater": lambda a, b: tm.lt(b, a), "gt": lambda a, b: tm.lt(b, a),
       "greater_equal": lambda a, b: tm.le(b, a), "ge": lambda a, b: tm.le(b, a), "logical_and": lambda a, b: tm.band(tm.truth(a), tm.truth(b)), "logical_or": lambda a, b: tm.bor(tm.truth(a), tm.truth(b)),
       "bitwise_and": lambda a, b: tm.band(tm.truth(a), tm.truth(b)), "bitwise_or": lambda a, b: tm.bor(tm.truth(a), tm.truth(b)),
       "isclose": lambda a, b: tm.eq(a, b)}

CONSTS = {"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan, "newaxis": None, "tau": math.tau, "Inf": math.inf}


def ext_attr(it, path):
    fw, _, nm = path.partition(".")
    if fw in FWS + ("math", "cmath") and nm in CONSTS:
        return const(CONSTS[nm])
    if path.startswith("np.random") or path.startswith("jax.random"):
        return ExtV(path)
    return ExtV(path)


# ---------------------------------------------------------------- framework functions

def fw_call(it, fw, nm, args, kw, path):
    A = lambda i, n=None, d=None: get(args, kw, i, n or f"#{i}", d)
    if nm in UN and nm != "round":
        x = A(0, "x") if A(0, "x") is not None else kw.get("input", kw.get("a"))
        name = "loggamma" if nm in ("gammaln", "lgamma") else nm
        r = unary(it, x, UN[nm], fw, UNDT.get(nm), name)
        return mark_host(it, r, x, fw)
    if nm in ("round", "around"):
        dec = as_int(it, A(1, "decimals"), 0)
        x = want(it, A(0, "a"), fw)
        if dec:
            s = const(float(10 ** dec))
            return ar.elementwise(lambda t: tm.div(tm.fn("rint", mul(t, s)), s), x, dtype=dt_of(x))
        return unary(it, x, lambda t: tm.fn("rint", t), fw)
    if nm in BIN and len(args) >= 2:
        f, tag = BIN[nm]
        a, b = want(it, args[0], fw), want(it, args[1], fw)
        if nm in ("mul",) and fw != "torch":
            raise Undecided(path)
        if "where" in kw or "out" in kw or "alpha" in kw:
            raise Undecided(f"{path} with where/out")
        if isinstance(a, Term) and isinstance(b, Term):
            if tag == "div":
                it.event("divide", den=b, num=a)
            return f(a, b)
        op = {"div": ast.Div(), "pow": ast.Pow()}.get(tag, ast.Add())
        r = it.deref(arr_binop(it, op, f, a, b))
        if isinstance(r, Arr):
            if nm == "float_power" and r.dtype in ("int", "bool"):
                r.dtype = "float64"
            r = r.with_(fw=fw if fw != "np" else r.fw)
        return mark_host(it, r, (args[0], args[1]), fw)
    if nm in CMP and len(args) >= 2:
        f = CMP[nm]
        a, b = want(it, args[0], fw), want(it, args[1], fw)
        r = ar.elementwise(f, a, b, dtype="bool")
        return r
    h = FW.get(nm)
    if h is not None:
        r = h(it, fw, args, kw)
        if fw == "np" and nm not in ("array", "asarray", "asanyarray", "ascontiguousarray"):
            r = mark_host(it, r, tuple(a for a in args if isinstance(a, Val)), fw)
        return r
    if nm in ("float64", "float32", "complex128", "complex64", "int32", "int64", "bool_", "int_", "float_", "complex_", "double", "uint8", "int8", "int16"):
        x = want(it, args[0], fw) if args else ZERO
        r = cast(it, x, _DT[nm])
        if isinstance(r, Term) and r.kind in ("i",) and _DT[nm].startswith("float"):
            r = tm.add(r, const(0.0)) if not tm.is_const(r) else const(float(tm.cval(r)))
        return r
    return None


def mark_host(it, r, xs, fw):
    """numpy function applied to traced/differentiable data: conversion to host"""
    if fw != "np":
        return r
    xs = xs if isinstance(xs, tuple) else (xs,)
    for x in xs:
        d = it.deref(x)
        if isinstance(d, Arr) and d.fw in ("jnp", "torch"):
            if isinstance(r, Arr):
                r2 = r.map(lambda t: tm.fn("host", t) if not tm.is_const(t) and t.op != "unk" else t)
                r2.fw = "np"
                return r2
    return r


def h_alloc(val):
    def h(it, fw, args, kw):
        if fw == "torch" and len(args) > 1:
            sh = tuple(it.deref(x) for x in args)
            dt = dtype_arg(it, kw, default=deflt(fw))
        else:
            shp = get(args, kw, 0, "shape", kw.get("size"))
            sh = shape_of(it, shp)
            dt = dtype_arg(it, kw, args if fw != "torch" else None, 1, deflt(fw))
        r = Arr(tuple(nonneg(s) for s in sh), lambda idx: val, dt, fw)
        for s in sh:
            it.event("alloc_dim", dim=s)
        if not sh:
            return val
        return r
    return h


def h_full(it, fw, args, kw):
    sh = shape_of(it, get(args, kw, 0, "shape", kw.get("size")))
    v = want(it, get(args, kw, 1, "fill_value"), fw)
    dt = dtype_arg(it, kw, args, 2, dt_of(v) if isinstance(v, Arr) else (kind_dtype(v.kind) if fw != "torch" else {"f": "float32", "c": "complex64", "i": "int", "b": "bool"}.get(v.kind)))
    if isinstance(v, Term):
        v = cast(it, v, dt) if dt in ("float32", "complex64", "int") else v
        return Arr(sh, lambda idx: v, dt, fw) if sh else v
    return bcast(it, v, sh, fw)


def h_like(val):
    def h(it, fw, args, kw):
        a = want(it, get(args, kw, 0, "a", kw.get("x", kw.get("input"))), fw)
        dt = dtype_arg(it, kw, args, 1 if val is not None else 2, dt_of(a))
        v = val if val is not None else it.deref(get(args, kw, 1, "fill_value"))
        if isinstance(a, Term):
            return v
        sh = a.shape
        if "shape" in kw:
            sh = shape_of(it, kw["shape"])
        return Arr(sh, lambda idx: v, dt, fw)
    return h


def h_empty(it, fw, args, kw):
    r = h_alloc(ZERO)(it, fw, args, kw)
    # uninitialised memory: reading an element that was never written is arbitrary
    if isinstance(r, Arr):
        tag = f"uninitialised@{it.site_str()}"
        k = dtype_kind(r.dtype)
        r2 = Arr(r.shape, lambda idx: tm.app(tag, *idx, kind=k), r.dtype, r.fw)
        return r2
    return r


def h_arange(it, fw, args, kw):
    a = [want(it, x, fw) for x in args]
    for n, k in (("start", 0), ("stop", 1), ("end", 1), ("step", 2)):
        if n in kw and len(a) <= k:
            while len(a) < k:
                a.append(ZERO)
            a.append(want(it, kw[n], fw))
    if not all(isinstance(x, Term) for x in a):
        raise Undecided("arange bounds")
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a[:3]
    kinds = [x.kind for x in (lo, hi, st)]
    isint = all(k in "ib" for k in kinds)
    dt = dtype_arg(it, kw, args, 3, "int" if isint else deflt(fw))
    if tm.is_const(st) and tm.cval(st) in (1, 1.0):
        n = sub(hi, lo) if isint else tm.fn("ceil", sub(hi, lo))
    elif isint and tm.is_const(st) and tm.cval(st) != 0:
        n = it.range_len(RangeV(lo, hi, st))
    else:
        n = tm.fn("ceil", tm.div(sub(hi, lo), st))
    n = nonneg(n)
    isf = dt in ("float64", "float32", "complex128", "complex64")

    def f(idx):
        return add(lo, mul(st, idx[0]))
    return Arr((n,), f, dt, fw)


def h_linspace(it, fw, args, kw):
    a, b = want(it, get(args, kw, 0, "start"), fw), want(it, get(args, kw, 1, "stop", kw.get("end")), fw)
    n = it.deref(get(args, kw, 2, "num", kw.get("steps", const(50))))
    ep = it.deref(kw.get("endpoint", TRUE))
    if not (isinstance(a, Term) and isinstance(b, Term) and tm.is_const(ep)):
        raise Undecided("linspace")
    den = sub(n, ONE) if tm.cval(ep) else n
    dt = dtype_arg(it, kw, None, None, deflt(fw))
    step = tm.div(sub(b, a), den)
    return Arr((n,), lambda i: add(a, mul(step, i[0])), dt, fw)


def h_array(it, fw, args, kw):
    v = get(args, kw, 0, "object", kw.get("a", kw.get("data")))
    dt = dtype_arg(it, kw, args, 1, None)
    d = it.deref(v)
    if isinstance(d, Arr) and fw == "np" and d.fw in ("jnp", "torch"):
        r = d.map(lambda t: tm.fn("host", t) if not tm.is_const(t) and t.op != "unk" else t)
        r.fw = "np"
        return cast(it, r, dt) if dt and dt != d.dtype else r
    if isinstance(d, Arr) and fw == "torch" :
        # torch.tensor(x) copies data out of the graph
        if d.fw == "torch":
            r = d.map(lambda t: tm.fn("detach", t) if not tm.is_const(t) and t.op != "unk" else t)
            return cast(it, r, dt) if dt and dt != d.dtype else r
    if isinstance(d, Term) and fw == "torch" and hostify(d) is not d:
        return cast(it, hostify(d, "detach"), dt)
    r = to_array(it, v, fw, dt)
    if isinstance(r, Arr) and dt and r.dtype != dt:
        r = cast(it, r, dt)
    return r


def h_Tensor(it, fw, args, kw):
    if len(args) != 1 or not isinstance(it.deref(args[0]), (Arr, ListV, TupleV, SeqV)):
        raise Undecided("torch.Tensor")
    return h_array(it, fw, args, {"dtype": const("float32")})


def h_asarray(it, fw, args, kw):
    v = get(args, kw, 0, "object", kw.get("a", kw.get("data")))
    dt = dtype_arg(it, kw, args, 1, None)
    d = it.deref(v)
    if isinstance(d, Arr) and d.fw == fw and (dt is None or dt == d.dtype):
        return v if not isinstance(v, Arr) else d
    return h_array(it, fw, args, kw) if not (isinstance(d, Arr) and fw == "torch" and d.fw == "torch") else cast(it, d, dt)


def h_from_numpy(it, fw, args, kw):
    v = args[0]
    d = it.deref(v)
    if isinstance(d, Arr):
        r = it.new_cell(d.with_(fw="torch"))
        root = it.root(v)
        if root is not None:
            it.meta[r.cid]["alias"] = root
            it.meta[r.cid]["origins"] = [it.meta[root]["origin"]] + list(it.meta[root].get("origins", ()))
        return r
    if isinstance(d, Unknown):
        return d
    if isinstance(d, Term):
        return d
    raise Undecided("from_numpy")


def seq_items(it, v):
    """list of arrays from a python sequence (known length) or (n, f)"""
    r = it.iter_of(v)
    if r is None:
        raise Undecided("sequence")
    return r


def h_stack(it, fw, args, kw):
    ax = as_int(it, get(args, kw, 1, "axis", kw.get("dim")), 0)
    r = seq_items(it, get(args, kw, 0, "arrays", kw.get("tensors")))
    if isinstance(r, list):
        items = [want(it, x, fw) for x in r]
        if all(isinstance(x, Term) for x in items):
            return to_array(it, ListV(items), fw)
        return stack(it, items, ax, fw)
    n, f = r
    k = tm.iv("k", n)
    e = it.deref(f(k))
    if isinstance(e, Term):
        return Arr((n,), lambda i: it.deref(f(i[0])), kind_dtype(e.kind), fw)
    if not isinstance(e, Arr) or any(k in s.fv for s in e.shape):
        raise Undecided("stack of ragged arrays")
    if ax < 0:
        ax += e.ndim + 1
    sh = list(e.shape)
    sh.insert(ax, n)
    return Arr(tuple(sh), lambda i: it.deref(f(i[ax])).at(*(i[:ax] + i[ax + 1:])), e.dtype, fw)


def h_concat(default_axis=0):
    def h(it, fw, args, kw):
        ax = as_int(it, get(args, kw, 1, "axis", kw.get("dim")), default_axis)
        r = seq_items(it, get(args, kw, 0, "arrays", kw.get("tensors")))
        if not isinstance(r, list):
            raise Undecided("concatenate of symbolic list")
        items = [want(it, x, fw) for x in r]
        if any(isinstance(x, Term) for x in items):
            raise Undecided("concatenate scalars")
        return concat(it, items, ax, fw)
    return h


def h_hstack(it, fw, args, kw):
    r = seq_items(it, args[0])
    items = [want(it, x, fw) for x in r] if isinstance(r, list) else None
    if items is None:
        raise Undecided("hstack")
    items = [x if isinstance(x, Arr) else Arr((ONE,), (lambda x: lambda i: x)(x), kind_dtype(x.kind), fw) for x in items]
    return concat(it, items, 0 if items[0].ndim == 1 else 1, fw)


def h_einsum(it, fw, args, kw):
    s = it.deref(args[0])
    if not (isinstance(s, Term) and tm.is_const(s) and isinstance(tm.cval(s), str)):
        raise Undecided("einsum subscripts")
    ops = list(args[1:])
    if len(ops) == 1:
        o = it.deref(ops[0])
        if isinstance(o, (ListV, TupleV)):
            ops = list(o.items)
    hs = ops
    ops = [want(it, o, fw) for o in ops]
    r = ar.einsum(tm.cval(s), ops, fw)
    if isinstance(r, Arr) and r.dtype in ("float32", "complex64"):
        r = lossy_wrap(ops, r.dtype, r)
    return mark_host(it, r, tuple(hs), fw)


def axis_of(it, args, kw, pos=1):
    v = get(args, kw, pos, "axis", kw.get("dim"))
    if v is None:
        return None
    v = it.deref(v)
    if isinstance(v, Term) and tm.is_const(v):
        return tm.cval(v)
    if isinstance(v, (TupleV, ListV)) and all(isinstance(x, Term) and tm.is_const(x) for x in v.items):
        return tuple(tm.cval(x) for x in v.items)
    raise Undecided("axis")


def reduction(how, dtf=None):
    def h(it, fw, args, kw):
        a = want(it, get(args, kw, 0, "a", kw.get("input")), fw)
        ax = axis_of(it, args, kw)
        keep = it.deref(kw.get("keepdims", kw.get("keepdim", FALSE)))
        dt = dtype_arg(it, kw, default=None)
        if isinstance(a, Term):
            return a
        if "where" in kw or "initial" in kw:
            raise Undecided("reduction with where/initial")
        a0 = a
        kd = tm.is_const(keep) and bool(tm.cval(keep))
        if ax is None:
            axes = list(range(a.ndim))
        elif isinstance(ax, tuple):
            axes = [x % a.ndim for x in ax]
        else:
            axes = [ax % a.ndim]
        for x in sorted(axes, reverse=True):
            a = ar.reduce_axis(a, x, how)
            if isinstance(a, Arr) and dtf:
                a.dtype = dtf(a.dtype)
        if kd:
            b = a

            def f(idx):
                if isinstance(b, Term):
                    return b
                return b.at(*[i for q, i in enumerate(idx) if q not in axes])
            a = Arr(tuple(ONE if q in axes else s for q, s in enumerate(a0.shape)), f, a0.dtype, a0.fw)
        if dt and isinstance(a, Arr):
            a = a.with_(dtype=dt)
        if isinstance(a, Arr):
            a = a.with_(fw=fw if fw != "np" else out_fw(a0, fw))
        return mark_host(it, a, args[0] if args else None, fw)
    return h


def _maxr(op):
    def how(v, T, b):
        return tm.mk_red(op, v, T, b)
    return how


def _anyall(op):
    def how(v, T, b):
        return tm.mk_red(op, v, T, tm.truth(b))
    return how


def _mean(v, T, b):
    return tm.div(tm.mk_sum(v, T, b), T)


def h_where(it, fw, args, kw):
    if len(args) < 3 and not ("x" in kw and "y" in kw):
        raise Undecided("one-argument where")
    c, a, b = want(it, args[0], fw), want(it, get(args, kw, 1, "x"), fw), want(it, get(args, kw, 2, "y"), fw)
    da, db = dt_of(a), dt_of(b)
    if isinstance(a, Arr) and isinstance(b, Term):
        dt = result_dtype(None, [a, b])
    elif isinstance(b, Arr) and isinstance(a, Term):
        dt = result_dtype(None, [b, a])
    else:
        dt = join_dtype(da, db)
        if fw == "torch" and isinstance(a, Term) and isinstance(b, Term):
            dt = {"float64": "float32", "complex128": "complex64"}.get(dt, dt)
    return ar.elementwise(lambda q, x, y: ite(tm.truth(q), x, y), c, a, b, dtype=dt) if not all(isinstance(x, Term) for x in (c, a, b)) else ite(tm.truth(c), a, b)


def h_roll(it, fw, args, kw):
    a = want(it, args[0], fw)
    sh = it.deref(get(args, kw, 1, "shift", kw.get("shifts")))
    ax = axis_of(it, args, kw, 2)
    if not isinstance(sh, Term):
        raise Undecided("roll shifts")
    if ax is None:
        if a.ndim != 1:
            raise Undecided("flattened roll")
        ax = 0
    ax %= a.ndim
    n = a.shape[ax]

    def f(idx):
        i = sub(idx[ax], sh)
        # (i mod n) with |shift| usually small
        if tm.is_const(sh) and tm.cval(sh) == -1:
            j = ite(tm.lt(i, n), i, sub(i, n))
        elif tm.is_const(sh) and tm.cval(sh) == 1:
            j = ite(tm.ge0(i), i, add(i, n))
        else:
            j = tm.mod(i, n)
        return a.at(*(idx[:ax] + (j,) + idx[ax + 1:]))
    return Arr(a.shape, f, a.dtype, fw if fw != "np" else a.fw)


def h_flip(axdef=None):
    def h(it, fw, args, kw):
        a = want(it, args[0], fw)
        ax = axis_of(it, args, kw, 1) if axdef is None else axdef
        v = get(args, kw, 1, "axis", kw.get("dims"))
        if axdef is None and v is not None:
            d = it.deref(v)
            if isinstance(d, (TupleV, ListV)):
                ax = tuple(tm.cval(x) for x in d.items)
        axes = range(a.ndim) if ax is None else [x % a.ndim for x in (ax if isinstance(ax, tuple) else (ax,))]
        axes = set(axes)
        return Arr(a.shape, lambda idx: a.at(*[sub(sub(a.shape[q], ONE), i) if q in axes else i for q, i in enumerate(idx)]), a.dtype, a.fw)
    return h


def h_diff(it, fw, args, kw):
    a = want(it, args[0], fw)
    n = as_int(it, get(args, kw, 1, "n"), 1)
    ax = as_int(it, get(args, kw, 2, "axis", kw.get("dim")), -1)
    if n != 1 or "prepend" in kw or "append" in kw:
        raise Undecided("diff")
    ax %= a.ndim
    sh = list(a.shape)
    sh[ax] = sub(sh[ax], ONE)

    def f(idx):
        nx = idx[:ax] + (add(idx[ax], ONE),) + idx[ax + 1:]
        return sub(a.at(*nx), a.at(*idx))
    return Arr(tuple(sh), f, a.dtype, a.fw if fw == "np" else fw)


def bcast(it, a, sh, fw):
    if isinstance(a, Term):
        return Arr(sh, lambda idx: a, kind_dtype(a.kind), fw)
    sh = tuple(sh)
    k = len(sh) - a.ndim
    full = []
    for q, s in enumerate(sh):
        if tm.is_const(s) and tm.cval(s) == -1 and q >= k:
            full.append(a.shape[q - k])
        else:
            full.append(s)
            if q >= k and a.shape[q - k] is not s and not (tm.is_const(a.shape[q - k]) and tm.cval(a.shape[q - k]) == 1):
                ar.SHAPE_OBL.append((a.shape[q - k], s))
    full = tuple(full)
    return Arr(full, lambda idx: ar.bat(a, idx, full), a.dtype, a.fw)


def h_broadcast_to(it, fw, args, kw):
    a = want(it, get(args, kw, 0, "array", kw.get("arr")), fw)
    sh = shape_of(it, get(args, kw, 1, "shape", kw.get("size")))
    return bcast(it, a, sh, fw)


def h_expand_dims(it, fw, args, kw):
    a = want(it, args[0], fw)
    ax = axis_of(it, args, kw, 1)
    return expand(a, ax)


def expand(a, ax):
    axes = ax if isinstance(ax, tuple) else (ax,)
    n = a.ndim + len(axes)
    axes = sorted(x % n for x in axes)
    sh = list(a.shape)
    for x in axes:
        sh.insert(x, ONE)
    return Arr(tuple(sh), lambda idx: a.at(*[i for q, i in enumerate(idx) if q not in axes]), a.dtype, a.fw)


def squeeze(a, ax=None):
    if ax is None:
        axes = [q for q, s in enumerate(a.shape) if tm.is_const(s) and tm.cval(s) == 1]
        if any(not tm.is_const(s) and not tm.prove_ge0(sub(s, const(2))) for s in a.shape):
            raise Undecided("squeeze of symbolic dims")
    else:
        axes = [x % a.ndim for x in (ax if isinstance(ax, tuple) else (ax,))]
    rest = [q for q in range(a.ndim) if q not in axes]

    def f(idx):
        m = dict(zip(rest, idx))
        return a.at(*[m.get(q, ZERO) for q in range(a.ndim)])
    if not rest:
        return f(())
    return Arr(tuple(a.shape[q] for q in rest), f, a.dtype, a.fw)


def h_squeeze(it, fw, args, kw):
    return squeeze(want(it, args[0], fw), axis_of(it, args, kw, 1))


def permute(a, perm):
    perm = [p % a.ndim for p in perm]

    def f(idx):
        base = [None] * a.ndim
        for o, p in enumerate(perm):
            base[p] = idx[o]
        return a.at(*base)
    return Arr(tuple(a.shape[p] for p in perm), f, a.dtype, a.fw)


def h_transpose(it, fw, args, kw):
    a = want(it, args[0], fw)
    if fw == "torch":
        p, q = as_int(it, args[1]), as_int(it, args[2])
        return swap(a, p, q)
    ax = axis_of(it, args, kw, 1) if len(args) > 1 or "axes" not in kw else tuple(tm.cval(x) for x in it.deref(kw["axes"]).items)
    return permute(a, ax if ax is not None else list(range(a.ndim))[::-1])


def swap(a, p, q):
    perm = list(range(a.ndim))
    p %= a.ndim
    q %= a.ndim
    perm[p], perm[q] = perm[q], perm[p]
    return permute(a, perm)


def h_swapaxes(it, fw, args, kw):
    return swap(want(it, args[0], fw), as_int(it, args[1]), as_int(it, args[2]))


def h_moveaxis(it, fw, args, kw):
    a = want(it, args[0], fw)
    s, d = as_int(it, args[1]) % a.ndim, as_int(it, args[2]) % a.ndim
    perm = [q for q in range(a.ndim) if q != s]
    perm.insert(d, s)
    return permute(a, perm)


def h_reshape(it, fw, args, kw):
    a = want(it, args[0], fw)
    sh = get(args, kw, 1, "newshape", kw.get("shape"))
    return ar.reshape(a, shape_of(it, sh)) if isinstance(a, Arr) else Arr(shape_of(it, sh), lambda i: a, kind_dtype(a.kind), fw)


def h_outer(it, fw, args, kw):
    a, b = want(it, args[0], fw), want(it, args[1], fw)
    return ar.einsum("i,j->ij", [a, b], ar.join_fw([a, b]) or fw)


def h_clip(it, fw, args, kw):
    a = want(it, args[0], fw)
    lo = get(args, kw, 1, "a_min", kw.get("min"))
    hi = get(args, kw, 2, "a_max", kw.get("max"))
    r = a
    for v, f in ((lo, tm.mx), (hi, tm.mn)):
        if v is None:
            continue
        x = want(it, v, fw)
        if isinstance(x, Term) and x.kind == "n":
            continue
        r = ar.elementwise(f, r, x, dtype=dt_of(a))
    return r


def h_complex(it, fw, args, kw):
    a, b = want(it, args[0], fw), want(it, args[1], fw)
    return ar.elementwise(lambda x, y: add(x, mul(const(1j), y)), a, b, dtype="complex64" if dt_of(a) == "float32" else "complex128")


def h_dot(it, fw, args, kw):
    return matmul(it, args[0], args[1])


def h_copy(it, fw, args, kw):
    a = want(it, args[0], fw)
    return a.with_() if isinstance(a, Arr) else a


def h_tile_repeat(it, fw, args, kw):
    raise Undecided("tile/repeat")


def h_meshgrid(it, fw, args, kw):
    arrs = [want(it, a, fw) for a in args]
    ij = kw.get("indexing")
    ij = it.deref(ij) if ij is not None else const("xy")
    if len(arrs) != 2 or not tm.is_const(ij):
        raise Undecided("meshgrid")
    a, b = arrs
    if tm.cval(ij) == "ij":
        sh = (a.shape[0], b.shape[0])
        return TupleV([it.box(Arr(sh, lambda i: a.at(i[0]), a.dtype, fw)), it.box(Arr(sh, lambda i: b.at(i[1]), b.dtype, fw))])
    sh = (b.shape[0], a.shape[0])
    return TupleV([it.box(Arr(sh, lambda i: a.at(i[1]), a.dtype, fw)), it.box(Arr(sh, lambda i: b.at(i[0]), b.dtype, fw))])


def h_pad(it, fw, args, kw):
    a = want(it, args[0], fw)
    pw = it.deref(get(args, kw, 1, "pad_width"))
    mode = it.deref(get(args, kw, 2, "mode", const("constant")))
    if not (tm.is_const(mode) and tm.cval(mode) == "constant"):
        raise Undecided("pad mode")
    cv = it.deref(kw.get("constant_values", ZERO))
    if not isinstance(cv, Term):
        raise Undecided("pad value")
    if isinstance(pw, Term):
        pads = [(pw, pw)] * a.ndim
    else:
        items = [it.deref(x) for x in pw.items]
        if all(isinstance(x, Term) for x in items):
            pads = [(items[0], items[-1])] * a.ndim
        else:
            pads = [tuple(it.deref(y) for y in x.items) for x in items]
            if len(pads) == 1:
                pads = pads * a.ndim
    sh = tuple(add(s, p[0], p[1]) for s, p in zip(a.shape, pads))

    def f(idx):
        base = [sub(i, p[0]) for i, p in zip(idx, pads)]
        c = tm.simp_cond(tm.band(*[tm.band(tm.ge0(b), tm.lt(b, s)) for b, s in zip(base, a.shape)]))
        return ite(c, a.at(*base), cv)
    return Arr(sh, f, a.dtype, a.fw)


def h_cumsum(it, fw, args, kw):
    a = want(it, args[0], fw)
    ax = axis_of(it, args, kw, 1)
    if ax is None:
        if a.ndim != 1:
            raise Undecided("flattened cumsum")
        ax = 0
    ax %= a.ndim
    n = a.shape[ax]

    def f(idx):
        v = tm.iv("c", add(idx[ax], ONE))
        return tm.mk_sum(v, add(idx[ax], ONE), a.at(*(idx[:ax] + (v,) + idx[ax + 1:])))
    return Arr(a.shape, f, a.dtype, a.fw)


def h_shape(it, fw, args, kw):
    a = want(it, args[0], fw)
    return TupleV(list(a.shape) if isinstance(a, Arr) else [])


def h_ndim(it, fw, args, kw):
    a = want(it, args[0], fw)
    return const(a.ndim if isinstance(a, Arr) else 0)


def h_eye(it, fw, args, kw):
    n = it.deref(args[0])
    m = it.deref(args[1]) if len(args) > 1 else n
    return Arr((n, m), lambda i: ite(tm.eq(i[0], i[1]), const(1.0), const(0.0)), dtype_arg(it, kw, default=deflt(fw)), fw)


def h_diag(it, fw, args, kw):
    a = want(it, args[0], fw)
    if a.ndim == 1:
        return Arr((a.shape[0], a.shape[0]), lambda i: ite(tm.eq(i[0], i[1]), a.at(i[0]), ZERO), a.dtype, a.fw)
    return Arr((tm.mn(a.shape[0], a.shape[1]),), lambda i: a.at(i[0], i[0]), a.dtype, a.fw)


def h_size(it, fw, args, kw):
    a = want(it, args[0], fw)
    ax = axis_of(it, args, kw, 1)
    if ax is not None:
        return a.shape[ax]
    return ar.prod_terms(a.shape)


def h_iscomplexobj(it, fw, args, kw):
    a = want(it, args[0], fw)
    return const(dt_of(a) in ("complex64", "complex128"))


def h_unsqueeze(it, fw, args, kw):
    return expand(want(it, args[0], fw), as_int(it, get(args, kw, 1, "dim")))


def h_tensordot(it, fw, args, kw):
    a, b = want(it, args[0], fw), want(it, args[1], fw)
    ax = it.deref(get(args, kw, 2, "axes", kw.get("dims", const(2))))
    if isinstance(ax, Term) and tm.is_const(ax):
        k = tm.cval(ax)
        aa = list(range(a.ndim - k, a.ndim))
        bb = list(range(k))
    elif isinstance(ax, (TupleV, ListV)):
        x, y = [it.deref(q) for q in ax.items]
        g = lambda q: [tm.cval(q)] if isinstance(q, Term) else [tm.cval(it.deref(z)) for z in q.items]
        aa, bb = g(x), g(y)
    else:
        raise Undecided("tensordot axes")
    L = "abcdefghijklmnop"
    la = list(L[: a.ndim])
    lb = list(L[a.ndim: a.ndim + b.ndim])
    for p, q in zip(aa, bb):
        lb[q % b.ndim] = la[p % a.ndim]
    con = {la[p % a.ndim] for p in aa}
    out = [c for c in la if c not in con] + [c for c in lb if c not in con]
    return ar.einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), [a, b], ar.join_fw([a, b]) or fw)


def h_stopgrad(it, fw, args, kw):
    return wrap_fn(it, args[0], "detach")


def wrap_fn(it, v, name):
    d = it.deref(v)
    if isinstance(d, Arr):
        r = d.map(lambda t: tm.fn(name, t) if not tm.is_const(t) and t.op != "unk" else t)
        return r
    if isinstance(d, Term):
        return tm.fn(name, d) if not tm.is_const(d) and d.op != "unk" else d
    if isinstance(d, TupleV):
        return TupleV([wrap_fn(it, x, name) for x in d.items])
    if isinstance(d, ListV):
        return it.new_cell(ListV([it.box(wrap_fn(it, x, name)) for x in d.items]))
    if isinstance(d, SeqV):
        return it.new_cell(SeqV(d.n, lambda k: wrap_fn(it, d.at(k), name)))
    return d


def h_heaviside(it, fw, args, kw):
    a, b = want(it, args[0], fw), want(it, args[1], fw)
    return ar.elementwise(lambda x, h: ite(tm.gt0(x), ONE, ite(tm.eq(x, ZERO), h, ZERO)), a, b, dtype="float64")


def h_atleast(nd):
    def h(it, fw, args, kw):
        a = want(it, args[0], fw)
        if isinstance(a, Term):
            return Arr((ONE,) * nd, lambda i: a, kind_dtype(a.kind), fw)
        if a.ndim >= nd:
            return a
        return expand(a, tuple(range(nd - a.ndim)))
    return h


def h_take(it, fw, args, kw):
    a, i = want(it, args[0], fw), want(it, args[1], fw)
    ax = axis_of(it, args, kw, 2)
    if ax is None:
        if a.ndim != 1:
            raise Undecided("flattened take")
        ax = 0
    ax %= a.ndim
    return ar.take(a, IndexSpec(a.shape, [SliceV(None, None, None)] * ax + [i]))


def h_vander(it, fw, args, kw):
    raise Undecided("vander")


FW = {
    "zeros": h_alloc(ZERO), "ones": h_alloc(ONE), "empty": h_empty, "full": h_full,
    "zeros_like": h_like(ZERO), "ones_like": h_like(ONE), "full_like": h_like(None), "empty_like": h_like(ZERO),
    "arange": h_arange, "linspace": h_linspace, "array": h_array, "asarray": h_asarray, "tensor": h_array, "Tensor": h_Tensor, "FloatTensor": h_Tensor, "as_tensor": h_asarray, "ascontiguousarray": h_asarray, "asanyarray": h_asarray,
    "from_numpy": h_from_numpy, "stack": h_stack, "concatenate": h_concat(), "concat": h_concat(), "cat": h_concat(), "hstack": h_hstack, "vstack": h_stack,
    "einsum": h_einsum, "sum": reduction(lambda v, T, b: tm.mk_sum(v, T, b)), "prod": reduction(lambda v, T, b: tm.mk_prod(v, T, b)), "mean": reduction(_mean),
    "max": reduction(_maxr("maxr")), "amax": reduction(_maxr("maxr")), "min": reduction(_maxr("minr")), "amin": reduction(_maxr("minr")),
    "any": reduction(_anyall("any"), lambda d: "bool"), "all": reduction(_anyall("all"), lambda d: "bool"), "where": h_where, "roll": h_roll,
    "flip": h_flip(), "flipud": h_flip(0), "fliplr": h_flip(1), "diff": h_diff, "broadcast_to": h_broadcast_to, "expand_dims": h_expand_dims, "squeeze": h_squeeze,
    "transpose": h_transpose, "permute_dims": h_transpose, "swapaxes": h_swapaxes, "moveaxis": h_moveaxis, "reshape": h_reshape, "outer": h_outer, "clip": h_clip, "clamp": h_clip,
    "complex": h_complex, "dot": h_dot, "matmul": h_dot, "inner": h_dot, "copy": h_copy, "clone": h_copy, "meshgrid": h_meshgrid, "pad": h_pad, "cumsum": h_cumsum,
    "shape": h_shape, "ndim": h_ndim, "eye": h_eye, "identity": h_eye, "diag": h_diag, "size": h_size, "iscomplexobj": h_iscomplexobj, "is_complex": h_iscomplexobj, "unsqueeze": h_unsqueeze,
    "tensordot": h_tensordot, "heaviside": h_heaviside, "atleast_1d": h_atleast(1), "atleast_2d": h_atleast(2), "take": h_take, "broadcast_arrays": None,
}
FW = {k: v for k, v in FW.items() if v}


# ---------------------------------------------------------------- external calls

def call_ext(it, path, args, kw):
    from . import s2model
    if it.trace_jit:
        fw, _, nm = path.partition(".")
        if fw in ("np", "math", "torch") or path.startswith("scipy") or path.startswith("operator.index") or (fw == "jnp" and nm in ("arange", "eye", "tri")):
            for x in list(args) + list(kw.values()):
                x = it.deref(x) if isinstance(x, (Val, Term)) else x
                if isinstance(x, Term):
                    it.concretise(x, f"argument of {path}")
                elif isinstance(x, Arr) and x.fw == "jnp" and fw in ("np", "math", "torch") and it.jit_depth():
                    it.event("jit_host", what=path)
    r = s2model.call(it, path, args, kw)
    if r is not None:
        return r
    if path in NONDET:
        return nondet(it, path, args, kw)
    fw, _, nm = path.partition(".")
    if fw in FWS:
        if nm in ("linalg.norm", "random.rand", "random.randn", "random.default_rng", "fft.fft"):
            raise Undecided(path)
        if nm == "vectorize":
            f = args[0]
            return vec_fn(f)
        if nm == "no_grad" or nm == "set_grad_enabled" or nm == "inference_mode" or nm == "enable_grad":
            if nm == "set_grad_enabled" and args and it.deref(args[0]) is FALSE:
                return ExtV("torch.no_grad")
            return ExtV(path)
        if nm in ("iinfo", "finfo", "seterr", "errstate", "set_printoptions", "set_default_dtype", "manual_seed"):
            if nm == "set_default_dtype":
                it.event("global_config", what=path)
            return ExtV(path + "()")
        if nm == "ndindex":
            raise Undecided(path)
        if nm == "vdot":
            raise Undecided(path)
        if nm == "dtype":
            return DtypeV(parse_dtype(it, args[0]), fw)
        if nm == "result_type" or nm == "promote_types":
            raise Undecided(path)
        if nm.startswith("add.") or nm.startswith("multiply."):
            raise Undecided(path)
        r = fw_call(it, fw, nm, args, kw, path)
        if r is not None:
            return r
        return it.unknown(f"unmodelled function {path}")
    h = EXT.get(path)
    if h is not None:
        return h(it, args, kw)
    if path in ("jax.jit", "jax.api.jit"):
        if args:
            f = args[0]
            if isinstance(f, FuncV):
                g = f.copy()
                g.jit = it.static_names(g, kw)
                return g
            return f
        return PartialV(ExtV(path), [], kw)
    if path in ("functools.partial",):
        f = args[0]
        if isinstance(f, ExtV) and f.path in ("jax.jit",) and len(args) == 1:
            return PartialV(f, [], dict(kw))
        return PartialV(f, list(args[1:]), dict(kw))
    if path in ("functools.lru_cache", "functools.cache"):
        if args and isinstance(args[0], FuncV):
            g = args[0].copy()
            g.cached = True
            return g
        return ExtV("functools.lru_cache")
    if path == "functools.wraps":
        inner = it.deref(args[0]) if args else None

        def wrap(it, a, k):
            w = it.deref(a[0])
            if isinstance(w, FuncV) and isinstance(inner, FuncV):
                w = w.copy()
                w.wrapped, w.name = inner, inner.name
                return w
            return a[0]
        return BuiltinV("wraps", wrap)
    if path == "functools.reduce":
        return f_reduce(it, args, kw)
    if path in ("typing.cast",):
        return args[1]
    if path in ("logging.getLogger", "warnings.catch_warnings", "logging.Logger.getChild"):
        return ExtV("logging.Logger")
    if path.startswith("warnings.") or path.startswith("logging") or path.startswith("jax.debug"):
        return NONE
    if path.startswith("jax.config") or path.endswith("config.update"):
        it.event("global_config", what=path)
        return NONE
    if path.startswith("typing.") or path.startswith("dataclasses.") or path.startswith("collections.namedtuple"):
        return ExtV(path + "()")
    return it.unknown(f"unmodelled call {path}")


NONDET = {f"np.random.{n}" for n in ("rand", "randn", "random", "normal", "uniform", "standard_normal", "random_sample", "randint", "choice", "permutation")}
NONDET |= {f"torch.{n}" for n in ("rand", "randn", "randn_like", "rand_like", "randint", "randperm")}
NONDET |= {f"random.{n}" for n in ("random", "uniform", "randint", "gauss", "normalvariate", "choice", "randrange")}
NONDET |= {f"time.{n}" for n in ("time", "perf_counter", "monotonic", "process_time", "time_ns", "perf_counter_ns")}


def nondet(it, path, args, kw):
    """a value that changes from call to call"""
    nm = path.rsplit(".", 1)[1]
    sh = None
    try:
        if nm in ("rand", "randn"):
            sh = tuple(shape_of(it, args[0]) if len(args) == 1 else [x for a in args for x in shape_of(it, a)])
        elif nm.endswith("_like"):
            sh = it.deref(args[0]).shape
        elif path.startswith("np.random"):
            sz = kw.get("size", args[2] if nm in ("normal", "uniform", "randint") and len(args) > 2 else args[0] if nm in ("random", "random_sample", "standard_normal") and args else None)
            sh = shape_of(it, sz) if sz is not None else None
    except (Undecided, AttributeError, IndexError):
        return it.unknown(f"unmodelled call {path}")
    if sh:
        return it.box(Arr(sh, lambda i: tm.elem("nondet:" + path, *i, kind="f"), "float32" if path.startswith("torch") else "float64", "torch" if path.startswith("torch") else "np"))
    return tm.elem("nondet:" + path, kind="f")


def vec_fn(f):
    def h(it, args, kw):
        ops = [want(it, a, "np") for a in args]
        arrs = [o for o in ops if isinstance(o, Arr)]
        if not arrs:
            return it.call(f, args, kw, None)
        shape = ar.bshape([a.shape for a in arrs])
        vs = tuple(tm.iv("v", s) for s in shape)
        r = it.deref(it.call(f, [ar.bat(o, vs, shape) for o in ops], kw, None))
        if not isinstance(r, Term):
            raise Undecided("vectorize")
        return Arr(shape, lambda idx: tm.subst(r, dict(zip(vs, idx))), kind_dtype(r.kind), "np")
    return BuiltinV("vectorized", h)


def x_vmap(it, args, kw):
    f = args[0]
    inax = it.deref(kw.get("in_axes", args[1] if len(args) > 1 else ZERO))
    outax = it.deref(kw.get("out_axes", ZERO))

    def h(it, a, k):
        axes = inax.items if isinstance(inax, (TupleV, ListV)) else [inax] * len(a)
        n = None
        ops = []
        for x, axx in zip(a, axes):
            axx = it.deref(axx)
            d = it.deref(x)
            if isinstance(axx, Term) and axx.kind == "n":
                ops.append(("c", x))
                continue
            if not isinstance(d, Arr):
                raise Undecided("vmap operand")
            q = tm.cval(axx) % d.ndim
            n = d.shape[q] if n is None else n
            ops.append(("m", d, q))
        v = tm.iv("b", n)
        call = []
        for o in ops:
            if o[0] == "c":
                call.append(o[1])
            else:
                call.append(ar.take(o[1], IndexSpec(o[1].shape, [SliceV(None, None, None)] * o[2] + [v])))
        r = it.deref(it.call(f, call, k, None))

        def lift(r):
            r = it.deref(r)
            if isinstance(r, Term):
                return Arr((n,), lambda i: tm.subst(r, {v: i[0]}), kind_dtype(r.kind), "jnp")
            if isinstance(r, Arr):
                if not (tm.is_const(outax) and tm.cval(outax) == 0):
                    raise Undecided("vmap out_axes")
                vs, b = r.inst()
                return Arr((n,) + r.shape, lambda i: tm.subst(b, {v: i[0], **dict(zip(vs, i[1:]))}), r.dtype, "jnp")
            if isinstance(r, TupleV):
                return TupleV([lift(x) for x in r.items])
            raise Undecided("vmap result")
        return lift(r)
    return BuiltinV("vmapped", h)


def x_fori(it, args, kw):
    lo, hi, body, init = [get(args, kw, i, n) for i, n in enumerate(("lower", "upper", "body_fun", "init_val"))]
    lo, hi = it.deref(lo), it.deref(hi)
    fr = it.frames[-1]
    nm = f"@fori{it.ncell}_{it.nodes}"
    it.st.scopes[fr.sid][nm] = init
    T = sub(hi, lo)

    cur = {}

    def bind(t):
        cur["i"] = add(lo, t)

    def run():
        v = it.call(body, [cur["i"], it.st.scopes[fr.sid][nm]], {}, None)
        it.st.scopes[fr.sid][nm] = v
    node = ast.parse(f"pass").body[0]
    it.loop(T, bind, run, node)
    return it.st.scopes[fr.sid].pop(nm)


def x_cond(it, args, kw):
    p = it.truth(args[0])
    tf, ff = args[1], args[2]
    ops = list(args[3:])
    if p.op == "const":
        return it.call(tf if p.args[0] else ff, ops, {}, None)
    return it.call(GatedV(p, tf, ff), ops, {}, None)


def x_lax_select(it, args, kw):
    return h_where(it, "jnp", args, kw)


def x_scan(it, args, kw):
    raise Undecided("lax.scan")


def x_math_log(it, args, kw):
    x = want(it, args[0])
    r = tm.fn("log", x)
    if len(args) > 1:
        r = tm.div(r, tm.fn("log", want(it, args[1])))
    return r


def m1(name):
    def h(it, args, kw):
        x = want(it, args[0])
        if isinstance(x, Arr):
            raise Undecided("math on array")
        return UN[name](x) if name in UN else tm.fn(name, x)
    return h


def x_prod(it, args, kw):
    r = it.iter_of(args[0])
    start = it.deref(kw.get("start", ONE))
    if isinstance(r, list):
        return mul(start, *[want(it, x) for x in r])
    n, f = r
    v = tm.iv("r", n)
    return mul(start, tm.mk_prod(v, n, want(it, f(v))))


def f_reduce(it, args, kw):
    f = args[0]
    r = it.iter_of(args[1])
    if isinstance(r, list):
        items = list(r)
        acc = args[2] if len(args) > 2 else items.pop(0)
        for x in items:
            acc = it.call(f, [acc, x], {}, None)
        return acc
    if len(args) < 3:
        raise Undecided("reduce")
    n, g = r
    fr = it.frames[-1]
    nm = f"@red{it.ncell}_{it.nodes}"
    it.st.scopes[fr.sid][nm] = args[2]
    cur = {}

    def bind(t):
        cur["x"] = g(t)

    def run():
        it.st.scopes[fr.sid][nm] = it.call(f, [it.st.scopes[fr.sid][nm], cur["x"]], {}, None)
    it.loop(n, bind, run, ast.parse("pass").body[0])
    return it.st.scopes[fr.sid].pop(nm)


def x_binom(it, args, kw):
    a, b = want(it, args[0]), want(it, args[1])
    return ar.elementwise(lambda x, y: tm.fn("binom", x, y), a, b, dtype="float64")


def x_fact(it, args, kw):
    a = want(it, args[0])
    return ar.elementwise(lambda x: tm.fn("rint", tm.fn("exp", tm.fn("loggamma", add(x, ONE)))), a, dtype="float64") if isinstance(a, Arr) else tm.fn("rint", tm.fn("exp", tm.fn("loggamma", add(a, ONE))))


def x_product(it, args, kw):
    its = [it.iter_of(a) for a in args]
    if all(isinstance(r, list) for r in its):
        out = [[]]
        for r in its:
            out = [o + [x] for o in out for x in r]
        return it.new_cell(ListV([TupleV(o) for o in out]))
    if len(its) == 2:
        n2, f2 = its[1] if isinstance(its[1], tuple) else (const(len(its[1])), lambda k: it.seq_get(ListV(its[1]), k))
        n1, f1 = its[0] if isinstance(its[0], tuple) else (const(len(its[0])), lambda k: it.seq_get(ListV(its[0]), k))
        return IterV(mul(n1, n2), lambda k: TupleV([f1(tm.fdiv(k, n2)), f2(tm.mod(k, n2))]))
    raise Undecided("itertools.product")


def x_chain(it, args, kw):
    r = it.new_cell(ListV([]))
    for a in args:
        it.extend(r, a)
    return r


def x_count(it, args, kw):
    raise Undecided("itertools.count")


def loggamma_real(it, args, kw):
    """scipy.special.loggamma: nan for negative real arguments, unlike gammaln"""
    x = args[0]
    d = it.deref(x)
    return unary(it, x, lambda t: tm.fn("loggamma_r", t), "np", None, "loggamma")


def loggamma_call(it, args, kw):
    x = args[0]
    d = it.deref(x)
    return unary(it, x, lambda t: tm.fn("loggamma", t), "jnp" if isinstance(d, Arr) and d.fw == "jnp" else "np", None, "loggamma")


EXT = {
    "math.ceil": m1("ceil"), "math.floor": m1("floor"), "math.sqrt": m1("sqrt"), "math.exp": m1("exp"), "math.log": x_math_log, "math.trunc": m1("trunc"),
    "math.fabs": m1("abs"), "math.log2": m1("log2"), "math.log10": m1("log10"), "math.lgamma": m1("loggamma"), "math.cos": m1("cos"), "math.sin": m1("sin"), "math.prod": x_prod,
    "math.pow": lambda it, a, k: tm.power(want(it, a[0]), want(it, a[1])), "math.comb": x_binom, "math.factorial": x_fact,
    "math.isclose": lambda it, a, k: tm.eq(want(it, a[0]), want(it, a[1])), "math.fsum": lambda it, a, k: builtin("sum").fn(it, a, k),
    "math.isfinite": lambda it, a, k: tm.app("isfinite", want(it, a[0]), kind="b"), "math.isnan": lambda it, a, k: tm.app("isnan", want(it, a[0]), kind="b"),
    "math.gamma": lambda it, a, k: tm.fn("exp", tm.fn("loggamma", want(it, a[0]))), "math.copysign": lambda it, a, k: tm.app("copysign", want(it, a[0]), want(it, a[1]), kind="f"),
    "scipy.special.loggamma": loggamma_real, "scipy.special.gammaln": loggamma_call, "jax.scipy.special.gammaln": loggamma_call,
    "jax.lax.lgamma": loggamma_call, "scipy.special.comb": x_binom, "scipy.special.binom": x_binom, "scipy.special.factorial": x_fact,
    "jax.vmap": x_vmap, "jax.lax.fori_loop": x_fori, "jax.lax.cond": x_cond, "jax.lax.select": x_lax_select, "jax.lax.scan": x_scan,
    "jax.lax.stop_gradient": lambda it, a, k: wrap_fn(it, a[0], "detach"), "jax.lax.conj": lambda it, a, k: fw_call(it, "jnp", "conj", a, k, ""),
    "jax.device_put": lambda it, a, k: a[0], "jax.device_get": lambda it, a, k: wrap_fn(it, a[0], "host"), "jax.block_until_ready": lambda it, a, k: a[0],
    "jax.checkpoint": lambda it, a, k: a[0], "jax.named_scope": lambda it, a, k: ExtV("jax.named_scope()"),
    "copy.copy": lambda it, a, k: shallow_copy(it, a[0]), "copy.deepcopy": lambda it, a, k: shallow_copy(it, a[0], True),
    "itertools.product": x_product, "itertools.chain": x_chain, "operator.add": lambda it, a, k: it.binop(ast.Add(), a[0], a[1]), "operator.mul": lambda it, a, k: it.binop(ast.Mult(), a[0], a[1]),
}


def shallow_copy(it, v, deep=False):
    d = it.deref(v)
    if isinstance(d, Arr):
        return it.box(d.with_())
    if isinstance(d, ListV):
        return it.new_cell(ListV([shallow_copy(it, x, True) if deep else x for x in d.items]))
    if isinstance(d, (SeqV,)):
        return it.new_cell(SeqV(d.n, d.f))
    if isinstance(d, DictV):
        return it.new_cell(DictV(dict(d.items)))
    if isinstance(d, TupleV) and deep:
        return TupleV([shallow_copy(it, x, True) for x in d.items])
    return d


# ---------------------------------------------------------------- builtins

def b_len(it, a, k):
    return it.seq_len(a[0])


def b_range(it, a, k):
    v = [it.deref(x) for x in a]
    for x in v:
        if isinstance(x, Unknown):
            raise Undecided(x.reason)
        if not isinstance(x, Term):
            raise Undecided("range bound")
        if x.op == "unk":
            raise Undecided(x.args[0])
    for x in v:
        it.event("range", n=x)
        it.concretise(x, "loop bound")
        if x.kind == "f":
            it.event("range_float", n=x)
    if len(v) == 1:
        return RangeV(ZERO, v[0], ONE)
    if len(v) == 2:
        return RangeV(v[0], v[1], ONE)
    return RangeV(*v[:3])


def minmax(op):
    f = tm.mn if op == "min" else tm.mx

    def h(it, a, k):
        if len(a) == 1:
            r = it.iter_of(a[0])
            if isinstance(r, list):
                vals = r
            elif r is None:
                raise Undecided(op)
            else:
                n, g = r
                v = tm.iv("r", n)
                return tm.mk_red("minr" if op == "min" else "maxr", v, n, want(it, g(v)))
        else:
            vals = a
        if "key" in k:
            raise Undecided(op)
        vals = [want(it, x) for x in vals]
        if not all(isinstance(x, Term) for x in vals):
            raise Undecided(f"{op} of arrays")
        for x in vals:
            it.concretise(x, f"argument of {op}()")
        return f(*vals)
    return h


def b_abs(it, a, k):
    v = it.deref(a[0])
    fw = v.fw if isinstance(v, Arr) else "np"
    return boxr(it, unary(it, a[0], UN["abs"], fw, realdt))


def boxr(it, r):
    return it.box(r) if isinstance(r, Arr) else r


def b_int(it, a, k):
    v = it.deref(a[0]) if a else ZERO
    it.concretise(v, "argument of int()")
    if isinstance(v, Arr) and it.jit_depth() and v.fw == "jnp":
        it.event("jit_host", what="int()")
    if isinstance(v, Arr) and all(tm.is_const(s) and tm.cval(s) == 1 for s in v.shape):
        v = v.at(*[ZERO] * v.ndim)
    if isinstance(v, Term):
        if v.op == "unk":
            return v
        if v.kind == "b":
            return ite(v, ONE, ZERO)
        if v.kind == "s":
            return tm.app("int", v, kind="i")
        if v.kind == "i":
            return v
        return tm.fn("trunc", v)
    raise Undecided("int()")


def b_float(it, a, k):
    v = it.deref(a[0]) if a else ZERO
    it.concretise(v, "argument of float()")
    if isinstance(v, Arr) and it.jit_depth() and v.fw == "jnp":
        it.event("jit_host", what="float()")
    if isinstance(v, Arr) and all(tm.is_const(s) and tm.cval(s) == 1 for s in v.shape):
        v = tm.fn("host", v.at(*[ZERO] * v.ndim))
    if isinstance(v, Term):
        if v.op == "const" and isinstance(tm.cval(v), (int, bool)):
            return const(float(tm.cval(v)))
        if v.kind == "b":
            return ite(v, const(1.0), const(0.0))
        return hostify(v)
    raise Undecided("float()")


def b_complex(it, a, k):
    vs = [want(it, x) for x in a]
    if len(vs) == 1:
        return mul(vs[0], const(1 + 0j)) if tm.is_const(vs[0]) else hostify(vs[0])
    return add(vs[0], mul(const(1j), vs[1]))


def b_bool(it, a, k):
    return it.truth(a[0])


def iterpair(it, v):
    r = it.iter_of(v)
    if r is None:
        raise Undecided("iteration")
    return r


def b_enumerate(it, a, k):
    r = iterpair(it, a[0])
    s = it.deref(get(a, k, 1, "start", ZERO))
    if isinstance(r, list):
        return TupleV([TupleV([add(s, const(i)), x]) for i, x in enumerate(r)])
    n, f = r
    return IterV(n, lambda t: TupleV([add(s, t), f(t)]))


def b_zip(it, a, k):
    rs = [iterpair(it, x) for x in a]
    if all(isinstance(r, list) for r in rs):
        return TupleV([TupleV(list(x)) for x in zip(*rs)])
    ns, fs = [], []
    for r in rs:
        if isinstance(r, list):
            L = ListV(r)
            ns.append(const(len(r)))
            fs.append((lambda L: (lambda t: it.seq_get(L, t)))(L))
        else:
            ns.append(r[0])
            fs.append(r[1])
    n = ns[0]
    for m in ns[1:]:
        if m is not n:
            n = tm.mn(n, m)
    return IterV(n, lambda t: TupleV([f(t) for f in fs]))


def b_reversed(it, a, k):
    r = iterpair(it, a[0])
    if isinstance(r, list):
        return TupleV(list(reversed(r)))
    n, f = r
    return IterV(n, lambda t: f(sub(sub(n, ONE), t)))


def b_map(it, a, k):
    r = iterpair(it, a[1])
    if len(a) > 2:
        z = b_zip(it, a[1:], {})
        r = iterpair(it, z)
        call = lambda x: it.call(a[0], list(it.deref(x).items), {}, None)
    else:
        call = lambda x: it.call(a[0], [x], {}, None)
    if isinstance(r, list):
        return it.new_cell(ListV([call(x) for x in r]))
    return via_loop(it, r, call)


def via_loop(it, r, call):
    """list built by applying call to each element"""
    n, f = r
    out = it.new_cell(ListV([]))
    fr = it.frames[-1]
    cur = {}
    nm = f"@map{out.cid}"
    it.st.scopes[fr.sid][nm] = out

    def bind(t):
        cur["x"] = f(t)

    def run():
        v = call(cur["x"])
        it.write_quiet(out, it.seq_append(it.deref(out), v))
    it.loop(n, bind, run, ast.parse("pass").body[0])
    it.st.scopes[fr.sid].pop(nm, None)
    return out


def b_filter(it, a, k):
    raise Undecided("filter")


def b_sum(it, a, k):
    start = it.deref(get(a, k, 1, "start", ZERO))
    r = iterpair(it, a[0])
    if isinstance(r, list):
        acc = start
        for x in r:
            acc = it.binop(ast.Add(), acc, x)
        return acc
    n, f = r
    v = tm.iv("r", n)
    e = it.deref(f(v))
    if isinstance(e, Term) and isinstance(start, Term):
        if e.kind == "b":
            e = ite(e, ONE, ZERO)
        return add(start, tm.mk_sum(v, n, e))
    if isinstance(e, Arr):
        vs, b = e.inst()
        if any(v in s.fv for s in e.shape):
            raise Undecided("sum of ragged arrays")
        s = tm.mk_sum(v, n, b)
        r = Arr(e.shape, lambda idx: tm.subst(s, dict(zip(vs, idx))), e.dtype, e.fw)
        return it.binop(ast.Add(), start, r)
    raise Undecided("sum")


def b_list(it, a, k):
    if not a:
        return it.new_cell(ListV([]))
    r = iterpair(it, a[0])
    if isinstance(r, list):
        return it.new_cell(ListV(list(r)))
    n, f = r
    return it.new_cell(SeqV(nonneg(n), lambda t: f(t)))


def b_tuple(it, a, k):
    if not a:
        return TupleV([])
    r = iterpair(it, a[0])
    if isinstance(r, list):
        return TupleV(list(r))
    n, f = r
    return SeqV(nonneg(n), lambda t: f(t), True)


def b_dict(it, a, k):
    d = {}
    if a:
        x = it.deref(a[0])
        if isinstance(x, DictV):
            d.update(x.items)
        else:
            r = iterpair(it, a[0])
            if not isinstance(r, list):
                raise Undecided("dict()")
            for p in r:
                p = it.deref(p)
                kk = it.dict_key([it.deref(p.items[0])])
                if kk is None:
                    raise Undecided("dict key")
                d[kk] = p.items[1]
    d.update(k)
    return it.new_cell(DictV(d))


def b_isinstance(it, a, k):
    v = it.deref(a[0])
    t = it.deref(a[1])
    ts = t.items if isinstance(t, (TupleV, ListV)) else [t]

    def one(t):
        nm = t.name if isinstance(t, (BuiltinV, ClassV)) else t.path if isinstance(t, ExtV) else None
        if nm is None:
            return None
        if isinstance(v, Term):
            if nm == "str":
                return v.kind == "s"
            if nm == "int":
                return v.kind in ("i", "b") if v.kind != "?" else None
            if nm == "float":
                return v.kind == "f" if v.kind in "ifcbsn" else None
            if nm == "complex":
                return v.kind == "c"
            if nm == "bool":
                return v.kind == "b"
            if nm in ("list", "tuple", "dict") or "ndarray" in nm or "Tensor" in nm or "Array" in nm:
                return False if v.kind != "?" else None
            return None
        if isinstance(v, Arr):
            if nm in ("np.ndarray",):
                return v.fw == "np"
            if nm in ("torch.Tensor",):
                return v.fw == "torch"
            if nm in ("jnp.ndarray", "jax.Array"):
                return v.fw == "jnp"
            if nm in ("list", "tuple", "dict", "str", "int", "float"):
                return False
            return None
        if isinstance(v, (ListV, SeqV, SeqC)) and not getattr(v, "tup", False):
            return nm == "list"
        if isinstance(v, TupleV) or getattr(v, "tup", False):
            return nm == "tuple"
        if isinstance(v, DictV):
            return nm == "dict"
        return None
    rs = [one(x) for x in ts]
    if any(r is True for r in rs):
        return TRUE
    if all(r is False for r in rs):
        return FALSE
    return it.unk_t("isinstance")


def b_anyall(op):
    def h(it, a, k):
        r = iterpair(it, a[0])
        if isinstance(r, list):
            ts = [it.truth(x) for x in r]
            return tm.bor(*ts) if op == "any" else tm.band(*ts)
        n, f = r
        v = tm.iv("r", n)
        return tm.mk_red(op, v, n, it.truth(f(v)))
    return h


def b_round(it, a, k):
    x = want(it, a[0])
    if len(a) > 1:
        d = as_int(it, a[1])
        s = const(float(10 ** d))
        return tm.div(tm.fn("rint", mul(x, s)), s)
    return tm.fn("rint", x)


def b_str(it, a, k):
    v = it.deref(a[0]) if a else const("")
    if isinstance(v, Term) and tm.is_const(v):
        return const(str(tm.cval(v)))
    if isinstance(v, Term):
        return v if v.kind == "s" else tm.app("str", v, kind="s")
    return tm.app("str", kind="s")


def b_sorted(it, a, k):
    r = iterpair(it, a[0])
    if isinstance(r, list) and not k:
        vals = [it.deref(x) for x in r]
        if all(isinstance(x, Term) and tm.is_const(x) for x in vals):
            return it.new_cell(ListV([const(c) for c in sorted(tm.cval(x) for x in vals)]))
        if len(vals) == 2 and all(isinstance(x, Term) for x in vals):
            return it.new_cell(ListV([tm.mn(*vals), tm.mx(*vals)]))
    raise Undecided("sorted")


def b_pow(it, a, k):
    return it.binop(ast.Pow(), a[0], a[1])


def b_divmod(it, a, k):
    x, y = want(it, a[0]), want(it, a[1])
    return TupleV([tm.fdiv(x, y), tm.mod(x, y)])


def b_slice(it, a, k):
    v = [it.deref(x) for x in a]
    n = lambda x: None if isinstance(x, Term) and x.kind == "n" else x
    v = [n(x) for x in v]
    if len(v) == 1:
        return SliceV(None, v[0], None)
    if len(v) == 2:
        return SliceV(v[0], v[1], None)
    return SliceV(*v[:3])


def b_next(it, a, k):
    r = iterpair(it, a[0])
    if isinstance(r, list) and r:
        return r[0]
    raise Undecided("next")


def b_getattr(it, a, k):
    n = it.deref(a[1])
    if tm.is_const(n):
        return it.getattr(a[0], tm.cval(n))
    raise Undecided("getattr")


def b_hasattr(it, a, k):
    v, n = it.deref(a[0]), it.deref(a[1])
    if isinstance(v, Arr) and isinstance(n, Term) and tm.is_const(n):
        s = tm.cval(n)
        if s in ("shape", "dtype", "ndim", "real", "imag", "T"):
            return TRUE
        if s == "at":
            return const(v.fw == "jnp")
        if s in ("detach", "requires_grad", "numpy"):
            return const(v.fw == "torch")
    if isinstance(v, FuncV) and isinstance(n, Term) and tm.is_const(n) and v.mod is not None and getattr(v.mod, "env", None) is not None:
        return const(f"{v.name}.{tm.cval(n)}" in v.mod.env)
    raise Undecided("hasattr")


def b_type(it, a, k):
    raise Undecided("type()")


def b_callable(it, a, k):
    v = it.deref(a[0])
    if isinstance(v, (FuncV, PartialV, BuiltinV, BoundV)):
        return TRUE
    if isinstance(v, (Term, Arr, ListV, TupleV)):
        return FALSE
    raise Undecided("callable")


def b_id(it, a, k):
    raise Undecided("id()")


def b_print(it, a, k):
    return NONE


def b_iter(it, a, k):
    return a[0]


def b_set(it, a, k):
    return b_list(it, a, k)


def b_object(it, a, k):
    return it.new_cell(DictV({}))


_B = {
    "len": b_len, "range": b_range, "min": minmax("min"), "max": minmax("max"), "abs": b_abs, "int": b_int, "float": b_float, "complex": b_complex, "bool": b_bool,
    "enumerate": b_enumerate, "zip": b_zip, "reversed": b_reversed, "map": b_map, "filter": b_filter, "sum": b_sum, "list": b_list, "tuple": b_tuple, "dict": b_dict, "set": b_set, "frozenset": b_set,
    "isinstance": b_isinstance, "any": b_anyall("any"), "all": b_anyall("all"), "round": b_round, "str": b_str, "repr": b_str, "sorted": b_sorted, "pow": b_pow, "divmod": b_divmod,
    "slice": b_slice, "next": b_next, "getattr": b_getattr, "hasattr": b_hasattr, "type": b_type, "print": b_print, "iter": b_iter, "callable": b_callable, "id": b_id,
    "staticmethod": lambda it, a, k: a[0], "classmethod": lambda it, a, k: a[0], "property": lambda it, a, k: a[0], "object": b_object,
}
_BV = {k: BuiltinV(k, v) for k, v in _B.items()}
for _e in ("Exception", "ValueError", "TypeError", "AssertionError", "NotImplementedError", "RuntimeError", "KeyError", "IndexError", "Warning", "DeprecationWarning", "UserWarning", "FutureWarning"):
    _BV[_e] = BuiltinV(_e, lambda it, a, k: ExtV("exception"))


def builtin(name):
    if name == "__name__":
        return const("s2wav")
    if name in ("NotImplemented", "Ellipsis", "__file__"):
        return EllipsisV() if name == "Ellipsis" else const(name)
    return _BV.get(name)


# ---------------------------------------------------------------- attributes and methods

def get_attr(it, v, name):
    d = it.deref(v)
    if isinstance(d, Unknown):
        return d
    if isinstance(d, Arr):
        if name in ("shape",):
            return TupleV(list(d.shape))
        if name == "ndim":
            return const(d.ndim)
        if name == "size" and d.fw != "torch":
            return ar.prod_terms(d.shape)
        if name == "dtype":
            return DtypeV(d.dtype, d.fw)
        if name in ("T", "mT"):
            r = permute(d, list(range(d.ndim))[::-1])
            return View_or(it, v, r)
        if name in ("real", "imag"):
            if d.dtype in ("complex64", "complex128") and it.mutable_arr(d) and isinstance(v, (Ref, View, ElemView)):
                return AttrView(v, name)
            r = unary(it, d, UN[name], d.fw, realdt)
            return boxr(it, r)
        if name == "at" and d.fw == "jnp":
            return AtV(d)
        if name == "data" and d.fw == "torch":
            return alias_box(it, v, wrap_fn(it, d, "detach"))
        if name in ("device", "requires_grad", "grad", "flags", "sharding", "weak_type"):
            return ExtV("array." + name)
        if name == "nbytes" or name == "itemsize":
            return it.unk_t(name)
        return BoundV(v, name)
    if isinstance(d, Term):
        if d.kind == "s":
            return BoundV(d, name)
        if d.kind == "n" and not it.try_depth:
            it.none_error("AttributeError")
        if name == "real":
            return tm.fn("real", d) if d.op != "unk" else d
        if name == "imag":
            return tm.fn("imag", d) if d.op != "unk" else d
        if name == "shape":
            return TupleV([])
        if name == "ndim":
            return ZERO
        if name == "T":
            return d
        if name == "dtype":
            return DtypeV(kind_dtype(d.kind), "np")
        return BoundV(d, name)
    if isinstance(d, TupleV):
        if d.names and name in d.names:
            return d.items[d.names.index(name)]
        if d.cls is not None and isinstance(d.cls, ClassV) and name in d.cls.attrs:
            f = d.cls.attrs[name]
            if isinstance(f, FuncV):
                if getattr(f, "prop", False):
                    return it.call_func(f, [d], {})
                if getattr(f, "static", False):
                    return f
                return PartialV(f, [d], {})
        if name == "_replace":
            def rep(it, a, k):
                items = list(d.items)
                for kk, vv in k.items():
                    items[d.names.index(kk)] = vv
                return TupleV(items, d.names, d.cls)
            return BuiltinV("_replace", rep)
        return BoundV(v, name)
    if isinstance(d, ObjV):
        if name in d.attrs:
            return d.attrs[name]
        f = d.cls.attrs.get(name)
        if isinstance(f, FuncV):
            if getattr(f, "prop", False):
                return it.call_func(f, [v], {})
            if getattr(f, "static", False):
                return f
            if getattr(f, "clsm", False):
                return PartialV(f, [d.cls], {})
            return PartialV(f, [v], {})
        if f is not None:
            return f
        return it.unknown(f"attribute {name}")
    if isinstance(d, ClassV):
        f = d.attrs.get(name)
        if isinstance(f, FuncV) and getattr(f, "clsm", False):
            return PartialV(f, [d], {})
        return f if f is not None else it.unknown(f"class attribute {name}")
    if isinstance(d, SliceV):
        x = {"start": d.a, "stop": d.b, "step": d.c}.get(name)
        return x if x is not None else NONE
    if isinstance(d, RangeV):
        return {"start": d.lo, "stop": d.hi, "step": d.step}.get(name) or it.unknown("range attribute")
    if isinstance(d, FuncV):
        if name in ("__name__", "__qualname__"):
            return const(d.name)
        if name in ("__wrapped__", "cache_clear", "__doc__", "lower", "clear_cache"):
            return d
        env = getattr(d.mod, "env", None) if d.mod is not None else None
        if env is not None and f"{d.name}.{name}" in env:
            return env[f"{d.name}.{name}"]
        return it.unknown("function attribute")
    if isinstance(d, ModV):
        return it.getattr(d, name)
    if isinstance(d, DtypeV):
        if name == "kind":
            return const({"bool": "b", "int": "i", "float32": "f", "float64": "f", "complex64": "c", "complex128": "c"}.get(d.dt, "?"))
        return it.unknown("dtype attribute")
    if isinstance(d, AtV):
        return BoundV(d, name)
    return BoundV(v, name)


def View_or(it, v, r):
    b = boxr(it, r)
    root = it.root(v)
    if isinstance(b, Ref) and root is not None:
        it.meta[b.cid]["alias"] = root
    return b


def alias_box(it, v, r):
    """box a result that shares memory with v (reshape, squeeze, ...)"""
    return View_or(it, v, r)


def at_method(it, at, name, args, kw):
    base = at.base
    val = it.deref(args[0]) if args else None
    if isinstance(val, (ListV, TupleV, SeqV)):
        val = to_array(it, val, "jnp")
    if name == "get":
        return it.subscript(base, at.spec)
    if isinstance(val, Unknown):
        raise Undecided(val.reason)
    if isinstance(val, GatedV):
        raise Undecided("gated .at value")
    spec = IndexSpec(base.shape, it.idx_vals(at.spec))
    for e, dm in spec.bounds:
        it.event("bounds", idx=e, dim=dm, what=".at index", fw="jnp")
    if isinstance(val, Arr):
        if base.dtype in ("float64", "float32", "int") and val.dtype in ("complex128", "complex64"):
            it.event("inplace_cast", frm=val.dtype, to=base.dtype)
        val = it.cast_into(val, base.dtype)
    else:
        if base.dtype in ("float64", "float32", "int") and val.kind == "c":
            it.event("inplace_cast", frm="complex128", to=base.dtype)
        val = it.cast_term(val, base.dtype)
    if name == "set":
        return ar.store(base, spec, val, "set")
    if name == "add":
        return ar.store(base, spec, val, "add")
    ops = {"multiply": mul, "mul": mul, "divide": tm.div, "power": tm.power, "min": tm.mn, "max": tm.mx, "subtract": sub, "apply": None}
    if name in ("multiply", "mul", "divide", "power", "min", "max", "subtract"):
        return ar.store(base, spec, val, "op", ops[name])
    raise Undecided(f".at[].{name}")


def call_method(it, obj, name, args, kw):
    if isinstance(obj, AtV):
        return at_method(it, obj, name, args, kw)
    d = it.deref(obj)
    if isinstance(d, Unknown):
        return d
    if isinstance(d, Arr):
        return arr_method(it, obj, d, name, args, kw)
    if isinstance(d, Term):
        return term_method(it, d, name, args, kw)
    if isinstance(d, (ListV, SeqV, SeqC)) and not getattr(d, "tup", False):
        if name == "append":
            it.write(obj, it.seq_append(d, args[0])) if isinstance(obj, (Ref, ElemView)) else None
            return NONE
        if name == "extend":
            it.extend(obj, args[0])
            return NONE
        if name == "copy":
            return shallow_copy(it, obj)
        if name == "index" and isinstance(d, ListV):
            return seq_index(it, d, args)
        if name == "insert" and isinstance(d, ListV):
            i = it.deref(args[0])
            if tm.is_const(i):
                items = list(d.items)
                items.insert(tm.cval(i), args[1])
                it.write(obj, ListV(items))
                return NONE
        if name == "insert" and isinstance(d, SeqV):
            i = it.deref(args[0])
            if isinstance(i, Term) and tm.is_const(i) and tm.cval(i) == 0:
                val = args[1]
                it.write(obj, SeqV(add(d.n, ONE), lambda k: it.vgate(tm.eq(k, ZERO), val, it.seq_get(d, sub(k, ONE)))))
                return NONE
        if name == "pop":
            if isinstance(d, ListV) and d.items:
                i = tm.cval(it.deref(args[0])) if args else -1
                items = list(d.items)
                x = items.pop(i)
                it.write(obj, ListV(items))
                return x
            if isinstance(d, SeqV):
                i = it.deref(args[0]) if args else const(-1)
                if tm.is_const(i) and tm.cval(i) == -1:
                    x = it.seq_get(d, sub(d.n, ONE))
                    it.write(obj, SeqV(sub(d.n, ONE), d.f))
                    return x
                if tm.is_const(i) and tm.cval(i) == 0:
                    x = it.seq_get(d, ZERO)
                    it.write(obj, SeqV(sub(d.n, ONE), lambda k: d.at(add(k, ONE))))
                    return x
        if name == "reverse":
            if isinstance(d, ListV):
                it.write(obj, ListV(d.items[::-1]))
                return NONE
            if isinstance(d, SeqV):
                it.write(obj, SeqV(d.n, lambda k: d.at(sub(sub(d.n, ONE), k))))
                return NONE
        if name == "clear":
            it.write(obj, ListV([]))
            return NONE
        if name in ("sort", "remove", "insert", "pop"):
            it.write(obj, it.unknown(f"list.{name}"))
            return NONE
        return it.unknown(f"list.{name}")
    if isinstance(d, TupleV) or isinstance(d, SeqV):
        if name == "index" and isinstance(d, TupleV):
            return seq_index(it, d, args)
        if name == "count":
            raise Undecided("count")
        if name == "_asdict":
            return it.new_cell(DictV(dict(zip(d.names, d.items))))
        return it.unknown(f"tuple.{name}")
    if isinstance(d, DictV):
        return dict_method(it, obj, d, name, args, kw)
    if isinstance(d, GatedV):
        return it.vgate(d.c, call_method(it, d.a, name, args, kw), call_method(it, d.b, name, args, kw))
    return it.unknown(f"method {name} of {type(d).__name__}")


def seq_index(it, d, args):
    x = it.deref(args[0])
    items = [it.deref(y) for y in d.items]
    if isinstance(x, Term):
        conds = [it.compare(ast.Eq(), x, y) for y in items]
        if all(isinstance(c, Term) and c.op == "const" for c in conds):
            for i, c in enumerate(conds):
                if c.args[0]:
                    return const(i)
            it.event("raise", exc="ValueError", implicit=True)
            it.st = None
            from .interp import PathDead
            raise PathDead()
        r = tm.app("index_error", kind="i")
        for i in range(len(items) - 1, -1, -1):
            r = ite(conds[i], const(i), r)
        return r
    raise Undecided("index()")


def dict_method(it, obj, d, name, args, kw):
    if name == "get":
        x = it.deref(args[0])
        if isinstance(x, (Term, TupleV)):
            p, v = it.dict_find(d, list(x.items) if isinstance(x, TupleV) and x.items else [x])
            dflt = args[1] if len(args) > 1 else NONE
            if d.glob is not None and p is not True:
                it.event("global_dict_read", name=d.glob, key=[x])
            if p is True:
                return v
            if p is False:
                return dflt
            if p is not None:
                return it.vgate(p, v, dflt)
        raise Undecided("dict.get")
    if name == "items" and not d.sym:
        return TupleV([TupleV([key_const(k), v]) for k, v in d.items.items()])
    if name == "keys" and not d.sym:
        return TupleV([key_const(k) for k in d.items])
    if name == "values" and not d.sym:
        return TupleV(list(d.items.values()))
    if name == "update":
        o = it.deref(args[0]) if args else DictV({})
        if isinstance(o, DictV) and isinstance(obj, Ref):
            items = dict(d.items)
            items.update(o.items)
            items.update(kw)
            it.write(obj, DictV(items))
            return NONE
    if name == "setdefault":
        x = it.deref(args[0])
        idx = list(x.items) if isinstance(x, TupleV) and x.items else [x]
        p, v = it.dict_find(d, idx)
        dflt = args[1] if len(args) > 1 else NONE
        if p is True:
            return v
        if p is False:
            it.dict_store(obj, d, idx, dflt)
            return dflt
        raise Undecided("dict.setdefault")
    if name in ("pop", "popitem") and d.glob is not None and isinstance(obj, Ref):
        it.st.heap[obj.cid] = DictV(d.items, d.sym, d.glob)
        return it.unknown("entry removed from a module-level dict") if not getattr(it, "discard", False) else NONE
    if name == "pop":
        k = it.dict_key([it.deref(args[0])])
        if k in d.items:
            items = dict(d.items)
            v = items.pop(k)
            it.write(obj, DictV(items))
            return v
        if len(args) > 1:
            return args[1]
    if name == "copy":
        return it.new_cell(DictV(dict(d.items)))
    if name == "clear" and isinstance(obj, Ref):
        it.st.heap[obj.cid] = DictV({}, None, d.glob)
        return NONE
    return it.unknown(f"dict.{name}")


def key_const(k):
    return TupleV([const(x) for x in k]) if isinstance(k, tuple) else const(k)


def term_method(it, d, name, args, kw):
    if d.kind == "s":
        if tm.is_const(d):
            s = tm.cval(d)
            if name in ("lower", "upper", "strip", "casefold", "title", "capitalize"):
                return const(getattr(s, name)())
            vals = [it.deref(a) for a in args]
            if name in ("startswith", "endswith", "replace", "split", "count", "find") and all(isinstance(v, Term) and tm.is_const(v) for v in vals):
                r = getattr(s, name)(*[tm.cval(v) for v in vals])
                if isinstance(r, list):
                    return it.new_cell(ListV([const(x) for x in r]))
                return const(r)
        if name in ("startswith", "endswith"):
            return it.unk_t("string test")
        if name in ("lower", "upper", "strip", "casefold"):
            return tm.app("str." + name, d, kind="s")
        if name in ("format", "join"):
            return tm.app("str", d, kind="s")
        return it.unk_t(f"str.{name}")
    if d.op == "unk":
        return d
    if name in ("item", "tolist"):
        return hostify(d)
    if name in ("conj", "conjugate", "conj_physical"):
        return tm.fn("conj", d)
    if name in ("copy", "clone", "squeeze", "ravel", "flatten", "to", "cpu", "contiguous", "block_until_ready"):
        return d
    if name == "astype":
        return cast(it, d, parse_dtype(it, args[0]))
    if name in ("detach",):
        return tm.fn("detach", d) if not tm.is_const(d) else d
    if name == "numpy":
        return tm.fn("host", d) if not tm.is_const(d) else d
    if name == "is_integer":
        return tm.eq(tm.fn("floor", d), d)
    if name in UN:
        return UN[name](d)
    if name == "bit_length":
        return tm.app("bit_length", d, kind="i")
    if name == "reshape":
        return Arr(shape_of(it, TupleV(args) if len(args) > 1 else args[0]), lambda i: d, kind_dtype(d.kind), "np")
    if name in ("expand", "repeat", "broadcast_to", "view"):
        return it.box(Arr(shape_of(it, TupleV(args) if len(args) > 1 else args[0]), lambda i: d, kind_dtype(d.kind), "torch"))
    if name in ("unsqueeze", "new_ones", "new_full"):
        return it.unk_t(f"scalar method {name}")
    if name in ("sum", "max", "min", "mean", "prod"):
        return d
    return it.unk_t(f"scalar method {name}")


def arr_method(it, obj, d, name, args, kw):
    fw = d.fw
    if name in ("copy", "clone"):
        return boxr(it, d.with_())
    if name == "astype":
        v = get(args, kw, 0, "dtype")
        dt = v.dt if isinstance(v, DtypeV) else parse_dtype(it, v)
        return boxr(it, cast(it, d, dt).with_())
    if name in ("to", "type", "type_as"):
        dt = None
        for a in list(args) + list(kw.values()):
            if isinstance(a, DtypeV):
                dt = a.dt
                continue
            try:
                dt = parse_dtype(it, a) or dt
            except Undecided:
                pass
        r = cast(it, d, dt)
        return alias_box(it, obj, r)
    if name in ("double", "float", "cfloat", "cdouble", "int", "long", "bool") and fw == "torch":
        dt = {"double": "float64", "float": "float32", "cfloat": "complex64", "cdouble": "complex128", "int": "int", "long": "int", "bool": "bool"}[name]
        return boxr(it, cast(it, d, dt))
    if name in ("detach", "detach_"):
        return alias_box(it, obj, wrap_fn(it, d, "detach"))
    if name in ("numpy", "__array__"):
        r = wrap_fn(it, d, "host")
        return alias_box(it, obj, r.with_(fw="np"))
    if name in ("cpu", "cuda", "contiguous", "block_until_ready", "requires_grad_", "resolve_conj", "to_device"):
        return obj if not isinstance(obj, Arr) else d
    if name == "tolist":
        n = d.shape[0]
        if d.ndim == 1:
            if tm.is_const(n):
                return it.new_cell(ListV([tm.fn("host", d.at(const(i))) if fw != "np" else d.at(const(i)) for i in range(tm.cval(n))]))
            return it.new_cell(SeqV(n, lambda k: tm.fn("host", d.at(k)) if fw != "np" else d.at(k)))
        raise Undecided("tolist")
    if name == "item":
        if all(tm.is_const(s) and tm.cval(s) == 1 for s in d.shape) or not args:
            return tm.fn("host", d.at(*[ZERO] * d.ndim))
        raise Undecided("item")
    if name in ("conj", "conjugate", "conj_physical"):
        return boxr(it, unary(it, d, UN["conj"], fw))
    if name in ("reshape", "view") :
        if len(args) == 1:
            sh = shape_of(it, args[0])
        else:
            sh = tuple(it.deref(a) for a in args)
            if not all(isinstance(s, Term) for s in sh):
                raise Undecided("reshape")
        return alias_box(it, obj, ar.reshape(d, sh))
    if name in ("ravel", "flatten"):
        r = ar.reshape(d, (const(-1),))
        return boxr(it, r) if name == "flatten" else alias_box(it, obj, r)
    if name == "transpose":
        if fw == "torch":
            r = swap(d, as_int(it, args[0]), as_int(it, args[1]))
        elif not args:
            r = permute(d, list(range(d.ndim))[::-1])
        else:
            p = it.deref(args[0])
            perm = [tm.cval(it.deref(x)) for x in (p.items if isinstance(p, (TupleV, ListV)) else args)]
            r = permute(d, perm)
        return alias_box(it, obj, r)
    if name == "permute":
        p = it.deref(args[0])
        return alias_box(it, obj, permute(d, [tm.cval(it.deref(x)) for x in (p.items if isinstance(p, (TupleV, ListV)) else args)]))
    if name == "swapaxes":
        return alias_box(it, obj, swap(d, as_int(it, args[0]), as_int(it, args[1])))
    if name == "squeeze":
        r = squeeze(d, axis_of(it, args, kw, 0))
        return alias_box(it, obj, r) if isinstance(r, Arr) else r
    if name == "unsqueeze":
        return alias_box(it, obj, expand(d, as_int(it, args[0])))
    if name in ("expand", "broadcast_to"):
        sh = shape_of(it, args[0]) if len(args) == 1 else tuple(it.deref(a) for a in args)
        return alias_box(it, obj, bcast(it, d, sh, fw))
    if name == "fill" or name in ("fill_", "zero_"):
        v = it.deref(args[0]) if args else ZERO
        it.write(obj, Arr(d.shape, lambda i: v, d.dtype, fw))
        return NONE if name == "fill" else obj
    if name in ("add_", "mul_", "sub_", "div_"):
        op = {"add_": ast.Add, "mul_": ast.Mult, "sub_": ast.Sub, "div_": ast.Div}[name]()
        r = it.deref(it.binop(op, d, args[0]))
        it.write(obj, r)
        return obj
    if name in ("copy_",):
        v = want(it, args[0], fw)
        it.write(obj, bcast(it, v, d.shape, fw).with_(dtype=d.dtype) if isinstance(v, Arr) else Arr(d.shape, lambda i: v, d.dtype, fw))
        return obj
    if name == "dot" or name == "matmul" or name == "mm":
        return matmul(it, d, args[0])
    if name == "setflags":
        return NONE
    if name in ("new_zeros",):
        sh = shape_of(it, args[0]) if len(args) == 1 else tuple(it.deref(a) for a in args)
        return boxr(it, Arr(sh, lambda i: ZERO, dtype_arg(it, kw, default=d.dtype), fw))
    if name == "dim":
        return const(d.ndim)
    if name == "size":
        if args:
            return d.shape[as_int(it, args[0])]
        return TupleV(list(d.shape))
    if name == "numel":
        return ar.prod_terms(d.shape)
    if name == "is_complex":
        return const(d.dtype in ("complex64", "complex128"))
    if name == "clip" or name == "clamp":
        return boxr(it, h_clip(it, fw, [d] + list(args), kw))
    if name == "flip":
        return boxr(it, h_flip()(it, fw, [d] + list(args), kw))
    if name == "roll":
        return boxr(it, h_roll(it, fw, [d] + list(args), kw))
    if name in ("sum", "prod", "max", "min", "mean", "any", "all", "cumsum", "diagonal", "take", "diff", "round"):
        if name in FW:
            return boxr(it, FW[name](it, fw, [d] + list(args), kw))
    if name in UN:
        return boxr(it, unary(it, d, UN[name], fw, UNDT.get(name), name))
    if name in BIN and args:
        f, tag = BIN[name]
        return arr_binop(it, {"div": ast.Div(), "pow": ast.Pow()}.get(tag, ast.Add()), f, d, want(it, args[0], fw))
    if name in CMP and args:
        return boxr(it, ar.elementwise(CMP[name], d, want(it, args[0], fw), dtype="bool"))
    if name.endswith("_") and not name.startswith("_") and fw == "torch" and name[:-1] and name not in ("requires_grad_", "retain_grad_"):
        r = it.deref(arr_method(it, obj, d, name[:-1], args, kw))
        if isinstance(r, Arr) and r.ndim == d.ndim:
            it.write(obj, Arr(d.shape, r.f, d.dtype, fw))
            return obj
        it.write(obj, Unknown(f"in-place {name}"))
        return it.unknown(f"array method {name}")
    return it.unknown(f"array method {name}")
