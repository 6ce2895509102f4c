"""Hash-consed value-graph terms: the abstract domain of scalar values.

A term denotes a value as a closed function of the analysed function's
parameters (``sym``), of data arrays (``elem``), of results of harmonic
transforms (``xel``) and of bound index variables (``iv``).  Constructors
normalise (linear forms, factor maps, canonical comparisons, min/max/ite
rules, solved index equations) so that two program fragments computing the
same value usually intern to the same node (value numbering).
"""
from __future__ import annotations
import math, cmath
from fractions import Fraction

_TABLE = {}
_NEXT = [0]


class Term:
    __slots__ = ("op", "args", "id", "fv", "kind", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term")


EMPTY = frozenset()


def _intern(op, args, kind, fv=None):
    if op == "const":
        v = args[0]
        key = (op, type(v).__name__, repr(v) if isinstance(v, (float, complex)) else v)
    else:
        key = (op, args)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.id = _NEXT[0]
    _NEXT[0] += 1
    t.kind = kind
    if fv is None:
        fv = EMPTY
        for a in args:
            fv = _fvs(a, fv)
    t.fv = fv
    _TABLE[key] = t
    return t


def _fvs(a, fv):
    if isinstance(a, Term):
        return fv | a.fv if a.fv else fv
    if isinstance(a, tuple):
        for x in a:
            fv = _fvs(x, fv)
    return fv


def reset():
    _TABLE.clear()


# ------------------------------------------------------------------ leaves

def const(v):
    if isinstance(v, bool):
        k = "b"
    elif isinstance(v, int):
        k = "i"
    elif isinstance(v, float):
        k = "f"
    elif isinstance(v, complex):
        k = "c"
    elif isinstance(v, str):
        k = "s"
    elif v is None:
        k = "n"
    else:
        k = "?"
    return _intern("const", (v,), k, EMPTY)


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
NONE = const(None)

SYMINFO = {}


def sym(name, kind="i", lb=None, traced=False):
    t = _intern("sym", (name,), kind, EMPTY)
    if name not in SYMINFO:
        SYMINFO[name] = dict(kind=kind, lb=lb, traced=traced)
    return t


IVT = {}  # iv term -> extent term (0 <= iv < extent)
_IVN = [0]


def iv(name="i", extent=None):
    _IVN[0] += 1
    t = _intern("iv", (f"{name}#{_IVN[0]}",), "i", None)
    t.fv = frozenset([t])
    if extent is not None:
        IVT[t] = extent
    return t


def unk(reason):
    return _intern("unk", (str(reason),), "?", EMPTY)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def is_num_const(t):
    return t.op == "const" and isinstance(t.args[0], (int, float, complex)) and True


def has_unk(t, memo={}):
    return contains(t, "unk")


_CONT = {}


def ops_in(t):
    """frozenset of operator names occurring in the term"""
    r = _CONT.get(t)
    if r is not None:
        return r
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _CONT:
            continue
        subs = list(subterms(x))
        if done:
            s = {x.op}
            for y in subs:
                s |= _CONT[y]
            _CONT[x] = frozenset(s)
        else:
            stack.append((x, True))
            for y in subs:
                if y not in _CONT:
                    stack.append((y, False))
    return _CONT[t]


def contains(t, op):
    return op in ops_in(t)


def subterms(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tup(a)


def _tup(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _tup(x)


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(subterms(x))


def syms_in(t):
    return {x.args[0] for x in walk(t) if x.op == "sym"}


# ------------------------------------------------------------------ kinds
_ORD = {"b": 0, "i": 1, "f": 2, "c": 3}


def _jk(*ks):
    r = "b"
    for k in ks:
        if k not in _ORD:
            return "?"
        if _ORD[k] > _ORD[r]:
            r = k
    return "i" if r == "b" else r


def _numkind(v):
    return "i" if isinstance(v, (bool, int)) else "f" if isinstance(v, (float, Fraction)) else "c"


def as_lin(t):
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float, complex)):
            return v, {}
        return 0, {t: 1}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = [(x, k) for x, k in d.items() if k != 0]
    if isinstance(c, float) and c.is_integer() and abs(c) < 2**53 and all(x.kind == "i" and _isint(k) for x, k in items) and items:
        c = int(c)
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    items = tuple((x, int(k) if isinstance(k, float) and k.is_integer() and x.kind == "i" else k) for x, k in items)
    kind = _jk(_numkind(c), *[_jk(x.kind, _numkind(k)) if x.kind in _ORD else "?" for x, k in items])
    return _intern("lin", (c, items), kind)


def _isint(k):
    return isinstance(k, int) or (isinstance(k, float) and k.is_integer())


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        c2, d2 = as_lin(t)
        c = c + c2
        for x, k in d2.items():
            d[x] = d.get(x, 0) + k
    return mk_lin(c, d)


def scale(k, t):
    c, d = as_lin(t)
    if k == 0:
        return ZERO
    if k == 1:
        return t
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _as_mul(t):
    """coef, {atom: exp}"""
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float, complex)):
            return v, {}
        return 1, {t: 1}
    if t.op == "mul":
        return 1, dict(t.args[0])
    if t.op == "lin" and t.args[0] == 0 and len(t.args[1]) == 1:
        x, k = t.args[1][0]
        c, d = _as_mul(x)
        return k * c, d
    return 1, {t: 1}


def mk_mul(coef, d):
    items = [(x, e) for x, e in d.items() if e != 0]
    if coef == 0:
        return ZERO
    if not items:
        return const(coef)
    if len(items) == 1 and items[0][1] == 1:
        return scale(coef, items[0][0])
    items.sort(key=lambda p: p[0].id)
    ks = [x.kind for x, e in items]
    kind = _jk(*ks) if all(k in _ORD for k in ks) else "?"
    if kind == "i" and any(e < 0 for _, e in items):
        kind = "f"
    t = _intern("mul", (tuple(items),), kind)
    return scale(coef, t)


def mul(*ts):
    coef = 1
    d = {}
    for t in ts:
        c2, d2 = _as_mul(t)
        coef = coef * c2
        for x, e in d2.items():
            d[x] = d.get(x, 0) + e
    if coef == 0:
        return ZERO
    # combine sqrt(x)*sqrt(x) -> x
    for x in list(d):
        if x.op == "fn" and x.args[0] == "sqrt" and abs(d.get(x, 0)) >= 2 and x.args[1].kind in ("i", "f"):
            e = d[x]
            q = int(e / 2)
            d[x] = e - 2 * q
            y = x.args[1]
            c2, d2 = _as_mul(y)
            coef = coef * (c2 ** q)
            for z, ez in d2.items():
                d[z] = d.get(z, 0) + ez * q
    # a single ite/linear factor against pure constants distributes via scale
    return mk_mul(coef, d)


def div(a, b):
    if b.op == "const" and is_num_const(b):
        v = b.args[0]
        if v != 0:
            if isinstance(v, (int, bool)) and a.op == "const" and isinstance(a.args[0], int):
                return const(a.args[0] / v)
            r = scale(1.0 / v, a)
            if r.op != "const" or not isinstance(r.args[0], int):
                return r
            return const(float(r.args[0]))
        return unk("division by constant zero")
    c2, d2 = _as_mul(b)
    inv = mk_mul(1.0 / c2 if c2 != 1 else 1, {x: -e for x, e in d2.items()})
    return mul(a, inv)


def power(a, b):
    if b.op == "const" and is_num_const(b):
        v = b.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) and v.is_integer():
            v = int(v)
        if a.op == "const" and is_num_const(a):
            try:
                return const(a.args[0] ** v)
            except Exception:
                return unk("pow")
        if v == 0:
            return ONE
        if v == 1:
            return a
        if v == 0.5:
            return fn("sqrt", a)
        if v == -0.5:
            return div(ONE, fn("sqrt", a))
        if isinstance(v, int) and abs(v) <= 8:
            c, d = _as_mul(a)
            if v < 0:
                c = 1.0 / c if c != 1 else 1
                return mul(mk_mul(c ** (-v), {x: e * v for x, e in d.items()}))
            return mul(mk_mul(c ** v, {x: e * v for x, e in d.items()}))
    if a.op == "const" and a.args[0] == 1:
        return ONE
    if a.kind == "i" and b.kind == "i":
        k = "i"
    elif a.kind == "c" or b.kind == "c":
        k = "c"
    else:
        k = "f"
    if a.op == "const" and a.args[0] in (-1, -1.0) and b.kind == "i":
        # (-1)**e: reduce e modulo 2
        c, d = as_lin(b)
        if isinstance(c, int) and all(isinstance(q, int) for q in d.values()):
            d2 = {x: q % 2 for x, q in d.items()}
            b = mk_lin(c % 2, d2)
            if b.op == "const":
                return const((-1) ** b.args[0])
            if as_lin(b)[0] == 1:
                return neg(_intern("pow", (const(-1), sub(b, ONE)), "i"))
            return _intern("pow", (const(-1), b), "i")
    return _intern("pow", (a, b), k)


def fdiv(a, b):
    if is_num_const(a) and is_num_const(b) and a.args[0].__class__ is not complex:
        try:
            return const(a.args[0] // b.args[0])
        except Exception:
            return unk("fdiv")
    if b.op == "const" and b.args[0] == 1 and a.kind == "i":
        return a
    if b.op == "const" and isinstance(b.args[0], int) and a.kind == "i":
        k = b.args[0]
        c, d = as_lin(a)
        if k > 0 and all(isinstance(q, int) and q % k == 0 for q in d.values()) and isinstance(c, int):
            return mk_lin(c // k, {x: q // k for x, q in d.items()})
    return _intern("fdiv", (a, b), "i" if a.kind == "i" and b.kind == "i" else "f")


def mod(a, b):
    if is_num_const(a) and is_num_const(b) and a.args[0].__class__ is not complex:
        try:
            return const(a.args[0] % b.args[0])
        except Exception:
            return unk("mod")
    if b.op == "const" and isinstance(b.args[0], int) and a.kind == "i":
        k = b.args[0]
        if k == 1:
            return ZERO
        c, d = as_lin(a)
        if k > 0 and isinstance(c, int) and all(isinstance(q, int) for q in d.values()):
            a = mk_lin(c % k, {x: q % k for x, q in d.items()})
            if a.op == "const":
                return const(a.args[0] % k)
            if a.op == "mod" and a.args[1] is b:
                return a
    return _intern("mod", (a, b), "i" if a.kind in "ib" and b.kind in "ib" else "f")


_FN1 = {
    "sqrt": lambda x: math.sqrt(x) if not isinstance(x, complex) else cmath.sqrt(x),
    "exp": lambda x: cmath.exp(x) if isinstance(x, complex) else math.exp(x),
    "log": math.log,
}


def fn(name, *args):
    if name in ("ceil", "floor", "trunc", "rint") and args[0].kind in ("i", "b"):
        return args[0]
    if name == "trunc" and args[0].op == "fn" and args[0].args[0] in ("ceil", "floor", "rint"):
        return args[0]
    if name == "conj":
        a = args[0]
        if a.kind in ("i", "f", "b"):
            return a
        if a.op == "const":
            return const(a.args[0].conjugate()) if is_num_const(a) else unk("conjugate of a non-number")
        if a.op == "fn" and a.args[0] == "conj":
            return a.args[1]
        if a.op == "mul":
            return mul(*[power(fn("conj", x), const(e)) if e != 1 else fn("conj", x) for x, e in a.args[0]])
        if a.op == "lin":
            c, d = as_lin(a)
            r = const(complex(c).conjugate() if isinstance(c, complex) else c)
            for x, k in d.items():
                kk = k.conjugate() if isinstance(k, complex) else k
                r = add(r, scale(kk, fn("conj", x)))
            return r
        if a.op == "ite":
            return ite(a.args[0], fn("conj", a.args[1]), fn("conj", a.args[2]))
        if a.op == "sum":
            return mk_sum(a.args[0], a.args[1], fn("conj", a.args[2]))
    if name == "real" and args[0].kind in ("i", "f", "b"):
        return args[0]
    if name == "imag" and args[0].kind in ("i", "f", "b"):
        return ZERO
    if name == "abs":
        a = args[0]
        if a.op == "const" and is_num_const(a):
            return const(abs(a.args[0]))
        if a.op == "fn" and a.args[0] == "abs":
            return a
        if a.op == "lin" or a.op == "mul":
            c, d = as_lin(a)
            if d and c == 0 and len(d) == 1:
                x, k = next(iter(d.items()))
                if k < 0 if not isinstance(k, complex) else False:
                    return scale(-k, fn("abs", x)) if k != -1 else fn("abs", x)
            # canonical sign: leading coefficient positive
            if a.op == "lin":
                lead = a.args[1][0][1]
                if not isinstance(lead, complex) and lead < 0:
                    a = neg(a)
        return _intern("fn", ("abs", a), "i" if a.kind in "ib" else "f")
    if name in _FN1 and args[0].op == "const" and is_num_const(args[0]):
        try:
            return const(_FN1[name](args[0].args[0]))
        except Exception:
            pass
    if name in ("ceil", "floor", "trunc") and args[0].op == "const" and isinstance(args[0].args[0], (float, int)):
        v = args[0].args[0]
        return const(int({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc}[name](v)))
    if name == "sqrt":
        a = args[0]
        c, d = _as_mul(a)
        if c != 1 and d and not isinstance(c, complex) and c > 0:
            return scale(math.sqrt(c), fn("sqrt", mk_mul(1, d)))
    if name in ("ceil", "floor", "trunc", "rint"):
        k = "i"
    elif name in ("sqrt", "exp", "log") and args[0].kind == "c":
        k = "c"
    elif name == "conj":
        k = args[0].kind
    elif name in ("sign",):
        k = args[0].kind
    elif name in ("detach", "lossy", "host", "pos"):
        k = args[0].kind
    else:
        k = "f"
    return _intern("fn", (name,) + tuple(args), k)


def mn(*ts):
    return _mm("min", ts)


def mx(*ts):
    return _mm("max", ts)


def _mm(op, ts):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    cs = [cval(t) for t in flat if is_num_const(t) and not isinstance(cval(t), complex)]
    out = []
    for t in flat:
        if not is_num_const(t) and t not in out:
            out.append(t)
    if cs:
        out.append(const(min(cs) if op == "min" else max(cs)))
    # constant differences
    changed = True
    while changed:
        changed = False
        for a in out:
            for b in out:
                if a is b:
                    continue
                d = sub(a, b)
                if is_num_const(d) and not isinstance(cval(d), complex):
                    drop = a if (cval(d) >= 0) == (op == "min") else b
                    out.remove(drop)
                    changed = True
                    break
            if changed:
                break
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    k = _jk(*[t.kind for t in out]) if all(t.kind in _ORD for t in out) else "?"
    return _intern(op, tuple(out), k)


# ------------------------------------------------------------------ booleans

def ge0(d):
    """d >= 0"""
    if is_num_const(d):
        v = cval(d)
        if not isinstance(v, complex):
            return const(v >= 0)
    if d.kind == "i" and d.op == "lin":
        c, it = d.args
        if isinstance(c, int) and all(isinstance(k, int) for _, k in it):
            g = 0
            for _, k in it:
                g = math.gcd(g, abs(k))
            if g > 1:
                d = mk_lin(c // g, {x: k // g for x, k in it})
    if d.op == "fn" and d.args[0] == "abs":
        return TRUE
    return _intern("ge0", (d,), "b")


def gt0(d):
    if is_num_const(d):
        v = cval(d)
        if not isinstance(v, complex):
            return const(v > 0)
    if d.kind == "i":
        return ge0(sub(d, ONE))
    return _intern("gt0", (d,), "b")


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return gt0(sub(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    num_a = a.kind in _ORD or a.kind == "?"
    if a.op == "const" and b.op == "const":
        try:
            return const(bool(a.args[0] == b.args[0]))
        except Exception:
            return FALSE
    ka, kb = a.kind, b.kind
    if (ka in ("s", "n", "k")) != (kb in ("s", "n", "k")) and ka != "?" and kb != "?":
        return FALSE
    if ka in ("s", "n", "k") or kb in ("s", "n", "k"):
        if ka != kb and ka != "?" and kb != "?":
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.id)
        if a.op == "ite" and b.op == "const":
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite" and a.op == "const":
            return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
        return _intern("eqs", (x, y), "b")
    d = sub(a, b)
    if is_num_const(d):
        return const(cval(d) == 0)
    if d.kind == "i" and d.op == "lin":
        c, it = d.args
        if isinstance(c, int) and all(isinstance(k, int) for _, k in it):
            g = 0
            for _, k in it:
                g = math.gcd(g, abs(k))
            if g > 1:
                if c % g:
                    return FALSE
                d = mk_lin(c // g, {x: k // g for x, k in it})
    if d.op == "lin":
        lead = d.args[1][0][1]
        if not isinstance(lead, complex) and lead < 0:
            d = neg(d)
    return _intern("eq0", (d,), "b")


def ne(a, b):
    return bnot(eq(a, b))


def bnot(t):
    if t.op == "const":
        return const(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "ge0":
        d = t.args[0]
        if d.kind == "i":
            return ge0(sub(const(-1), d))
        return gt0(neg(d))
    if t.op == "gt0":
        return ge0(neg(t.args[0]))
    if t.op == "and":
        return bor(*[bnot(x) for x in t.args])
    if t.op == "or":
        return band(*[bnot(x) for x in t.args])
    if t.op == "ite" and t.kind == "b":
        return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    return _intern("not", (t,), "b")


def band(*ts):
    out = []
    for t in ts:
        if t.op == "and":
            src = t.args
        else:
            src = (t,)
        for x in src:
            if x.op == "const":
                if not x.args[0]:
                    return FALSE
                continue
            if x not in out:
                out.append(x)
    for x in out:
        if bnot(x) in out:
            return FALSE
    if any(x.op == "or" for x in out):
        lits = [x for x in out if x.op != "or"]
        neg_ = {bnot(x) for x in lits}
        o2, ch = [], False
        for x in out:
            if x.op == "or":
                if any(a in lits for a in x.args):
                    ch = True
                    continue
                keep = [a for a in x.args if a not in neg_]
                if len(keep) != len(x.args):
                    ch = True
                    x = bor(*keep)
            o2.append(x)
        if ch:
            return band(*o2)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _intern("and", tuple(out), "b")


def bor(*ts):
    out = []
    for t in ts:
        if t.op == "or":
            src = t.args
        else:
            src = (t,)
        for x in src:
            if x.op == "const":
                if x.args[0]:
                    return TRUE
                continue
            if x not in out:
                out.append(x)
    for x in out:
        if bnot(x) in out:
            return TRUE
    if any(x.op == "and" for x in out):
        lits = [x for x in out if x.op != "and"]
        neg_ = {bnot(x) for x in lits}
        o2, ch = [], False
        for x in out:
            if x.op == "and":
                if any(a in lits for a in x.args):
                    ch = True
                    continue
                keep = [a for a in x.args if a not in neg_]
                if len(keep) != len(x.args):
                    ch = True
                    x = band(*keep)
            o2.append(x)
        if ch:
            return bor(*o2)
        if len(out) > 1 and not lits:
            com = [a for a in out[0].args if all(a in x.args for x in out[1:])]
            if com:
                return band(*com, bor(*[band(*[a for a in x.args if a not in com]) for x in out]))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _intern("or", tuple(out), "b")


def truth(t):
    """bool(t) as a boolean term"""
    if t.kind == "b":
        return t
    if t.op == "const":
        return const(bool(t.args[0]))
    if t.kind in ("i", "f", "c"):
        return ne(t, ZERO)
    if t.kind == "s":
        return ne(t, const(""))
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "unk":
        return t
    return _intern("truth", (t,), "b")


def _assume(t, c, val):
    """simplify t under the assumption that boolean term c has value val (shallow)"""
    if t is c:
        return const(val)
    if t.op == "ite":
        if t.args[0] is c:
            return _assume(t.args[1] if val else t.args[2], c, val)
        if t.args[0] is bnot(c):
            return _assume(t.args[2] if val else t.args[1], c, val)
    if val and c.op == "and" and t.op == "ite" and t.args[0] in c.args:
        return t.args[1]
    return t


def ite(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    if a.op == "const" and b.op == "const" and a.kind == "b" and b.kind == "b":
        return c if a.args[0] else bnot(c)
    if c.op in ("ge0", "gt0") and a.kind in ("i", "f") and b.kind in ("i", "f"):
        d = c.args[0]
        diff = sub(b, a)
        if diff is d or (c.op == "ge0" and d.kind == "i" and diff is add(d, ONE)):
            return mn(a, b)
        diff = neg(diff)
        if diff is d or (c.op == "ge0" and d.kind == "i" and diff is add(d, ONE)):
            return mx(a, b)
    if c.op == "eq0":
        # x == 0 ? 0 : x*...   ->  x*...
        d = c.args[0]
        if a.op == "const" and a.args[0] == 0 and is_num_const(a):
            co, f = _as_mul(b)
            if d in f and f[d] > 0:
                return b
        if b is d and a.op == "const" and a.args[0] == 0:
            return d
    if a.kind == "b" and b.kind == "b":
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    k = a.kind if a.kind == b.kind else _jk(a.kind, b.kind) if a.kind in _ORD and b.kind in _ORD else "?"
    return _intern("ite", (c, a, b), k)


# ------------------------------------------------------------------ binders

def conj_of(c):
    return list(c.args) if c.op == "and" else [c]


def _affine_in(d, v):
    """coefficient of iv v in integer-linear term d, or None"""
    if d.op == "iv":
        return 1 if d is v else None
    if d.op != "lin":
        return None
    k = None
    for x, q in d.args[1]:
        if x is v:
            k = q
        elif v in x.fv:
            return None
    return k


def solve_eq(c, v):
    """conjunction c -> (solution term e for v, remaining conjuncts) or None"""
    cs = conj_of(c)
    for i, x in enumerate(cs):
        if x.op == "eq0" and v in x.fv:
            d = x.args[0]
            k = _affine_in(d, v)
            if k is None or not isinstance(k, int):
                continue
            rest = sub(d, scale(k, v))
            if rest.kind != "i":
                continue
            others = cs[:i] + cs[i + 1:]
            if k == 1:
                return neg(rest), others
            if k == -1:
                return rest, others
            num = neg(rest) if k > 0 else rest
            kk = abs(k)
            return fdiv(num, const(kk)), others + [eq(mod(num, const(kk)), ZERO)]
    return None


def mk_sum(v, T, body):
    if is_const(T) and isinstance(cval(T), int):
        if cval(T) <= 0:
            return ZERO
        if cval(T) == 1:
            return subst(body, {v: ZERO})
    if body.op == "const" and body.args[0] == 0:
        return ZERO
    if v not in body.fv:
        return mul(mx(T, ZERO) if not prove_ge0(T) else T, body)
    if body.op == "lin":
        c, it = body.args
        parts = []
        if c != 0:
            parts.append(mk_sum(v, T, const(c)))
        for x, k in it:
            parts.append(scale(k, mk_sum(v, T, x)))
        return add(*parts)
    if body.op == "mul":
        dep = {x: e for x, e in body.args[0] if v in x.fv}
        ind = {x: e for x, e in body.args[0] if v not in x.fv}
        if ind:
            return mul(mk_mul(1, ind), mk_sum(v, T, mk_mul(1, dep)))
        # pull an ite with a zero branch out of the product
        for x, e in body.args[0]:
            if x.op == "ite" and e > 0 and (_is0(x.args[1]) or _is0(x.args[2])):
                rest = dict(body.args[0])
                rest[x] = e - 1
                rest = mk_mul(1, rest)
                c, p, q = x.args
                return mk_sum(v, T, ite(c, mul(p, rest), mul(q, rest)))
    if body.op == "ite":
        c, a, b = body.args
        if _is0(a) and not _is0(b):
            c, a, b = bnot(c), b, a
        if _is0(b):
            dep = [x for x in conj_of(c) if v in x.fv]
            ind = [x for x in conj_of(c) if v not in x.fv]
            if ind:
                return ite(band(*ind), mk_sum(v, T, ite(band(*dep), a, ZERO)), ZERO)
            s = solve_eq(c, v)
            if s is not None:
                e, rest = s
                g = band(ge0(e), lt(e, T), *[subst(x, {v: e}) for x in rest])
                return ite(simp_cond(g), subst(a, {v: e}), ZERO)
    return _intern("sum", (v, T, body), body.kind if body.kind in "ifc" else "?", (body.fv - {v}) | T.fv)


def _is0(t):
    return t.op == "const" and not isinstance(t.args[0], (str, bool)) and t.args[0] == 0 and t.args[0] is not None


def mk_prod(v, T, body):
    if is_const(T) and isinstance(cval(T), int):
        if cval(T) <= 0:
            return ONE
        if cval(T) == 1:
            return subst(body, {v: ZERO})
    if v not in body.fv:
        return power(body, mx(T, ZERO) if not prove_ge0(T) else T)
    return _intern("prod", (v, T, body), body.kind if body.kind in "ifc" else "?", (body.fv - {v}) | T.fv)


def mk_last(v, T, c, val, init):
    """value of the last iteration v in [0,T) with c(v) true, else init"""
    if c.op == "const" and not c.args[0]:
        return init
    if c.op == "const" and c.args[0]:
        return ite(gt0(T), subst(val, {v: sub(T, ONE)}), init)
    dep = [x for x in conj_of(c) if v in x.fv]
    ind = [x for x in conj_of(c) if v not in x.fv]
    if ind:
        return ite(band(*ind), mk_last(v, T, band(*dep), val, init), init)
    s = solve_eq(c, v)
    if s is not None:
        e, rest = s
        g = band(ge0(e), lt(e, T), *[subst(x, {v: e}) for x in rest])
        return ite(simp_cond(g), subst(val, {v: e}), init)
    k = val.kind if val.kind == init.kind else _jk(val.kind, init.kind) if val.kind in _ORD and init.kind in _ORD else "?"
    return _intern("last", (v, T, c, val, init), k, ((c.fv | val.fv) - {v}) | T.fv | init.fv)


def mk_red(op, v, T, body):
    """maximum/minimum reduction; op in maxr, minr, any, all"""
    return _intern(op, (v, T, body), "b" if op in ("any", "all") else body.kind, (body.fv - {v}) | T.fv)


def lam(vs, body):
    return _intern("lam", (tuple(vs), body), "l", body.fv - frozenset(vs))


def elem(name, *idx, kind="c"):
    return _intern("elem", (name,) + tuple(idx), kind)


def xel(X, *idx, kind="c"):
    return _intern("xel", (X,) + tuple(idx), kind)


XSITE = {}  # transform / kernel node -> construct that created it (for reports)


def xf(op, roles, data, site=None):
    """roles: tuple of (name, Term) pairs; data: (lam term, shape tuple)."""
    t = _intern("xf", (op, tuple(roles), data), "x")
    if site is not None:
        XSITE.setdefault(t, site)
    return t


def kern(ktype, roles, site=None):
    t = _intern("kern", (ktype, tuple(roles)), "k")
    if site is not None:
        XSITE.setdefault(t, site)
    return t


def carry(cid, *idx, kind="?"):
    return _intern("carry", (cid,) + tuple(idx), kind)


def wrap(e, dim):
    """python index normalisation of e against extent dim"""
    if is_const(e) and isinstance(cval(e), int):
        if cval(e) >= 0:
            return e
        return add(e, dim)
    if prove_ge0(e):
        return e
    if prove_ge0(sub(const(-1), e)):
        return add(e, dim)
    return ite(ge0(e), e, add(e, dim))


# ------------------------------------------------------------------ substitution

def subst(t, m, carryf=None):
    if not m and carryf is None:
        return t
    memo = {}
    keys = frozenset(k for k in m if k.op == "iv")
    allk = dict(m)
    only_iv = len(keys) == len(m) and carryf is None

    def go(t):
        if only_iv and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in allk:
            return allk[t]
        r = rebuild(t, go, carryf)
        memo[t] = r
        return r

    return go(t)


def rebuild(t, go, carryf=None):
    op, a = t.op, t.args
    if op in ("const", "sym", "iv", "unk"):
        return t
    if op == "lin":
        r = const(a[0])
        return add(r, *[scale(k, go(x)) for x, k in a[1]])
    if op == "mul":
        return mul(*[_pw(go(x), e) for x, e in a[0]])
    if op == "pow":
        return power(go(a[0]), go(a[1]))
    if op == "fdiv":
        return fdiv(go(a[0]), go(a[1]))
    if op == "mod":
        return mod(go(a[0]), go(a[1]))
    if op == "fn":
        return fn(a[0], *[go(x) for x in a[1:]])
    if op == "min":
        return mn(*[go(x) for x in a])
    if op == "max":
        return mx(*[go(x) for x in a])
    if op == "ge0":
        return ge0(go(a[0]))
    if op == "gt0":
        return gt0(go(a[0]))
    if op == "eq0":
        return eq(go(a[0]), ZERO)
    if op == "eqs":
        return eq(go(a[0]), go(a[1]))
    if op == "not":
        return bnot(go(a[0]))
    if op == "and":
        return band(*[go(x) for x in a])
    if op == "or":
        return bor(*[go(x) for x in a])
    if op == "truth":
        return truth(go(a[0]))
    if op == "ite":
        c = go(a[0])
        if c.op == "const":
            return go(a[1]) if c.args[0] else go(a[2])
        return ite(c, go(a[1]), go(a[2]))
    if op == "sum":
        return mk_sum(a[0], go(a[1]), go(a[2]))
    if op == "prod":
        return mk_prod(a[0], go(a[1]), go(a[2]))
    if op in ("maxr", "minr", "any", "all"):
        return mk_red(op, a[0], go(a[1]), go(a[2]))
    if op == "last":
        return mk_last(a[0], go(a[1]), go(a[2]), go(a[3]), go(a[4]))
    if op == "lam":
        return lam(a[0], go(a[1]))
    if op == "elem":
        return elem(a[0], *[go(x) for x in a[1:]], kind=t.kind)
    if op == "xel":
        return xel(go(a[0]), *[go(x) for x in a[1:]], kind=t.kind)
    if op == "xf":
        return xf(a[0], tuple((n, go(x)) for n, x in a[1]), _gotup(a[2], go), XSITE.get(t))
    if op == "kern":
        return kern(a[0], tuple((n, go(x)) for n, x in a[1]), XSITE.get(t))
    if op == "carry":
        idx = [go(x) for x in a[1:]]
        if carryf is not None:
            r = carryf(a[0], idx, t.kind)
            if r is not None:
                return r
        return carry(a[0], *idx, kind=t.kind)
    if op == "app":
        return app(a[0], *[go(x) for x in a[1:]], kind=t.kind)
    raise AssertionError(op)


def app(name, *args, kind="?"):
    """uninterpreted application"""
    return _intern("app", (name,) + tuple(args), kind)


def _gotup(x, go):
    if isinstance(x, Term):
        return go(x)
    if isinstance(x, tuple):
        return tuple(_gotup(y, go) for y in x)
    return x


def _pw(t, e):
    return t if e == 1 else power(t, const(e))


# ------------------------------------------------------------------ prover
TWO = const(2)
_PCACHE = {}
FACTS = []  # linear terms known to be >= 0 on valid configurations


def prove_ge0(t, depth=6, facts=()):
    """Is t >= 0 for every valid parameter value (sound, incomplete)?"""
    if t.op == "const":
        v = t.args[0]
        return isinstance(v, (int, float)) and v >= 0
    if not facts:
        key = (t, depth)
        r = _PCACHE.get(key)
        if r is None:
            _PCACHE[key] = False
            r = _prove(t, depth, facts)
            _PCACHE[key] = r
        return r
    return _prove(t, depth, facts)


def _lb_atom(x):
    """simple numeric lower bound of an atom, or None"""
    if x.op == "sym":
        return SYMINFO.get(x.args[0], {}).get("lb")
    if x.op == "iv":
        return 0
    if x.op == "fn":
        if x.args[0] in ("abs", "sqrt", "exp"):
            return 0
        if x.args[0] == "ceil" and x.args[1].op == "pow":
            return 1 if _pos(x.args[1].args[0]) else None
    if x.op == "pow" and _pos(x.args[0]):
        return 0
    if x.op == "mod" and x.args[1].op == "const" and cval(x.args[1]) > 0:
        return 0
    if x.kind == "b":
        return 0
    return None


def _pos(x):
    if x.op == "const":
        v = cval(x)
        return isinstance(v, (int, float)) and v > 0
    if x.op == "sym":
        lb = SYMINFO.get(x.args[0], {}).get("lb")
        return lb is not None and lb > 0
    return False


def _ub_atom(x):
    if x.op == "mod" and x.args[1].op == "const" and cval(x.args[1]) > 0 and x.kind == "i":
        return cval(x.args[1]) - 1
    if x.kind == "b":
        return 1
    return None


def _prove(t, depth, facts):
    c, d = as_lin(t)
    if isinstance(c, complex) or any(isinstance(k, complex) for k in d.values()):
        return False
    # all atoms with simple bounds
    tot = c
    ok = True
    for x, k in d.items():
        b = _lb_atom(x) if k > 0 else _ub_atom(x)
        if b is None:
            ok = False
            break
        tot += k * b
    if ok and tot >= 0:
        return True
    if depth <= 0:
        return False
    # eliminate the most recently created index variable
    ivs = [x for x in d if x.op == "iv" and (d[x] > 0 or x in IVT)]
    ivs.sort(key=lambda x: -x.id)
    for x in ivs:
        k = d[x]
        if k > 0:
            r = sub(t, scale(k, x))
        else:
            r = add(sub(t, scale(k, x)), scale(k, sub(IVT[x], ONE)))
        if prove_ge0(r, depth - 1, facts):
            return True
        break
    for f in FACTS:
        df = as_lin(f)[1]
        if depth > 1 and any(x in d and d[x] * k > 0 and k < 0 for x, k in df.items()):
            x, k = next((x, k) for x, k in df.items() if x in d and d[x] * k > 0 and k < 0)
            if prove_ge0(sub(t, scale(d[x] / k if (d[x] / k) % 1 else d[x] // k, f)), depth - 2):
                return True
    for x, k in list(d.items()):
        rest = sub(t, scale(k, x))
        if x.op in ("min", "max"):
            alls = (x.op == "min") == (k > 0)
            cand = [add(rest, scale(k, y)) for y in x.args]
            if alls:
                if all(prove_ge0(z, depth - 1, facts) for z in cand):
                    return True
            else:
                if any(prove_ge0(z, depth - 1, facts) for z in cand):
                    return True
        elif x.op == "ite":
            if all(prove_ge0(add(rest, scale(k, y)), depth - 1, facts) for y in x.args[1:]):
                return True
        elif x.op == "mod" and k < 0 and x.args[1] is TWO:
            # m = min(n, ...), p = (n + m) % 2  =>  m + p <= n
            cy, dy = as_lin(x.args[0])
            for m, km in dy.items():
                if m.op == "min" and km in (1, -1) and m in d and d[m] <= k:
                    for n in m.args:
                        cn, dn = as_lin(n)
                        o = dict(dy)
                        del o[m]
                        if n.kind == "i" and set(o) == set(dn) and all((o[z] - dn[z]) % 2 == 0 for z in o) and (cy - cn) % 2 == 0:
                            if prove_ge0(add(sub(rest, scale(k, m)), scale(k, n)), depth - 1, facts):
                                return True
        elif x.op == "fdiv" and x.kind == "i" and x.args[1].op == "const" and cval(x.args[1]) > 0:
            q = cval(x.args[1])      # (y - q + 1)/q <= y//q <= y/q
            y = x.args[0] if k < 0 else sub(x.args[0], const(q - 1))
            if prove_ge0(add(scale(q, rest), scale(k, y)), depth - 1, facts):
                return True
        elif x.op == "fn" and x.args[0] == "abs" and k > 0:
            y = x.args[1]
            if y.kind == "i" and (prove_ge0(add(rest, scale(k, y)), depth - 2, facts) or prove_ge0(sub(rest, scale(k, y)), depth - 2, facts)):
                return True
    return False


def infeasible(conds):
    """Is the conjunction of boolean terms contradictory? (sound, incomplete)

    Uses equalities as substitutions on index variables, then tries to prove
    the negation of some inequality from index-variable ranges."""
    cs = []
    for c in conds:
        cs.extend(conj_of(c))
    for _ in range(8):
        if any(c is FALSE for c in cs):
            return True
        done = True
        for i, c in enumerate(cs):
            if c.op == "eq0":
                d = c.args[0]
                if d.kind == "i" and (prove_ge0(sub(d, ONE)) or prove_ge0(sub(neg(d), ONE))):
                    return True
                piv = None
                for x, k in as_lin(d)[1].items():
                    if x.op == "iv" and k in (1, -1):
                        piv = (x, k)
                        if x in IVT:
                            pass
                        break
                if piv:
                    x, k = piv
                    sol = scale(-k, sub(d, scale(k, x)))
                    if x in sol.fv:
                        continue
                    extra = [ge0(sol)]
                    if x in IVT:
                        extra.append(lt(sol, IVT[x]))
                    rest = cs[:i] + cs[i + 1:] + extra
                    cs = []
                    for y in rest:
                        cs.extend(conj_of(subst(y, {x: sol})))
                    done = False
                    break
        if done:
            break
    for c in cs:
        if c is FALSE:
            return True
        if c.op == "ge0":
            if prove_ge0(sub(const(-1), c.args[0])) if c.args[0].kind == "i" else False:
                return True
        if c.op == "eq0":
            d = c.args[0]
            if d.kind == "i" and (prove_ge0(sub(d, ONE)) or prove_ge0(sub(neg(d), ONE))):
                return True
    # pairs of inequalities a>=0, b>=0 with a+b < 0
    g = [c.args[0] for c in cs if c.op == "ge0"]
    for i in range(len(g)):
        for j in range(i + 1, len(g)):
            s = add(g[i], g[j])
            if is_num_const(s) and cval(s) < 0:
                return True
    return False


def simp_cond(c):
    """drop conjuncts that always hold; detect contradictions"""
    cs = conj_of(c)
    out = []
    for x in cs:
        if x.op == "ge0" and prove_ge0(x.args[0]):
            continue
        if x.op == "ge0" and x.args[0].kind == "i" and prove_ge0(sub(const(-1), x.args[0])):
            return FALSE
        out.append(x)
    return band(*out)


# ------------------------------------------------------------------ printing

def show(t, depth=7):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == "const":
        v = a[0]
        if isinstance(v, float):
            return f"{v:.6g}"
        return repr(v)
    if op in ("sym",):
        return a[0]
    if op == "iv":
        return a[0].split("#")[0] + "'" + a[0].split("#")[1]
    if op == "lin":
        r = []
        for x, k in a[1]:
            if k == 1:
                r.append(("+ " if r else "") + s(x))
            elif k == -1:
                r.append(("- " if r else "-") + s(x))
            else:
                r.append(("+ " if r else "") + f"{show(const(k))}*{s(x)}")
        if a[0] != 0:
            c = a[0]
            r.append(f"+ {show(const(c))}" if isinstance(c, complex) or c > 0 else f"- {show(const(-c))}")
        return "(" + " ".join(r) + ")"
    if op == "mul":
        return "*".join(s(x) if e == 1 else f"{s(x)}^{e}" for x, e in a[0])
    if op == "pow":
        return f"{s(a[0])}**{s(a[1])}"
    if op == "fdiv":
        return f"({s(a[0])}//{s(a[1])})"
    if op == "mod":
        return f"({s(a[0])}%{s(a[1])})"
    if op == "fn":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op in ("min", "max"):
        return f"{op}({', '.join(s(x) for x in a)})"
    if op == "ge0":
        return f"[{s(a[0])} >= 0]"
    if op == "gt0":
        return f"[{s(a[0])} > 0]"
    if op == "eq0":
        return f"[{s(a[0])} == 0]"
    if op == "eqs":
        return f"[{s(a[0])} == {s(a[1])}]"
    if op == "not":
        return f"not {s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op in ("sum", "prod", "any", "all", "maxr", "minr"):
        return f"{op.upper()}_{s(a[0])}<{s(a[1])} {s(a[2])}"
    if op == "last":
        return f"LAST_{s(a[0])}<{s(a[1])}[{s(a[2])}]({s(a[3])}; {s(a[4])})"
    if op == "lam":
        return f"\\{','.join(s(x) for x in a[0])}. {s(a[1])}"
    if op == "elem":
        return f"{a[0]}[{', '.join(s(x) for x in a[1:])}]"
    if op == "xel":
        return f"{s(a[0])}[{', '.join(s(x) for x in a[1:])}]"
    if op == "xf":
        return f"{a[0]}({', '.join(n + '=' + s(x) for n, x in a[1])}; data={s(a[2][0])})"
    if op == "kern":
        return f"kernel:{a[0]}({', '.join(n + '=' + s(x) for n, x in a[1])})"
    if op == "carry":
        return f"carry<{a[0]}>[{', '.join(s(x) for x in a[1:])}]"
    if op == "unk":
        return f"?({a[0]})"
    if op == "app":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    return op
