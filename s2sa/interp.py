"""Abstract interpreter: computes, for a public function of the analysed
package, its result as a value graph over its parameters.

* branches are joined (gated values), never enumerated as paths;
* loops are summarised once (sum / product / last-write closed forms over the
  iteration variable), never unrolled (except literal ranges of <= 12);
* calls into the package are inlined, calls to external libraries go through
  the models in lib.py / s2model.py;
* anything outside the modelled language becomes Unknown, which makes the
  obligations that need it undecided -- never a report.
"""
from __future__ import annotations
import ast, os, sys
from . import terms as tm
from .terms import Term, const, add, sub, mul, ite, ZERO, ONE, TRUE, FALSE, NONE
from .values import *
from . import arrays as ar
from .arrays import Undecided, IndexSpec

sys.setrecursionlimit(20000)


class PathDead(Exception):
    pass


class MissKey(Exception):
    """lookup of a key that is not in a dict, inside a try statement"""


class Abort(Exception):
    """analysis of the entry point cannot continue"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = None
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.loading = False


class State:
    __slots__ = ("scopes", "heap")

    def __init__(self):
        self.scopes = {}
        self.heap = {}

    def clone(self):
        s = State()
        s.scopes = {k: dict(v) for k, v in self.scopes.items()}
        s.heap = dict(self.heap)
        return s


class Frame:
    def __init__(self, func, sid):
        self.func = func
        self.sid = sid
        self.returns = []   # (cond, value, state)
        self.pcbase = 0
        self.globals_decl = set()
        self.nonlocals = set()
        self.gen = None     # cell id of yielded list
        self.loop_depth = 0


class LoopCtx:
    def __init__(self, t, T, site):
        self.t, self.T, self.site = t, T, site
        self.continues = []
        self.breaks = []
        self.listinfo = {}   # carry id -> dict(appends=int, sets=[idx terms])
        self.discover = False
        self.frame = None


class Event:
    __slots__ = ("kind", "site", "func", "pc", "ivs", "data", "stack")

    def __init__(self, kind, site, func, pc, ivs, data, stack):
        self.kind, self.site, self.func, self.pc, self.ivs, self.data, self.stack = kind, site, func, pc, ivs, data, stack

    def __repr__(self):
        return f"<{self.kind} {self.site} {self.func} {self.data}>"


class Program:
    """parsed source tree of the package under analysis"""

    def __init__(self, root, pkg="s2wav"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        for d, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if not x.startswith((".", "__"))]
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    src = open(p, encoding="utf-8").read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src)
                    self.modules[rel] = Module(rel, p, tree, src)

    def fresh(self):
        """same source, modules not yet loaded"""
        q = Program.__new__(Program)
        q.root, q.pkg = self.root, self.pkg
        q.modules = {k: Module(m.name, m.path, m.tree, m.src) for k, m in self.modules.items()}
        return q


UNROLL = 12


class Interp:
    def __init__(self, program, quiet=True):
        from . import lib, s2model
        self.prog = program
        self.lib = lib
        self.s2 = s2model
        self.st = State()
        self.ncell = 0
        self.meta = {}       # cid -> dict(origin, site)
        self.events = []
        self.mute = 0
        self.quiet = False
        self.frames = []
        self.pc = []
        self.loops = []
        self.nsid = 0
        self.site = ("?", 0)
        self.nodes = 0
        self.funcs_seen = set()
        self.unknowns = []
        self.calls = 0
        self.memo_stores = []
        self.params_sym = {}
        self.budget = 400000
        self.opq = {}
        self.hook = None
        self.nograd = 0
        self.try_depth = 0
        self.trace_jit = False
        self.traced = {}

    def concretise(self, t, what):
        """a Python-level decision on a value: not possible for a traced argument of a jitted function"""
        if self.trace_jit and not self.mute:
            s = traced_in(t, self.jit_depth() > 0)
            if s:
                self.event("concretise", what=what, params=s)

    def detach(self, v):
        d = self.deref(v)
        if isinstance(d, Arr) and d.fw == "torch":
            r = d.map(lambda t: tm.fn("detach", t) if not tm.is_const(t) and t.op != "unk" else t)
            return self.box(r)
        if isinstance(v, TupleV):
            return TupleV([self.detach(x) for x in v.items], v.names, v.cls)
        return v

    # ---------------------------------------------------------------- utils
    def event(self, kind, **data):
        if self.mute or self.quiet and kind == "bounds":
            return
        fr = self.frames[-1].func.name if self.frames else "<module>"
        self.events.append(Event(kind, self.site_str(), fr, list(self.pc), [(l.t, l.T) for l in self.loops], data,
                                 [f.func.name for f in self.frames]))

    def jit_depth(self):
        return sum(1 for f in self.frames if f.func.jit is not None)

    def site_str(self):
        return f"{self.site[0]}:{self.site[1]}"

    def unknown(self, why):
        r = f"{why} at {self.site_str()}"
        if not self.mute:
            self.unknowns.append(r)
        return Unknown(r)

    def unk_t(self, why):
        return tm.unk(f"{why} at {self.site_str()}")

    def new_cell(self, val, origin=None):
        self.ncell += 1
        cid = self.ncell
        self.st.heap[cid] = val
        self.meta[cid] = dict(origin=origin or ("fresh", self.site_str()), alias=None)
        return Ref(cid)

    def drain_shapes(self):
        if ar.SHAPE_OBL:
            for a, b in ar.SHAPE_OBL:
                self.event("shape", a=a, b=b)
            ar.SHAPE_OBL.clear()

    # ---------------------------------------------------------------- handles
    def mutable_arr(self, v):
        return isinstance(v, Arr) and v.fw in ("np", "torch")

    def box(self, v, origin=None):
        """mutable arrays / lists live in the heap"""
        if isinstance(v, Arr) and v.fw in ("np", "torch"):
            return self.new_cell(v, origin)
        if isinstance(v, (ListV, DictV, ObjV)) or (isinstance(v, SeqV) and not v.tup):
            return self.new_cell(v, origin)
        return v

    def deref(self, v):
        """handle -> content (Arr, ListV, ... or immediate)"""
        n = 0
        while True:
            n += 1
            if isinstance(v, Ref):
                v = self.st.heap.get(v.cid, Unknown("dead cell"))
                if isinstance(v, Ref):
                    continue
                return v
            if isinstance(v, View):
                b = self.deref(v.base)
                if isinstance(b, Arr):
                    return self.guard(lambda: ar.take(b, v.spec))
                return self.unknown("view of non-array")
            if isinstance(v, ElemView):
                b = self.deref(v.base)
                q, self.quiet = self.quiet, True   # the range was an obligation of the subscript itself
                try:
                    e = self.seq_get(b, v.idx)
                finally:
                    self.quiet = q
                return self.deref(e)
            if isinstance(v, AttrView):
                b = self.deref(v.base)
                if isinstance(b, Arr):
                    return b.map(lambda t: tm.fn(v.part, t), dtype="float32" if b.dtype == "complex64" else "float64" if b.dtype == "complex128" else b.dtype)
                return self.unknown("real/imag view")
            if isinstance(v, GatedV):
                return self.dgate(v)
            return v

    def dgate(self, v):
        k = self.implied(v.c)
        if k is not None:
            return self.deref(v.a if k else v.b)
        a, b = self.deref(v.a), self.deref(v.b)
        if a is v.a and b is v.b:
            return v
        return gate(v.c, a, b)

    def guard(self, thunk):
        try:
            r = thunk()
            self.drain_shapes()
            return r
        except Undecided as e:
            ar.SHAPE_OBL.clear()
            return self.unknown(str(e))

    def write(self, h, val):
        """replace the content of a handle (in-place mutation)"""
        if isinstance(h, Ref):
            m = self.meta.get(h.cid, {})
            self.note_mutation(h.cid)
            old = self.st.heap.get(h.cid)
            if isinstance(old, Ref):
                return self.write(old, val)
            self.st.heap[h.cid] = val
            al = m.get("alias")
            if al is not None:
                self.note_mutation(al)
                if al in self.st.heap:
                    self.st.heap[al] = Unknown("modified through an alias")
            return
        if isinstance(h, View):
            b = self.deref(h.base)
            if isinstance(b, Arr):
                nb = self.guard(lambda: ar.store(b, h.spec, val, "set"))
                self.write(h.base, nb)
            return
        if isinstance(h, ElemView):
            b = self.deref(h.base)
            cur = self.seq_get(b, h.idx)
            if isinstance(cur, (Ref, View, ElemView)):
                self.write(cur, val)
                return
            self.write(h.base, self.seq_set(b, h.idx, val))
            return
        if isinstance(h, AttrView):
            b = self.deref(h.base)
            if isinstance(b, Arr) and isinstance(val, Arr):
                if h.part == "real":
                    nb = ar.elementwise(lambda o, n: add(n, mul(const(1j), tm.fn("imag", o))), b, val, dtype=b.dtype)
                else:
                    nb = ar.elementwise(lambda o, n: add(tm.fn("real", o), mul(const(1j), n)), b, val, dtype=b.dtype)
                nb.fw = b.fw
                self.write(h.base, nb)
            else:
                self.write(h.base, Unknown("partial write"))
            return
        if isinstance(h, GatedV):
            for side, c in ((h.a, h.c), (h.b, tm.bnot(h.c))):
                old = self.deref(side)
                self.write(side, gate(c, val, old))
            return

    def note_mutation(self, cid):
        m = self.meta.get(cid, {})
        o = m.get("origin", ("?",))
        self.event("mutate", origin=o)
        for extra in m.get("origins", ()):
            self.event("mutate", origin=extra)

    # ---------------------------------------------------------------- sequences
    def seq_len(self, v):
        v = self.deref(v)
        if isinstance(v, (ListV, TupleV)):
            return const(len(v.items))
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, SeqC):
            base = self.seq_len(v.base)
            info = v.lp.listinfo.get(v.cid)
            per = info["appends"] if info else 0
            n = add(base, mul(const(per), v.lp.t))
            n = add(n, const(sum(o[0] == "append" for o in v.ops)))
            return n
        if isinstance(v, DictV):
            if v.symitems and v.glob is not None:
                return tm.sym(f"memosize:{v.glob}", "i", 0)
            return const(len(v.items)) if not v.symitems else self.unk_t("len of dict")
        if isinstance(v, Arr):
            return v.shape[0] if v.shape else self.unk_t("len of scalar")
        if isinstance(v, RangeV):
            return self.range_len(v)
        if isinstance(v, IterV):
            return v.n
        if isinstance(v, GatedV):
            return ite(v.c, self.seq_len(v.a), self.seq_len(v.b))
        if isinstance(v, Term) and v.kind == "s" and tm.is_const(v):
            return const(len(tm.cval(v)))
        return self.unk_t(f"len of {type(v).__name__}")

    def range_len(self, r):
        if tm.is_const(r.step) and tm.cval(r.step) == 1:
            d = sub(r.hi, r.lo)
            return d
        if tm.is_const(r.step) and isinstance(tm.cval(r.step), int) and tm.cval(r.step) != 0:
            s = tm.cval(r.step)
            if s > 0:
                return tm.fdiv(add(sub(r.hi, r.lo), const(s - 1)), const(s))
            return tm.fdiv(add(sub(r.lo, r.hi), const(-s - 1)), const(-s))
        return self.unk_t("symbolic range step")

    def seq_get(self, v, i):
        """element i (Term) of sequence content v"""
        if isinstance(v, (ListV, TupleV)):
            if tm.is_const(i) and isinstance(tm.cval(i), int):
                k = tm.cval(i)
                if -len(v.items) <= k < len(v.items):
                    return v.items[k]
                self.event("bounds", idx=i, dim=const(len(v.items)), what="list index")
                return self.unknown("list index out of range")
            if not v.items:
                self.event("bounds", idx=i, dim=ZERO, what="list index")
                return self.unknown("index into empty list")
            self.event("bounds", idx=i, dim=const(len(v.items)), what="list index")
            w = tm.wrap(i, const(len(v.items)))
            r = v.items[-1]
            for k in range(len(v.items) - 2, -1, -1):
                r = self.vgate(tm.eq(w, const(k)), v.items[k], r)
            return r
        if isinstance(v, SeqV):
            if not (tm.is_const(i) and False):
                self.event("bounds", idx=i, dim=v.n, what="list index")
            return v.at(tm.wrap(i, v.n))
        if isinstance(v, SeqC):
            for o in reversed(v.ops):
                if o[0] == "set":
                    e = tm.eq(o[1], i)
                    if e is TRUE:
                        return o[2]
                    if e is FALSE or tm.infeasible([e]):
                        continue
                    return self.unknown("read of possibly updated list element")
                if o[0] == "condset":
                    e = tm.eq(o[1], i)
                    if e is FALSE or tm.infeasible([e]):
                        continue
                    if e is TRUE:
                        inner = self.seq_get(SeqC(v.lp, v.cid, v.base, v.ops[: v.ops.index(o)]), i)
                        return gate(o[3], self.deref(o[2]), self.deref(inner))
                    return self.unknown("read of possibly updated list element")
                if o[0] == "append":
                    if tm.is_const(i) and tm.cval(i) == -1:
                        return o[1]
                    n = self.seq_len(SeqC(v.lp, v.cid, v.base, v.ops[: v.ops.index(o)]))
                    e = tm.eq(n, i)
                    if e is TRUE:
                        return o[1]
                    if e is FALSE or tm.infeasible([e]):
                        continue
                    return self.unknown("read of appended list element")
            info = v.lp.listinfo.get(v.cid)
            if info is None:   # discovery pass
                return self.seq_get(v.base, i)
            if info["appends"]:
                return self.unknown("read of list being appended")
            if "einv" in info:
                e = tm.eq(info["einv"][0], i)
                if e is TRUE:
                    return info["einv"][1]
                if e is FALSE or tm.infeasible([e]):
                    return self.seq_get(v.base, i)
                return self.unknown("read of possibly updated list element")
            t = v.lp.t
            for e in info["sets"]:
                t2 = tm.iv("u", t)
                e2 = tm.subst(e, {t: t2})
                if not tm.infeasible([tm.eq(e2, i), tm.lt(t2, t)]):
                    return self.unknown("loop-carried list element")
            return self.seq_get(v.base, i)
        if isinstance(v, GatedV):
            return self.vgate(v.c, self.seq_get(self.deref(v.a), i), self.seq_get(self.deref(v.b), i))
        if isinstance(v, RangeV):
            return add(v.lo, mul(v.step, tm.wrap(i, self.range_len(v))))
        if isinstance(v, IterV):
            return v.f(i)
        if isinstance(v, Arr):
            return self.guard(lambda: ar.take(v, IndexSpec(v.shape, [i])))
        if isinstance(v, Unknown):
            return v
        return self.unknown(f"index into {type(v).__name__}")

    def seq_set(self, v, i, val):
        if isinstance(v, ListV):
            if tm.is_const(i) and isinstance(tm.cval(i), int):
                k = tm.cval(i)
                if -len(v.items) <= k < len(v.items):
                    it = list(v.items)
                    it[k] = val
                    return ListV(it)
                self.event("bounds", idx=i, dim=const(len(v.items)), what="list store")
                return self.unknown("list store out of range")
            self.event("bounds", idx=i, dim=const(len(v.items)), what="list store")
            w = tm.wrap(i, const(len(v.items)))
            return ListV([self.vgate(tm.eq(w, const(k)), val, x) for k, x in enumerate(v.items)])
        if isinstance(v, SeqV):
            self.event("bounds", idx=i, dim=v.n, what="list store")
            w = tm.wrap(i, v.n)
            dv = self.deref(val)
            return SeqV(v.n, lambda k: self.vgate(tm.eq(k, w), dv, v.at(k)), v.tup)
        if isinstance(v, SeqC):
            base_n = self.seq_len(v.base)
            self.event("bounds", idx=i, dim=self.seq_len(v), what="list store")
            return SeqC(v.lp, v.cid, v.base, v.ops + (("set", tm.wrap(i, base_n), val),))
        if isinstance(v, GatedV):
            return GatedV(v.c, self.seq_set(self.deref(v.a), i, val), self.seq_set(self.deref(v.b), i, val))
        return self.unknown("element store into unknown sequence")

    def seq_append(self, v, val):
        if isinstance(v, ListV):
            return ListV(v.items + [val])
        if isinstance(v, SeqV):
            n = v.n
            dv = val
            return SeqV(add(n, ONE), lambda k: self.vgate(tm.lt(k, n), v.at(k), dv))
        if isinstance(v, SeqC):
            return SeqC(v.lp, v.cid, v.base, v.ops + (("append", val),))
        if isinstance(v, GatedV):
            return gate(v.c, self.seq_append(self.deref(v.a), val), self.seq_append(self.deref(v.b), val))
        return self.unknown("append to unknown sequence")

    def vgate(self, c, a, b):
        if c.op == "const":
            return a if c.args[0] else b
        if a is b:
            return a
        handles = (Ref, View, ElemView, AttrView)
        if isinstance(a, handles) or isinstance(b, handles):
            if isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid:
                return a
            da, db = self.deref(a), self.deref(b)
            g = gate(c, da, db)
            if isinstance(g, GatedV):
                return GatedV(c, a, b)
            if isinstance(g, Arr) or isinstance(g, (ListV, SeqV, DictV, ObjV)):
                r = self.box(g)
                if isinstance(r, Ref):
                    org = []
                    for h in (a, b):
                        root = self.root(h)
                        if root is not None:
                            org.append(self.meta[root]["origin"])
                            org.extend(self.meta[root].get("origins", ()))
                    self.meta[r.cid]["origins"] = org
                return r
            return g
        return gate(c, a, b)

    def root(self, h):
        while True:
            if isinstance(h, Ref):
                return h.cid
            if isinstance(h, (View, ElemView, AttrView)):
                h = h.base
                continue
            return None

    # ---------------------------------------------------------------- modules
    def module_env(self, name):
        m = self.prog.modules.get(name)
        if m is None:
            return None
        if m.env is None:
            self.load(m)
        return m.env

    def load(self, m):
        m.env = {}
        n0 = self.ncell
        m.loading = True
        sid = self.new_scope()
        self.st.scopes[sid] = m.env  # shared dict: module scope
        f = FuncV(m.tree, m, None, f"<module {m.name}>")
        fr = Frame(f, sid)
        fr.is_module = True
        saved = (self.pc, self.loops, self.frames, self.site)
        self.pc, self.loops = [], []
        self.frames = [fr]
        self.mute += 1
        try:
            for s in m.tree.body:
                try:
                    self.stmt(s)
                except PathDead:
                    pass
                except Undecided:
                    pass
                if self.st is None:
                    break
                m.env = self.st.scopes.get(sid, m.env)
        finally:
            self.mute -= 1
            self.pc, self.loops, self.frames, self.site = saved
        for k, v in list(m.env.items()):
            r = v
            if isinstance(r, Ref):
                self.meta[r.cid]["origin"] = ("global", f"{m.name}.{k}")
                d = self.st.heap.get(r.cid) if self.st is not None else None
                if isinstance(d, DictV) and d.glob is None:
                    d.glob = f"{m.name}.{k}"
        for cid in range(n0 + 1, self.ncell + 1):   # state captured by closures made while the module loads
            d = self.st.heap.get(cid) if self.st is not None else None
            if self.meta[cid]["origin"][0] == "fresh" and isinstance(d, (DictV, ListV, SeqV, Arr, ObjV)):
                self.meta[cid]["origin"] = ("global", f"{m.name}.<closure>")
            if isinstance(d, DictV) and d.glob is None:
                d.glob = f"{m.name}.<closure {cid}>"
        m.loading = False
        m.sid = sid

    def new_scope(self):
        self.nsid += 1
        self.st.scopes[self.nsid] = {}
        return self.nsid

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            if self.st is None:
                return
            try:
                self.stmt(s)
            except PathDead:
                self.st = None
                return

    def stmt(self, s):
        fr = self.frames[-1]
        self.site = (self.rel(fr.func.mod.path), getattr(s, "lineno", 0))
        self.nodes += 1
        if self.nodes > self.budget:
            raise Abort("analysis budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown(f"statement {type(s).__name__}")
            self.havoc_stmt(s)
            return
        m(s)

    def rel(self, p):
        return os.path.relpath(p, self.prog.root) if p else "?"

    def havoc_stmt(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, Unknown("unsupported statement"))
        fr = self.frames[-1]
        if any(isinstance(n, ast.Return) for n in ast.walk(s)) and not getattr(fr, "is_module", False):
            fr.returns.append((tm.band(*self.pc[fr.pcbase:]), self.unknown("return inside an unsupported statement"), self.st))
            self.st = None

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Import(self, s):
        for a in s.names:
            v = self.import_path(a.name)
            if a.asname:
                self.setvar(a.asname, v)
            else:
                self.setvar(a.name.split(".")[0], self.import_path(a.name.split(".")[0]))

    def import_path(self, dotted):
        if dotted in self.prog.modules:
            return ModV(self.prog.modules[dotted])
        return ExtV(canon(dotted))

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        mod = fr.func.mod
        base = s.module or ""
        if s.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                env = self.module_env(base)
                if env:
                    for k, v in env.items():
                        self.setvar(k, v)
                continue
            self.setvar(a.asname or a.name, self.import_from(base, a.name))

    def import_from(self, base, name):
        full = f"{base}.{name}"
        if base in self.prog.modules:
            m = self.prog.modules[base]
            if m.env is None:
                self.load(m)
            if name in (m.env or {}):
                return m.env[name]
            if full in self.prog.modules:
                return ModV(self.prog.modules[full])
            return Unknown(f"cannot import {name} from {base}")
        if full in self.prog.modules:
            return ModV(self.prog.modules[full])
        return ExtV(canon(full))

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        f = FuncV(s, fr.func.mod, fr.sid if not getattr(fr, "is_module", False) else None, s.name)
        f.defaults = self.eval_defaults(s.args)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d), v, d)
        self.setvar(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def eval_defaults(self, a):
        d = {}
        pos = a.posonlyargs + a.args
        for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.ev(e)
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = self.ev(e)
        for k, v in d.items():
            if isinstance(v, Ref):
                self.meta[v.cid]["origin"] = ("default", f"default of {k}")
                dv = self.st.heap.get(v.cid)
                if isinstance(dv, DictV):
                    dv.glob = f"default of {k}"
        return d

    def decorate(self, d, v, node):
        """apply decorator value d to function value v"""
        path = None
        kw = {}
        if isinstance(d, ExtV):
            path = d.path
        elif isinstance(d, PartialV) and isinstance(d.fn, ExtV):
            path = d.fn.path
            kw = d.kwargs
            if d.args:
                path = None
        if isinstance(v, FuncV) and path is not None:
            if path in ("jax.jit", "jax.api.jit", "jax.pjit"):
                f = v.copy()
                f.jit = self.static_names(f, kw)
                return f
            if path in ("functools.lru_cache", "functools.cache"):
                f = v.copy()
                f.cached = True
                return f
            if path in ("torch.no_grad", "torch.inference_mode"):
                f = v.copy()
                f.nograd = True
                return f
            if path in ("torch.enable_grad", "torch.jit.script", "torch.jit.ignore", "torch.compile"):
                return v
            if path in ("functools.wraps", "staticmethod", "property", "numba.jit", "contextlib.contextmanager", "dataclasses.dataclass", "jax.named_call", "typing.no_type_check", "typing.overload", "builtins.staticmethod", "builtins.classmethod", "builtins.property"):
                return v
            f = v.copy()
            f.decor.append(path)
            return Unknown(f"decorator {path}")
        if isinstance(d, BuiltinV) and d.name in ("staticmethod", "identity"):
            return v
        if isinstance(d, (FuncV, BuiltinV)):
            return self.call(d, [v], {}, node)
        if isinstance(d, PartialV):
            return self.call(d, [v], {}, node)
        if isinstance(v, ClassV):
            v.kind = "dataclass" if path and "dataclass" in path else v.kind
            return v
        return Unknown("decorator")

    def static_names(self, f, kw):
        names = self.param_names(f)
        st = set()

        def ints(v):
            v = self.deref(v)
            if isinstance(v, Term):
                return [tm.cval(v)] if tm.is_const(v) else None
            if isinstance(v, (TupleV, ListV)):
                return [tm.cval(x) for x in v.items if isinstance(x, Term) and tm.is_const(x)]
            if isinstance(v, RangeV) and tm.is_const(v.lo) and tm.is_const(v.hi) and tm.is_const(v.step):
                return list(range(tm.cval(v.lo), tm.cval(v.hi), tm.cval(v.step)))
            if isinstance(v, SeqV) and tm.is_const(v.n):
                r = [v.at(const(k)) for k in range(tm.cval(v.n))]
                return [tm.cval(x) for x in r if isinstance(x, Term) and tm.is_const(x)]
            return None
        bad = False
        f.jit_bad = []
        if "static_argnums" in kw:
            r = ints(kw["static_argnums"])
            if r is None:
                bad = True
            for i in r or []:
                if i is None:
                    continue
                if -len(names) <= i < len(names):
                    st.add(names[i])
                else:
                    f.jit_bad.append(i)
        if "static_argnames" in kw:
            r = ints(kw["static_argnames"])
            if r is None:
                bad = True
            for n in r or []:
                if n is not None:
                    st.add(n)
        if "donate_argnums" in kw or "donate_argnames" in kw:
            f.donate = True
        return None if bad else st

    def param_names(self, f):
        while getattr(f, "wrapped", None) is not None:
            f = f.wrapped
        a = f.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        c = ClassV(s, fr.func.mod, s.name)
        bases = [self.ev(b) for b in s.bases]
        if any(isinstance(b, ExtV) and b.path.endswith("NamedTuple") for b in bases):
            c.kind = "namedtuple"
        for d in s.decorator_list:
            dv = self.ev(d)
            p = dv.path if isinstance(dv, ExtV) else dv.fn.path if isinstance(dv, PartialV) and isinstance(dv.fn, ExtV) else ""
            if "dataclass" in p:
                c.kind = "dataclass"
        c.fields = []
        for b in bases:
            if isinstance(b, ClassV):
                c.attrs.update(b.attrs)
                c.fields.extend(b.fields or [])
                if c.kind == "class":
                    c.kind = b.kind
        for n in s.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.fields.append((n.target.id, self.ev(n.value) if n.value is not None else None))
                if n.value is not None:
                    c.attrs[n.target.id] = self.ev(n.value)
            elif isinstance(n, ast.FunctionDef):
                f = FuncV(n, fr.func.mod, None if getattr(fr, "is_module", False) else fr.sid, n.name, cls=c)
                f.defaults = self.eval_defaults(n.args)
                f.static = any(isinstance(d, ast.Name) and d.id in ("staticmethod",) for d in n.decorator_list)
                f.prop = any(isinstance(d, ast.Name) and d.id in ("property",) for d in n.decorator_list)
                f.clsm = any(isinstance(d, ast.Name) and d.id in ("classmethod",) for d in n.decorator_list)
                c.attrs[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = self.ev(n.value)
        self.setvar(s.name, c)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        if self.loops and self.loops[-1].frame is fr:
            # return inside a summarised loop
            self.loops[-1].ret = True
            v = self.unknown("return inside a symbolic loop")
        fr.returns.append((tm.band(*self.pc[fr.pcbase:]), v, self.st))
        self.st = None

    def s_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            name = ast.unparse(e).split(".")[-1]
        if getattr(self, "in_try", 0):
            self.unknown("exception raised inside a try statement")
        self.event("raise", exc=name, caught=bool(getattr(self, "in_try", 0)))
        self.st = None

    def s_Assert(self, s):
        c = self.ev_truth(s.test)
        self.event("assert", cond=c, caught=bool(getattr(self, "in_try", 0)))

    def s_Delete(self, s):
        pass

    def s_Global(self, s):
        self.frames[-1].globals_decl.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def s_With(self, s):
        n = 0
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
            p = v.path if isinstance(v, ExtV) else ""
            if "no_grad" in p or "inference_mode" in p:
                n += 1
        self.nograd += n
        try:
            self.block(s.body)
        finally:
            self.nograd -= n

    def s_Try(self, s):
        self.in_try = getattr(self, "in_try", 0) + bool(s.handlers)
        try:
            self.try_stmt(s)
        finally:
            self.in_try -= bool(s.handlers)

    def try_stmt(self, s):
        if s.handlers and any(isinstance(n, ast.Raise) for x in s.body for n in ast.walk(x)):
            self.unknown("raise inside a try statement")
            self.havoc_stmt(s)
            return
        h = next((h for h in s.handlers if h.type is None or any(n in ast.unparse(h.type) for n in ("KeyError", "LookupError", "Exception"))), None)
        if h is not None:
            s0 = self.st.clone()
            n0 = len(self.pc)
            self.try_depth = getattr(self, "try_depth", 0) + 1
            fr, sc = len(self.frames), self.mute
            try:
                for x in s.body:
                    if self.st is None:
                        break
                    self.stmt(x)
            except MissKey:
                self.st = s0
                del self.pc[n0:]
                del self.frames[fr:]
                self.mute = sc
                self.try_depth -= 1
                self.block(h.body)
                if self.st is not None:
                    self.block(s.finalbody)
                return
            except PathDead:
                self.st = None
            self.try_depth -= 1
        else:
            self.block(s.body)
        if self.st is not None:
            self.block(s.orelse)
        if self.st is not None:
            self.block(s.finalbody)

    def s_Match(self, s):
        subj = self.ev(s.subject)
        # translate literal matches into an if-chain
        tests = []
        for c in s.cases:
            t = self.pattern(subj, c.pattern)
            if t is None:
                self.unknown("match pattern")
                self.havoc_stmt(s)
                return
            if c.guard is not None:
                t = tm.band(t, self.ev_truth(c.guard))
            tests.append((t, c.body))
        self.chain(tests)

    def pattern(self, v, p):
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq(), v, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), v, const(p.value))
        if isinstance(p, ast.MatchOr):
            r = [self.pattern(v, q) for q in p.patterns]
            return None if any(x is None for x in r) else tm.bor(*r)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.setvar(p.name, v)
            return TRUE
        return None

    def chain(self, tests):
        if not tests:
            return
        c, body = tests[0]
        self.branch(c, lambda: self.block(body), lambda: self.chain(tests[1:]))

    def s_If(self, s):
        c = self.ev_truth(s.test)
        if c.op == "unk":
            # undecidable test: havoc everything either branch assigns
            self.event("branch", cond=c)
            self.branch_unknown(c, s)
            return
        self.event("branch", cond=c)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch_unknown(self, c, s):
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, fa, fb):
        if c.op == "const":
            (fa if c.args[0] else fb)()
            return
        known = self.implied(c)
        if known is not None:
            (fa if known else fb)()
            return
        n0 = len(self.pc)
        s0 = self.st
        sa = s0.clone()
        self.st = sa
        self.pc.append(c)
        fa()
        ea = self.st
        addA = self.pc[n0 + 1:]
        del self.pc[n0:]
        self.st = s0
        nc = tm.bnot(c)
        self.pc.append(nc)
        fb()
        eb = self.st
        addB = self.pc[n0 + 1:]
        del self.pc[n0:]
        if ea is None and eb is None:
            self.st = None
            return
        if ea is None:
            self.st = eb
            self.pc.append(nc)
            self.pc.extend(addB)
            return
        if eb is None:
            self.st = ea
            self.pc.append(c)
            self.pc.extend(addA)
            return
        self.st = self.merge_states(c, ea, eb)
        if addA or addB:
            self.pc.append(tm.bor(tm.band(c, *addA), tm.band(nc, *addB)))

    def implied(self, c):
        """value of c if already decided by the path condition"""
        for p in self.pc:
            for q in tm.conj_of(p):
                if q is c:
                    return True
                if q is tm.bnot(c):
                    return False
        if c.op == "ge0" and c.args[0].kind == "i":
            if tm.prove_ge0(c.args[0]):
                return True
            if tm.prove_ge0(sub(const(-1), c.args[0])):
                return False
        return None

    def merge_states(self, c, a, b):
        r = State()
        self.st = r
        # heap first (so that vgate can allocate)
        keys = list(a.heap) + [k for k in b.heap if k not in a.heap]
        hp = {}
        for k in keys:
            if k in a.heap and k in b.heap:
                x, y = a.heap[k], b.heap[k]
                hp[k] = x if x is y else (c, x, y)
            else:
                hp[k] = a.heap.get(k, b.heap.get(k))
        r.heap = {k: v for k, v in hp.items() if not isinstance(v, tuple)}
        for k, v in hp.items():
            if isinstance(v, tuple):
                cc, x, y = v
                g = gate(cc, x, y)
                r.heap[k] = g
        for sid in a.scopes:
            ea, eb = a.scopes[sid], b.scopes.get(sid)
            if eb is None or ea is eb:
                r.scopes[sid] = ea
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                x, y = ea.get(k), eb.get(k)
                if x is y:
                    e[k] = x
                elif x is None:
                    e[k] = y if not isinstance(y, Term) else y
                elif y is None:
                    e[k] = x
                else:
                    e[k] = self.merge_vals(c, x, y, a, b)
            r.scopes[sid] = e
        for sid in b.scopes:
            if sid not in r.scopes:
                r.scopes[sid] = b.scopes[sid]
        # module scopes stay shared
        for m in self.prog.modules.values():
            if m.env is not None and hasattr(m, "sid") and m.sid in r.scopes:
                m.env = r.scopes[m.sid]
        return r

    def merge_vals(self, c, x, y, a, b):
        handles = (Ref, View, ElemView, AttrView)
        if isinstance(x, handles) or isinstance(y, handles):
            if isinstance(x, Ref) and isinstance(y, Ref) and x.cid == y.cid:
                return x
            save = self.st
            tmp_a, tmp_b = a, b
            self.st = a
            dx = self.deref(x)
            self.st = b
            dy = self.deref(y)
            self.st = save
            if isinstance(x, ElemView) and isinstance(y, ElemView) and isinstance(x.base, Ref) and isinstance(y.base, Ref) and x.base.cid == y.base.cid:
                return ElemView(x.base, ite(c, x.idx, y.idx))
            g = gate(c, dx, dy)
            if isinstance(g, GatedV):
                return GatedV(c, x, y)
            rr = self.box(g)
            if isinstance(rr, Ref):
                org = []
                for h in (x, y):
                    root = self.root(h)
                    if root is not None and root in self.meta:
                        org.append(self.meta[root]["origin"])
                        org.extend(self.meta[root].get("origins", ()))
                self.meta[rr.cid]["origins"] = org
            return rr
        return gate(c, x, y)

    # ---------------------------------------------------------------- assignment
    def setvar(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            m = fr.func.mod
            self.event("global_store", name=f"{m.name}.{name}", value=self.deref(v))
            m.env[name] = v
            return
        if name in fr.nonlocals:
            f = fr.func
            sid = f.scope
            while sid is not None:
                if name in self.st.scopes.get(sid, {}):
                    self.st.scopes[sid][name] = v
                    return
                sid = self.scope_parent.get(sid)
            return
        self.st.scopes[fr.sid][name] = v

    scope_parent = {}

    def lookup(self, name):
        fr = self.frames[-1]
        env = self.st.scopes.get(fr.sid)
        if env is not None and name in env and name not in fr.globals_decl:
            return env[name]
        sid = fr.func.scope
        n = 0
        while sid is not None and n < 50:
            e = self.st.scopes.get(sid)
            if e is not None and name in e:
                return e[name]
            sid = self.scope_parent.get(sid)
            n += 1
        m = fr.func.mod
        if m is not None:
            if m.env is None:
                self.load(m)
            if name in m.env:
                return m.env[name]
        b = self.lib.builtin(name)
        if b is not None:
            return b
        if m is not None and m.loading:
            return Unknown(f"name {name}")
        return self.unknown(f"name {name}")

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.index_items(t.slice)
            self.store(base, idx, v, "set")
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.store_attr(base, t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def store_attr(self, base, attr, v):
        if isinstance(base, Ref):
            o = self.deref(base)
            if isinstance(o, ObjV):
                if self.meta[base.cid]["origin"][0] in ("global", "param"):
                    self.note_mutation(base.cid)
                a = dict(o.attrs)
                a[attr] = v
                self.st.heap[base.cid] = ObjV(o.cls, a)
                return
            if isinstance(o, Arr) and attr in ("real", "imag"):
                val = self.deref(v)
                self.write(AttrView(base, attr), val if isinstance(val, Arr) else Arr(o.shape, lambda i: val, o.dtype, o.fw))
                return
        if isinstance(base, (ModV, FuncV, ClassV, ExtV)):
            nm = base.mod.name if isinstance(base, ModV) else getattr(base, "name", getattr(base, "path", "?"))
            m, key = (base.mod, attr) if isinstance(base, ModV) else (getattr(base, "mod", None), f"{nm}.{attr}")
            if m is not None and getattr(m, "env", None) is not None and not isinstance(base, ClassV):
                loading = m.loading
                if not loading:
                    self.event("global_store", name=f"{m.name}.{key}", value=self.deref(v))
                m.env[key] = v
                return
            self.event("global_store", name=f"{nm}.{attr}")
            return
        self.unknown("attribute store")

    def unpack(self, t, v):
        v = self.deref(v)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, GatedV):
            a, b = self.deref(v.a), self.deref(v.b)
            if isinstance(a, (TupleV, ListV)) and isinstance(b, (TupleV, ListV)) and len(a.items) == len(b.items):
                v = TupleV([self.vgate(v.c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(v, (TupleV, ListV)):
            items = v.items
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                vals = items[:i] + [self.new_cell(ListV(items[i:i + k]))] + items[i + k:]
            else:
                if len(items) != n:
                    self.event("unpack", n=n, m=len(items))
                    vals = [self.unknown("unpacking count")] * n
                else:
                    vals = items
        elif isinstance(v, (SeqV, Arr, RangeV, IterV)) and not star:
            vals = [self.seq_get(v, const(i)) for i in range(n)]
            vals = [self.box(x) for x in vals]
        elif isinstance(v, Unknown):
            vals = [v] * n
        else:
            vals = [self.unknown("unpacking")] * n
        for e, x in zip(t.elts, vals):
            self.assign(e, x)

    def s_AugAssign(self, s):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            rhs = self.ev(s.value)
            cv = self.deref(cur)
            if isinstance(cur, (Ref, View, ElemView, GatedV, AttrView)) and isinstance(cv, Arr) and cv.fw in ("np", "torch"):
                new = self.binop(s.op, cv, rhs)
                new = self.deref(new)
                if isinstance(new, Arr):
                    if isinstance(cv.dtype, str) and new.dtype and new.dtype != cv.dtype:
                        self.event("inplace_cast", frm=new.dtype, to=cv.dtype)
                        new = self.cast_into(new, cv.dtype)
                    if len(new.shape) != len(cv.shape):
                        new = self.unknown("in-place broadcast")
                    else:
                        new = Arr(cv.shape, new.f, cv.dtype, cv.fw)
                self.write(cur, new)
                return
            if isinstance(cur, Ref) and isinstance(cv, (ListV, SeqV, SeqC)) and isinstance(s.op, ast.Add):
                self.extend(cur, rhs)
                return
            self.setvar(t.id, self.binop(s.op, cur, rhs))
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.index_items(t.slice)
            rhs = self.ev(s.value)
            b = self.deref(base)
            if isinstance(b, Arr) and isinstance(s.op, (ast.Add, ast.Sub)) and b.fw in ("np", "torch"):
                r = self.deref(rhs)
                if isinstance(s.op, ast.Sub):
                    r = self.deref(self.neg(r))
                self.store(base, idx, r, "add")
                return
            cur = self.subscript(base, idx)
            new = self.binop(s.op, self.deref(cur), rhs)
            self.store(base, idx, new, "set")
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.getattr(base, t.attr)
            rhs = self.ev(s.value)
            self.store_attr(base, t.attr, self.binop(s.op, cur, rhs))

    def under(self, c, f):
        """gate(c, f(True), f(False)) with the events of each side on its own path condition"""
        out = []
        for k, q in ((True, c), (False, tm.bnot(c))):
            self.pc.append(q)
            try:
                out.append(f(k))
            finally:
                self.pc.pop()
        return gate(c, *out)

    def cast_into(self, a, dt):
        """value stored into an array of dtype dt"""
        if isinstance(dt, CondDt):
            return self.under(dt.c, lambda k: self.cast_into(a, dt.a if k else dt.b))
        if dt in ("float32", "complex64") and a.dtype in ("float64", "complex128"):
            return a.map(lambda t: tm.fn("lossy", t), dtype=dt)
        if dt in ("float64", "float32", "int") and a.dtype in ("complex128", "complex64"):
            self.event("real_store", value=a, to=dt)
            return a.map(lambda t: tm.fn("real", t), dtype=dt)
        if dt == "int" and a.dtype in ("float64", "float32"):
            return a.map(lambda t: tm.fn("trunc", t), dtype=dt)
        return a

    def cast_term(self, t, dt):
        if isinstance(dt, CondDt):
            return self.under(dt.c, lambda k: self.cast_term(t, dt.a if k else dt.b))
        if dt in ("float32", "complex64") and t.kind in ("f", "c") and not tm.is_const(t):
            t = tm.fn("lossy", t)
        if dt in ("float64", "float32", "int") and t.kind == "c":
            self.event("real_store", value=t, to=dt)
            t = tm.fn("real", t)
        if dt == "int" and t.kind == "f":
            t = tm.fn("trunc", t)
        return t

    def store(self, base, idx, v, mode):
        b = self.deref(base)
        if isinstance(b, Arr):
            if b.fw == "jnp":
                self.event("jax_item_store")
                return
            val = self.deref(v)
            if isinstance(val, (ListV, TupleV, SeqV)):
                val = self.deref(self.lib.to_array(self, val, b.fw))
            if not isinstance(val, (Arr, Term)):
                self.write_unknown(base, getattr(val, "reason", "store of unknown value"))
                return
            if self.nograd and isinstance(val, Arr):
                val = self.deref(self.detach(val))
            if isinstance(val, Arr):
                val = self.cast_into(val, b.dtype)
            else:
                val = self.cast_term(val, b.dtype)

            def go():
                spec = IndexSpec(b.shape, self.idx_vals(idx))
                for e, d in spec.bounds:
                    self.event("bounds", idx=e, dim=d, what="array store", fw=b.fw)
                return ar.store(b, spec, val, mode)
            nb = self.guard(go)
            self.write(base, nb)
            return
        if isinstance(b, (ListV, SeqV, SeqC)):
            if len(idx) == 1 and isinstance(idx[0], Term):
                if mode == "add":
                    v = self.binop(ast.Add(), self.seq_get(b, idx[0]), v)
                self.write(base, self.seq_set(b, idx[0], v))
                return
            self.write(base, self.unknown("slice store into list"))
            return
        if isinstance(b, DictV):
            self.dict_store(base, b, idx, v)
            return
        if isinstance(b, GatedV):
            self.write_unknown(base, "store into gated value")
            return
        self.write_unknown(base, f"store into {getattr(b, 'reason', type(b).__name__)}")

    def dict_store(self, base, b, idx, v):
        k = self.dict_key(idx)
        if b.glob is not None:
            self.memo_stores.append((b.glob, idx, v, self.site_str(), self.frames[-1].func.name))
            self.event("global_dict_store", name=b.glob, key=list(idx), value=v, content=self.snapshot(v))
            self.mark_origin(v, ("memo", b.glob))
            if self.jit_depth() and holds_array(self, self.deref(v), "jnp"):
                self.event("trace_leak", name=b.glob)
        if not isinstance(base, Ref):
            return
        if b.glob is None:
            self.note_mutation(base.cid)
        if k is not None and b.glob is None:
            items = dict(b.items)
            items[k] = v
            self.st.heap[base.cid] = DictV(items, b.sym, b.glob, b.symitems)
        else:
            self.st.heap[base.cid] = DictV(b.items, True, b.glob, b.symitems + [(list(idx), v, TRUE)])

    def snapshot(self, v):
        """content of a value at this moment (handles resolved)"""
        d = self.deref(v)
        if isinstance(d, (TupleV, ListV)):
            return TupleV([self.snapshot(x) for x in d.items])
        return d

    def mark_origin(self, v, origin):
        if isinstance(v, Ref):
            d = self.deref(v)
            if isinstance(d, (Arr, ListV, SeqV, DictV, ObjV)):
                self.meta[v.cid]["origin"] = origin
            if isinstance(d, ListV):
                for x in d.items:
                    self.mark_origin(x, origin)
        elif isinstance(v, TupleV):
            for x in v.items:
                self.mark_origin(x, origin)

    def dict_find(self, b, idx):
        """(present, value): present is True, False or a term (None: not decidable)"""
        k = self.dict_key(idx)
        comps = self.key_comps(idx)
        conds = []
        for ki, v, c in reversed(b.symitems):
            if self.same_idx(ki, idx):
                q = TRUE
            else:
                kc = self.key_comps(ki)
                if comps is None or kc is None:
                    return None, None
                q = self.keys_equal(kc, comps)
                if q is None:
                    return None, None
            q = tm.band(q, c)
            if q is FALSE:
                continue
            conds.append((q, v))
            if q is TRUE:
                break
        else:
            if k is not None:
                if k in b.items:
                    conds.append((TRUE, b.items[k]))
            elif comps is None and b.items:
                return None, None
            else:
                for kk, v in b.items.items():
                    kt = tuple(const(x) for x in kk) if isinstance(kk, tuple) else (const(kk),)
                    q = self.keys_equal(kt, comps)
                    if q is None:
                        return None, None
                    if q is not FALSE:
                        conds.append((q, v))
        if not conds:
            return False, None
        pres = tm.bor(*[c for c, _ in conds])
        r = conds[-1][1]
        for c, v in reversed(conds[:-1]):
            r = self.vgate(c, v, r)
        return (True if pres is TRUE else pres), r

    def key_comps(self, idx):
        """flat key components, or None"""
        out = []
        for i in idx:
            if isinstance(i, TupleV):
                r = self.key_comps([self.deref(x) for x in i.items])
                if r is None:
                    return None
                out.extend(r)
            elif isinstance(i, Term) and i.op != "unk":
                out.append(i)
            else:
                return None
        return tuple(out)

    def keys_equal(self, a, b):
        if len(a) != len(b):
            return FALSE
        cs = []
        for x, y in zip(a, b):
            if tm.is_const(x) and tm.is_const(y):
                if tm.cval(x) != tm.cval(y):
                    return FALSE
                continue
            c = self.compare(ast.Eq(), x, y)
            if not isinstance(c, Term) or c.op == "unk":
                return None
            cs.append(c)
        return tm.band(*cs) if cs else TRUE

    def write_unknown(self, base, why):
        u = self.unknown(why)
        if isinstance(base, (Ref, View, ElemView)):
            self.write(base, u)

    def key_term(self, idx):
        return idx

    def dict_key(self, idx):
        if len(idx) == 1 and isinstance(idx[0], Term) and tm.is_const(idx[0]):
            return tm.cval(idx[0])
        if all(isinstance(i, Term) and tm.is_const(i) for i in idx):
            return tuple(tm.cval(i) for i in idx)
        if len(idx) == 1 and isinstance(idx[0], TupleV) and all(isinstance(i, Term) and tm.is_const(i) for i in idx[0].items):
            return tuple(tm.cval(i) for i in idx[0].items)
        return None

    # ---------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_each(it, s.target, lambda: self.block(s.body), s)
        if self.st is not None and s.orelse:
            self.block(s.orelse)

    def iter_of(self, it):
        """-> (T, f) or list of values"""
        it0 = it
        it = self.deref(it)
        if isinstance(it, (ListV, TupleV)):
            return list(it.items)
        if isinstance(it, DictV) and not it.sym:
            return [const(k) if not isinstance(k, tuple) else TupleV([const(x) for x in k]) for k in it.items]
        if isinstance(it, Term) and tm.is_const(it) and isinstance(tm.cval(it), str):
            return [const(ch) for ch in tm.cval(it)]
        if isinstance(it, RangeV):
            n = self.range_len(it)
            f = lambda t: add(it.lo, mul(it.step, t))
        elif isinstance(it, (SeqV, SeqC)):
            n = self.seq_len(it)

            def f(t):
                q, self.quiet = self.quiet, True
                try:
                    e = self.seq_get(self.deref(it0), t)
                finally:
                    self.quiet = q
                if self.mutable_arr(e) and isinstance(it0, (Ref, ElemView)):
                    return ElemView(it0, t)
                return e
        elif isinstance(it, IterV):
            n, f = it.n, it.f
        elif isinstance(it, Arr):
            n = it.shape[0]

            def f(t):
                if self.mutable_arr(it) and it.ndim > 1 and isinstance(it0, (Ref, View, ElemView)):
                    return View(it0, IndexSpec(it.shape, [t]))
                return self.seq_get(it, t)
        else:
            return None
        if tm.is_const(n) and isinstance(tm.cval(n), int) and tm.cval(n) <= UNROLL:
            return [f(const(k)) for k in range(max(0, tm.cval(n)))]
        return n, f

    def for_each(self, it, target, body, node):
        sv = self.site
        r = self.iter_of(it)
        if r is None:
            d = self.deref(it)
            if isinstance(d, GatedV):
                a = self.iter_of(d.a)
                b = self.iter_of(d.b)
                if isinstance(a, tuple) and isinstance(b, tuple):
                    r = (ite(d.c, a[0], b[0]), lambda t: self.vgate(d.c, a[1](t), b[1](t)))
            if r is None:
                self.unknown(f"iteration over {type(d).__name__}")
                self.havoc(node)
                return
        if isinstance(r, list):
            self.unrolled(r, target, body, node)
            return
        T, f = r
        if T.op == "unk":
            self.havoc(node)
            return
        self.event("range", n=T)
        self.loop(T, lambda t: self.assign(target, f(t)), body, node)

    def unrolled(self, items, target, body, node):
        fr = self.frames[-1]
        # break/continue inside unrolled loops: handled with a loop context
        lp = LoopCtx(None, None, self.site_str())
        lp.frame = None
        brk = []
        outer = getattr(self, "cur_unroll", None)
        for v in items:
            if self.st is None:
                break
            self.assign(target, v)
            lp.continues, lp.breaks = [], []
            self.cur_unroll = lp
            n0 = len(self.pc)
            body()
            self.cur_unroll = outer
            # merge continues
            end = self.st
            tail = self.pc[n0:]
            del self.pc[n0:]
            for c, st in reversed(lp.continues):
                if end is None:
                    end = st
                else:
                    end = self.merge_states(c, st, end)
            self.st = end
            if lp.breaks:
                # after a conditional break the remaining iterations are undecided
                if len(lp.breaks) == 1 and lp.breaks[0][0].op == "const" or end is None:
                    c, st = lp.breaks[0]
                    self.st = st
                    break
                self.pc.extend([])
                if self.st is not None:
                    conds = [tm.bnot(c) for c, _ in lp.breaks]
                    rest = items[items.index(v) + 1:]
                    sts = lp.breaks
                    cur = self.st
                    self.pc.append(tm.band(*conds))
                    self.unrolled(rest, target, body, node)
                    self.pc.pop()
                    fin = self.st
                    for c, st in reversed(sts):
                        fin = st if fin is None else self.merge_states(c, st, fin)
                    self.st = fin
                break
            if self.st is not None and tail and not lp.continues:
                self.pc.extend(tail)

    def s_Continue(self, s):
        lp = self.cur_loop()
        if lp is None:
            return
        lp.continues.append((tm.band(*self.pc[lp.pcbase:]) if hasattr(lp, "pcbase") else tm.band(*self.pc[self.frames[-1].pcbase:]), self.st))
        self.st = None

    def s_Break(self, s):
        lp = self.cur_loop()
        if lp is None:
            return
        lp.breaks.append((tm.band(*self.pc[lp.pcbase:]) if hasattr(lp, "pcbase") else tm.band(*self.pc[self.frames[-1].pcbase:]), self.st))
        self.st = None

    def cur_loop(self):
        return getattr(self, "cur_unroll", None)

    def s_While(self, s):
        c0 = self.ev_truth(s.test)
        if c0.op == "const" and not c0.args[0]:
            self.block(s.orelse)
            return
        # recognise   while v <op> bound: ... v += k ...
        info = self.while_counter(s)
        if info is None:
            self.unknown("while loop")
            self.havoc(s)
            return
        name, step, T, start, incr = info
        body_nodes = [n for n in s.body if n is not incr]
        pos = s.body.index(incr)
        pre, post = s.body[:pos], s.body[pos + 1:]

        def bind(t):
            self.setvar(name, add(start, mul(const(step), t)))

        def body():
            self.block(pre)
            if self.st is not None:
                self.setvar(name, add(self.lookup(name), const(step)))
                self.block(post)
        self.event("range", n=T)
        self.loop(T, bind, body, s, ignore={name})
        if self.st is not None:
            self.setvar(name, add(start, mul(const(step), tm.mx(T, ZERO) if not tm.prove_ge0(T) else T)))

    def while_counter(self, s):
        if any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(s)):
            return None
        for pos, incr in enumerate(s.body):
            name = step = None
            if any(isinstance(n, ast.Continue) for q in s.body[:pos + 1] for n in ast.walk(q)):
                return None    # the step may be skipped
            if isinstance(incr, ast.AugAssign) and isinstance(incr.target, ast.Name) and isinstance(incr.op, (ast.Add, ast.Sub)):
                v = self.ev(incr.value)
                if isinstance(v, Term) and tm.is_const(v) and isinstance(tm.cval(v), int):
                    name, step = incr.target.id, tm.cval(v) if isinstance(incr.op, ast.Add) else -tm.cval(v)
            elif isinstance(incr, ast.Assign) and len(incr.targets) == 1 and isinstance(incr.targets[0], ast.Name) and isinstance(incr.value, ast.BinOp) and isinstance(incr.value.op, (ast.Add, ast.Sub)) and isinstance(incr.value.left, ast.Name) and incr.value.left.id == incr.targets[0].id:
                v = self.ev(incr.value.right)
                if isinstance(v, Term) and tm.is_const(v) and isinstance(tm.cval(v), int):
                    name, step = incr.targets[0].id, tm.cval(v) if isinstance(incr.value.op, ast.Add) else -tm.cval(v)
            if name is None:
                continue
            assigned = [n for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name]
            if len(assigned) != 1:
                continue
            start = self.lookup(name)
            if not isinstance(start, Term):
                continue
            v = tm.iv("w")
            old = start
            self.setvar(name, v)
            c = self.ev_truth(s.test)
            self.setvar(name, old)
            if c.op not in ("ge0",) or c.args[0].kind != "i":
                continue
            d = c.args[0]
            k = tm._affine_in(d, v)
            # names in the test must be loop invariant
            names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)} - {name}
            stores = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if names & stores:
                continue
            if k == -1 and step > 0:
                hi = add(sub(d, tm.scale(k, v)), ONE)   # v < hi
                T = self.range_len(RangeV(start, hi, const(step)))
                return name, step, T, start, incr
            if k == 1 and step < 0:
                lo = neg_(sub(d, v))                    # v >= lo
                T = self.range_len(RangeV(start, sub(lo, ONE), const(step)))
                return name, step, T, start, incr
        return None

    def havoc(self, node):
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in names:
            self.setvar(n, Unknown(f"assigned in unsummarised loop at {self.site_str()}"))
        # objects mutated by name
        for n in ast.walk(node):
            tgt = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                tgt = n.func.value.id
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                x = n.value
                while isinstance(x, (ast.Subscript, ast.Attribute)):
                    x = x.value
                if isinstance(x, ast.Name):
                    tgt = x.id
            if tgt:
                v = self.st.scopes[self.frames[-1].sid].get(tgt)
                if isinstance(v, (Ref, View, ElemView)):
                    r = self.root(v)
                    if r is not None:
                        self.st.heap[r] = Unknown("mutated in unsummarised loop")

    # the loop summariser -------------------------------------------------
    def exec_body(self, lp, bind, body):
        """run one symbolic iteration from self.st; leaves merged end state"""
        outer = getattr(self, "cur_unroll", None)
        self.cur_unroll = lp
        self.loops.append(lp)
        n0 = len(self.pc)
        lp.pcbase = n0
        lp.continues, lp.breaks = [], []
        try:
            try:
                bind(lp.t)
                body()
            except PathDead:
                self.st = None
        finally:
            self.loops.pop()
            self.cur_unroll = outer
        del self.pc[n0:]
        end = self.st
        for c, st in reversed(lp.continues):
            end = st if end is None else self.merge_states(c, st, end)
        return end

    def loop(self, T, bind, body, node, ignore=frozenset()):
        site = self.site
        fr = self.frames[-1]
        pre = self.st
        t = tm.iv("t", T)
        # -- pass 1: discovery
        lp = LoopCtx(t, T, self.site_str())
        lp.discover = True
        lp.frame = fr
        self.mute += 1
        self.st = pre.clone()
        # lists read/updated symbolically during discovery
        self.seq_wrap(lp, pre, None)
        end = self.exec_body(lp, bind, body)
        self.mute -= 1
        if end is None:
            # body always raises/returns: loop executes at most once
            if lp.breaks:
                self.st = pre
                self.site = site
                self.havoc(node)
                return
            self.st = pre
            self.site = site
            # replay with events so that guards are seen
            self.st = pre.clone()
            self.exec_body(lp, bind, body)
            self.st = pre
            return
        if lp.breaks:
            self.st = pre
            self.site = site
            self.unknown("break in symbolic loop")
            self.havoc(node)
            return
        changed = self.diff(pre, end)
        for attempt in range(4):
            self.st = pre.clone()
            lp2 = LoopCtx(t, T, self.site_str())
            lp2.frame = fr
            carr = self.make_carries(lp2, pre, end, changed, lp)
            self.mute += 1
            end2 = self.exec_body(lp2, bind, body)
            self.mute -= 1
            if end2 is None:
                self.st = pre
                self.havoc(node)
                return
            ch2 = self.diff_carry(pre, end2, carr)
            new = {k: v for k, v in ch2.items() if k not in changed}
            if not new and self.list_consistent(lp2, carr, end2):
                break
            changed = dict(changed)
            changed.update(new)
            end = end2
            self.list_refresh(lp, carr, end2)
        # -- pass with events
        self.site = site
        self.st = pre.clone()
        lp3 = LoopCtx(t, T, self.site_str())
        lp3.frame = fr
        lp3.listinfo = lp2.listinfo
        carr = self.make_carries(lp3, pre, end, changed, lp)
        end3 = self.exec_body(lp3, bind, body)
        self.site = site
        if end3 is None:
            self.st = pre
            self.havoc(node)
            return
        self.close_loop(lp3, pre, end3, carr, ignore)

    def seq_wrap(self, lp, st, only):
        """turn every list of the state into a SeqC so that updates are recorded"""
        for cid, v in list(self.st.heap.items()):
            if isinstance(v, (ListV, SeqV)) or (isinstance(v, SeqC)):
                self.st.heap[cid] = SeqC(lp, ("h", cid), v)

    def diff(self, a, b):
        """changed variables/cells: key -> (before, after)"""
        r = {}
        for sid, e in a.scopes.items():
            e2 = b.scopes.get(sid, {})
            if e is e2:
                continue
            for k, v in e.items():
                if k in e2 and e2[k] is not v:
                    r[("v", sid, k)] = (v, e2[k])
        for sid, e2 in b.scopes.items():
            e = a.scopes.get(sid)
            if e is None:
                continue
            for k, v in e2.items():
                if k not in e:
                    r[("v", sid, k)] = (None, v)
        for cid, v in a.heap.items():
            v2 = b.heap.get(cid)
            if isinstance(v2, SeqC) and v2.cid == ("h", cid):
                if v2.ops:
                    r[("h", cid)] = (v, v2)
                continue
            if v2 is not v:
                if isinstance(v, DictV) and v.glob is not None:
                    continue
                r[("h", cid)] = (v, v2)
        return r

    def diff_carry(self, pre, end, carr):
        r = {}
        for k, (a, b) in self.diff(pre, end).items():
            if k in carr:
                # unchanged carry?
                if carr[k]["carry"] is b:
                    continue
            elif k[0] == "h" and isinstance(b, SeqC) and not b.ops:
                continue
            r[k] = (a, b)
        return r

    def make_carries(self, lp, pre, end, changed, disc):
        """install loop-carried placeholders in self.st"""
        carr = {}
        # every list becomes a recording SeqC
        for cid, v in list(self.st.heap.items()):
            if isinstance(v, (ListV, SeqV, SeqC)):
                key = ("h", cid)
                self.st.heap[cid] = SeqC(lp, key, v)
                out = changed.get(key, (None, None))[1]
                ap, sets, weird = 0, [], False
                if isinstance(out, SeqC) and out.cid == key:
                    for o in out.ops:
                        if o[0] == "append":
                            ap += 1
                        else:
                            sets.append(tm.subst(o[1], {disc.t: lp.t}) if disc.t is not lp.t else o[1])
                if key not in lp.listinfo:
                    lp.listinfo[key] = dict(appends=ap, sets=sets)
                    if not ap and sets and all(x is sets[0] for x in sets) and lp.t not in sets[0].fv and not tm.contains(sets[0], "carry"):
                        # every update hits one loop-invariant position: carry that element
                        e = sets[0]
                        self.mute += 1
                        old = self.deref(self.seq_get(v, e))
                        self.mute -= 1
                        new = self.deref_in(end, out.ops[-1][2])
                        if isinstance(old, (Arr, Term)):
                            cv = self.mk_carry(key, old, new)
                            lp.listinfo[key]["einv"] = (e, cv, old)
        for key, (a, b) in changed.items():
            if key[0] == "h":
                if isinstance(pre.heap[key[1]], (ListV, SeqV, SeqC)):
                    inf = lp.listinfo.get(key, {})
                    if "einv" in inf:
                        carr[key] = dict(init=inf["einv"][2], carry=self.st.heap[key[1]], kind="elist", e=inf["einv"][0], base=pre.heap[key[1]])
                        continue
                    carr[key] = dict(init=pre.heap[key[1]], carry=self.st.heap[key[1]], kind="list")
                    continue
                c = self.mk_carry(key, a, b)
                carr[key] = dict(init=a, carry=c, kind="cell")
                self.st.heap[key[1]] = c
            else:
                _, sid, name = key
                if a is None:
                    carr[key] = dict(init=None, carry=None, kind="local")
                    self.st.scopes[sid].pop(name, None)
                    continue
                da = a
                st = self.st
                c = self.mk_carry(key, self.deref_in(pre, a), self.deref_in(end, b))
                if isinstance(a, (Ref, View, ElemView)) and isinstance(c, Arr):
                    c = self.new_cell(c)
                    self.meta[c.cid]["origins"] = [self.meta.get(self.root(a), {}).get("origin", ("?",))]
                carr[key] = dict(init=a, carry=c, kind="var")
                self.st.scopes[sid][name] = c
        return carr

    def deref_in(self, st, v):
        s = self.st
        self.st = st
        self.mute += 1
        try:
            return self.deref(v)
        finally:
            self.mute -= 1
            self.st = s

    def mk_carry(self, key, a, b):
        if isinstance(a, Term):
            k = a.kind
            if isinstance(b, Term):
                if tm._ORD.get(a.kind) is not None and tm._ORD.get(b.kind) is not None:
                    k = max(a.kind, b.kind, key=lambda q: tm._ORD[q])
                    if k == "b" and a.kind != b.kind:
                        k = "i"
                elif a.kind != b.kind:
                    k = "?"
            else:
                k = "?"
            return tm.carry(key, kind=k)
        if isinstance(a, Arr):
            dt = a.dtype
            if isinstance(b, Arr):
                dt = join_dtype(a.dtype, b.dtype) if a.dtype != b.dtype else a.dtype
            kd = dtype_kind(dt)
            return Arr(a.shape, lambda idx: tm.carry(key, *idx, kind=kd), dt, a.fw)
        if isinstance(a, TupleV):
            if isinstance(b, TupleV) and len(b.items) == len(a.items):
                return TupleV([self.mk_carry(key + (i,), x, y) for i, (x, y) in enumerate(zip(a.items, b.items))], a.names, a.cls)
        return Unknown("loop-carried value of unsupported type")

    def list_consistent(self, lp, carr, end):
        for key, c in carr.items():
            if c["kind"] not in ("list", "elist"):
                continue
            v = end.heap.get(key[1])
            if not isinstance(v, SeqC):
                continue
            info = lp.listinfo.get(key)
            ap = sum(o[0] == "append" for o in v.ops)
            sets = [o[1] for o in v.ops if o[0] in ("set", "condset")]
            if ap != info["appends"] or set(sets) != set(info["sets"]):
                return False
        return True

    def list_refresh(self, lp, carr, end):
        pass

    # -- closing -----------------------------------------------------------
    def carries_in(self, v):
        """carry ids occurring in an abstract value"""
        out = set()

        def term(x):
            if not tm.contains(x, "carry"):
                return
            for y in tm.walk(x):
                if y.op == "carry":
                    out.add(y.args[0])

        def go(v):
            if isinstance(v, Term):
                term(v)
            elif isinstance(v, Arr):
                for s in v.shape:
                    term(s)
                term(v.inst()[1])
            elif isinstance(v, (TupleV, ListV)):
                for x in v.items:
                    go(x)
            elif isinstance(v, SeqV):
                term(v.n)
                go(v.inst()[1])
            elif isinstance(v, GatedV):
                term(v.c)
                go(v.a)
                go(v.b)
            elif isinstance(v, DictV):
                for x in v.items.values():
                    go(x)
            elif isinstance(v, ObjV):
                for x in v.attrs.values():
                    go(x)
            elif isinstance(v, RangeV):
                for x in (v.lo, v.hi, v.step):
                    term(x)
            elif isinstance(v, PartialV):
                for x in list(v.args) + list(v.kwargs.values()):
                    go(x)
        go(v)
        return out

    def full(self, v, st, pre):
        """fully dereferenced value for cells created inside the loop body; handles
        to objects that existed before the loop are kept"""
        if isinstance(v, Ref):
            if v.cid in pre.heap:
                return v
            return self.full(self.deref_in(st, v), st, pre)
        if isinstance(v, (View, ElemView, AttrView)):
            root = self.root(v)
            if root is not None and root in pre.heap:
                x = st.heap.get(root)
                return self.full(self.deref_in(st, v), st, pre)
            return self.full(self.deref_in(st, v), st, pre)
        if isinstance(v, TupleV):
            return TupleV([self.full(x, st, pre) for x in v.items], v.names, v.cls)
        if isinstance(v, ListV):
            return ListV([self.full(x, st, pre) for x in v.items])
        if isinstance(v, SeqV):
            return SeqV(v.n, lambda k: self.full(v.at(k), st, pre), v.tup)
        if isinstance(v, GatedV):
            return gate(v.c, self.full(v.a, st, pre), self.full(v.b, st, pre))
        if isinstance(v, SeqC):
            return v
        if isinstance(v, DictV):
            return DictV({k: self.full(x, st, pre) for k, x in v.items.items()}, v.sym, v.glob, v.symitems)
        if isinstance(v, ObjV):
            return ObjV(v.cls, {k: self.full(x, st, pre) for k, x in v.attrs.items()})
        return v

    def close_loop(self, lp, pre, end, carr, ignore):
        t, T = lp.t, lp.T
        outs = {}
        for key, c in carr.items():
            if key[0] == "v":
                v = end.scopes.get(key[1], {}).get(key[2])
                if v is None:
                    continue
                if c["kind"] == "var" and c["carry"] is v:
                    continue
            else:
                v = end.heap.get(key[1])
                if v is c["carry"]:
                    continue
            outs[key] = v
        prefix = {}   # carry id -> function(n) giving state after n iterations (scalar term / Arr)
        pending = {}
        lists = {}
        for key, v in outs.items():
            c = carr[key]
            if c["kind"] == "list":
                lists[key] = v
            elif c["kind"] == "elist":
                s0 = self.st
                self.st = end
                self.mute += 1
                ev = self.deref(self.seq_get(v, c["e"]))
                self.mute -= 1
                self.st = s0
                pending[key] = self.full(ev, end, pre)
            else:
                fv = self.full(v, end, pre)
                pending[key] = fv
        # carries that never changed in the end: identity
        for key, c in carr.items():
            if key not in outs and c["kind"] in ("var", "cell"):
                init = self.deref_in(pre, c["init"])
                prefix[key] = (lambda init: (lambda n: init))(init)
        closed = {}
        progress = True
        pend = dict(pending)
        while pend and progress:
            progress = False
            for key in list(pend):
                v = pend[key]
                deps = {d for d in self.carries_in(v)}
                deps = {self.base_key(d, carr) for d in deps}
                deps.discard(None)
                others = deps - {key}
                if all(o in prefix for o in others):
                    v2 = v
                    if others:
                        v2 = self.subst_prefix(v, {o: prefix[o] for o in others}, t)
                    init = carr[key]["init"]
                    di = self.deref_in(pre, init) if init is not None else None
                    pf = self.close_value(key, di, v2, lp)
                    prefix[key] = pf
                    closed[key] = pf
                    del pend[key]
                    progress = True
        for key in pend:
            closed[key] = (lambda why: (lambda n: Unknown(why)))(f"mutually dependent loop-carried values at {lp.site}")
            prefix[key] = closed[key]
        # install
        st = pre
        self.st = st
        zero_trip = not tm.prove_ge0(sub(T, ONE))
        for key, pf in closed.items():
            val = pf(T)
            if carr[key]["kind"] == "elist":
                self.mute += 1
                st.heap[key[1]] = self.seq_set(carr[key]["base"], carr[key]["e"], val)
                self.mute -= 1
            elif key[0] == "h":
                st.heap[key[1]] = val
            else:
                init = carr[key]["init"]
                if isinstance(init, Ref) and isinstance(val, Arr):
                    r = self.new_cell(val)
                    org = [self.meta.get(self.root(init), {}).get("origin", ("?",))]
                    self.meta[r.cid]["origins"] = [o for o in org if o[0] != "fresh"]
                    val = r
                elif isinstance(val, (Arr, ListV, SeqV, DictV, ObjV)):
                    val = self.box(val)
                st.scopes[key[1]][key[2]] = val
        # lists
        for key, v in lists.items():
            st.heap[key[1]] = self.close_list(key, carr[key], v, lp, pre, end, prefix)
        # cells created inside the body that are referenced from the outside were dereferenced in full()

    def base_key(self, d, carr):
        while d not in carr and len(d) > 3:
            d = d[:-1]
        return d if d in carr else None

    def subst_prefix(self, v, pfs, t):
        def cf(cid, idx, kind):
            k = cid
            path = []
            while k not in pfs and len(k) > 3:
                path.append(k[-1])
                k = k[:-1]
            if k not in pfs:
                return None
            st = pfs[k](t)
            for p in reversed(path):
                st = st.items[p] if isinstance(st, TupleV) else st
            if isinstance(st, Term):
                return st
            if isinstance(st, Arr):
                if len(idx) == st.ndim:
                    return st.at(*idx)
            if isinstance(st, Unknown):
                return tm.unk(st.reason)
            return tm.unk("loop-carried value")
        return subst_val(v, {}, cf)

    def close_value(self, key, init, out, lp):
        """-> function n -> value after n iterations"""
        t, T = lp.t, lp.T
        if init is not None and isinstance(init, TupleV) and isinstance(out, TupleV) and len(init.items) == len(out.items):
            deps = self.carries_in(out)
            fs = []
            for i, (a, b) in enumerate(zip(init.items, out.items)):
                kk = key + (i,)
                oth = {d for d in self.carries_in(b)} - {kk}
                if any(d[: len(key)] == key for d in oth):
                    return lambda n: Unknown("mutually dependent tuple carries")
                fs.append(self.close_value(kk, self.deref(a), self.deref(b), lp))
            return lambda n: TupleV([f(n) for f in fs], init.names, init.cls)
        own = key in self.carries_in(out)
        if not own:
            def last(n):
                if init is None:
                    return subst_val(out, {t: sub(n, ONE)})
                if isinstance(init, Term) and isinstance(out, Term):
                    return tm.mk_last(t, n, TRUE, out, init)
                return self.vgate(tm.gt0(n) if not tm.prove_ge0(sub(n, ONE)) else TRUE, subst_val(out, {t: sub(n, ONE)}), init)
            return last
        if isinstance(out, Unknown) or init is None:
            return lambda n: Unknown("loop-carried unknown")
        if isinstance(out, Term) and isinstance(init, Term):
            r = self.recur(key, (), out, lambda idx: init, lp)
            if r is None:
                return lambda n: tm.unk(f"unrecognised recurrence at {lp.site}")
            return r
        if isinstance(out, Arr) and isinstance(init, Arr):
            if out.ndim != init.ndim:
                return lambda n: Unknown("loop-carried array changes rank")
            if any(x is not y for x, y in zip(out.shape, init.shape)):
                # broadcast growth such as  acc = 0-d + array is not supported
                for x, y in zip(out.shape, init.shape):
                    if x is not y:
                        self.event("shape", a=x, b=y)
            vs, body = out.inst()
            r = self.recur(key, vs, body, lambda idx: init.at(*idx), lp)
            if r is None:
                return lambda n: Unknown(f"unrecognised array recurrence at {lp.site}")

            def arr(n):
                term = r(n)
                return Arr(init.shape, lambda idx: tm.subst(term, dict(zip(vs, idx))), out.dtype, out.fw)
            return arr
        if isinstance(out, Arr) and isinstance(init, Term):
            # acc = 0 ; acc = acc + array
            vs, body = out.inst()
            r = self.recur(key, vs, body, lambda idx: init, lp, scalar_key=True)
            if r is None:
                return lambda n: Unknown(f"unrecognised array recurrence at {lp.site}")
            return lambda n: Arr(out.shape, (lambda term: (lambda idx: tm.subst(term, dict(zip(vs, idx)))))(r(n)), out.dtype, out.fw)
        if isinstance(out, GatedV):
            return lambda n: Unknown("gated loop-carried value")
        return lambda n: Unknown(f"unsupported loop-carried value at {lp.site}")

    def recur(self, key, vs, body, initf, lp, scalar_key=False):
        """closed form of x := body(x) ; body over carry(key, *vs)"""
        t = lp.t
        kappas = [x for x in tm.walk(body) if x.op == "carry" and x.args[0] == key]
        ident = [x for x in kappas if tuple(x.args[1:]) == (tuple(vs) if not scalar_key else ())]
        foreign = [x for x in kappas if x not in ident]
        kappa = ident[0] if ident else None
        if foreign:
            # reads of other positions: must not have been written earlier in this loop
            regions = self.write_regions(body, kappa, vs, t)
            if regions is None:
                return None
            m = {}
            for x in foreign:
                idx = x.args[1:]
                t2 = tm.iv("u", t)
                for w in regions:
                    w2 = tm.subst(w, {**dict(zip(vs, idx)), t: t2})
                    if not tm.infeasible([w2, tm.lt(t2, t)]):
                        return None
                m[x] = initf(tuple(idx))
            body = tm.subst(body, m) if not any(k.op == "iv" for k in m) else body
        r = self.decompose(body, kappa, t)
        if r is None:
            return None
        return self.solve(r, kappa, tuple(vs), initf, t)

    def write_regions(self, body, kappa, vs, t):
        """conditions under which the body changes the element at vs"""
        out = []

        def go(b, cond):
            if b is kappa:
                return
            if b.op == "ite":
                go(b.args[1], cond + [b.args[0]])
                go(b.args[2], cond + [tm.bnot(b.args[0])])
                return
            if b.op == "lin" and kappa is not None:
                d = dict(b.args[1])
                if d.get(kappa) == 1 and b.args[0] == 0:
                    for x, k in d.items():
                        if x is not kappa:
                            if x.op == "ite" and tm._is0(x.args[2]):
                                go(x.args[1], cond + [x.args[0]])
                            elif x.op == "ite" and tm._is0(x.args[1]):
                                go(x.args[2], cond + [tm.bnot(x.args[0])])
                            else:
                                out.append(tm.band(*cond))
                    return
                # nested: a term containing kappa plus others
                inner = [x for x in d if self.has(x, kappa)]
                if len(inner) == 1 and d[inner[0]] == 1:
                    go(inner[0], cond)
                    for x in d:
                        if x is not inner[0]:
                            if x.op == "ite" and tm._is0(x.args[2]):
                                out.append(tm.band(*cond, x.args[0]))
                            else:
                                out.append(tm.band(*cond))
                    return
            out.append(tm.band(*cond))
        go(body, [])
        res = []
        for c in out:
            if c.op == "or":
                res.extend(c.args)
            else:
                res.append(c)
        return res

    def has(self, t, kappa):
        if kappa is None:
            return False
        if not tm.contains(t, "carry"):
            return False
        return any(x is kappa for x in tm.walk(t))

    def decompose(self, b, kappa, t):
        """-> ('id',) | ('add', e) | ('mul', e) | ('set', cond, val) | ('split', c, A, B)"""
        if b is kappa:
            return ("id",)
        if not self.has(b, kappa):
            return ("set", TRUE, b)
        if b.op == "ite":
            c, p, q = b.args
            if self.has(c, kappa):
                # x = e if e > x else x  -> not supported
                return None
            P = self.decompose(p, kappa, t)
            Q = self.decompose(q, kappa, t)
            if P is None or Q is None:
                return None
            return self.comb(c, P, Q, t)
        if b.op == "lin":
            const_, items = b.args
            inner = [(x, k) for x, k in items if self.has(x, kappa)]
            if len(inner) == 1 and inner[0][1] == 1:
                x, _ = inner[0]
                rest = sub(b, x)
                X = self.decompose(x, kappa, t)
                if X is None:
                    return None
                if X[0] == "id":
                    return ("add", rest)
                if X[0] == "add":
                    return ("add", add(X[1], rest))
                return None
            if len(inner) == 1:
                x, k = inner[0]
                if x is kappa and b.args[0] == 0 and len(items) == 1:
                    return ("mul", const(k))
            return None
        if b.op == "mul":
            d = dict(b.args[0])
            inner = [x for x in d if self.has(x, kappa)]
            if len(inner) == 1 and d[inner[0]] == 1:
                x = inner[0]
                del d[x]
                rest = tm.mk_mul(1, d)
                X = self.decompose(x, kappa, t)
                if X is None:
                    return None
                if X[0] == "id":
                    return ("mul", rest)
                if X[0] == "mul":
                    return ("mul", mul(X[1], rest))
            return None
        if b.op == "last":
            v, T, c, val, init = b.args
            if not (self.has(T, kappa) or self.has(c, kappa) or self.has(val, kappa)):
                X = self.decompose(init, kappa, t)
                if X is not None and X[0] in ("id", "set"):
                    S = ("set", tm.mk_red("any", v, T, c), tm.mk_last(v, T, c, val, ZERO))
                    return self.comb(S[1], ("set", TRUE, S[2]), X, t)
            return None
        if b.op in ("max", "min"):
            inner = [x for x in b.args if self.has(x, kappa)]
            if inner == [kappa]:
                rest = [x for x in b.args if x is not kappa]
                return (b.op, tm._mm(b.op, rest))
        if b.op in ("and", "or"):
            inner = [x for x in b.args if self.has(x, kappa)]
            if inner == [kappa]:
                rest = [x for x in b.args if x is not kappa]
                return (b.op, (tm.band if b.op == "and" else tm.bor)(*rest))
        return None

    def comb(self, c, P, Q, t):
        if P[0] == "id" and Q[0] == "id":
            return ("id",)
        if P[0] in ("add", "id") and Q[0] in ("add", "id"):
            return ("add", ite(c, P[1] if P[0] == "add" else ZERO, Q[1] if Q[0] == "add" else ZERO))
        if P[0] in ("mul", "id") and Q[0] in ("mul", "id"):
            return ("mul", ite(c, P[1] if P[0] == "mul" else ONE, Q[1] if Q[0] == "mul" else ONE))
        if P[0] in ("set", "id") and Q[0] in ("set", "id"):
            pc = tm.band(c, P[1]) if P[0] == "set" else FALSE
            qc = tm.band(tm.bnot(c), Q[1]) if Q[0] == "set" else FALSE
            if P[0] == "id":
                return ("set", qc, Q[2])
            if Q[0] == "id":
                return ("set", pc, P[2])
            return ("set", tm.bor(pc, qc), ite(pc, P[2], Q[2]))
        if t not in c.fv:
            return ("split", c, P, Q)
        return None

    def solve(self, r, kappa, vs, initf, t):
        init = initf(vs)
        if r[0] == "id":
            return lambda n: init
        if r[0] == "add":
            e = r[1]
            return lambda n: add(init, self.sum_to(t, n, e))
        if r[0] == "mul":
            e = r[1]
            return lambda n: mul(init, self.prod_to(t, n, e))
        if r[0] == "set":
            _, c, v = r
            return lambda n: self.last_to(t, n, c, v, init)
        if r[0] == "split":
            _, c, P, Q = r
            fp = self.solve(P, kappa, vs, initf, t)
            fq = self.solve(Q, kappa, vs, initf, t)
            if fp is None or fq is None:
                return None
            return lambda n: ite(c, fp(n), fq(n))
        if r[0] in ("max", "min"):
            e = r[1]
            return lambda n: tm._mm(r[0], [init, self.red_to(r[0] + "r", t, n, e)]) if False else tm.unk("max/min recurrence")
        if r[0] in ("and", "or"):
            e = r[1]
            op = "all" if r[0] == "and" else "any"
            f = tm.band if r[0] == "and" else tm.bor

            def g(n):
                t2 = tm.iv("t", n)
                return f(init, tm.mk_red(op, t2, n, tm.subst(e, {t: t2})))
            return g
        return None

    def fresh_t(self, t, n):
        return tm.iv("t", n)

    def sum_to(self, t, n, e):
        t2 = tm.iv("t", n)
        return tm.mk_sum(t2, n, tm.subst(e, {t: t2}))

    def prod_to(self, t, n, e):
        t2 = tm.iv("t", n)
        return tm.mk_prod(t2, n, tm.subst(e, {t: t2}))

    def last_to(self, t, n, c, v, init):
        t2 = tm.iv("t", n)
        m = {t: t2}
        c2, v2 = tm.subst(c, m), tm.subst(v, m)
        # disjunction of solvable conditions: later disjuncts are handled one by one
        if c2.op == "or":
            # if all disjuncts are pairwise contradictory, nest
            ds = list(c2.args)
            return self.last_or(t2, n, ds, v2, init)
        return tm.mk_last(t2, n, c2, v2, init)

    def last_or(self, t, n, ds, v, init):
        sols = []
        for d in ds:
            s = tm.solve_eq(d, t)
            if s is None:
                return tm.mk_last(t, n, tm.bor(*ds), v, init)
            e, rest = s
            g = tm.simp_cond(tm.band(tm.ge0(e), tm.lt(e, n), *[tm.subst(x, {t: e}) for x in rest]))
            sols.append((g, e))
        # last write wins: largest solution index among satisfied ones
        res = init
        done = []
        for i, (g, e) in enumerate(sols):
            val = tm.subst(v, {t: e})
            later = []
            for j, (g2, e2) in enumerate(sols):
                if j != i:
                    later.append(tm.band(g2, tm.gt0(sub(e2, e))))
            cond = tm.band(g, *[tm.bnot(x) for x in later if not tm.infeasible([g, x])])
            res = ite(cond, val, res)
        return res

    def close_list(self, key, c, v, lp, pre, end, prefix):
        t, T = lp.t, lp.T
        if not isinstance(v, SeqC) or v.cid != key:
            if isinstance(v, Unknown):
                return v
            return Unknown(f"list rebuilt inside loop at {lp.site}")
        base = c["init"]
        n0 = self.seq_len(base)
        pfs = {k: p for k, p in prefix.items()}

        def fin(x):
            x = self.full(x, end, pre)
            if self.carries_in(x):
                x = self.subst_prefix(x, pfs, t)
            return x
        apps = [o for o in v.ops if o[0] == "append"]
        sets = [o for o in v.ops if o[0] in ("set", "condset")]
        if apps and not sets:
            p = len(apps)
            vals = [fin(o[1]) for o in apps]
            if any(isinstance(x, Unknown) for x in vals):
                pass
            Tn = T if tm.prove_ge0(T) else tm.mx(T, ZERO)

            def get(k):
                r = sub(k, n0)
                if p == 1:
                    e = subst_val(vals[0], {t: r})
                else:
                    q = tm.fdiv(r, const(p))
                    rem = tm.mod(r, const(p))
                    e = subst_val(vals[-1], {t: q})
                    for i in range(p - 2, -1, -1):
                        e = self.vgate(tm.eq(rem, const(i)), subst_val(vals[i], {t: q}), e)
                if n0 is ZERO:
                    return e
                return self.vgate(tm.lt(k, n0), self.seq_get(base, k), e)
            return SeqV(add(n0, mul(const(p), Tn)), get)
        if sets and not apps:
            vals = [(o[1], fin(o[2]), o[3] if o[0] == "condset" else TRUE) for o in sets]
            # several sets to the same index in one iteration: the last one wins
            uniq = []
            for i, (e, x, g) in enumerate(vals):
                if g is TRUE:
                    uniq = [(e2, x2, g2) for e2, x2, g2 in uniq if e2 is not e]
                elif uniq and uniq[-1][0] is e:
                    # conditional overwrite of the element just written
                    e2, x2, g2 = uniq.pop()
                    s0 = self.st
                    self.st = end
                    x = self.vgate(g, x, x2)
                    self.st = s0
                    x, g = self.full(x, end, pre), tm.bor(g, g2)
                uniq.append((e, x, g))
            if len(uniq) != 1:
                return Unknown(f"several list positions updated per iteration at {lp.site}")
            e, x, g = uniq[0]
            if t in g.fv and False:
                return Unknown("conditional list update")

            def get(k):
                s = tm.solve_eq(tm.eq(k, e), t)
                old = self.seq_get(base, k)
                if s is None:
                    return Unknown(f"list update index not invertible at {lp.site}")
                sol, rest = s
                cond = tm.simp_cond(tm.band(tm.ge0(sol), tm.lt(sol, T), tm.subst(g, {t: sol}), *[tm.subst(y, {t: sol}) for y in rest]))
                new = subst_val(x, {t: sol})
                return self.vgate(cond, new, old)
            if tm.is_const(n0):
                return ListV([get(const(i)) for i in range(tm.cval(n0))])
            return SeqV(n0, get)
        return Unknown(f"mixed list updates at {lp.site}")

    # ---------------------------------------------------------------- expressions
    def ev_truth(self, e):
        return self.truth(self.ev(e))

    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, Term):
            self.concretise(v, "truth value")
            return tm.truth(v)
        if isinstance(v, (ListV, TupleV)):
            return const(len(v.items) > 0)
        if isinstance(v, DictV):
            return const(len(v.items) > 0)
        if isinstance(v, (SeqV, SeqC)):
            return tm.gt0(self.seq_len(v))
        if isinstance(v, (FuncV, ModV, ExtV, ClassV, ObjV)):
            return TRUE
        if isinstance(v, GatedV):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Unknown):
            return tm.unk(v.reason)
        if isinstance(v, Arr):
            if self.jit_depth() and v.fw == "jnp":
                self.event("jit_array_truth")
            if all(tm.is_const(s) and tm.cval(s) == 1 for s in v.shape):
                return tm.truth(v.at(*[ZERO] * v.ndim))
            self.event("array_truth")
            return self.unk_t("truth value of an array")
        return self.unk_t("truth value")

    def ev(self, e):
        self.nodes += 1
        if self.nodes > self.budget:
            raise Abort("analysis budget exceeded")
        if hasattr(e, "lineno") and self.frames:
            self.site = (self.rel(self.frames[-1].func.mod.path), e.lineno)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown(f"expression {type(e).__name__}")
        r = m(e)
        if self.nograd and isinstance(e, (ast.Call, ast.BinOp, ast.UnaryOp)):
            r = self.detach(r)
        return r

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return EllipsisV()
        if isinstance(e.value, (bool, int, float, complex, str)) or e.value is None:
            return const(e.value)
        return self.unknown("constant")

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.deref(self.ev(v.value))
                parts.append(x if isinstance(x, Term) else tm.unk("fstring"))
        if all(tm.is_const(p) for p in parts):
            try:
                return const("".join(str(tm.cval(p)) for p in parts))
            except Exception:
                pass
        return tm.app("str", *parts, kind="s")

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_Name(self, e):
        v = self.lookup(e.id)
        while isinstance(v, GatedV):
            k = self.implied(v.c)
            if k is None:
                break
            v = v.a if k else v.b
        return v

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return TupleV(self.elts(e.elts))

    def e_List(self, e):
        return self.new_cell(ListV(self.elts(e.elts)))

    def e_Set(self, e):
        return self.new_cell(ListV(self.elts(e.elts)))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.deref(self.ev(x.value))
                r = self.iter_of(v)
                if isinstance(r, list):
                    out.extend(r)
                else:
                    out.append(self.unknown("starred element"))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            val = self.ev(v)
            if k is None:
                o = self.deref(val)
                if isinstance(o, DictV):
                    d.update(o.items)
                continue
            kk = self.deref(self.ev(k))
            key = self.dict_key([kk]) if isinstance(kk, (Term, TupleV)) else None
            if key is None and not (isinstance(kk, Term) and tm.is_const(kk)):
                return self.unknown("symbolic dict key")
            d[key] = val
        return self.new_cell(DictV(d))

    def e_Lambda(self, e):
        fr = self.frames[-1]
        f = FuncV(e, fr.func.mod, None if getattr(fr, "is_module", False) else fr.sid, "<lambda>")
        f.defaults = self.eval_defaults(e.args)
        return f

    def e_IfExp(self, e):
        c = self.ev_truth(e.test)
        self.event("branch", cond=c)
        if c.op == "const":
            return self.ev(e.body if c.args[0] else e.orelse)
        k = self.implied(c)
        if k is not None:
            return self.ev(e.body if k else e.orelse)
        res = {}

        def fa():
            try:
                res["a"] = self.ev(e.body)
            except PathDead:
                self.st = None

        def fb():
            try:
                res["b"] = self.ev(e.orelse)
            except PathDead:
                self.st = None
        sa = {}
        n0 = len(self.pc)
        s0 = self.st
        self.st = s0.clone()
        self.pc.append(c)
        fa()
        ea = self.st
        del self.pc[n0:]
        self.st = s0
        self.pc.append(tm.bnot(c))
        fb()
        eb = self.st
        del self.pc[n0:]
        if ea is None and eb is None:
            raise PathDead()
        if ea is None:
            self.st = eb
            self.pc.append(tm.bnot(c))
            return res["b"]
        if eb is None:
            self.st = ea
            self.pc.append(c)
            return res["a"]
        self.st = self.merge_states(c, ea, eb)
        a, b = res["a"], res["b"]
        if a is b:
            return a
        return self.merge_vals(c, a, b, ea, eb)

    def e_BoolOp(self, e):
        # value semantics for  x or default
        vals = []
        isand = isinstance(e.op, ast.And)
        n0 = len(self.pc)
        out = None
        acc = []
        for i, x in enumerate(e.values):
            v = self.ev(x)
            dv = self.deref(v)
            acc.append(v)
            t = self.truth(v)
            if t.op == "const" and bool(t.args[0]) != isand:
                break
            if i < len(e.values) - 1:
                self.pc.append(t if isand else tm.bnot(t))
        del self.pc[n0:]
        r = acc[-1]
        for v in reversed(acc[:-1]):
            t = self.truth(v)
            r_ = self.deref(r)
            dv = self.deref(v)
            if isinstance(dv, Term) and isinstance(r_, Term) and (dv.kind == "b" or r_.kind == "b") and dv.kind in "b?" and r_.kind in "b?":
                r = tm.band(dv, r_) if isand else tm.bor(dv, r_)
            elif isand:
                r = self.vgate(t, r, v)
            else:
                r = self.vgate(t, v, r)
        return r

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return tm.bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        d = self.deref(v)
        if isinstance(e.op, ast.Invert):
            if isinstance(d, Arr) and d.dtype == "bool":
                return self.box(d.map(tm.bnot))
            if isinstance(d, Term) and d.kind == "b":
                return tm.bnot(d)
            if isinstance(d, Term):
                return sub(const(-1), d)
        return self.unknown("unary op")

    def neg(self, v):
        d = self.deref(v)
        if isinstance(d, Term):
            return tm.neg(d) if d.op != "unk" else d
        if isinstance(d, Arr):
            return self.box(d.map(tm.neg))
        if isinstance(d, GatedV):
            return gate(d.c, self.neg(d.a), self.neg(d.b))
        return self.unknown("negation")

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.site = (self.rel(self.frames[-1].func.mod.path), e.lineno)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, GatedV):
            return gate(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
        if isinstance(b, GatedV):
            return gate(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
        # sequences
        if isinstance(op, ast.Add):
            if isinstance(a, Term) and isinstance(b, Term) and (a.kind == "s" or b.kind == "s"):
                if tm.is_const(a) and tm.is_const(b):
                    return const(tm.cval(a) + tm.cval(b))
                return tm.app("str", a, b, kind="s")
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            if isinstance(a, ListV) and isinstance(b, ListV):
                return self.new_cell(ListV(a.items + b.items))
            if isinstance(a, (ListV, SeqV, TupleV)) and isinstance(b, (ListV, SeqV, TupleV)):
                na, nb = self.seq_len(a), self.seq_len(b)
                A, B = a, b
                return self.new_cell(SeqV(add(na, nb), lambda k: self.vgate(tm.lt(k, na), self.seq_get(A, k) if not (isinstance(A, (ListV, TupleV)) and not A.items) else Unknown("empty"), self.seq_get(B, sub(k, na)))))
            if isinstance(a, SeqC) or isinstance(b, SeqC):
                return self.unknown("list concatenation in loop")
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListV, TupleV)) and isinstance(y, Term):
                    if tm.is_const(y) and isinstance(tm.cval(y), int):
                        r = x.items * tm.cval(y)
                        return TupleV(r) if isinstance(x, TupleV) else self.new_cell(ListV(r))
                    if len(x.items) == 1:
                        it = x.items[0]
                        nn = tm.mx(y, ZERO) if not tm.prove_ge0(y) else y
                        return self.new_cell(SeqV(nn, lambda k: it))
        if isinstance(op, ast.Mod) and isinstance(a, Term) and a.kind == "s":
            return tm.app("str", a, kind="s")
        if isinstance(op, ast.MatMult):
            return self.lib.matmul(self, a, b)
        f = self.lib.SCALAR_OPS.get(type(op))
        if f is None:
            return self.unknown(f"operator {type(op).__name__}")
        if isinstance(a, (ListV, TupleV, SeqV)) and isinstance(b, Arr):
            a = self.deref(self.lib.to_array(self, a, b.fw))
        if isinstance(b, (ListV, TupleV, SeqV)) and isinstance(a, Arr):
            b = self.deref(self.lib.to_array(self, b, a.fw))
        if not isinstance(a, (Term, Arr)) or not isinstance(b, (Term, Arr)):
            return self.unknown(f"operands {type(a).__name__},{type(b).__name__}")
        if isinstance(a, Term) and isinstance(b, Term):
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
                self.event("divide", den=b, num=a)
            if isinstance(op, ast.Pow):
                self.event("power", base=a, exp=b)
            return f(a, b)
        return self.lib.arr_binop(self, op, f, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            res.append(self.compare(op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        if all(isinstance(x, Term) for x in res):
            return tm.band(*res)
        return self.unknown("chained array comparison")

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            return r if isinstance(op, ast.Is) else tm.bnot(r)
        a0, b0 = a, b
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(r, Term):
                return r if isinstance(op, ast.In) else tm.bnot(r)
            return r
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return tm.unk((a if isinstance(a, Unknown) else b).reason)
        if isinstance(a, GatedV):
            return self.vgate(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, GatedV):
            return self.vgate(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        f = {ast.Eq: tm.eq, ast.NotEq: tm.ne, ast.Lt: tm.lt, ast.LtE: tm.le,
             ast.Gt: lambda x, y: tm.lt(y, x), ast.GtE: lambda x, y: tm.le(y, x)}[type(op)]
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op == "unk" or b.op == "unk":
                return a if a.op == "unk" else b
            return f(a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            # array == None etc. : framework-specific, identity for our purposes
            if (isinstance(a, Term) and a.kind == "n") or (isinstance(b, Term) and b.kind == "n"):
                other = b if isinstance(a, Term) and a.kind == "n" else a
                if not isinstance(other, Arr):
                    return const(isinstance(op, ast.NotEq))
            seqs = (TupleV, ListV, SeqV)
            if isinstance(a, seqs) and isinstance(b, seqs):
                if isinstance(a, (TupleV, ListV)) and isinstance(b, (TupleV, ListV)):
                    if len(a.items) != len(b.items):
                        r = FALSE
                    else:
                        rs = [self.compare(ast.Eq(), x, y) for x, y in zip(a.items, b.items)]
                        if not all(isinstance(x, Term) for x in rs):
                            return self.unk_t("sequence comparison")
                        r = tm.band(*rs)
                    return r if isinstance(op, ast.Eq) else tm.bnot(r)
                return self.unk_t("sequence comparison")
        if isinstance(a, (Term, Arr)) and isinstance(b, (Term, Arr)):
            r = self.guard(lambda: ar.elementwise(f, a, b, dtype="bool"))
            return r if isinstance(r, (Term, Unknown)) else self.box(r)
        if isinstance(a, Term) or isinstance(b, Term):
            return const(isinstance(op, ast.NotEq))
        return self.unk_t("comparison")

    def is_same(self, a, b):
        a_, b_ = self.deref(a), self.deref(b)
        for x, y in ((a_, b_), (b_, a_)):
            if isinstance(y, Term) and tm.is_const(y) and tm.cval(y) is None:
                if isinstance(x, GatedV):
                    return ite(x.c, self.is_same(x.a, NONE), self.is_same(x.b, NONE))
                if isinstance(x, Term):
                    if x.kind == "n":
                        return TRUE
                    if x.op == "ite":
                        return ite(x.args[0], self.is_same(x.args[1], NONE), self.is_same(x.args[2], NONE))
                    if x.kind == "?" and x.op in ("unk", "carry"):
                        return tm.unk("is None of unknown")
                    return FALSE
                if isinstance(x, Unknown):
                    return tm.unk(x.reason)
                return FALSE
        if isinstance(a_, Term) and isinstance(b_, Term):
            return tm.eq(a_, b_)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return const(a.cid == b.cid)
        if isinstance(a_, ExtV) and isinstance(b_, ExtV):
            return const(a_.path == b_.path)
        return const(a_ is b_)

    def contains(self, seq, x):
        while isinstance(seq, SeqC):
            info = seq.lp.listinfo.get(seq.cid) or {}
            if seq.ops or info.get("appends") or info.get("sets"):
                return self.unk_t("membership in a list being built")
            seq = seq.base
        if isinstance(seq, (ListV, TupleV)):
            rs = [self.compare(ast.Eq(), x, y) for y in seq.items]
            if all(isinstance(r, Term) for r in rs):
                return tm.bor(*rs)
            return self.unk_t("membership")
        if isinstance(seq, DictV):
            x = self.deref(x)
            if isinstance(x, (Term, TupleV)):
                p, _ = self.dict_find(seq, list(x.items) if isinstance(x, TupleV) and x.items else [x])
                if p is not None:
                    if seq.glob is not None and p is not True:
                        self.event("global_dict_read", name=seq.glob, key=[x])
                    return p if isinstance(p, Term) else const(p)
            return self.unk_t("dict membership")
        if isinstance(seq, Term) and seq.kind == "s" and isinstance(x, Term) and tm.is_const(seq) and tm.is_const(x):
            return const(tm.cval(x) in tm.cval(seq))
        if isinstance(seq, RangeV) and isinstance(x, Term) and tm.is_const(seq.step) and tm.cval(seq.step) == 1:
            return tm.band(tm.le(seq.lo, x), tm.lt(x, seq.hi))
        return self.unk_t("membership")

    # -- subscripts
    def index_items(self, sl):
        if isinstance(sl, ast.Tuple):
            return [self.index_item(x) for x in sl.elts]
        v = self.index_item(sl)
        if isinstance(v, TupleV):
            return list(v.items) if v.items else [v]
        return [v]

    def index_item(self, x):
        if isinstance(x, ast.Slice):
            g = lambda y: None if y is None else self.deref(self.ev(y))
            return SliceV(g(x.lower), g(x.upper), g(x.step))
        v = self.ev(x)
        d = self.deref(v)
        return d

    def idx_vals(self, idx):
        out = []
        for i in idx:
            if isinstance(i, (ListV, SeqV)):
                i = self.deref(self.lib.to_array(self, i, "np"))
            if isinstance(i, Arr) and i.ndim == 0:
                i = i.at()
            if isinstance(i, RangeV):
                r = i
                i = Arr((self.range_len(r),), lambda q: add(r.lo, mul(r.step, q[0])), "int", "np")
            if isinstance(i, Unknown):
                raise Undecided(i.reason)
            if isinstance(i, SliceV):
                for q in (i.a, i.b, i.c):
                    self.concretise(q, "slice bound")
                    if isinstance(q, Unknown):
                        raise Undecided(q.reason)
                    if isinstance(q, Term) and q.op == "unk":
                        raise Undecided(q.args[0])
            out.append(i)
        return out

    def e_Subscript(self, e):
        base = self.ev(e.value)
        if isinstance(base, (ExtV, ClassV)):
            return base   # typing generics
        idx = self.index_items(e.slice)
        self.site = (self.rel(self.frames[-1].func.mod.path), e.lineno)
        return self.subscript(base, idx)

    def subscript(self, base, idx):
        if isinstance(base, AtV) and base.spec is None:
            return AtV(base.base, idx)
        if isinstance(base, GatedV):
            return self.vgate(base.c, self.subscript(base.a, idx), self.subscript(base.b, idx))
        b = self.deref(base)
        if isinstance(b, Unknown):
            return b
        if isinstance(b, Arr):
            def go():
                spec = IndexSpec(b.shape, self.idx_vals(idx))
                for e, d in spec.bounds:
                    self.event("bounds", idx=e, dim=d, what="array index", fw=b.fw)
                if not spec.out_shape:
                    return b.at(*spec.to_base(()))
                if self.mutable_arr(b) and not spec.fancy and not spec.has_mask and isinstance(base, (Ref, View, ElemView)):
                    return View(base, spec)
                if spec.has_mask:
                    raise Undecided("boolean-mask read")
                return ar.take(b, spec)
            r = self.guard(go)
            if self.mutable_arr(r):
                return self.box(r)
            return r
        if isinstance(b, (ListV, TupleV, SeqV, SeqC, RangeV, GatedV)):
            if len(idx) == 1 and isinstance(idx[0], SliceV):
                return self.seq_slice(b, idx[0])
            if len(idx) == 1 and isinstance(idx[0], Term):
                if idx[0].op == "unk":
                    return self.unknown(idx[0].args[0])
                self.concretise(idx[0], "list index")
                r = self.seq_get(b, idx[0])
                if self.mutable_arr(r) and isinstance(base, (Ref, ElemView)):
                    return ElemView(base, idx[0])
                if isinstance(r, (ListV, SeqV)) and not getattr(r, "tup", False) and isinstance(base, (Ref, ElemView)):
                    return ElemView(base, idx[0])
                return r
            return self.unknown("sequence index")
        if isinstance(b, DictV):
            p, v = self.dict_find(b, idx)
            if p is True:
                return v
            if b.glob is not None:
                self.event("global_dict_read", name=b.glob, key=list(idx))
            if p is False:
                if getattr(self, "try_depth", 0):
                    raise MissKey()
                return self.unknown("lookup of a missing key")
            if p is None:
                return self.unknown("dict lookup")
            if isinstance(p, Term) and self.try_depth and self.implied(p) is None:
                return self.unknown("conditional dict lookup in try")
            return v   # present on some inputs; KeyError otherwise
        if isinstance(b, Term) and b.kind == "s" and tm.is_const(b) and len(idx) == 1:
            i = idx[0]
            if isinstance(i, Term) and tm.is_const(i):
                return const(tm.cval(b)[tm.cval(i)])
            if isinstance(i, SliceV):
                g = lambda q: None if q is None else tm.cval(q)
                return const(tm.cval(b)[slice(g(i.a), g(i.b), g(i.c))])
        if isinstance(b, (ExtV, FuncV)):
            return b
        if isinstance(b, Term) and b.kind == "n" and not self.try_depth:
            self.none_error("TypeError")
        return self.unknown(f"subscript of {type(b).__name__}")

    def none_error(self, exc):
        """an operation on None that always raises"""
        self.event("raise", exc=exc, implicit=True, none=True)
        self.st = None
        raise PathDead()

    def same_idx(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, TupleV) and isinstance(y, TupleV):
                if not self.same_idx(x.items, y.items):
                    return False
            elif x is not y:
                return False
        return True

    def seq_slice(self, b, sl):
        if isinstance(b, (ListV, TupleV)):
            g = lambda q: None if q is None or (tm.is_const(q) and tm.cval(q) is None) else q
            a, c, s = g(sl.a), g(sl.b), g(sl.c)
            if all(q is None or tm.is_const(q) for q in (a, c, s)):
                k = slice(*[None if q is None else tm.cval(q) for q in (a, c, s)])
                return TupleV(b.items[k]) if isinstance(b, TupleV) else self.new_cell(ListV(b.items[k]))
        n = self.seq_len(b)
        try:
            start, step, ln = ar.norm_slice(sl, n)
        except Undecided as e:
            return self.unknown(str(e))
        B = b
        if isinstance(b, SeqC):
            return self.unknown("slice of a list being built")
        return self.box(SeqV(ln, lambda k: self.seq_get(B, add(start, tm.scale(step, k))), isinstance(b, TupleV)))

    def e_Slice(self, e):
        return self.index_item(e)

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, v, name):
        if isinstance(v, ModV):
            m = v.mod
            if m.env is None:
                self.load(m)
            if name in m.env:
                return m.env[name]
            sub_ = f"{m.name}.{name}"
            if sub_ in self.prog.modules:
                return ModV(self.prog.modules[sub_])
            return self.unknown(f"attribute {m.name}.{name}")
        if isinstance(v, ExtV):
            return self.lib.ext_attr(self, v.path + "." + name)
        if isinstance(v, GatedV):
            d = self.dgate(v)
            if isinstance(d, GatedV):
                return self.vgate(v.c, self.getattr(v.a, name), self.getattr(v.b, name))
        return self.lib.get_attr(self, v, name)

    # -- comprehensions
    def comp(self, e, add_elem):
        fr = self.frames[-1]
        # comprehension scope: reuse the function scope but restore shadowed names
        env = self.st.scopes[fr.sid]
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: env.get(n) for n in names}

        def run(gens):
            if not gens:
                add_elem()
                return
            g = gens[0]

            def body():
                def inner():
                    run(gens[1:])
                conds = g.ifs
                if not conds:
                    inner()
                    return
                c = tm.band(*[self.ev_truth(x) for x in conds])
                self.event("branch", cond=c)
                self.branch(c, inner, lambda: None)
            self.for_each(self.ev(g.iter), g.target, body, e)
        run(e.generators)
        if self.st is None:
            raise PathDead()
        env = self.st.scopes[fr.sid]
        for n, v in saved.items():
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v

    def e_ListComp(self, e):
        r = self.new_cell(ListV([]))
        nm = f"@comp{r.cid}"
        self.st.scopes[self.frames[-1].sid][nm] = r

        def el():
            v = self.ev(e.elt)
            if self.st is None:
                return
            self.write_quiet(r, self.seq_append(self.deref(r), v))
        self.comp(e, el)
        self.st.scopes[self.frames[-1].sid].pop(nm, None)
        return r

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def write_quiet(self, r, v):
        self.st.heap[r.cid] = v

    def e_DictComp(self, e):
        r = self.new_cell(DictV({}))

        def el():
            k = self.ev(e.key)
            v = self.ev(e.value)
            self.store(r, [self.deref(k)], v, "set")
        self.comp(e, el)
        return r

    def e_Yield(self, e):
        fr = self.frames[-1]
        v = self.ev(e.value) if e.value is not None else NONE
        if fr.gen is not None:
            self.write_quiet(fr.gen, self.seq_append(self.deref(fr.gen), v))
        return NONE

    def e_YieldFrom(self, e):
        fr = self.frames[-1]
        v = self.ev(e.value)
        if fr.gen is not None:
            self.extend(fr.gen, v)
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    def extend(self, lst, v):
        r = self.iter_of(v)
        cur = self.deref(lst)
        if isinstance(r, list):
            for x in r:
                cur = self.seq_append(cur, x)
            self.write(lst, cur)
            return
        if isinstance(r, tuple) and isinstance(cur, (ListV, SeqV)):
            n0 = self.seq_len(cur)
            n, f = r
            C = cur
            if isinstance(C, ListV) and not C.items:
                self.write(lst, SeqV(n, f))
                return
            self.write(lst, SeqV(add(n0, n), lambda k: self.vgate(tm.lt(k, n0), self.seq_get(C, k), f(sub(k, n0)))))
            return
        self.write(lst, self.unknown("extend"))

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value)
            if isinstance(recv, (ModV, ExtV)):
                fv = self.getattr(recv, e.func.attr)
            else:
                fv = self.method(recv, e.func.attr)
        else:
            fv = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.ev(a.value))
                r = self.iter_of(v)
                if isinstance(r, list):
                    args.extend(r)
                elif isinstance(v, Arr) or r is not None:
                    args.append(self.unknown("starred argument"))
                else:
                    args.append(self.unknown("starred argument"))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.deref(v)
                if isinstance(d, DictV):
                    kw.update(d.items)
                else:
                    kw["**"] = self.unknown("** argument")
            else:
                kw[k.arg] = v
        self.site = (self.rel(self.frames[-1].func.mod.path), e.lineno)
        return self.call(fv, args, kw, e)

    def method(self, recv, name):
        return self.getattr_method(recv, name)

    def getattr_method(self, recv, name):
        d = recv
        if isinstance(recv, GatedV):
            x = self.dgate(recv)
            if isinstance(x, GatedV):
                # call on both sides
                return BuiltinV("gated." + name, lambda it, a, k: it.vgate(recv.c, it.call(it.method(recv.a, name), a, k, None), it.call(it.method(recv.b, name), a, k, None)))
        return self.lib.get_attr(self, recv, name)

    def call(self, fv, args, kw, node):
        self.calls += 1
        if isinstance(fv, Unknown):
            self.escape(args, kw)
            return fv
        if isinstance(fv, FuncV):
            return self.call_func(fv, args, kw)
        if isinstance(fv, PartialV):
            k2 = dict(fv.kwargs)
            k2.update(kw)
            return self.call(fv.fn, list(fv.args) + list(args), k2, node)
        if isinstance(fv, BuiltinV):
            try:
                r = fv.fn(self, args, kw)
            except Undecided as ex:
                ar.SHAPE_OBL.clear()
                r = self.unknown(str(ex))
            self.drain_shapes()
            return r
        if isinstance(fv, BoundV):
            try:
                r = self.lib.call_method(self, fv.obj, fv.name, args, kw)
            except Undecided as ex:
                ar.SHAPE_OBL.clear()
                r = self.unknown(str(ex))
            self.drain_shapes()
            return r
        if isinstance(fv, ExtV):
            try:
                r = self.lib.call_ext(self, fv.path, args, kw)
            except Undecided as ex:
                ar.SHAPE_OBL.clear()
                r = self.unknown(str(ex))
            self.drain_shapes()
            if self.mutable_arr(r) or isinstance(r, (ListV, DictV)):
                r = self.box(r)
            return r
        if isinstance(fv, ClassV):
            return self.construct(fv, args, kw)
        if isinstance(fv, GatedV):
            s = {}
            res = []

            def side(f):
                def g():
                    res.append(self.call(f, args, kw, node))
                return g
            n0 = len(self.pc)
            s0 = self.st
            self.st = s0.clone()
            self.pc.append(fv.c)
            a = self.call(fv.a, args, kw, node)
            ea = self.st
            del self.pc[n0:]
            self.st = s0
            self.pc.append(tm.bnot(fv.c))
            b = self.call(fv.b, args, kw, node)
            eb = self.st
            del self.pc[n0:]
            self.st = self.merge_states(fv.c, ea, eb)
            return self.merge_vals(fv.c, a, b, ea, eb) if a is not b else a
        if isinstance(fv, ObjV) or isinstance(fv, Ref):
            o = self.deref(fv)
            if isinstance(o, ObjV) and "__call__" in o.cls.attrs:
                return self.call_func(o.cls.attrs["__call__"], [fv] + list(args), kw)
        self.escape(args, kw)
        return self.unknown(f"call of {type(fv).__name__}")

    def escape(self, args, kw):
        pass

    def construct(self, c, args, kw):
        if c.kind in ("namedtuple", "dataclass") and "__init__" not in c.attrs:
            names = [n for n, _ in c.fields]
            vals = {}
            for n, v in zip(names, args):
                vals[n] = v
            vals.update(kw)
            for n, d in c.fields:
                if n not in vals and d is not None:
                    vals[n] = d
            items = [vals.get(n, Unknown("field")) for n in names]
            if c.kind == "namedtuple":
                return TupleV(items, names, c)
            r = self.new_cell(ObjV(c, dict(zip(names, items))))
            if "__post_init__" in c.attrs:
                self.call_func(c.attrs["__post_init__"], [r], {})
            return r
        r = self.new_cell(ObjV(c, {}))
        init = c.attrs.get("__init__")
        if init is not None:
            self.call_func(init, [r] + list(args), kw)
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = TupleV(args[len(names):])
                args = args[: len(names)]
            else:
                return None, f"too many arguments for {f.name}"
        elif a.vararg:
            env[a.vararg.arg] = TupleV([])
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        konly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in env:
                    return None, f"duplicate argument {k} for {f.name}"
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None, f"unexpected argument {k} for {f.name}"
        if a.kwarg:
            env[a.kwarg.arg] = self.new_cell(DictV(extra))
        for n in names + konly:
            if n not in env:
                if n in f.defaults:
                    env[n] = f.defaults[n]
                else:
                    return None, f"missing argument {n} for {f.name}"
        return env, None

    def call_func(self, f, args, kw, entry=False):
        if len(self.frames) > 40:
            return self.unknown("recursion depth")
        if sum(1 for fr in self.frames if fr.func.node is f.node) > 4:
            return self.unknown("recursion")
        if f.bound is not None:
            args = [f.bound] + list(args)
        env, err = self.bind_args(f, args, kw)
        if env is None:
            self.event("call_error", what=err)
            return self.unknown(err)
        if self.hook is not None and not entry:
            h = self.hook(self, f, env)
            if h is not None:
                return h
        if f.jit is not None and not entry:
            # jit boundary: arrays become immutable JAX values
            kwnames = set(kw)
            for n in list(env):
                if n in f.jit:
                    continue
                env[n] = self.jit_arg(env[n])
            static_by_kw = [n for n in f.jit if n in kwnames]
            self.event("jit_call", func=f, env=dict(env), kw=kwnames)
        if f.jit is not None and self.trace_jit:
            self.trace_args(f, env, args, kw)
        if f.cached:
            for n, v in env.items():
                d = self.deref(v)
                if isinstance(d, (ListV, SeqV, SeqC, DictV)) or isinstance(d, Arr) and d.fw in ("np", "jnp") and d.ndim > 0:
                    self.event("unhashable", func=f.name, param=n)
                if self.trace_jit and isinstance(d, Term):
                    self.concretise(d, f"argument {n} of the memoised function {f.name}")
        self.funcs_seen.add((f.mod.name, f.name))
        sid = self.new_scope()
        self.scope_parent[sid] = f.scope
        self.st.scopes[sid] = env
        fr = Frame(f, sid)
        fr.pcbase = len(self.pc)
        site = self.site
        isgen = self.is_gen(f.node)
        outer_unroll = getattr(self, "cur_unroll", None)
        self.cur_unroll = None
        self.frames.append(fr)
        ng = 1 if getattr(f, "nograd", False) else 0
        self.nograd += ng
        try:
            if isgen:
                fr.gen = self.new_cell(ListV([]))
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body)
                    fr.returns.append((tm.band(*self.pc[fr.pcbase:]), v, self.st))
                except PathDead:
                    pass
                self.st = None
            else:
                self.block(f.node.body)
        finally:
            self.frames.pop()
            self.nograd -= ng
            self.cur_unroll = outer_unroll
        if self.st is not None:
            fr.returns.append((tm.band(*self.pc[fr.pcbase:]), NONE if not isgen else fr.gen, self.st))
        elif isgen:
            pass
        del self.pc[fr.pcbase:]
        if not fr.returns:
            self.site = site
            raise PathDead()
        conds = [c for c, _, _ in fr.returns]
        cond, val, st = fr.returns[-1]
        if isgen:
            val = fr.gen
        for c, v, s in reversed(fr.returns[:-1]):
            if isgen:
                v = fr.gen
            ms = self.merge_states(c, s, st)
            self.st = ms
            val = v if v is val else self.merge_vals(c, v, val, s, st)
            st = self.st
        self.st = st
        surv = tm.bor(*conds)
        if surv is not TRUE and surv.op != "const":
            s2 = self.simplify_surv(surv)
            if s2 is not TRUE:
                self.pc.append(s2)
        # drop callee scope unless captured by a closure
        if not self.captures(val):
            self.st.scopes.pop(sid, None)
        self.site = site
        if f.cached:
            val = self.mark_cached(f, val)
            if self.jit_depth() and holds_array(self, self.deref(val), "jnp"):
                self.event("trace_leak", name=f.name)
        if f.jit is not None:
            val = self.jit_result(val)
        return val

    def trace_args(self, f, env, args, kw):
        names = self.param_names(f)
        passed = set(names[: len(args)]) | set(kw)
        for n in passed & set(env):
            v = env[n]
            d = self.deref(v)
            if n in f.jit:
                if holds_array(self, d) or isinstance(d, (ListV, SeqV, SeqC, DictV)):
                    self.event("jit_static_array", func=f.name, param=n)
                if isinstance(d, Term):
                    self.concretise(d, f"static argument {n} of {f.name}")
                continue
            if isinstance(d, Term):
                if d.kind == "s":
                    self.event("jit_string", func=f.name, param=n)
                elif d.kind != "n":
                    k = d.kind
                    env[n] = tm.sym(f"traced:{f.name}.{n}", k)
                    if env[n] is not d:
                        self.traced[env[n]] = d

    def simplify_surv(self, c):
        return c

    def captures(self, v):
        if isinstance(v, FuncV) or isinstance(v, (PartialV, GatedV, BuiltinV)):
            return True
        if isinstance(v, TupleV):
            return any(self.captures(x) for x in v.items)
        if isinstance(v, Ref):
            d = self.st.heap.get(v.cid)
            if isinstance(d, (ListV, TupleV)):
                return any(self.captures(x) for x in d.items)
            if isinstance(d, (DictV, ObjV, SeqV)):
                return True
        if isinstance(v, IterV):
            return True
        return False

    def mark_cached(self, f, v):
        if isinstance(v, Ref):
            d = self.deref(v)
            if isinstance(d, (Arr, ListV, SeqV, DictV, ObjV)):
                self.meta[v.cid]["origin"] = ("cache", f"{f.mod.name}.{f.name}")
                if isinstance(d, (ListV,)):
                    for x in d.items:
                        self.mark_cached(f, x)
        elif isinstance(v, TupleV):
            for x in v.items:
                self.mark_cached(f, x)
        return v

    def jit_arg(self, v):
        if isinstance(v, TupleV):
            return TupleV([self.jit_arg(x) for x in v.items], v.names, v.cls)
        d = self.deref(v)
        if isinstance(d, Arr):
            return d.with_(fw="jnp")
        if isinstance(d, ListV):
            return self.new_cell(ListV([self.jit_arg(x) for x in d.items]))
        if isinstance(d, SeqV):
            return self.new_cell(SeqV(d.n, lambda k: self.jit_arg(d.at(k)), d.tup))
        return v

    def jit_result(self, v):
        if isinstance(v, TupleV):
            return TupleV([self.jit_result(x) for x in v.items], v.names, v.cls)
        if isinstance(v, Ref):
            d = self.deref(v)
            if isinstance(d, Arr):
                return d.with_(fw="jnp")
            if isinstance(d, ListV):
                self.st.heap[v.cid] = ListV([self.jit_result(x) for x in d.items])
            if isinstance(d, SeqV):
                self.st.heap[v.cid] = SeqV(d.n, lambda k: self.jit_result_imm(d.at(k)), d.tup)
        return v

    def jit_result_imm(self, v):
        d = self.deref(v)
        if isinstance(d, Arr):
            return d.with_(fw="jnp")
        return v

    _gencache = {}

    def is_gen(self, node):
        r = self._gencache.get(node)
        if r is None:
            r = False
            if not isinstance(node, ast.Lambda):
                stack = list(node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        r = True
                        break
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    stack.extend(ast.iter_child_nodes(n))
            self._gencache[node] = r
        return r


_TR = {}


def traced_in(t, jit=False):
    """names of traced parameters and data arrays a term depends on"""
    if not isinstance(t, Term):
        return ()
    r = _TR.get(t)
    if r is None:
        a = {x.args[0][7:] for x in tm.walk(t) if x.op == "sym" and isinstance(x.args[0], str) and x.args[0].startswith("traced:")}
        b = {"data " + x.args[0] for x in tm.walk(t) if x.op == "elem" and x.args[0] in ("f", "flm", "f_wav", "f_scal")}
        r = _TR[t] = (tuple(sorted(a)), tuple(sorted(a | b)))
    return r[1 if jit else 0]


def holds_array(it, d, fw=None):
    if isinstance(d, Arr):
        return (d.ndim > 0 or fw is not None) and (fw is None or d.fw == fw)
    if isinstance(d, (TupleV, ListV)):
        return any(holds_array(it, it.deref(x), fw) for x in d.items)
    if isinstance(d, SeqV):
        return holds_array(it, it.deref(d.inst()[1]), fw)
    return False


def neg_(t):
    return tm.neg(t)


_CANON = {"numpy": "np", "jax.numpy": "jnp"}


def canon(p):
    for k, v in _CANON.items():
        if p == k or p.startswith(k + "."):
            p = v + p[len(k):]
    return p
