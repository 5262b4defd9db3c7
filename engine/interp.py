"""Interpreter of the real Python source of /repo/lattpy on symbolic values.

The source is parsed anew on every run; nothing is rewritten by hand.  Calls into numpy/scipy go to the
assumed contracts of npm.py / stubs; calls to functions with an active summary use the summary (their
contract) instead of the body.
"""
import ast
import itertools
import os
from fractions import Fraction
import z3
from .sym import *
from . import sym
from . import arr as A
from .arr import *
from . import npm

REPO = os.environ.get("LATTPY_REPO", "/repo")
MAXPATHS = 64


# ------------------------------------------------------------------ values
class NoOp:
    """Logging, typing, plotting imports: no effect on the verified state."""

    def __repr__(self):
        return "<noop>"


NOOP = NoOp()


class Stub:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<stub {self.name}>"


class Poison:
    def __init__(self, name):
        self.name = name


class VList(list):
    """Interpreted list: concrete items, or parts with symbolic length."""
    parts = None      # list of ("item", v) / ("seg", n, elem)
    tup = False

    @property
    def as_array(self):
        if self.parts is None:
            raise AttributeError
        return lambda: slist_array(self)

    @property
    def member(self):
        if self.parts is None:
            raise AttributeError
        return lambda x: slist_any(self, lambda v: eq(v, x))


def seg_list(n, elem):
    r = VList()
    r.parts = [("seg", n, elem)]
    return r


def vl_len(v):
    if v.parts is None:
        return len(v)
    n = 0
    for p in v.parts:
        n = add(n, 1 if p[0] == "item" else p[1])
    return norm(z3.simplify(n)) if is_term(n) else n


def vl_parts(v):
    return v.parts if v.parts is not None else [("item", x) for x in v]


def vl_get(v, k):
    n = vl_len(v)
    k = index_int(Range(n), k)
    off, out = 0, []
    for p in vl_parts(v):
        m = 1 if p[0] == "item" else p[1]
        out.append((off, add(off, m), p))
        off = add(off, m)
    if len(out) == 1 and out[0][2][0] == "seg":
        return out[0][2][2](k)
    res = None
    for a, b, p in reversed(out):
        inside = And(le(a, k), lt(k, b))
        if inside is False:
            continue
        c = ctx()
        kn = c.known(inside)
        if kn is False or (kn is None and not c.feasible(T(inside))):
            continue
        if kn is None and not c.feasible(T(Not(inside))):
            kn = True
        x = p[1] if p[0] == "item" else p[2](sub(k, a))
        if kn:
            return x
        try:
            res = x if res is None else merge(inside, x, res)
        except Unsupported:
            if ctx().decide(T(inside)):
                return x
    return res


def merge(c, a, b):
    """Value `a if c else b` without forking."""
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return ite(c, a, b)
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        fa, fb = npm.frz(a), npm.frz(b)
        for x, y in zip(a.axes, b.axes):
            if not x.same(y):
                raise Unsupported("merging arrays of different shapes")
        dt = a.dt if a.dt is b.dt else promote(a.dt, b.dt)
        return new(a.axes, lambda pts: ite(c, cast(fa(pts), dt.kind), cast(fb(pts), dt.kind)), dt)
    if isinstance(a, (tuple, VList)) and type(a) is type(b) and len(a) == len(b):
        xs = [merge(c, x, y) for x, y in zip(a, b)]
        return tuple(xs) if isinstance(a, tuple) else VList(xs)
    if a is None and b is None:
        return None
    if isinstance(a, str) and a == b:
        return a
    raise Unsupported("merging values of different types")


def slist_array(v):
    arrs = []
    for p in v.parts:
        if p[0] == "item":
            arrs.append(from_any(VList([p[1]])))
            continue
        _, n, elem = p
        c = ctx()
        ax = n if isinstance(n, Axis) else Range(n)
        k = z3.Int(c.fresh("el"))
        c.bound.append((k, [T(ax.valid(k))]))
        try:
            x = elem(k)
        finally:
            c.bound.pop()
        if is_scalar(x):
            x = norm(x)
            arrs.append(new([ax], lambda pts, x=x, k=k: subst(x, [(k, T(pts[0]))]), BYKIND[kind(x)]))
        else:
            x = from_any(x)
            f = npm.frz(x)
            for a in x.axes:
                if is_term(a.n) and mentions(a.n, k):
                    raise Unsupported("ragged list of arrays")
                if not isinstance(a, Range):
                    raise Unsupported("list of derived arrays")
            arrs.append(new([ax] + x.axes, lambda pts, f=f, k=k: subst(f(tuple(pts[1:])), [(k, T(pts[0]))]), x.dt))
    return arrs[0] if len(arrs) == 1 else npm.concat(arrs, 0)


def slist_any(v, pred, universal=False):
    out = []
    for p in vl_parts(v):
        if p[0] == "item":
            out.append(pred(p[1]))
        else:
            n, elem = p[1], p[2]
            ax = Range(n)
            out.append(npm.quant_over(ax, lambda q: T(pred(elem(q))), universal))
    return (And if universal else Or)(*out)


class SText(str):
    """Text made from a symbolic value."""

    def __new__(cls, t):
        r = str.__new__(cls, "<text>")
        r.t = t
        return r


class SymIter:
    """Iteration over a symbolic number of elements."""

    def __init__(self, n, elem, src=None, enum=False):
        self.n, self.elem, self.src = n, elem, src


class UFunc:
    def __init__(self, node, mod, env, qual, cls=None, defaults=(), kwdefaults=None):
        self.node, self.mod, self.env, self.qual, self.cls = node, mod, env, qual, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}

    def __repr__(self):
        return f"<fn {self.qual}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Prop:
    def __init__(self, fn, setter=None):
        self.fn, self.setter = fn, setter


class ClassMethod:
    def __init__(self, fn):
        self.fn = fn


class StaticMethod:
    def __init__(self, fn):
        self.fn = fn


class UClass:
    def __init__(self, name, bases, ns, qual):
        self.name, self.bases, self.ns, self.qual = name, bases, ns, qual

    def mro(self):
        out = [self]
        for b in self.bases:
            for x in (b.mro() if isinstance(b, UClass) else [b]):
                if x not in out:
                    out.append(x)
        return out

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                seen = c is after
                continue
            if isinstance(c, UClass):
                if name in c.ns:
                    return c.ns[name], c
            elif isinstance(c, (PyClass,)):
                if name in c.ns:
                    return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.qual}>"


class PyClass:
    """Built-in or external class with assumed contracts."""

    def __init__(self, name, ns=None, bases=()):
        self.name, self.ns, self.bases = name, ns or {}, bases

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro()
        return out

    def lookup(self, name, after=None):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<pyclass {self.name}>"


class SObj:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Raised(Exception):
    def __init__(self, cls, args=()):
        self.cls, self.args_ = cls, args

    def __str__(self):
        return getattr(self.cls, "name", str(self.cls))


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class SuperX:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


# exceptions
EXC = {}


def exc(name, *bases):
    EXC[name] = PyClass(name, bases=[EXC[b] for b in bases])


exc("BaseException")
exc("Exception", "BaseException")
for _n in ("ValueError", "TypeError", "KeyError", "AttributeError", "RuntimeError", "AssertionError", "StopIteration", "ImportError", "ArithmeticError", "LookupError", "Warning", "DeprecationWarning", "UserWarning"):
    exc(_n, "Exception")
exc("IndexError", "LookupError")
exc("ZeroDivisionError", "ArithmeticError")
exc("NotImplementedError", "RuntimeError")
exc("FileNotFoundError", "Exception")
exc("OverflowError", "ArithmeticError")
EXC["KeyError"].bases = [EXC["LookupError"]]


def subclass(c, d):
    if isinstance(d, tuple):
        return any(subclass(c, x) for x in d)
    return d in c.mro()


class Seg:
    """What a loop appends to a list: n elements, the one at position z is val."""

    def __init__(self, n, z, val, sel=None):
        self.n, self.z, self.val, self.sel = n, z, val, sel


class Recorder:
    """Effects of one generic iteration."""

    def __init__(self, start):
        self.start = start
        self.reads, self.olds, self.undo_, self.appends, self.other = set(), {}, [], {}, []
        self.lists = {}

    def read(self, st):
        if st.uid < self.start:
            self.reads.add(st)

    def write(self, a):
        st = a.store
        if st.uid < self.start and st not in self.olds:
            self.olds[st] = st.fn

    def obj(self, o, name):
        if o.uid < self.start:
            self.other.append(f"attribute {name}")
            old, had = o.f.get(name), name in o.f
            self.undo_.append(lambda: o.f.__setitem__(name, old) if had else o.f.pop(name, None))

    def dct(self, d):
        if id(d) in LOCALS.get("new", ()):
            return
        self.other.append("dictionary")
        old = dict(d)
        self.undo_.append(lambda: (d.clear(), d.update(old)))

    def lst(self, l, how, v=None):
        if getattr(l, "uid", -1) >= self.start:
            return
        if id(l) not in self.lists:
            self.lists[id(l)] = (l, list(l), l.parts)
        if how == "append":
            self.appends.setdefault(id(l), (l, []))[1].append(v)
        else:
            self.other.append("list " + how)

    def undo(self):
        for st, f in self.olds.items():
            st.fn = f
        for l, items, parts in self.lists.values():
            l[:] = items
            l.parts = parts
        for u in reversed(self.undo_):
            u()


LOCALS = {}
_UID = itertools.count()

# unique ids for stores, lists and objects
_st_init = A.Store.__init__


class Local:
    """Decisions inside one generic iteration."""

    def __init__(self, prefix):
        self.prefix, self.trace = list(prefix), []


# ------------------------------------------------------------------ interpreter
class Frame:
    def __init__(self, fn, env):
        self.fn, self.env = fn, env
        self.yields = None


class Interp:
    def __init__(self, summaries=None, invariants=None):
        self.mods = {}
        self.summaries = summaries or {}
        self.invariants = invariants or {}
        self.frames = []
        self.depth = 0
        self.externals = {}
        self.np = self._np()

    # ---------------------------------------------------------- numpy namespace
    def _np(self):
        ns = dict(npm.FNS)
        ns.update(inf=INF, pi=PI, newaxis=None, ndarray=PyClass("ndarray"), linalg={n: getattr(npm.Linalg, n) for n in ("inv", "norm", "det")}, c_=npm.CClass(), nan=Stub("nan"))
        for d in (INT64, UINT64, INT8, INT16, INT32, UINT8, UINT16, UINT32, FLOAT):
            ns[d.name] = d
        ns.update(bool_=BOOL, int_=INT64, float_=FLOAT, float32=FLOAT, integer=PyClass("integer"), generic=PyClass("generic"), floating=PyClass("floating"))
        return ns

    # ---------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, "lattpy", name + ".py")
        src = open(path).read()
        tree = ast.parse(src)
        env = {"__name__": "lattpy." + name}
        m = Module(name, env, path)
        self.mods[name] = m
        self.frames.append(Frame(None, env))
        sv = ctx()
        try:
            for st in tree.body:
                try:
                    self.stmt(st, env, m)
                except Unsupported as e:
                    names = [t.id for t in getattr(st, "targets", []) if isinstance(t, ast.Name)]
                    for n in names:
                        env[n] = Stub(f"{n}: {e}")
        finally:
            self.frames.pop()
        return m

    def do_import(self, node, env, mod):
        if isinstance(node, ast.Import):
            for a in node.names:
                env[a.asname or a.name.split(".")[0]] = self.ext(a.name if a.asname else a.name.split(".")[0])
            return
        if node.level or (node.module or "").startswith("lattpy"):
            sub_ = (node.module or "").replace("lattpy.", "").replace("lattpy", "")
            for a in node.names:
                if sub_ in ("plotting", "_version", "") or not os.path.exists(os.path.join(REPO, "lattpy", sub_ + ".py")):
                    if sub_ == "" and os.path.exists(os.path.join(REPO, "lattpy", a.name + ".py")):
                        env[a.asname or a.name] = self.module(a.name)
                    else:
                        env[a.asname or a.name] = Stub("plotting." + a.name)
                    continue
                m = self.module(sub_)
                if a.name == "*":
                    env.update({k: v for k, v in m.env.items() if not k.startswith("_")})
                    continue
                if a.name not in m.env:
                    raise Unsupported(f"import of {a.name}")
                env[a.asname or a.name] = m.env[a.name]
            return
        for a in node.names:
            env[a.asname or a.name] = self.attr(self.ext(node.module), a.name)

    def ext(self, name):
        top = name.split(".")[0]
        if name == "numpy":
            return NpMod(self.np)
        if name == "numpy.linalg":
            return NpMod(self.np["linalg"])
        if top in ("logging", "typing", "warnings", "matplotlib", "mpl_toolkits", "abc", "hashlib"):
            return {"abc": AbcMod()}.get(top, NOOP)
        if name in ("itertools", "math", "collections", "copy", "functools", "operator", "pickle"):
            return HostMod(name, self)
        if top == "scipy":
            return ScipyMod(name, self)
        return Stub(name)

    # ---------------------------------------------------------- statements
    def block(self, body, env, mod):
        for st in body:
            self.stmt(st, env, mod)

    def stmt(self, st, env, mod):
        c = ctx()
        c.loc = f"{mod.name}.py:{st.lineno}"
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {c.loc}")
        m(st, env, mod)

    def s_Pass(self, st, env, mod):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, st, env, mod):
        self.do_import(st, env, mod)

    s_ImportFrom = s_Import

    def s_Expr(self, st, env, mod):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(st.value.value, env, mod) if st.value.value else None
            y = self.frames[-1].yields
            if isinstance(st.value, ast.YieldFrom):
                self.list_extend(y, v)
            else:
                self.list_append(y, v)
            return
        self.ev(st.value, env, mod)

    def s_Assign(self, st, env, mod):
        v = self.ev(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, mod), env, mod)

    def s_NamedExpr(self, st, env, mod):
        pass

    def s_AugAssign(self, st, env, mod):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env, mod)
            v = self.ev(st.value, env, mod)
            r = self.inplace(st.op, cur, v)
            if r is not cur:
                env[t.id] = r
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.attr(o, t.attr)
            v = self.ev(st.value, env, mod)
            r = self.inplace(st.op, cur, v)
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev_index(t.slice, env, mod)
            cur = self.getitem(o, k)
            v = self.ev(st.value, env, mod)
            if isinstance(cur, SArr):
                r = self.binop(st.op, cur, v)
            else:
                r = self.inplace(st.op, cur, v)
            self.setitem(o, k, r)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, SArr):
            r = self.binop(op, cur, v)
            if isinstance(r, SArr) and r.kind == "real" and cur.kind != "real":
                raise Raised(EXC["TypeError"], ("cannot cast in-place",))
            A.setitem(cur, tuple(slice(None) for _ in cur.axes), r)
            return cur
        if isinstance(cur, VList) and isinstance(op, ast.Add):
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def s_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev_index(t.slice, env, mod)
                if isinstance(o, dict):
                    for r in ctx().rec:
                        r.dct(o)
                    kk = self.dkey(o, k)
                    if kk is MISSING:
                        raise Raised(EXC["KeyError"])
                    del o[kk]
                elif isinstance(o, VList) and o.parts is None and isinstance(k, int):
                    for r in ctx().rec:
                        r.lst(o, "del")
                    del o[k]
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_If(self, st, env, mod):
        if self.truth(self.ev(st.test, env, mod)):
            self.block(st.body, env, mod)
        else:
            self.block(st.orelse, env, mod)

    def s_Assert(self, st, env, mod):
        v = self.ev(st.test, env, mod)
        if not self.truth(v):
            raise Raised(EXC["AssertionError"])

    def s_Raise(self, st, env, mod):
        if st.exc is None:
            raise Raised(EXC["Exception"])
        v = self.ev(st.exc, env, mod)
        if isinstance(v, (UClass, PyClass)):
            raise Raised(v)
        if isinstance(v, SObj):
            raise Raised(v.cls, v)
        raise Unsupported("raise")

    def s_Return(self, st, env, mod):
        raise ReturnX(self.ev(st.value, env, mod) if st.value is not None else None)

    def s_Break(self, st, env, mod):
        raise BreakX()

    def s_Continue(self, st, env, mod):
        raise ContinueX()

    def s_Try(self, st, env, mod):
        try:
            try:
                ctx().catch += 1
                try:
                    self.block(st.body, env, mod)
                finally:
                    ctx().catch -= 1
            except Raised as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env, mod)
                        ok = subclass(e.cls, t)
                    if ok:
                        if h.name:
                            env[h.name] = e.args_ if isinstance(e.args_, SObj) else NOOP
                        self.block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env, mod)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env, mod)

    def s_With(self, st, env, mod):
        for it in st.items:
            f = self.ev(it.context_expr, env, mod)
            if not isinstance(f, File):
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, f, env, mod)
        self.block(st.body, env, mod)

    def s_FunctionDef(self, st, env, mod, cls=None, qual=None):
        dec = [self.dec_name(d) for d in st.decorator_list]
        a = st.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        outer = self.frames[-1].fn
        q = (qual + "." if qual else (outer.qual + "." if outer is not None else mod.name + ".")) + st.name
        f = UFunc(st, mod, env, q, cls, defaults, kwd)
        r = f
        for d in dec:
            if d == "property":
                r = Prop(f)
            elif d == "classmethod":
                r = ClassMethod(f)
            elif d == "staticmethod":
                r = StaticMethod(f)
            elif d == "setter":
                old = env.get(st.name)
                r = Prop(old.fn if isinstance(old, Prop) else None, f)
            elif d in ("abstractmethod",):
                pass
            else:
                r = Stub(f"decorated {q}")
        env[st.name] = r

    def dec_name(self, d):
        if isinstance(d, ast.Name):
            return d.id
        if isinstance(d, ast.Attribute):
            return d.attr
        return "?"

    def s_ClassDef(self, st, env, mod):
        bases = []
        for b in st.bases:
            v = self.ev(b, env, mod)
            if isinstance(v, (UClass, PyClass)):
                bases.append(v)
            elif isinstance(v, (NoOp, Stub)):
                bases.append(PyClass(getattr(v, "name", "noop")))
        ns = ClassNS(env)
        cls = UClass(st.name, bases, ns, f"{mod.name}.{st.name}")
        for s in st.body:
            ctx().loc = f"{mod.name}.py:{s.lineno}"
            if isinstance(s, ast.FunctionDef):
                self.s_FunctionDef(s, ns, mod, cls, cls.qual)
            else:
                self.stmt(s, ns, mod)
        env[st.name] = cls

    # ---------------------------------------------------------- loops
    def s_While(self, st, env, mod):
        n = 0
        while True:
            c = self.ev(st.test, env, mod)
            if not self.truth(c):
                self.block(st.orelse, env, mod)
                return
            n += 1
            if n > 64:
                raise Unsupported("unbounded while loop")
            try:
                self.block(st.body, env, mod)
            except BreakX:
                return
            except ContinueX:
                pass

    def s_For(self, st, env, mod):
        it = self.iterate(self.ev(st.iter, env, mod))
        if isinstance(it, SymIter) and not isinstance(getattr(it.src, "arr", it.src), SArr):
            e = st.iter
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and len(e.args) == 1 and not e.keywords:
                e = e.args[0]
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
                    it.src = self.ev(e.args[0], env, mod)      # for i in range(len(x)): a loop over the elements of x
        if not isinstance(it, SymIter):
            for x in it:
                self.assign(st.target, x, env, mod)
                try:
                    self.block(st.body, env, mod)
                except BreakX:
                    return
                except ContinueX:
                    continue
            self.block(st.orelse, env, mod)
            return
        self.sym_loop(st, it, env, mod)

    def sym_loop(self, st, it, env, mod):
        names = assigned_names(st.body) | assigned_names([ast.Assign([st.target], ast.Constant(0))])
        fn = self.frames[-1].fn
        qual = fn.qual if fn is not None else None
        saved = {n: env[n] for n in names if n in env}

        acc = {n: x for n, x in saved.items() if isinstance(x, SArr) and x.ndim}
        steps = self.counters(st, saved)
        ends = []

        def run(k):
            for n in names:
                env[n] = npm.Acc(acc[n], owner=n) if n in acc else add(saved[n], mul(steps[n], k)) if n in steps else Poison(n)
            r = run1(k)
            ends.append({n: env.get(n) for n in acc})
            return r

        def run1(k):
            self.assign(st.target, it.elem(k), env, mod)
            try:
                self.block(st.body, env, mod)
            except ContinueX:
                return "normal", None
            except BreakX:
                return "break", None
            except ReturnX as e:
                return "return", e.v
            except Raised as e:
                return "raise", e
            return "normal", None

        # the invariants of the function, or of the one it was called from (a helper)
        invs = [i for f in reversed(self.frames) if f.fn is not None for i in self.invariants.get(f.fn.qual, [])]
        grown = {}
        try:
            if invs:
                for inv in invs:
                    r = self.inv_loop(st, it, env, mod, run, inv)
                    if r:
                        return
            del ends[:]
            outs, k = self.generic(it.n, run)
            self.apply_map(it, outs, k, st, env, mod)
            if len(ends) == len(outs):
                for n in acc:
                    xs = [e[n] for e in ends]
                    if all(isinstance(x, npm.Acc) and x.owner == n and x.base is acc[n] for x in xs):
                        grown[n] = self.grow(acc[n], [(o[0], x.blocks) for o, x in zip(outs, xs)], k, it.n)
        finally:
            for n in names:
                if n in grown and grown[n] is not None:
                    env[n] = grown[n]
                elif n in steps:
                    env[n] = add(saved[n], mul(steps[n], it.n))
                elif n in saved and not (isinstance(saved[n], Poison)):
                    # assigned in the body: value after the loop unknown unless the loop did not run
                    env[n] = Poison(n)
                elif n in env:
                    env[n] = Poison(n)

    def counters(self, st, saved):
        """Integer variables the body changes by a constant in every iteration: {name: step}."""
        if any(isinstance(x, (ast.Continue, ast.Break)) for b in st.body for x in ast.walk(b)):
            return {}
        out = {}
        for b in st.body:
            if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, (ast.Add, ast.Sub)) and isinstance(b.value, ast.Constant) and type(b.value.value) is int:
                n = b.target.id
                if n in out:
                    return {}
                out[n] = b.value.value if isinstance(b.op, ast.Add) else -b.value.value
        rest = assigned_names([b for b in st.body if not (isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id in out)]) | assigned_names([ast.Assign([st.target], ast.Constant(0))])
        return {n: x for n, x in out.items() if n not in rest and n in saved and is_scalar(saved[n]) and kind(saved[n]) == "int"}

    def grow(self, base, outs, k, n):
        """The array after a loop that appends the same number of rows in every iteration."""
        if all(not b for _, b in outs):
            return base
        try:
            def elem(x):
                r = None
                for cond, bs in outs:
                    b = subst_val(bs[0] if len(bs) == 1 else npm.concat(bs, 0), k, x)
                    r = b if r is None else merge(subst_b(cond, k, x), b, r)
                return r
            if any(not b for _, b in outs):
                return None
            return npm.concat([base, npm.blocks(n, elem)], 0)
        except Unsupported:
            return None

    def generic(self, n, run, extra=None):
        """All paths of one generic iteration k: [(condition, kind, value, recorder)]."""
        c = ctx()
        k = z3.Int(c.fresh("it"))
        outs, stack = [], [[]]
        while stack:
            prefix = stack.pop()
            guards = [k >= 0, k < T(n)]
            ng = len(guards)
            c.bound.append((k, guards))
            loc = Local(prefix)
            c.local.append((loc, len(c.bound)))
            rec = Recorder(next(A.UID))
            c.rec.append(rec)
            nf = len(self.frames)
            try:
                kind_, val = run(k)
                outs.append((And(*guards[ng:]), kind_, val, rec))
            except Infeasible:
                pass
            finally:
                c.rec.pop()
                c.local.pop()
                c.bound.pop()
                del self.frames[nf:]
                rec.news = {s: s.fn for s in rec.olds}
                rec.undo()
            for i in range(len(prefix), len(loc.trace)):
                ch, other = loc.trace[i]
                if other:
                    stack.append([t[0] for t in loc.trace[:i]] + [not ch])
            if len(outs) > MAXPATHS:
                raise Unsupported("too many paths in a generic iteration")
        return outs, k

    def apply_map(self, it, outs, k, st, env, mod):
        c = ctx()
        n = it.n
        exits = [o for o in outs if o[1] != "normal"]
        if exits:
            if any(o[3].olds or o[3].other or o[3].appends for o in outs):
                raise Unsupported("loop with effects and exits")
            def E(x):
                return Or(*[subst_b(o[0], k, x) for o in exits])
            found = exists([("x", IS)], lambda v: And(v[0] >= 0, v[0] < T(n)), lambda v: T(E(v[0])))
            if c.decide(found):
                x = c.int("first")
                c.fact(z3.And(x >= 0, x < T(n), T(E(x))))
                c.fact(forall([("y", IS)], lambda v: And(v[0] >= 0, v[0] < x), lambda v: T(Not(E(v[0])))))
                for j, o in enumerate(exits):
                    last = j == len(exits) - 1
                    if last or c.decide(subst_b(o[0], k, x)):
                        v = subst_val(o[2], k, x)
                        if o[1] == "return":
                            raise ReturnX(v)
                        if o[1] == "raise":
                            raise o[2]
                        return
            self.block(st.orelse, env, mod)
            return
        for o in outs:
            if o[3].other:
                raise Unsupported("effect in a loop over a symbolic number of elements: " + ", ".join(o[3].other) + f" at {c.loc}")
        stores = []
        for o in outs:
            for s in o[3].olds:
                if s not in stores:
                    stores.append(s)
        for s in stores:
            if any(s in o[3].reads for o in outs):
                raise Unsupported("loop-carried array without invariant at " + c.loc)
        for s in stores:
            self.close_store(s, outs, k, n)
        lists = {}
        for o in outs:
            for i, (l, vs) in o[3].appends.items():
                lists[i] = l
        shared = {}
        for i, l in lists.items():
            self.close_list(l, i, outs, k, n, shared)

    def close_store(self, s, outs, k, n):
        c = ctx()
        old = s.fn

        def newfn(q, kk):
            r = None
            for cond, _, _, rec in outs:
                f = rec.news.get(s, old)
                v = f(q)
                r = v if r is None else ite(cond, v, r)
            return subst(r, [(k, T(kk))]) if is_term(r) else r
        # which axis is indexed by the iteration variable?
        for j, ax in enumerate(s.axes):
            if not isinstance(ax, Range):
                continue
            ok = True
            for pts, g in points(s.axes):
                if isinstance(pts[j], int):
                    ok = False
                    break
                c.quiet += 1
                try:
                    a, b = newfn(pts, k), old(pts)
                finally:
                    c.quiet -= 1
                sv = z3.Solver()
                sv.set("timeout", 2000)
                sv.add(T(g), T(pts[j]) != k, k >= 0, k < T(n), *[f for f in c.facts if not z3.is_quantifier(f)])
                sv.add(z3.Not(T(eq(a, b))) if kind(a) != "bool" else T(a) != T(b))
                if sv.check() != z3.unsat:
                    ok = False
                    break
            if ok:
                for r in c.rec:
                    if s.uid < r.start and s not in r.olds:
                        r.olds[s] = s.fn
                s.fn = lambda q, j=j: ite(And(le(0, q[j]), lt(q[j], n)), newfn(q, q[j]), old(q))
                return
        raise Unsupported("array written at unrelated positions in a loop at " + c.loc)

    def close_list(self, l, i, outs, k, n, shared):
        c = ctx()
        apps = [o[3].appends.get(i, (None, []))[1] for o in outs]
        counts = {len(x) for x in apps}
        parts = vl_parts(l)
        sel = None
        if any(isinstance(v, Seg) for x in apps for v in x):
            size, elem = self.flatten_loop(apps, outs, k, n, shared)
        elif counts == {1}:
            def elem(x):
                r = None
                for cond, _, _, rec in outs:
                    v = subst_val(rec.appends[i][1][0], k, x)
                    r = v if r is None else merge(subst_b(cond, k, x), v, r)
                return r
            size = n
        elif counts <= {0, 1}:
            yes = [o for o, x in zip(outs, apps) if len(x) == 1]
            key = tuple(len(x) for x in apps)
            if key not in shared:
                shared[key] = Sel(Range(n), lambda p: T(Or(*[subst_b(o[0], k, p) for o in yes])), "app")
            sel = shared[key]

            def elem(x):
                x = sel._sel(T(x))
                r = None
                for o in yes:
                    v = subst_val(o[3].appends[i][1][0], k, x)
                    r = v if r is None else merge(subst_b(o[0], k, x), v, r)
                return r
            size = sel.n
        else:
            raise Unsupported("several appends per iteration")
        outer = [r for r in c.rec[-1:] if getattr(l, "uid", -1) < r.start]
        if outer:
            z = z3.Int(c.fresh("sl"))
            c.bound.append((z, [z >= 0, z < T(size)]))
            try:
                val = elem(z)
            finally:
                c.bound.pop()
            for r in outer:
                r.lst(l, "append", Seg(size, z, val, sel))
        l.parts = list(parts) + [("seg", size, elem)]
        if sel is not None:
            l.sel = sel
        del l[:]

    def flatten_loop(self, apps, outs, k, n, shared):
        """The list of a loop whose iterations append sequences: its positions correspond to the pairs (k, l)."""
        c = ctx()
        if any(len(x) > 1 or (x and not isinstance(x[0], Seg)) for x in apps):
            raise Unsupported("several appends per iteration")
        m = None
        for o, x in zip(outs, apps):
            w = T(x[0].n) if x else z3.IntVal(0)
            m = w if m is None else ite(o[0], w, m)
        m = z3.simplify(T(m))
        key = ("flat", m.sexpr())
        if key not in shared:
            size = c.int("flat")
            out, inn, pos = c.fn("flat_out", [IS], IS), c.fn("flat_in", [IS], IS), c.fn("flat_pos", [IS, IS], IS)
            at = lambda x: z3.substitute(m, (k, T(x)))
            c.fact(size >= 0)
            c.fact(forall([("x", IS)], lambda q: And(q[0] >= 0, q[0] < size), lambda q: And(out(*q) >= 0, out(*q) < T(n), inn(*q) >= 0, inn(*q) < at(out(*q)), pos(out(*q), inn(*q)) == q[0]),
                          lambda q: [out(*q), inn(*q)]), guarded=False)
            c.fact(forall([("a", IS), ("b", IS)], lambda q: And(q[0] >= 0, q[0] < T(n), q[1] >= 0, q[1] < at(q[0])), lambda q: And(pos(*q) >= 0, pos(*q) < size, out(pos(*q)) == q[0], inn(pos(*q)) == q[1]),
                          lambda q: [pos(*q)]), guarded=False)
            shared[key] = (size, out, inn)
            sel = next((x[0].sel for x in apps if x), None)
            c.ghost.setdefault("flat", []).append(lambda a, b: pos(T(a), z3.substitute(T(sel._rank(T(b))) if sel is not None else T(b), (k, T(a)))))
        size, out, inn = shared[key]

        def elem(x):
            a, b = out(T(x)), inn(T(x))
            r = None
            for o, y in zip(outs, apps):
                if y:
                    v = subst_val(subst_val(y[0].val, y[0].z, b), k, a)
                    r = v if r is None else merge(subst_b(o[0], k, a), v, r)
            return r
        return size, elem

    def inv_loop(self, st, it, env, mod, run, inv):
        """Loop with a closed-form invariant for the single array it modifies."""
        c = ctx()
        loc = c.loc
        # dry run: which arrays are written?
        c.quiet += 1
        nf = len(c.facts)
        try:
            outs, k = self.generic(it.n, run)
        finally:
            c.quiet -= 1
        # facts about the dry iteration are of no use; axioms met on the way (of objects made before) are kept
        own = lambda f: z3.is_quantifier(f) and any(f.var_name(i) == k.decl().name() for i in range(f.num_vars()))
        c.facts[nf:] = [f for f in c.facts[nf:] if not own(f)]
        stores = []
        for o in outs:
            if o[1] != "normal" or o[3].other or o[3].appends:
                return False
            for s in o[3].olds:
                if s not in stores:
                    stores.append(s)
        if len(stores) != 1:
            return False
        s = stores[0]
        f0 = s.fn
        form = inv(self, s, f0, it, env)
        if form is None:
            return False
        n = it.n
        c.loc = loc
        for pts, g in points(s.axes, "ip"):
            c.oblige("loop invariant holds initially", Implies(g, eqk(form(0, pts), f0(pts))), "inv-init")
        s.fn = lambda q: form(k0, q)
        k0 = z3.Int(c.fresh("inv_k"))

        def run2(k):
            s.fn = lambda q: form(k, q)
            rec = c.rec[-1]
            rec.olds.pop(s, None)
            return run(k)
        saved = f0
        s.fn = f0
        outs2, k = self.generic_keep(n, run2, s, f0)
        for cond, kind_, _, rec, after, guards in outs2:
            c.bound.append((k, guards))
            try:
                c.loc = loc
                for pts, g in points(s.axes, "ip"):
                    c.oblige("loop invariant is preserved", Implies(g, eqk(after(pts), form(add(k, 1), pts))), "inv-step")
            finally:
                c.bound.pop()
        for r in c.rec:
            if s.uid < r.start and s not in r.olds:
                r.olds[s] = f0
        s.fn = lambda q: form(n, q)
        return True

    def generic_keep(self, n, run, s, f0):
        c = ctx()
        k = z3.Int(c.fresh("it"))
        outs, stack = [], [[]]
        while stack:
            prefix = stack.pop()
            guards = [k >= 0, k < T(n)]
            c.bound.append((k, guards))
            loc = Local(prefix)
            c.local.append((loc, len(c.bound)))
            rec = Recorder(next(A.UID))
            c.rec.append(rec)
            try:
                kind_, val = run(k)
                outs.append((And(*guards[2:]), kind_, val, rec, s.fn, guards))
            except Infeasible:
                pass
            finally:
                c.rec.pop()
                c.local.pop()
                c.bound.pop()
                rec.undo()
                s.fn = f0
            for i in range(len(prefix), len(loc.trace)):
                ch, other = loc.trace[i]
                if other:
                    stack.append([t[0] for t in loc.trace[:i]] + [not ch])
            if len(outs) > MAXPATHS:
                raise Unsupported("too many paths")
        return outs, k

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.concrete_items(v, len(t.elts) if not star else None)
            if star:
                i = star[0]
                k = len(vals) - (len(t.elts) - 1)
                vals = vals[:i] + [VList(vals[i:i + k])] + vals[i + k:]
            if len(vals) != len(t.elts):
                raise Raised(EXC["ValueError"], ("unpacking",))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.setitem(o, self.ev_index(t.slice, env, mod), v)
        else:
            raise Unsupported("assignment target")

    def concrete_items(self, v, want=None):
        it = self.iterate(v)
        if isinstance(it, SymIter):
            n = norm(it.n)
            if is_term(n) and want is not None:
                ctx().oblige("number of values to unpack", T(n) == want, "shape")
                return [it.elem(i) for i in range(want)]
            raise Unsupported("unpacking a symbolic number of values")
        return list(it)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            h, cls = o.cls.lookup("__setattr__")
            if isinstance(h, UFunc):
                self.call_fn(h, [o, name, v], {})
                return
            self.setattr0(o, name, v)
            return
        if isinstance(o, UClass):
            o.ns[name] = v
            return
        if isinstance(o, SArr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def setattr0(self, o, name, v):
        p, _ = o.cls.lookup(name)
        if isinstance(p, Prop):
            if p.setter is None:
                raise Raised(EXC["AttributeError"])
            self.call_fn(p.setter, [o, v], {})
            return
        for r in ctx().rec:
            r.obj(o, name)
        o.f[name] = v

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            if isinstance(v, VList) or isinstance(v, tuple):
                v = from_any(v)
            A.setitem(o, k, v)
        elif isinstance(o, VList):
            k = norm(k) if is_scalar(k) else k
            if o.parts is not None or not isinstance(k, int):
                raise Unsupported("assignment to a symbolic list position")
            for r in ctx().rec:
                r.lst(o, "set")
            if not -len(o) <= k < len(o):
                raise Raised(EXC["IndexError"])
            o[k] = v
        elif isinstance(o, dict):
            for r in ctx().rec:
                r.dct(o)
            kk = self.dkey(o, k)
            o[self.mkkey(k) if kk is MISSING else kk] = v
        elif isinstance(o, SObj):
            self.call_method(o, "__setitem__", [k, v])
        else:
            raise Unsupported(f"item assignment on {type(o).__name__}")

    def mkkey(self, k):
        if is_term(k):
            return Key(k)
        if isinstance(k, VList):
            raise Raised(EXC["TypeError"])
        return k

    def dkey(self, d, k):
        """Existing key equal to k, deciding symbolic equalities."""
        if isinstance(d, SymDict):
            raise Unsupported("symbolic dictionary")
        for x in list(d):
            y = x.t if isinstance(x, Key) else x
            e = self.eq_val(y, k)
            if e is True or (e is not False and self.truth(e)):
                return x
        return MISSING

    def eq_val(self, a, b):
        if is_scalar(a) and is_scalar(b):
            return eq(a, b)
        if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
            if isinstance(a, SObj) or isinstance(b, SObj):
                return self.compare(ast.Eq(), a, b)
            return a is b or (type(a) is type(b) and a == b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return And(*[self.eq_val(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        if isinstance(a, SObj) or isinstance(b, SObj):
            return self.compare(ast.Eq(), a, b)
        if type(a) is not type(b):
            return False
        return a is b

    # ---------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {ctx().loc}")
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            return norm(v)
        if isinstance(v, complex):
            raise Unsupported("complex number")
        return v

    def e_Name(self, e, env, mod):
        x = lookup(env, e.id, mod, MISSING)
        if x is MISSING:
            if e.id in BUILTINS:
                return Builtin(e.id, self)
            if e.id in EXC:
                return EXC[e.id]
            raise Unsupported(f"name {e.id}")
        if isinstance(x, Poison):
            raise Unsupported(f"variable {e.id} carried through a loop at {ctx().loc}")
        return x

    def e_Attribute(self, e, env, mod):
        return self.attr(self.ev(e.value, env, mod), e.attr)

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return vlist(self.elts(e.elts, env, mod))

    def e_Set(self, e, env, mod):
        return VSet(self.elts(e.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env, mod))
            else:
                d[self.mkkey(self.ev(k, env, mod))] = self.ev(v, env, mod)
        return d

    def e_JoinedStr(self, e, env, mod):
        return "<text>"

    def e_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not is_term(v) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (is_term(v) and kind(v) == "bool") else True
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            if is_term(v) and kind(v) == "bool":
                return Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return negate(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
            return invert(v)

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.binop(e.op, a, b)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}
    BITS = {ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}

    def binop(self, op, a, b):
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            return "<text>"
        la, lb = isinstance(a, VList), isinstance(b, VList)
        if la and lb and isinstance(op, ast.Add):
            return list_concat(a, b)
        if isinstance(op, ast.Mult) and (la or lb) and (is_scalar(b) or is_scalar(a)):
            l, n = (a, b) if la else (b, a)
            n = norm(n)
            if l.parts is not None:
                raise Unsupported("repetition of a symbolic list")
            if isinstance(n, int):
                return vlist(list(l) * n)
            if len(l) == 1:
                return seg_list(n, lambda k: l[0])
            raise Unsupported("repetition of a list")
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        if isinstance(a, VSet) or isinstance(b, VSet):
            raise Unsupported("set operation")
        if isinstance(op, ast.MatMult):
            return npm.matmul(a, b)
        if (la or isinstance(a, tuple)) and isinstance(b, SArr):
            a = from_any(a)
        if (lb or isinstance(b, tuple)) and isinstance(a, SArr):
            b = from_any(b)
        for x in (a, b):
            if not (isinstance(x, SArr) or is_scalar(x)):
                if isinstance(x, SObj):
                    return self.obj_binop(op, a, b)
                if x is None or isinstance(x, (VList, tuple, dict)):
                    raise Raised(EXC["TypeError"], (f"operand {type(x).__name__}",))
                raise Unsupported(f"operand {type(x).__name__} at {ctx().loc}")
        if type(op) in self.OPS:
            return arith(self.OPS[type(op)], a, b)
        if type(op) in self.BITS:
            return bitop(self.BITS[type(op)], a, b)
        raise Unsupported("operator")

    def obj_binop(self, op, a, b):
        nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(type(op))
        if nm and isinstance(a, SObj) and a.cls.lookup(nm)[0]:
            return self.call_method(a, nm, [b])
        raise Unsupported("operator on objects")

    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        r = None
        for op, x in zip(e.ops, e.comparators):
            right = self.ev(x, env, mod)
            v = self.compare(op, left, right)
            if r is None:
                r = v
            elif is_scalar(r) and is_scalar(v):
                r = And(cast(r, "bool"), cast(v, "bool"))
            else:
                raise Unsupported("chained comparison of arrays")
            left = right
        return r

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if is_scalar(a) and is_scalar(b) and not isinstance(a, bool) and not isinstance(b, bool):
                raise Unsupported("identity of numbers")
            r = a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else Not(r)
        o = self.CMP[type(op)]
        if isinstance(a, SArr) or isinstance(b, SArr):
            a = from_any(a) if isinstance(a, (VList, tuple)) else a
            b = from_any(b) if isinstance(b, (VList, tuple)) else b
            if not all(isinstance(x, SArr) or is_scalar(x) for x in (a, b)):
                raise Unsupported("comparison of an array")
            return A.compare(o, a, b)
        if is_scalar(a) and is_scalar(b):
            return cmp(o, a, b)
        if isinstance(a, SObj) or isinstance(b, SObj):
            if o not in ("==", "!="):
                raise Unsupported("comparison of objects")
            if isinstance(a, SObj) and isinstance(a.cls.lookup("__eq__")[0], UFunc):
                r = self.call_method(a, "__eq__", [b])
            elif isinstance(b, SObj) and isinstance(b.cls.lookup("__eq__")[0], UFunc):
                r = self.call_method(b, "__eq__", [a])
            else:
                r = a is b
            return r if o == "==" else Not(r)
        if o in ("==", "!="):
            if isinstance(a, (str, type(None), SDt, tuple, VList, UClass)) or isinstance(b, (str, type(None), SDt, tuple, VList, UClass)):
                if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
                    r = And(*[self.eq_val(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
                else:
                    r = a is b or (type(a) is type(b) and a == b)
                return r if o == "==" else Not(r)
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def contains(self, x, c):
        if isinstance(c, str):
            return isinstance(x, str) and x in c
        if isinstance(c, DictView):
            c = c.d if c.how == "keys" else vlist(list(c.values()))
        if isinstance(c, dict):
            return self.dkey(c, x) is not MISSING
        if isinstance(c, SArr):
            if is_scalar(x):
                return npm.member(c)(x)
            raise Unsupported("membership of an array")
        if isinstance(c, (VList, tuple, VSet)):
            if isinstance(c, VList) and c.parts is not None:
                return slist_any(c, lambda v: self.eq_val(v, x))
            out = []
            for y in c:
                e = self.eq_val(y, x)
                if e is True:
                    return True
                out.append(e)
            return Or(*out)
        raise Unsupported(f"membership in {type(c).__name__}")

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        return self.getitem(o, self.ev_index(e.slice, env, mod))

    def ev_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env, mod)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.concrete_items(self.ev(x.value, env, mod)))
                else:
                    out.append(self.ev_index(x, env, mod))
            return tuple(out)
        return self.ev(s, env, mod)

    def getitem(self, o, k):
        if isinstance(o, SArr):
            if isinstance(k, tuple):
                k = tuple(from_any(x, INT64 if not x else None) if isinstance(x, VList) else x for x in k)
            elif isinstance(k, VList):
                k = from_any(k) if (len(k) or k.parts) else from_nested([], INT64)
            return A.getitem(o, k)
        if isinstance(o, (VList, tuple)):
            if isinstance(k, slice):
                return self.list_slice(o, k)
            if isinstance(k, SArr) or isinstance(k, (VList, tuple)) or k is None:
                raise Raised(EXC["TypeError"], ("list indices must be integers",))
            k = norm(k)
            if kind(k) == "real":
                raise Raised(EXC["TypeError"])
            if isinstance(o, VList) and o.parts is not None:
                return vl_get(o, k)
            if isinstance(k, (int, bool)):
                if not -len(o) <= k < len(o):
                    raise Raised(EXC["IndexError"])
                return o[k]
            # symbolic index into a concrete list
            k = index_int(Range(len(o)), k)
            def choose():
                for i in range(len(o) - 1):
                    if ctx().decide(T(eq(k, i))):
                        return o[i]
                return o[-1]
            if any(isinstance(x, (SObj, dict)) or x is None for x in o):
                return choose()
            r = o[-1]
            for i in reversed(range(len(o) - 1)):
                try:
                    r = merge(eq(k, i), o[i], r)
                except Unsupported:
                    return choose()
            return r
        if isinstance(o, dict):
            kk = self.dkey(o, k)
            if kk is MISSING:
                raise Raised(EXC["KeyError"])
            return o[kk]
        if isinstance(o, str):
            return o[k] if isinstance(k, (int, slice)) else "<text>"
        if isinstance(o, npm.CClass):
            return o.getitem(k)
        if isinstance(o, NoOp):
            return o
        if isinstance(o, SObj):
            return self.call_method(o, "__getitem__", [k])
        raise Unsupported(f"subscript of {type(o).__name__} at {ctx().loc}")

    def list_slice(self, o, s):
        if isinstance(o, VList) and o.parts is not None:
            if s.step is not None or (s.start is not None and norm(s.start) != 0 and is_term(s.start)):
                raise Unsupported("slice of a symbolic list")
            n = vl_len(o)
            a = 0 if s.start is None else norm(s.start)
            b = n if s.stop is None else norm(s.stop)
            if isinstance(a, int) and a >= 0:
                a = a if ctx().known(T(n) >= a) or not ctx().feasible(T(n) < a) else None
            if a is None or (isinstance(a, int) and a < 0):
                raise Unsupported("slice of a symbolic list")
            if isinstance(b, int):
                b = add(n, b) if b < 0 else min2(b, n)
            else:
                b = min2(b, n)
            m = sub(b, a)
            if is_term(m) and ctx().feasible(T(m) < 0):
                m = max2(m, 0)
            return seg_list(m, lambda k: vl_get(o, add(k, a)))
        f = lambda x: None if x is None else norm(x)
        st, en, sp = f(s.start), f(s.stop), f(s.step)
        n = len(o)
        if any(is_term(x) for x in (st, en, sp)):
            c = ctx()
            vals = []
            for x in (st, en, sp):
                if is_term(x):          # case split over a small concrete list
                    for v in range(-n, n + 1):
                        if v < n and c.decide(x == v):
                            break
                    else:
                        v = n if c.decide(x >= n) else -n
                    x = v
                vals.append(x)
            st, en, sp = vals
        r = o[slice(st, en, sp)]
        return tuple(r) if isinstance(o, tuple) else vlist(r)

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred expression")

    def e_Lambda(self, e, env, mod):
        a = e.args
        return UFunc(e, mod, env, (self.frames[-1].fn.qual if self.frames[-1].fn else mod.name) + ".<lambda>", None, [self.ev(d, env, mod) for d in a.defaults])

    def e_ListComp(self, e, env, mod):
        return self.comp(e.generators, e.elt, env, mod)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, mod):
        r = self.comp(e.generators, e.elt, env, mod)
        if r.parts is not None:
            raise Unsupported("symbolic set")
        return VSet(r)

    def e_DictComp(self, e, env, mod):
        r = self.comp(e.generators, ast.Tuple([e.key, e.value], ast.Load()), env, mod)
        if r.parts is not None:
            raise Unsupported("symbolic dictionary")
        return {self.mkkey(k): v for k, v in r}

    def comp(self, gens, elt, env, mod):
        env = Scope(env)
        out = vlist([])

        def go(i):
            if i == len(gens):
                self.list_append(out, self.ev(elt, env, mod))
                return
            g = gens[i]
            it = self.iterate(self.ev(g.iter, env, mod))
            if isinstance(it, SymIter):
                def run(k):
                    self.assign(g.target, it.elem(k), env, mod)
                    for c_ in g.ifs:
                        if not self.truth(self.ev(c_, env, mod)):
                            return "normal", None
                    go(i + 1)
                    return "normal", None
                outs, k = self.generic(it.n, run)
                self.apply_map(it, outs, k, None, env, mod)
                return
            for x in it:
                self.assign(g.target, x, env, mod)
                if all(self.truth(self.ev(c_, env, mod)) for c_ in g.ifs):
                    go(i + 1)
        go(0)
        return out

    def e_Yield(self, e, env, mod):
        raise Unsupported("yield expression")

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        env[e.target.id] = v
        return v

    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            return SuperX(fr.fn.cls, fr.env[fr.fn.node.args.args[0].arg])
        f = self.ev(e.func, env, mod)
        if isinstance(f, NoOp):
            return NOOP      # logging: arguments have no effect on the verified state
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.ev(a.value, env, mod)))
            else:
                args.append(self.ev(a, env, mod))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        loc = f"{mod.name}.py:{e.lineno}"
        ctx().loc = loc
        r = self.call(f, args, kw)
        ctx().loc = loc
        return r

    # ---------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, UFunc):
            return self.call_fn(f, list(args), kw)
        if isinstance(f, UClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            return f.call(args, kw)
        if isinstance(f, PyClass):
            if "__call__" in f.ns:
                return f.ns["__call__"](*args, **kw)
            if f in EXC.values():
                o = mkobj(f)
                o.f["args"] = tuple(args)
                return o
            if "__init__" in f.ns:
                o = mkobj(f)
                f.ns["__init__"](o, *args, **kw)
                return o
            raise Unsupported(f"instance of {f.name}")
        if isinstance(f, NoOp):
            return NOOP
        if isinstance(f, SDt):
            return f(*args)
        if isinstance(f, Stub):
            raise Unsupported(f"call of {f.name}")
        if isinstance(f, SObj):
            return self.call_method(f, "__call__", args, kw)
        if callable(f):
            try:
                return f(*args, **kw)
            except TypeError as ex:
                if "argument" in str(ex):
                    raise Unsupported(f"call: {ex}")
                raise
        raise Unsupported(f"call of {type(f).__name__}")

    def call_fn(self, f, args, kw):
        c = ctx()
        s = self.summaries.get(f.qual)
        if s is not None:
            c.calls.add(f.qual)
            b = self.bind(f, args, kw)
            return s(self, **b)
        c.inlined.add(f.qual)
        if self.depth > 40:
            raise Unsupported("recursion")
        env = FnScope(f.env)
        b = self.bind(f, args, kw)
        env.vars.update(b)
        fr = Frame(f, env)
        self.frames.append(fr)
        self.depth += 1
        loc = c.loc
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            gen = is_generator(f.node)
            if gen:
                fr.yields = vlist([])
            try:
                self.block(f.node.body, env, f.mod)
            except ReturnX as e:
                return fr.yields if gen else e.v
            return fr.yields if gen else None
        finally:
            self.frames.pop()
            self.depth -= 1
            c.loc = loc

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        if len(args) > len(names) and not a.vararg:
            raise Raised(EXC["TypeError"], ("too many arguments",))
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(names):])
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in out:
                if n in kw:
                    raise Raised(EXC["TypeError"], ("multiple values",))
                continue
            if n in kw:
                out[n] = kw.pop(n)
            elif i >= len(names) - nd:
                out[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise Raised(EXC["TypeError"], (f"missing argument {n}",))
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                out[x.arg] = f.kwdefaults[x.arg]
            else:
                raise Raised(EXC["TypeError"])
        if a.kwarg:
            out[a.kwarg.arg] = kw
        elif kw:
            raise Raised(EXC["TypeError"], (f"unexpected argument {list(kw)}",))
        return out

    def instantiate(self, cls, args, kw):
        o = mkobj(cls)
        s = self.summaries.get(cls.qual)
        if s is not None:
            ctx().calls.add(cls.qual)
            return s(self, cls, *args, **kw)
        init, owner = cls.lookup("__init__")
        if isinstance(init, UFunc):
            self.call_fn(init, [o] + list(args), kw)
        elif callable(init):
            init(o, *args, **kw)
        elif any(b in EXC.values() for b in cls.mro()):
            o.f["args"] = tuple(args)
        return o

    def call_method(self, o, name, args, kw=None):
        return self.call(self.attr(o, name), args, kw or {})

    def attr(self, o, name):
        if isinstance(o, SObj):
            h, _ = o.cls.lookup("__getattribute__")
            if isinstance(h, UFunc) and not name.startswith("__"):
                return self.call_fn(h, [o, name], {})
            return self.attr0(o, name)
        if isinstance(o, SuperX):
            if o.self_ is not None and isinstance(o.self_, SObj):
                v, owner = o.self_.cls.lookup(name, after=o.cls)
                if v is None:
                    if name == "__init__":
                        return lambda *a, **k: o.self_.f.__setitem__("args", tuple(a)) if any(b in EXC.values() for b in o.cls.mro()) else None
                    if name == "__getattribute__":
                        return lambda n: self.attr0(o.self_, n)
                    if name == "__setattr__":
                        return lambda n, v: self.setattr0(o.self_, n, v)
                    raise Unsupported(f"super().{name}")
                return self.bind_member(v, o.self_, o.self_.cls)
            raise Unsupported("super")
        if isinstance(o, UClass):
            v, owner = o.lookup(name)
            if v is None:
                if name == "__name__":
                    return o.name
                raise Raised(EXC["AttributeError"], (name,))
            if isinstance(v, ClassMethod):
                return Bound(v.fn, o)
            if isinstance(v, StaticMethod):
                return v.fn
            return v
        if isinstance(o, SArr):
            return self.arr_attr(o, name)
        if isinstance(o, NpMod):
            if name in o.ns:
                v = o.ns[name]
                return NpMod(v) if isinstance(v, dict) else v
            return Stub("np." + name)
        if isinstance(o, (HostMod, ScipyMod, AbcMod)):
            return o.attr(name)
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            raise Raised(EXC["AttributeError"])
        if isinstance(o, NoOp):
            return NOOP
        if isinstance(o, VList):
            return self.list_attr(o, name)
        if isinstance(o, DictView):
            if name in ("keys",):
                return lambda: o
            raise Unsupported(f"view.{name}")
        if isinstance(o, dict):
            return self.dict_attr(o, name)
        if isinstance(o, VSet):
            return self.set_attr(o, name)
        if isinstance(o, str):
            return lambda *a: getattr(o, name)(*a) if all(isinstance(x, (str, int)) for x in a) else "<text>"
        if isinstance(o, tuple):
            if name == "index":
                return lambda x: self.seq_index(o, x)
            if name == "count":
                raise Unsupported("count")
        if isinstance(o, SDt):
            if name in ("name", "itemsize"):
                return getattr(o, name)
            if name == "kind":
                return {"int": "i" if not (isinstance(o.lo, int) and o.lo >= 0) else "u", "real": "f", "bool": "b"}[o.kind]
        if isinstance(o, PyClass):
            if name == "__name__":
                return o.name
            if name in o.ns:
                return o.ns[name]
        if is_scalar(o):
            if name == "astype":
                return lambda d: astype(o, d)
            if name in ("copy", "item"):
                return lambda: o
            if name == "ndim":
                return 0
            if name == "shape":
                return ()
            if name == "dtype":
                return BYKIND[kind(o)]
            if name in ("all", "any"):
                return lambda **k: cast(o, "bool")
            if name == "is_integer":
                return lambda: eq(to_kind(floor_(o), "real"), o)
            if name == "T":
                return o
        if isinstance(o, Stub):
            return Stub(o.name + "." + name)
        if isinstance(o, UFunc) and name == "__name__":
            return o.node.name
        if o is None:
            raise Raised(EXC["AttributeError"], (name,))
        if hasattr(o, "vattr"):
            return o.vattr(name)
        raise Unsupported(f"attribute {name} of {type(o).__name__} at {ctx().loc}")

    def attr0(self, o, name):
        v, owner = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call_fn(v.fn, [o], {})
        if name in o.f:
            return o.f[name]
        if v is not None or owner is not None:
            return self.bind_member(v, o, o.cls)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        if name == "args":
            return o.f.get("args", ())
        raise Raised(EXC["AttributeError"], (name,))

    def bind_member(self, v, o, cls):
        if isinstance(v, UFunc):
            return Bound(v, o)
        if isinstance(v, Prop):
            return self.call_fn(v.fn, [o], {})
        if isinstance(v, ClassMethod):
            return Bound(v.fn, cls)
        if isinstance(v, StaticMethod):
            return v.fn
        if callable(v) and not isinstance(v, (UClass, PyClass)) and getattr(v, "is_method", False):
            return lambda *a, **k: v(o, *a, **k)
        return v

    # ---------------------------------------------------------- arrays
    def arr_attr(self, a, name):
        F = npm.FNS
        if name == "shape":
            return tuple(x.n for x in a.axes)
        if name == "ndim":
            return a.ndim
        if name == "T":
            return transpose(a)
        if name == "dtype":
            return a.dt
        if name == "size":
            return npm.size(a)
        if name in ("nbytes", "itemsize"):
            return mul(npm.size(a), 8)
        if name == "copy":
            return lambda *x, **k: A.copy(a)
        if name == "astype":
            return lambda d, **k: A.astype(a, d)
        if name == "fill":
            return lambda v: A.setitem(a, tuple(slice(None) for _ in a.axes), v)
        if name == "flatten":
            return lambda *x: npm.flatten(a)
        if name == "flat":
            raise Unsupported("flat")
        if name == "ravel":
            return lambda *x, **k: npm.ravel(a, *x, **k)
        if name == "reshape":
            return lambda *s, **k: F["reshape"](a, s[0] if len(s) == 1 else tuple(s), **k)
        if name in ("sum", "min", "max", "all", "any", "mean", "argsort", "dot", "round", "nonzero", "prod", "cumsum", "repeat", "take", "ptp", "searchsorted"):
            return lambda *x, **k: F[name](a, *x, **k)
        if name == "transpose":
            return lambda *x: transpose(a, list(x) or None)
        if name == "tolist":
            return lambda: self.tolist(a)
        if name == "sort":
            def srt(axis=-1, **k):
                r = npm.np_sort(a, axis)
                A.setitem(a, tuple(slice(None) for _ in a.axes), r)
            return srt
        if name == "item":
            return lambda *i: A.getitem(a, tuple(i) if i else tuple(0 for _ in a.axes))
        if name == "__len__":
            return lambda: a.axes[0].n
        if name == "view":
            raise Unsupported("view")
        raise Unsupported(f"ndarray.{name}")

    def tolist(self, a):
        ax = a.axes[0]
        f = (lambda i: A.getitem(a, i)) if a.ndim == 1 else (lambda i: self.tolist(A.getitem(a, i)))
        if isinstance(ax.n, int):
            return vlist([f(i) for i in range(ax.n)])
        a = A.copy(a)
        return seg_list(ax.n, lambda k: at_elem(a, k))

    # ---------------------------------------------------------- lists, dicts, sets
    def list_append(self, l, v):
        for r in ctx().rec[-1:]:        # loops around see what the inner loop appends as a whole
            r.lst(l, "append", v)
        if l.parts is not None:
            l.parts = l.parts + [("item", v)]
        else:
            l.append(v)

    def list_extend(self, l, v):
        it = self.iterate(v)
        if not isinstance(it, SymIter):
            for x in it:
                self.list_append(l, x)
            return
        for r in ctx().rec:
            r.lst(l, "extend")
        ps = vl_parts(l)
        more = v.parts if isinstance(v, VList) and v.parts is not None else [("seg", it.n, it.elem)]
        l.parts = list(ps) + list(more)
        del l[:]

    def list_attr(self, l, name):
        if name == "append":
            return lambda v: self.list_append(l, v)
        if name == "extend":
            return lambda v: self.list_extend(l, v)
        if name == "index":
            return lambda x: self.seq_index(l, x)
        if name == "copy":
            return lambda: list_copy(l)
        if name == "__len__":
            return lambda: vl_len(l)
        if name in ("insert", "pop", "remove", "sort", "reverse", "clear") and l.parts is None:
            def f(*a, **k):
                for r in ctx().rec:
                    r.lst(l, name)
                if name == "sort":
                    l[:] = self.sorted_(l, **k)
                    return None
                if name == "remove":
                    i = self.seq_index(l, a[0])
                    del l[i]
                    return None
                return getattr(list, name)(l, *[norm(x) if is_scalar(x) and name == "pop" else x for x in a])
            return f
        raise Unsupported(f"list.{name}")

    def seq_index(self, l, x):
        if isinstance(l, VList) and l.parts is not None:
            raise Unsupported("index in a symbolic list")
        for i, y in enumerate(l):
            e = self.eq_val(y, x)
            if y is x or self.truth(e):
                return i
        raise Raised(EXC["ValueError"])

    def dict_attr(self, d, name):
        if name in ("keys", "values", "items"):
            return lambda: DictView(d, name)
        if name == "get":
            def get(k, default=None):
                kk = self.dkey(d, k)
                return default if kk is MISSING else d[kk]
            return get
        if name == "setdefault":
            def sd(k, default=None):
                kk = self.dkey(d, k)
                if kk is MISSING:
                    for r in ctx().rec:
                        r.dct(d)
                    d[self.mkkey(k)] = default
                    return default
                return d[kk]
            return sd
        if name == "update":
            def up(o=None, **k):
                for r in ctx().rec:
                    r.dct(d)
                if o is not None:
                    d.update(o)
                d.update(k)
            return up
        if name == "copy":
            return lambda: dict(d)
        if name == "pop":
            def pop(k, *default):
                kk = self.dkey(d, k)
                if kk is MISSING:
                    if default:
                        return default[0]
                    raise Raised(EXC["KeyError"])
                for r in ctx().rec:
                    r.dct(d)
                return d.pop(kk)
            return pop
        raise Unsupported(f"dict.{name}")

    def set_attr(self, s, name):
        if name == "add":
            def add_(v):
                for r in ctx().rec:
                    r.other.append("set")
                e = self.contains(v, vlist(list(s)))
                if not self.truth(e):
                    s.append(v)
            return add_
        if name == "update":
            def upd(vs):
                for v in self.concrete_items(vs):
                    self.set_attr(s, "add")(v)
            return upd
        raise Unsupported(f"set.{name}")

    # ---------------------------------------------------------- iteration, truth
    def iterate(self, v):
        if isinstance(v, SymIter):
            n = norm(v.n)
            if isinstance(n, int):
                return [v.elem(i) for i in range(n)]
            return v
        if isinstance(v, VList) and v.parts is not None:
            n = vl_len(v)
            if isinstance(n, int):
                return [vl_get(v, i) for i in range(n)]
            return SymIter(n, lambda k: vl_get_nocheck(v, k), v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, DictView):
            return v.values()
        if isinstance(v, dict):
            return [k.t if isinstance(k, Key) else k for k in v]
        if isinstance(v, SArr):
            ax = v.axes[0]
            if isinstance(ax.n, int) and ax.n <= 64:
                return [A.getitem(v, i) for i in range(ax.n)]
            return SymIter(ax.n, lambda k: at_elem(v, k), v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, SObj):
            return self.iterate(self.call_method(v, "__iter__", []))
        if v is None or is_scalar(v):
            raise Raised(EXC["TypeError"], ("not iterable",))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_scalar(v):
            if concrete(v):
                return bool(norm(v))
            b = v if kind(v) == "bool" else v != 0
            return ctx().decide(b)
        if isinstance(v, VList):
            n = vl_len(v)
            return bool(n) if isinstance(n, int) else ctx().decide(n > 0)
        if isinstance(v, (str, tuple, dict)):
            return bool(v)
        if isinstance(v, SArr):
            sz = norm(npm.size(v))
            if isinstance(sz, int):
                if sz == 1:
                    return self.truth(v.fn(tuple(0 for _ in v.axes)))
                if sz == 0:
                    return False
            raise Raised(EXC["ValueError"], ("truth value of an array",))
        if isinstance(v, SObj):
            for m in ("__bool__", "__len__"):
                if v.cls.lookup(m)[0] is not None:
                    return self.truth(self.call_method(v, m, []))
            return True
        if isinstance(v, VSet):
            return bool(len(v))
        if isinstance(v, (UFunc, UClass, Bound, PyClass)):
            return True
        if isinstance(v, NoOp):
            raise Unsupported("branch on a logging/plotting value")
        raise Unsupported(f"truth of {type(v).__name__}")

    def sorted_(self, v, key=None, reverse=False):
        if key is not None:
            raise Unsupported("sorted with key")
        if reverse not in (False, True) or reverse and not (isinstance(v, SArr) or isinstance(v, VList) and v.parts is not None):
            raise Unsupported("sorted in reverse")
        if isinstance(v, SArr):
            r = npm.np_sort(v)
            if reverse:
                r = npm.getitem(r, (slice(None, None, -1),))
            it = self.iterate(r)
            if isinstance(it, SymIter):
                l = seg_list(it.n, it.elem)
                l.arr = r
                return l
            return vlist(it)
        if isinstance(v, VList) and v.parts is not None:
            return self.sorted_(slist_array(v), None, reverse)
        items = self.concrete_items(v)
        if all(isinstance(x, str) for x in items):
            return vlist(sorted(items))
        if not all(is_scalar(x) for x in items):
            raise Unsupported("sorting objects")
        if all(concrete(norm(x)) for x in items):
            return vlist(sorted(norm(x) for x in items))
        out = []
        for x in items:              # insertion with decided comparisons
            i = 0
            while i < len(out) and self.truth(le(out[i], x)):
                i += 1
            out.insert(i, x)
        return vlist(out)


def at_elem(v, k):
    """Element k of the first axis, no bounds obligation (iteration)."""
    ax = v.axes[0]
    f, sm = v.store.fn, v.smap
    A.rd(v)
    if v.ndim == 1:
        return ax.apply(k, lambda p: f(sm((p,))))
    if isinstance(ax, Range):
        ctx().quiet += 1
        try:
            return A.basic(v, [T(k)] + [slice(None)] * (v.ndim - 1))
        finally:
            ctx().quiet -= 1
    return new(v.axes[1:], lambda pts: ax.apply(k, lambda p: f(sm((p,) + tuple(pts)))), v.dt)


def vl_get_nocheck(v, k):
    ctx().quiet += 1
    try:
        return vl_get(v, k)
    finally:
        ctx().quiet -= 1


def eqk(a, b):
    if kind(a) == "bool" or kind(b) == "bool":
        return Iff(cast(a, "bool"), cast(b, "bool"))
    return eq(a, b)


def subst_b(c, k, x):
    return c if isinstance(c, bool) else z3.substitute(c, (k, T(x)))


def subst_val(v, k, x):
    x = T(x)
    if is_term(v):
        return norm(z3.substitute(v, (k, x)))
    if isinstance(v, SArr):
        f = npm.frz(v)
        axes = []
        for a in v.axes:
            if isinstance(a, Range):
                axes.append(Range(subst(a.n, [(k, x)])) if is_term(a.n) and mentions(a.n, k) else a)
            elif is_term(a.n) and mentions(a.n, k):
                axes.append(SubstAxis(a, k, x))
            else:
                axes.append(a)
        r = new(axes, lambda pts: subst(f(tuple(pts)), [(k, x)]), v.dt)
        r.ro = True
        return r
    if isinstance(v, tuple):
        return tuple(subst_val(y, k, x) for y in v)
    if isinstance(v, VList):
        if v.parts is not None:
            r = VList()
            r.parts = [("item", subst_val(p[1], k, x)) if p[0] == "item" else ("seg", subst(p[1], [(k, x)]), (lambda q, p=p: subst_val(p[2](q), k, x))) for p in v.parts]
            return r
        return vlist([subst_val(y, k, x) for y in v])
    if isinstance(v, (int, bool, Fraction, str, type(None), SDt, UClass, UFunc)):
        return v
    if isinstance(v, SObj):
        return v
    raise Unsupported(f"value of type {type(v).__name__} depends on a loop variable")


class SubstAxis(Axis):
    """Axis of a generic iteration, at a particular iteration."""

    def __init__(self, ax, k, x):
        self.ax, self.k, self.x = ax, k, x
        self.n = subst(ax.n, [(k, x)])

    def _s(self, v):
        return subst(v, [(self.k, self.x)]) if is_term(v) else v

    def ordinal(self, p):
        return self._s(self.ax.ordinal(p))

    def apply(self, k, f):
        def g(p):
            return f(_sub_point(p, self.k, self.x))
        return self._s(self.ax.apply(k, g))

    def valid(self, p):
        return self._s(self.ax.valid(p))

    def cases(self):
        return self.ax.cases()

    def root(self):
        return self.ax.root()


def _sub_point(p, k, x):
    if isinstance(p, tuple):
        return tuple(_sub_point(q, k, x) for q in p)
    return subst(p, [(k, x)]) if is_term(p) else p


def vlist(items):
    l = VList(items)
    l.uid = next(A.UID)
    return l


def list_copy(l):
    r = vlist(list(l))
    r.parts = list(l.parts) if l.parts is not None else None
    return r


def list_concat(a, b):
    if a.parts is None and b.parts is None:
        return vlist(list(a) + list(b))
    r = vlist([])
    r.parts = list(vl_parts(a)) + list(vl_parts(b))
    return r


def mkobj(cls):
    o = SObj(cls)
    o.uid = next(A.UID)
    return o


class VSet(list):
    """Interpreted set (distinctness decided on insertion)."""


class Key:
    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t.get_id())

    def __eq__(self, o):
        return isinstance(o, Key) and self.t.eq(o.t)


class SymDict(dict):
    pass


class _Missing:
    pass


MISSING = _Missing()


class DictView:
    def __init__(self, d, how):
        self.d, self.how = d, how

    def values(self):
        un = lambda k: k.t if isinstance(k, Key) else k
        if self.how == "keys":
            return [un(k) for k in self.d]
        if self.how == "values":
            return list(self.d.values())
        return [(un(k), v) for k, v in self.d.items()]


class Module:
    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path


class NpMod:
    def __init__(self, ns):
        self.ns = ns


class AbcMod:
    def attr(self, name):
        if name == "ABC":
            return PyClass("ABC")
        return NOOP


class ClassNS(dict):
    def __init__(self, outer):
        super().__init__()
        self.outer = outer


class Scope(dict):
    def __init__(self, outer):
        super().__init__()
        self.outer = outer


class FnScope(dict):
    def __init__(self, outer):
        super().__init__()
        self.outer = outer

    @property
    def vars(self):
        return self


def lookup(env, name, mod, default):
    e = env
    first = True
    while e is not None:
        if name in e and (first or not isinstance(e, ClassNS)):
            return e[name]
        first = isinstance(e, Scope) and first
        e = getattr(e, "outer", None)
    if name in mod.env:
        return mod.env[name]
    return default


def assigned_names(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    # names bound by comprehensions are local to them
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                pass
    return out


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


# ------------------------------------------------------------------ builtins
BUILTINS = {"len", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "sum", "max", "min", "abs", "sorted", "isinstance", "hasattr", "getattr", "setattr", "int", "float",
            "bool", "str", "divmod", "any", "all", "round", "reversed", "iter", "next", "id", "type", "print", "repr", "hash", "super", "callable", "map", "filter", "slice", "object",
            "property", "classmethod", "staticmethod", "pow", "open", "issubclass"}
TYPES = {"int", "float", "bool", "str", "list", "tuple", "dict", "set", "object", "slice"}


class Builtin:
    def __init__(self, name, ip):
        self.name, self.ip = name, ip

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def mro(self):
        return [self]

    def vattr(self, name):
        if self.name == "dict" and name == "fromkeys":
            return lambda ks, v=None: {k: v for k in ks}
        raise Unsupported(f"{self.name}.{name}")

    def call(self, args, kw):
        return getattr(self, "b_" + self.name)(*args, **kw)

    def b_len(self, x):
        if isinstance(x, SArr):
            return x.axes[0].n
        if isinstance(x, VList):
            return vl_len(x)
        if isinstance(x, DictView):
            return len(x.d)
        if isinstance(x, (str, tuple, dict, VSet)):
            return len(x)
        if isinstance(x, SObj):
            return self.ip.call_method(x, "__len__", [])
        if is_scalar(x) or x is None:
            raise Raised(EXC["TypeError"], ("has no len()",))
        raise Unsupported(f"len of {type(x).__name__}")

    def b_range(self, a, b=None, step=1):
        a = norm(a) if is_scalar(a) else a
        if b is None:
            a, b = 0, a
        b, step = norm(b), norm(step)
        for x in (a, b, step):
            if isinstance(x, SArr):
                raise Raised(EXC["TypeError"])
            if kind(x) == "real":
                raise Raised(EXC["TypeError"])
        if all(isinstance(x, int) for x in (a, b, step)):
            return vlist(list(range(a, b, step)))
        if step != 1:
            raise Unsupported("range with step")
        n = sub(b, a)
        if ctx().feasible(T(n) < 0):
            n = max2(n, 0)
        return SymIter(n, lambda k: add(a, k))

    def b_enumerate(self, x, start=0):
        it = self.ip.iterate(x)
        if isinstance(it, SymIter):
            return SymIter(it.n, lambda k: (add(start, k), it.elem(k)), it.src if it.src is not None else it)
        return vlist([(add(start, i), v) for i, v in enumerate(it)])

    def b_zip(self, *xs):
        its = [self.ip.iterate(x) for x in xs]
        if not any(isinstance(i, SymIter) for i in its):
            return vlist([tuple(t) for t in zip(*its)])
        ns = [i.n if isinstance(i, SymIter) else len(i) for i in its]
        n = ns[0]
        for m in ns[1:]:
            if ctxeq(n, m) is not True:
                n = min2(n, m)
        el = [(i.elem if isinstance(i, SymIter) else (lambda k, i=i: self.ip.getitem(vlist(i), k))) for i in its]
        return SymIter(n, lambda k: tuple(f(k) for f in el))

    def b_list(self, x=()):
        if isinstance(x, VList) and x.parts is not None:
            return list_copy(x)
        it = self.ip.iterate(x)
        if isinstance(it, SymIter):
            r = seg_list(it.n, it.elem)
            r.uid = next(A.UID)
            return r
        return vlist(it)

    def b_tuple(self, x=()):
        it = self.ip.iterate(x)
        if isinstance(it, SymIter):
            return seg_list(it.n, it.elem)
        return tuple(it)

    def b_dict(self, x=None, **kw):
        d = {}
        if x is not None:
            if isinstance(x, dict):
                d.update(x)
            else:
                for k, v in self.ip.concrete_items(x):
                    d[self.ip.mkkey(k)] = v
        d.update(kw)
        return d

    def b_set(self, x=()):
        s = VSet()
        for v in self.ip.concrete_items(x):
            self.ip.set_attr(s, "add")(v)
        return s

    def b_sum(self, x, start=0):
        if isinstance(x, SArr):
            return npm.np_sum(x, 0)
        it = self.ip.iterate(x)
        if isinstance(it, SymIter):
            a = slist_array(x)
            return arith("+", npm.np_sum(a, 0), start)
        r = start
        for v in it:
            r = arith("+", r, v)
        return r

    def _ext(self, f, xs, kw):
        if "key" in kw:
            raise Unsupported("max/min with key")
        if len(xs) == 1:
            it = self.ip.iterate(xs[0])
            if isinstance(it, SymIter):
                a = xs[0] if isinstance(xs[0], SArr) else slist_array(xs[0])
                return (npm.np_max if f is max2 else npm.np_min)(a)
            xs = it
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise Raised(EXC["ValueError"])
        xs = list(xs)
        if isinstance(xs[0], VList) or any(isinstance(x, SArr) for x in xs):
            raise Unsupported("max/min of arrays")
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    def b_max(self, *xs, **kw):
        return self._ext(max2, xs, kw)

    def b_min(self, *xs, **kw):
        return self._ext(min2, xs, kw)

    def b_abs(self, x):
        return npm.np_abs(x)

    def b_sorted(self, x, **kw):
        return self.ip.sorted_(x, **kw)

    def b_reversed(self, x):
        it = self.ip.iterate(x)
        if isinstance(it, SymIter):
            return SymIter(it.n, lambda k: it.elem(sub(sub(it.n, 1), k)))
        return vlist(it[::-1])

    def b_isinstance(self, x, t):
        if isinstance(t, tuple):
            return any(self.b_isinstance(x, y) for y in t)
        if isinstance(t, Builtin):
            n = t.name
            if n == "object":
                return True
            if n == "bool":
                return is_scalar(x) and kind(x) == "bool"
            if n == "int":
                return is_scalar(x) and kind(x) in ("int", "bool")
            if n == "float":
                return is_scalar(x) and kind(x) == "real"
            if n == "str":
                return isinstance(x, str)
            if n == "list":
                return isinstance(x, VList)
            if n == "tuple":
                return isinstance(x, tuple)
            if n == "dict":
                return isinstance(x, dict)
            if n == "set":
                return isinstance(x, VSet)
            raise Unsupported(f"isinstance {n}")
        if isinstance(t, PyClass):
            if t.name == "ndarray":
                return isinstance(x, SArr)
            if t.name in ("integer",):
                return is_scalar(x) and kind(x) == "int"
            if isinstance(x, SObj):
                return subclass(x.cls, t)
            return False
        if isinstance(t, UClass):
            return isinstance(x, SObj) and subclass(x.cls, t)
        if isinstance(t, HostCls):
            return t.check(x)
        raise Unsupported(f"isinstance of {t}")

    def b_issubclass(self, a, b):
        return subclass(a, b)

    def b_hasattr(self, x, name):
        if name == "__len__":
            if isinstance(x, SObj):
                return x.cls.lookup("__len__")[0] is not None
            return isinstance(x, (SArr, VList, tuple, str, dict, VSet))
        if name == "__iter__":
            return isinstance(x, (SArr, VList, tuple, str, dict, VSet))
        try:
            self.ip.attr(x, name)
            return True
        except Raised:
            return False

    def b_getattr(self, x, name, *d):
        try:
            return self.ip.attr(x, name)
        except Raised:
            if d:
                return d[0]
            raise

    def b_setattr(self, x, name, v):
        self.ip.setattr(x, name, v)

    def b_int(self, x=0, *a):
        if isinstance(x, SArr):
            x = x.fn(tuple(0 for _ in x.axes))
        if isinstance(x, str):
            raise Unsupported("int of text")
        return norm(to_kind(norm(x), "int"))

    def b_float(self, x=0):
        if isinstance(x, str):
            return norm(float(x))
        if isinstance(x, SArr):
            ctx().oblige("float() of a single element", T(eq(npm.size(x), 1)), "shape")
            x = x.fn(tuple(0 for _ in x.axes))
        return norm(to_kind(norm(x), "real"))

    def b_bool(self, x=False):
        if is_scalar(x):
            return norm(cast(x, "bool"))
        if isinstance(x, VList) or isinstance(x, (tuple, dict, str)) or x is None:
            return self.ip.truth(x)
        return self.ip.truth(x)

    def b_str(self, x=""):
        x = norm(x) if is_scalar(x) else x
        return str(x) if isinstance(x, (int, str)) and not isinstance(x, SText) else x if isinstance(x, SText) else SText(x) if is_scalar(x) else "<text>"

    b_repr = b_str

    def b_divmod(self, a, b):
        return (arith("//", a, b), arith("%", a, b))

    def b_any(self, x):
        if isinstance(x, SArr):
            return npm.np_any(x)
        return slist_any(self.b_list(x), lambda v: self.as_bool(v))

    def b_all(self, x):
        if isinstance(x, SArr):
            return npm.np_all(x)
        return slist_any(self.b_list(x), lambda v: self.as_bool(v), True)

    def as_bool(self, v):
        return cast(v, "bool") if is_scalar(v) else self.ip.truth(v)

    def b_round(self, x, n=None):
        return round_(x, n) if n is not None else norm(rint_(x))

    def b_iter(self, x):
        return x

    def b_next(self, x, *d):
        if isinstance(x, Counter):
            return x.next()
        raise Unsupported("next")

    def b_id(self, x):
        return id(x)

    def b_type(self, x):
        if isinstance(x, SObj):
            return x.cls
        if isinstance(x, SArr):
            return self.ip.np["ndarray"]
        raise Unsupported("type()")

    def b_print(self, *a, **k):
        return None

    def b_hash(self, x):
        if isinstance(x, str):
            return 7
        raise Unsupported("hash")

    def b_callable(self, x):
        return isinstance(x, (UFunc, Bound, UClass, Builtin)) or callable(x)

    def b_map(self, f, *xs):
        z = self.b_zip(*xs)
        it = self.ip.iterate(z)
        if isinstance(it, SymIter):
            def run(k):
                self.ip.list_append(out, self.ip.call(f, list(it.elem(k))))
                return "normal", None
            out = vlist([])
            outs, k = self.ip.generic(it.n, run)
            self.ip.apply_map(it, outs, k, None, {}, None)
            return out
        return vlist([self.ip.call(f, list(t)) for t in it])

    def b_filter(self, f, xs):
        raise Unsupported("filter")

    def b_slice(self, *a):
        return slice(*a)

    def b_pow(self, a, b):
        return arith("**", a, b)

    def b_object(self):
        raise Unsupported("object()")

    def b_super(self, *a):
        raise Unsupported("super with arguments")

    def b_open(self, file, mode="r"):
        if not isinstance(file, str):
            raise Unsupported("file without a known name")
        return File(file, mode)


class File:
    """A file; what is pickled into it is kept until it is read (one object per file)."""

    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def vattr(self, name):
        if name == "close":
            return lambda: None
        raise Unsupported("file." + name)

    def write(self, x):
        if self.mode not in ("wb", "w+b", "wb+"):
            raise Unsupported(f"writing with mode {self.mode}")
        ctx().ghost.setdefault("files", {})[self.name] = deep(x, {})

    def read(self):
        fs = ctx().ghost.get("files", {})
        if self.mode != "rb" or self.name not in fs:
            raise Unsupported("reading another file")
        return deep(fs[self.name], {})


class Pickled:
    def __init__(self, x):
        self.x = x


class Counter:
    def __init__(self):
        self.k = 0

    def next(self):
        self.k += 1
        return self.k - 1


class HostCls:
    def __init__(self, name, check):
        self.name, self.check = name, check


class HostMod:
    def __init__(self, name, ip):
        self.name, self.ip = name, ip

    def attr(self, n):
        ip = self.ip
        items = lambda x: ip.concrete_items(x)
        if self.name == "itertools":
            if n == "product":
                return lambda *xs, repeat=1: vlist([tuple(t) for t in itertools.product(*([items(x) for x in xs] * norm(repeat)))])
            if n in ("combinations", "permutations", "combinations_with_replacement"):
                return lambda x, r: vlist([tuple(t) for t in getattr(itertools, n)(items(x), norm(r))])
            if n == "chain":
                def ch(*xs):
                    out = vlist([])
                    for x in xs:
                        ip.list_extend(out, x)
                    return out
                return Fn(ch, from_iterable=lambda xs: ch(*items(xs)))
            if n == "count":
                return lambda *a: Counter()
            if n == "repeat":
                return lambda v, times: vlist([v] * norm(times))
            if n == "islice":
                return lambda v, *a: ip.list_slice(Builtin("list", ip).b_list(v), slice(*a))
            if n == "accumulate":
                def acc(xs, f=None):
                    out, r = [], None
                    for x in items(xs):
                        r = x if r is None else (ip.call(f, [r, x]) if f else arith("+", r, x))
                        out.append(r)
                    return vlist(out)
                return acc
        if self.name == "math":
            if n == "sqrt":
                return lambda x: npm.FNS["sqrt"](x)
            if n == "pi":
                return PI
            if n == "inf":
                return INF
            if n in ("sin", "cos", "radians", "floor", "ceil"):
                def f(x):
                    r = npm.FNS[n](x)
                    return to_kind(r, "int") if n in ("floor", "ceil") else r
                return f
            if n == "prod":
                return lambda x: npm.np_prod(vlist(items(x)))
            if n == "hypot":
                return lambda *x: npm.FNS["sqrt"](Builtin("sum", ip).b_sum(vlist([arith("*", v, v) for v in x])))
            if n in ("isinf", "isfinite"):
                return npm.FNS[n]
            if n == "isclose":
                raise Unsupported("math.isclose")
            if n == "dist":
                return lambda p, q: npm.Linalg.norm(arith("-", from_any(p), from_any(q)))
        if self.name == "collections":
            if n in ("OrderedDict",):
                return lambda *a: Builtin("dict", ip).b_dict(*a)
            if n == "abc":
                return NOOP
            if n == "defaultdict":
                raise Unsupported("defaultdict")
        if self.name == "copy":
            return (lambda v, memo=None: deep(v, {} if memo is None else memo, ip)) if n == "deepcopy" else (lambda v: shallow(v, ip))
        if self.name == "pickle":
            if n == "dump":
                return lambda x, f, protocol=None: f.write(x)
            if n == "load":
                return lambda f: f.read()
            if n == "dumps":
                return lambda x, protocol=None: Pickled(deep(x, {}))
            if n == "loads":
                return lambda p: deep(p.x, {})
            if n in ("HIGHEST_PROTOCOL", "DEFAULT_PROTOCOL"):
                return None
            raise Unsupported("pickle." + n)
        if self.name == "operator":
            raise Unsupported("operator." + n)
        if self.name == "functools":
            if n == "reduce":
                def red(f, xs, *init):
                    xs = items(xs)
                    r = init[0] if init else xs.pop(0)
                    for x in xs:
                        r = ip.call(f, [r, x])
                    return r
                return red
            raise Unsupported("functools." + n)
        raise Unsupported(f"{self.name}.{n}")


class Fn:
    def __init__(self, f, **attrs):
        self.f, self.attrs = f, attrs

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def vattr(self, name):
        return self.attrs[name]


def custom(v, *names):
    for n in ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getnewargs__") + names:
        if v.cls.lookup(n)[0] is not None:
            return n
    return None


def deep(v, memo, ip=None):
    """Contract of copy.deepcopy (and, without ip, of a pickle round trip)."""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, SArr):
        r = A.copy(v)
        for at_ in ("uniq", "nonneg"):
            if hasattr(v, at_):
                setattr(r, at_, getattr(v, at_))
    elif isinstance(v, SObj):
        n = custom(v, *(("__deepcopy__",) if ip is not None else ()))
        if n == "__deepcopy__":
            r = ip.call(ip.attr(v, n), [memo])
            memo[id(v)] = r
            return r
        if n is not None:
            raise Unsupported(n)
        r = mkobj(v.cls)
        memo[id(v)] = r
        for k, x in v.f.items():
            r.f[k] = deep(x, memo, ip)
        return r
    elif isinstance(v, VList):
        r = vlist([])
        memo[id(v)] = r
        r.extend(deep(x, memo, ip) for x in v)
        if v.parts is not None:
            r.parts = [("item", deep(p[1], memo, ip)) if p[0] == "item" else p for p in v.parts]
    elif isinstance(v, VSet):
        r = VSet(deep(x, memo, ip) for x in v)
    elif isinstance(v, tuple):
        r = tuple(deep(x, memo, ip) for x in v)
    elif isinstance(v, dict):
        r = {k: deep(x, memo, ip) for k, x in v.items()}
    else:
        r = v
    memo[id(v)] = r
    return r


def shallow(v, ip=None):
    if isinstance(v, SArr):
        return A.copy(v)
    if isinstance(v, VList):
        return list_copy(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, SObj):
        n = custom(v, "__copy__")
        if n == "__copy__" and ip is not None:
            return ip.call(ip.attr(v, n), [])
        if n is not None:
            raise Unsupported(n)
        r = mkobj(v.cls)
        r.f.update(v.f)
        return r
    return v


class ScipyMod:
    def __init__(self, name, ip):
        self.name, self.ip = name, ip

    def attr(self, n):
        full = self.name + "." + n
        if full in self.ip.externals:
            return self.ip.externals[full]
        if full in EXTERNALS:
            return EXTERNALS[full]
        if full in ("scipy.spatial", "scipy.sparse", "scipy.spatial.distance"):
            return ScipyMod(full, self.ip)
        if n and n[0].isupper() or n.endswith("KDTree") or n.endswith("matrix"):
            return PyClass(full)
        return Stub(full)


EXTERNALS = {}


def _cdist(x, y):
    """Assumed contract of scipy.spatial.distance.cdist: Euclidean distances."""
    ctx().assumed.add("scipy.spatial.distance.cdist returns Euclidean distances")
    d = arith("-", A.getitem(x, (slice(None), None)), A.getitem(y, (None, slice(None))))
    return npm.FNS["sqrt"](npm.np_sum(arith("*", d, d), 2))


EXTERNALS["scipy.spatial.distance.cdist"] = _cdist
