"""Arrays over symbolic axes.

An axis has a (possibly symbolic) length and *points*; an array is a function of points.  Selecting
(masks), permuting (sorting), flattening and joining axes keep the points of the parent axes, so the
element function never changes: only the order (ordinal <-> point) and the set of points do.
"""
import itertools
from fractions import Fraction
import z3
from .sym import *
from . import sym


# ------------------------------------------------------------------ dtypes
class SDt:
    def __init__(self, name, kind, lo=None, hi=None):
        self.name, self.kind, self.lo, self.hi = name, kind, lo, hi

    def fits(self, x):
        c = True
        if self.lo is not None:
            c = And(c, le(self.lo, x))
        if self.hi is not None:
            c = And(c, le(x, self.hi))
        return c

    @property
    def itemsize(self):
        return 8

    def __repr__(self):
        return f"dtype({self.name})"

    def __call__(self, x=0):
        return to_kind(x, self.kind) if is_scalar(x) else astype(x, self)


def _i(name, bits_, signed):
    return SDt(name, "int", -(2 ** (bits_ - 1)) if signed else 0, 2 ** (bits_ - 1) - 1 if signed else 2 ** bits_ - 1)


INT64, UINT64 = SDt("int64", "int"), SDt("uint64", "int", 0)
INT8, INT16, INT32 = _i("int8", 8, True), _i("int16", 16, True), _i("int32", 32, True)
UINT8, UINT16, UINT32 = _i("uint8", 8, False), _i("uint16", 16, False), _i("uint32", 32, False)
FLOAT, BOOL = SDt("float64", "real"), SDt("bool", "bool")
BYKIND = {"int": INT64, "real": FLOAT, "bool": BOOL}
NAMED = {d.name: d for d in (INT64, UINT64, INT8, INT16, INT32, UINT8, UINT16, UINT32, FLOAT, BOOL)}
NAMED.update({"int": INT64, "float": FLOAT, "float32": FLOAT})


def as_dtype(d):
    if d is None or isinstance(d, SDt):
        return d
    n = type(d).__name__ == "Builtin" and d.name
    if n in ("int", "float", "bool"):
        return {"int": INT64, "float": FLOAT, "bool": BOOL}[n]
    if d is int:
        return INT64
    if d is float:
        return FLOAT
    if d is bool:
        return BOOL
    if isinstance(d, str) and d in NAMED:
        return NAMED[d]
    raise Unsupported(f"dtype {d!r}")


def wide(d):
    return d.kind != "int" or (d.hi is None)


def promote(a, b):
    if a.kind == "real" or b.kind == "real":
        return FLOAT
    if a is b:
        return a
    if a.kind == "bool":
        return b
    if b.kind == "bool":
        return a
    if wide(a) or wide(b):
        return INT64
    # the common type of numpy holds all values of both
    return SDt(f"promote({a.name},{b.name})", "int", min2(a.lo, b.lo), max2(a.hi, b.hi))


# ------------------------------------------------------------------ quantifiers
def with_bound(names, guards_of, body):
    """Evaluate body under fresh generic constants; facts met on the way are closed over them."""
    c = ctx()
    vs = [z3.Const(c.fresh("q_" + n), s) for n, s in names]
    gs = guards_of(vs)
    for v in vs[:-1]:
        c.bound.append((v, []))
    c.bound.append((vs[-1], [g for g in ([T(gs)] if not isinstance(gs, bool) else ([] if gs else [T(False)]))]))
    try:
        return vs, T(body(vs))
    finally:
        for _ in vs:
            c.bound.pop()


def forall(names, guards_of, body, pats=None):
    vs, b = with_bound(names, guards_of, body)
    g = guards_of(vs)
    f = z3.Implies(T(g), b)
    ps = []
    if pats:
        for p in pats(vs):
            ps.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
    used = [v for v in vs if mentions(f, v)]
    if not used:
        return f
    return z3.ForAll(vs, f, patterns=ps) if ps and len(used) == len(vs) else z3.ForAll(used, f)


def exists(names, guards_of, body):
    vs, b = with_bound(names, guards_of, body)
    return z3.Exists(vs, z3.And(T(guards_of(vs)), b))


IS, RS = z3.IntSort(), z3.RealSort()


# ------------------------------------------------------------------ axes
class Axis:
    parent = None

    def sig(self):
        return id(self)

    # point variables of this axis: [(point, [(name, sort)], constraint)]
    def generic(self):
        raise NotImplementedError

    def same(self, o):
        return self is o

    def root(self):
        return self

    def is_concrete(self):
        return isinstance(self.n, int)


class Range(Axis):
    def __init__(self, n):
        n = norm(z3.simplify(n)) if is_term(n) else n
        self.n = n

    def ordinal(self, p):
        return p

    def apply(self, k, f):
        return f(k)

    def valid(self, p):
        return And(le(0, p), lt(p, self.n))

    def cases(self):
        return [([("i", IS)], lambda vs: vs[0])]

    def same(self, o):
        return self is o or (isinstance(o, Range) and isinstance(ctxeq(self.n, o.n), bool) and ctxeq(self.n, o.n))

    def __repr__(self):
        return f"Range({self.n})"


def ctxeq(a, b):
    """True/False if decided syntactically, else a term."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(T(a) == T(b))
    if z3.is_true(d):
        return True
    if z3.is_false(d):
        return False
    return d


class Sel(Axis):
    """The points of `parent` satisfying `pred`, in the order of the parent."""

    def __init__(self, parent, pred, name="sel"):
        self.parent, self.pred = parent, pred
        c = ctx()
        self._bound = len(c.bound)
        self._n = c.fn("cnt_" + name, [], IS)()
        self._sel = c.fn("sel_" + name, [IS], IS)
        self._rank = c.fn("rank_" + name, [IS], IS)
        self._ax = False
        c.fact(z3.And(self._n >= 0, self._n <= T(parent.n)))
        c.ghost["sel"].append(self)
        if c.bound:
            self._axioms()          # inside a generic iteration: the axioms are closed over it

    @property
    def n(self):
        self._axioms()
        return self._n

    def _axioms(self):
        if self._ax:
            return
        self._ax = True
        P, c = self.parent, ctx()
        sel, rank, n, pn = self._sel, self._rank, self._n, P.n
        pred_at = lambda i: P.apply(i, lambda p: T(self.pred(p)))
        c.fact(forall([("k", IS)], lambda v: And(v[0] >= 0, v[0] < n),
                      lambda v: And(sel(v[0]) >= 0, sel(v[0]) < T(pn), rank(sel(v[0])) == v[0], pred_at(sel(v[0])), sel(v[0]) >= v[0], sel(v[0]) <= v[0] + T(pn) - n),
                      lambda v: [sel(v[0])]), guarded=False)
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(pn), pred_at(v[0])),
                      lambda v: And(rank(v[0]) >= 0, rank(v[0]) < n, sel(rank(v[0])) == v[0], rank(v[0]) <= v[0]),
                      lambda v: [rank(v[0])]), guarded=False)
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(pn), pred_at(v[0])), lambda v: n >= 1), guarded=False)
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(pn), n == T(pn)), lambda v: pred_at(v[0])), guarded=False)
        c.fact(forall([("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] < v[1], v[1] < n),
                      lambda v: sel(v[0]) < sel(v[1]), lambda v: [(sel(v[0]), sel(v[1]))]), guarded=False)

        if (c.ghost.get("counts") or c.ghost.get("lengths")) and not c.bound:
            from . import npm
            try:
                c.fact(n == T(npm.count_axis(P, self.pred)), guarded=False)
            except Unsupported:
                pass
        c.fact(z3.Implies(n >= 1, z3.And(sel(z3.IntVal(0)) >= 0, sel(z3.IntVal(0)) < T(pn), T(pred_at(sel(z3.IntVal(0)))))), guarded=False)

    def ordinal(self, p):
        self._axioms()
        return self._rank(self.parent.ordinal(p))

    def apply(self, k, f):
        self._axioms()
        return self.parent.apply(self._sel(k), f)

    def valid(self, p):
        return And(self.parent.valid(p), self.pred(p))

    def cases(self):
        return self.parent.cases()

    def same(self, o):
        return self is o

    def root(self):
        return self.parent.root()


class Perm(Axis):
    """The points of `parent` in another order."""

    def __init__(self, parent, name="perm", le_fn=None):
        self.parent = parent
        self.n = parent.n
        c = ctx()
        self._at = c.fn("at_" + name, [IS], IS)
        self._inv = c.fn("pos_" + name, [IS], IS)
        n = T(self.n)
        at, inv = self._at, self._inv
        c.fact(forall([("k", IS)], lambda v: And(v[0] >= 0, v[0] < n),
                      lambda v: And(at(v[0]) >= 0, at(v[0]) < n, inv(at(v[0])) == v[0]), lambda v: [at(v[0])]), guarded=False)
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < n),
                      lambda v: And(inv(v[0]) >= 0, inv(v[0]) < n, at(inv(v[0])) == v[0]), lambda v: [inv(v[0])]), guarded=False)
        self.le_fn = le_fn
        if le_fn is not None:
            c.fact(forall([("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] <= v[1], v[1] < n),
                          lambda v: parent.apply(at(v[0]), lambda p: parent.apply(at(v[1]), lambda q: T(le_fn(p, q)))),
                          lambda v: [(at(v[0]), at(v[1]))]), guarded=False)
        c.ghost["perm"].append(self)

    def ordinal(self, p):
        return self._inv(T(self.parent.ordinal(p)))

    def apply(self, k, f):
        return self.parent.apply(self._at(T(k)), f)

    def valid(self, p):
        return self.parent.valid(p)

    def cases(self):
        return self.parent.cases()

    def root(self):
        return self.parent.root()


class Rev(Axis):
    def __init__(self, parent):
        self.parent, self.n = parent, parent.n

    def ordinal(self, p):
        return sub(sub(self.n, 1), self.parent.ordinal(p))

    def apply(self, k, f):
        return self.parent.apply(sub(sub(self.n, 1), k), f)

    def valid(self, p):
        return self.parent.valid(p)

    def cases(self):
        return self.parent.cases()

    def root(self):
        return self.parent.root()


class Prod(Axis):
    """Row-major flattening of several axes; points are tuples."""

    def __init__(self, axes):
        self.axes = list(axes)
        n = 1
        for a in self.axes:
            n = mul(n, a.n)
        self.n = norm(z3.simplify(n)) if is_term(n) else n

    def ordinal(self, p):
        r = 0
        for a, q in zip(self.axes, p):
            r = add(mul(r, a.n), a.ordinal(q))
        return r

    def apply(self, k, f):
        def go(i, k, pts):
            if i < 0:
                return f(tuple(pts))
            a = self.axes[i]
            if i == 0:
                return a.apply(k, lambda p: go(-1, None, [p] + pts))
            q, r = self._divmod(k, a.n)
            return a.apply(r, lambda p: go(i - 1, q, [p] + pts))
        return go(len(self.axes) - 1, k, [])

    def _divmod(self, k, n):
        if concrete(k) and concrete(n):
            return divmod(k, n)
        c = ctx()
        if concrete(n):
            return T(k) / n, T(k) % n
        return T(k) / T(n), T(k) % T(n)

    def valid(self, p):
        return And(*[a.valid(q) for a, q in zip(self.axes, p)])

    def cases(self):
        out = [([], lambda vs: ())]
        for a in self.axes:
            new = []
            for names, mk in out:
                for n2, mk2 in a.cases():
                    k = len(names)
                    new.append((names + n2, (lambda vs, mk=mk, mk2=mk2, k=k: mk(vs[:k]) + (mk2(vs[k:]),))))
            out = new
        return out

    def same(self, o):
        return isinstance(o, Prod) and len(o.axes) == len(self.axes) and all(a.same(b) for a, b in zip(self.axes, o.axes))


class Concat(Axis):
    """Points are (part, point)."""

    def __init__(self, parts):
        self.parts = list(parts)
        n = 0
        for a in self.parts:
            n = add(n, a.n)
        self.n = norm(z3.simplify(n)) if is_term(n) else n

    def ordinal(self, p):
        t, q = p
        r = self.parts[t].ordinal(q)
        for a in self.parts[:t]:
            r = add(r, a.n)
        return r

    def apply(self, k, f):
        off, outs = 0, []
        for t, a in enumerate(self.parts):
            outs.append((off, t, a))
            off = add(off, a.n)
        r = None
        for off, t, a in reversed(outs):
            v = a.apply(sub(k, off), lambda q, t=t: f((t, q)))
            r = v if r is None else ite(lt(k, nxt), v, r)
            nxt = off
        return r

    def valid(self, p):
        return self.parts[p[0]].valid(p[1])

    def cases(self):
        out = []
        for t, a in enumerate(self.parts):
            for names, mk in a.cases():
                out.append((names, lambda vs, t=t, mk=mk: (t, mk(vs))))
        return out

    def same(self, o):
        return isinstance(o, Concat) and len(o.parts) == len(self.parts) and all(a.same(b) for a, b in zip(self.parts, o.parts))


class Uniq(Axis):
    """Distinct values of an array in ascending order; points are the values."""

    def __init__(self, k, name="uq", sel=None):
        c = ctx()
        self.kind = k
        S = SORT[k]
        self._b_ax = False
        if sel is not None:
            # an ascending selection of a plain range: the points are the values
            sel._axioms()
            self.mem, self._u, self._r, self.n = (lambda v: T(sel.valid(v))), sel._sel, sel._rank, sel._n
            self._below = c.fn("below_" + name, [S], IS)
            u, n = self._u, self.n
            c.fact(forall([("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] < v[1], v[1] < n), lambda v: u(v[1]) - u(v[0]) >= v[1] - v[0],
                          lambda v: [(u(v[0]), u(v[1]))]), guarded=False)
            return
        self.mem = c.fn("in_" + name, [S], z3.BoolSort())
        if k == "int" and not c.bound:
            c.ghost.setdefault("uniqs", []).append(self)
        self._u = c.fn("val_" + name, [IS], S)
        self._r = c.fn("rank_" + name, [S], IS)
        self._below = c.fn("below_" + name, [S], IS)
        self.n = c.fn("cnt_" + name, [], IS)()
        u, r, n, mem = self._u, self._r, self.n, self.mem
        c.fact(n >= 0)
        c.fact(forall([("k", IS)], lambda v: And(v[0] >= 0, v[0] < n), lambda v: And(mem(u(v[0])), r(u(v[0])) == v[0]),
                      lambda v: [u(v[0])]), guarded=False)
        c.fact(forall([("x", S)], lambda v: mem(v[0]), lambda v: And(r(v[0]) >= 0, r(v[0]) < n, u(r(v[0])) == v[0]),
                      lambda v: [mem(v[0])]), guarded=False)
        gap = (lambda v: u(v[1]) - u(v[0]) >= v[1] - v[0]) if k == "int" else (lambda v: u(v[0]) < u(v[1]))
        c.fact(forall([("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] < v[1], v[1] < n), gap,
                      lambda v: [(u(v[0]), u(v[1]))]), guarded=False)

    def below(self, x):
        """Number of values smaller than x (searchsorted, left)."""
        x = to_kind(x, self.kind)
        if not self._b_ax:
            self._b_ax = True
            S = SORT[self.kind]
            b, u, n = self._below, self._u, self.n
            ctx().fact(forall([("x", S)], lambda v: True, lambda v: And(b(v[0]) >= 0, b(v[0]) <= n, z3.Implies(self.mem(v[0]), b(v[0]) == self._r(v[0])),
                                                                    z3.Implies(b(v[0]) < n, u(b(v[0])) >= v[0]), z3.Implies(b(v[0]) > 0, u(b(v[0]) - 1) < v[0])),
                              lambda v: [b(v[0])]), guarded=False)
            ctx().fact(forall([("x", S), ("k", IS)], lambda v: And(v[1] >= 0, v[1] < n), lambda v: (u(v[1]) < v[0]) == (v[1] < b(v[0])),
                              lambda v: [(b(v[0]), u(v[1]))]), guarded=False)
        return self._below(x)

    def ordinal(self, p):
        return self._r(T(p))

    def apply(self, k, f):
        return f(self._u(T(k)))

    def valid(self, p):
        return self.mem(T(p))

    def cases(self):
        return [([("v", SORT[self.kind])], lambda vs: vs[0])]


class Opaque(Axis):
    """Image of another axis through ordinals (generic conversion)."""


def points(axes, base="p"):
    """Generic points of a list of axes: [(points, constraint)] with fresh constants."""
    c = ctx()
    out = [((), True)]
    for a in axes:
        if a.is_concrete() and isinstance(a, Range) and a.n <= 8:
            out = [(pts + (i,), g) for pts, g in out for i in range(a.n)]
            continue
        new = []
        for names, mk in a.cases():
            vs = [c.const(base, s) for _, s in names]
            p = mk(vs)
            for pts, g in out:
                new.append((pts + (p,), And(g, a.valid(p))))
        out = new
    return out


# ------------------------------------------------------------------ arrays
UID = itertools.count()


class Store:
    __slots__ = ("axes", "fn", "dt", "name", "uid")

    def __init__(self, axes, fn, dt, name=None):
        self.axes, self.fn, self.dt, self.name, self.uid = list(axes), fn, dt, name, next(UID)


class SArr:
    """View of a store: per store axis either a fixed point or a (view axis, map) pair."""

    copyof = None

    def __init__(self, axes, fn=None, dt=None, store=None, maps=None, ixof=None, ro=False):
        self.axes = list(axes)
        self.store = store if store is not None else Store(axes, fn, dt)
        self.maps = maps            # None: identity
        self.ixof = ixof            # values are the ordinals of the own points on this axis (first axis)
        self.ro = ro

    @property
    def dt(self):
        return self.store.dt

    @property
    def kind(self):
        return self.store.dt.kind

    @property
    def shape(self):
        return tuple(a.n for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    def smap(self, pts):
        if self.maps is None:
            return pts
        return tuple(m[1] if m[0] == "fix" else m[2](pts[m[1]]) for m in self.maps)

    def fn(self, pts):
        for r in ctx().rec:
            r.read(self.store)
        return self.store.fn(self.smap(pts))

    def __call__(self, *idx):
        """Element by ordinals."""
        return at(self, idx)

    def __bool__(self):
        raise Unsupported("truth value of an array (host)")

    def __len__(self):
        raise Unsupported("host len of an array")


def new(axes, fn, dt):
    return SArr(axes, fn, dt if isinstance(dt, SDt) else BYKIND[dt])


def at(a, idx):
    def go(i, pts):
        if i == len(a.axes):
            return a.fn(tuple(pts))
        return a.axes[i].apply(idx[i], lambda p: go(i + 1, pts + [p]))
    return go(0, [])


def from_nested(lst, dt=None):
    """Concrete nested list of scalars."""
    def shp(x):
        if isinstance(x, (list, tuple)):
            s = [shp(y) for y in x]
            if any(t != s[0] for t in s):
                raise Unsupported("ragged array")
            return (len(x),) + (s[0] if s else ())
        return ()
    shape = shp(lst)
    flat = []

    def fl(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                fl(y)
        else:
            flat.append(norm(x))
    fl(lst)
    ks = {kind(x) for x in flat} or {"real"}
    k = "real" if "real" in ks else "int" if "int" in ks else "bool"
    if dt is not None:
        dt = as_dtype(dt)
        if dt.kind == "int" and k == "real":
            flat = [trunc(x) for x in flat]
        k = dt.kind
    flat = [to_kind(x, k) for x in flat]
    d = dict()
    import itertools
    for i, ix in enumerate(itertools.product(*[range(s) for s in shape])):
        d[ix] = flat[i]

    def fn(pts, d=d, shape=shape):
        def go(i, ix):
            if i == len(shape):
                return d[tuple(ix)]
            p = pts[i]
            if isinstance(p, int):
                return go(i + 1, ix + [p])
            r = None
            for v in reversed(range(shape[i])):
                x = go(i + 1, ix + [v])
                r = x if r is None else ite(eq(p, v), x, r)
            return r
        return go(0, [])
    return SArr([Range(s) for s in shape], fn, dt or BYKIND[k])


def scalar0(x):
    """Scalar as 0-d element function."""
    return x


def unify(a, b):
    """Common axis of two axes and point maps (p on common -> accessor of elements)."""
    ident = lambda f: f
    if a.same(b):
        return a, None, None
    if b.is_concrete() and b.n == 1 and isinstance(b, Range) and not (a.is_concrete() and a.n == 1):
        return a, None, "bcast"
    if a.is_concrete() and a.n == 1 and isinstance(a, Range):
        return b, "bcast", None
    e = ctxeq(a.n, b.n)
    if e is False:
        ctx().oblige("array shapes agree", False, "shape")
        raise Infeasible()
    if e is not True:
        ctx().oblige("array shapes agree", e, "shape")
    if isinstance(a, Range):
        return a, None, "ord"
    if isinstance(b, Range):
        return b, "ord", None
    return a, None, "ord"


def broadcast(arrs):
    """arrs: SArr or scalars -> (axes, [accessor(pts)])."""
    nd = max([a.ndim for a in arrs if isinstance(a, SArr)] + [0])
    axes = [None] * nd
    for a in arrs:
        if isinstance(a, SArr):
            off = nd - a.ndim
            for i, x in enumerate(a.axes):
                axes[off + i] = x if axes[off + i] is None else unify(axes[off + i], x)[0]
    acc = []
    for a in arrs:
        if not isinstance(a, SArr):
            acc.append(lambda pts, a=a: a)
            continue
        off = nd - a.ndim
        modes = []
        for i, x in enumerate(a.axes):
            c = axes[off + i]
            modes.append((None if x.same(c) else "bcast" if (x.is_concrete() and x.n == 1 and isinstance(x, Range)) else "ord", x, c))

        rd(a)

        def f(pts, off=off, modes=modes, f0=a.store.fn, sm=a.smap):
            def go(i, out):
                if i == len(modes):
                    return f0(sm(tuple(out)))
                m, x, c = modes[i]
                p = pts[off + i]
                if m is None:
                    return go(i + 1, out + [p])
                if m == "bcast":
                    return go(i + 1, out + [0])
                return x.apply(c.ordinal(p), lambda q: go(i + 1, out + [q]))
            return go(0, [])
        acc.append(f)
    return axes, acc


def elementwise(op, *args, kind_=None, dt=None):
    axes, acc = broadcast(args)
    f = lambda pts: op(*[g(pts) for g in acc])
    if dt is None:
        if kind_ is None:
            ks = [x.kind if isinstance(x, SArr) else kind(x) for x in args]
            kind_ = "real" if "real" in ks else "int" if "int" in ks else "bool"
        dt = BYKIND[kind_]
    return new(axes, f, dt)


def cast(x, k):
    return to_kind(x, k) if kind(x) != k else x


def result_dt(op, args):
    ds = [a.dt for a in args if isinstance(a, SArr)]
    for a in args:
        if not isinstance(a, SArr) and kind(a) == "real":
            return FLOAT
    d = ds[0]
    for e in ds[1:]:
        d = promote(d, e)
    if d.kind == "bool" and op in ("+", "-", "*"):
        if any(not isinstance(a, SArr) and kind(a) == "int" for a in args):
            return INT64
    if d.kind != "real":
        for a in args:     # value based casting of python scalars
            if not isinstance(a, SArr) and kind(a) == "int" and d.kind == "int" and not wide(d):
                if concrete(a) and d is not None and isinstance(d.lo, int) and a < 0 and d.lo >= 0 and op in ("+", "*"):
                    return INT64
    return d


def check_fits(a, what):
    """Every element of the array fits its (narrow) data type."""
    if a.dt.kind != "int" or (a.dt.lo is None and a.dt.hi is None):
        return
    if ctx().quiet:
        return
    if a.dt.hi is None:
        pass
    for pts, g in points(a.axes):
        goal = Implies(g, a.dt.fits(a.fn(pts)))
        ctx().oblige(what + " fits the data type", goal, "fits")


def arith(op, a, b):
    fns = {"+": add, "-": sub, "*": mul, "/": truediv, "//": floordiv, "%": mod, "**": power}
    f = fns[op]
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return f(a, b)
    if op == "/":
        dt = FLOAT
    else:
        dt = result_dt(op, (a, b))
        if dt.kind == "bool" and op in ("+", "-", "*"):
            dt = BOOL if op == "*" else INT64
            if op == "-" and all((x.kind if isinstance(x, SArr) else kind(x)) == "bool" for x in (a, b)):
                raise Unsupported("boolean subtract")
    g = (lambda x, y: cast(f(x, y), dt.kind))
    r = elementwise(g, a, b, dt=dt)
    if op in ("+", "-", "*"):
        check_fits(r, f"result of {op}")
    return r


def compare(op, a, b):
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return cmp(op, a, b)
    return elementwise(lambda x, y: cmp(op, x, y), a, b, dt=BOOL)


def bitop(op, a, b):
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return bits(op, a, b)
    ks = [x.kind if isinstance(x, SArr) else kind(x) for x in (a, b)]
    k = "bool" if ks == ["bool", "bool"] else "int"
    return elementwise(lambda x, y: cast(bits(op, x, y), k), a, b, dt=BYKIND[k])


def invert(a):
    if isinstance(a, SArr):
        if a.kind != "bool":
            raise Unsupported("~ on integers")
        return elementwise(Not, a, dt=BOOL)
    if kind(a) == "bool":
        return Not(a)
    raise Unsupported("~ on integers")


def negate(a):
    if isinstance(a, SArr):
        dt = a.dt
        r = elementwise(neg, a, dt=dt)
        check_fits(r, "negation")
        return r
    return neg(a)


def astype(a, dt, check=True):
    dt = as_dtype(dt)
    if not isinstance(a, SArr):
        return to_kind(a, dt.kind)
    src = SArr(a.axes, None, None, store=a.store, maps=a.maps)
    snap = a.store.fn
    sm = a.smap
    r = new(a.axes, lambda pts: cast(snap(sm(pts)), dt.kind), dt)
    rd(a)
    if check and dt.kind == "int" and dt is not a.dt:
        check_fits(r, f"conversion to {dt.name}")
    r.ixof = a.ixof
    return r


def rd(a):
    for r in ctx().rec:
        r.read(a.store)


def copy(a):
    rd(a)
    f, sm = a.store.fn, a.smap
    r = new(a.axes, lambda pts: f(sm(pts)), a.dt)
    r.ixof = a.ixof
    r.copyof = (a, f)
    return r


def wr(a):
    if a.ro:
        raise Unsupported("write to a derived array that may alias")
    for r in ctx().rec:
        r.write(a)


# ------------------------------------------------------------------ indexing
NEWAXIS = object()


def norm_index(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nd = 0
    for k in key:
        if k is None or k is NEWAXIS or k is Ellipsis:
            continue
        nd += k.ndim if isinstance(k, SArr) and k.kind == "bool" else 1
    if Ellipsis in [k for k in key if not isinstance(k, SArr) and not is_term(k)]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (a.ndim - nd)
    else:
        key += [slice(None)] * (a.ndim - nd)
    if nd > a.ndim:
        ctx().oblige("number of indices", False, "bounds")
        raise Infeasible()
    return key


def index_int(ax, k):
    """Normalise an integer index (negative: from the end) with bounds obligation."""
    k = norm(k)
    if kind(k) == "real":
        raise Unsupported("float index")
    k = to_kind(k, "int")
    n = ax.n
    if concrete(k) and concrete(n):
        if not -n <= k < n:
            ctx().oblige(f"index {k} within bounds", False, "bounds")
            raise Infeasible()
        return k if k >= 0 else k + n
    if concrete(k):
        if k < 0:
            ctx().oblige("index within bounds", T(n) >= -k, "bounds")
            return add(n, k)
        ctx().oblige("index within bounds", T(n) > k, "bounds")
        return k
    c = ctx()
    neg_ = k < 0
    if c.known(neg_) is None and not c.feasible(neg_):
        c.oblige("index within bounds", z3.And(k >= 0, k < T(n)), "bounds")
        return k
    c.oblige("index within bounds", z3.And(k >= -T(n), k < T(n)), "bounds")
    return ite(neg_, add(k, n), k)


def slice_axis(ax, s):
    """(new axis, map new point -> old point, inverse (old point) -> (cond, new point)) or None for identity."""
    st, en, sp = (norm(x) if x is not None else None for x in (s.start, s.stop, s.step))
    if st in (None, 0) and not is_term(st) and en is None and sp in (None, 1):
        return None
    if sp == -1 and st is None and en is None:
        return Rev(ax), (lambda p: p), (lambda p: (True, p))
    n = ax.n
    if sp is None:
        sp = 1
    if not (isinstance(sp, int) and sp > 0):
        if not (is_term(sp)):
            raise Unsupported("slice step")

    def clip(x, default):
        if x is None:
            return default
        if concrete(x) and concrete(n):
            return max(0, min(n, x + n if x < 0 else x))
        if concrete(x) and x < 0:
            return max2(0, add(n, x))
        if concrete(x):
            return min2(x, n)
        return min2(max2(ite(lt(x, 0), add(x, n), x), 0), n)
    a, b = clip(st, 0), clip(en, n)
    if not isinstance(ax, Range):
        if (sp == 1) and not is_term(sp):
            r = Sel(ax, lambda p: And(le(a, ax.ordinal(p)), lt(ax.ordinal(p), b)), "slice")
            ctx().fact(T(r._n) == T(max2(sub(b, a), 0)))
            return r, (lambda p: p), (lambda p: (r.pred(p), p))
        raise Unsupported("strided slice of a derived axis")
    if sp == 1 and not is_term(sp):
        m = sub(b, a)
    else:
        if not is_term(sp):
            m = floordiv(sub(add(sub(b, a), sp), 1), sp)
        else:
            ctx().oblige("slice step is positive", T(sp) >= 1, "defined")
            m = T(sub(add(sub(b, a), sp), 1)) / T(sp)
    if concrete(m):
        m = max(m, 0)
    else:
        m = z3.simplify(T(m))
        if ctx().feasible(T(m) < 0):
            m = max2(m, 0)
    nax = Range(m)
    fwd = lambda p: add(a, mul(sp, p))

    def inv(q):
        d = sub(q, a)
        if sp == 1 and not is_term(sp):
            return And(le(a, q), lt(q, b)), d
        k = floordiv(d, sp) if concrete(sp) else T(d) / T(sp)
        return And(le(a, q), lt(q, b), eq(mul(sp, k), d)), k
    return nax, fwd, inv


def basic(a, key):
    """Basic indexing: returns a view (and scalar if 0-d)."""
    axes, maps = [], []
    cur = a.maps or [("ax", i, (lambda p: p), (lambda q: (True, q))) for i in range(a.ndim)]
    # position of view axis -> new map
    vmap = {}
    i = 0
    for k in key:
        if k is None or k is NEWAXIS:
            axes.append(Range(1))
            continue
        ax = a.axes[i]
        if isinstance(k, slice):
            s = slice_axis(ax, k)
            if s is None:
                vmap[i] = ("ax", len(axes), (lambda p: p), (lambda q: (True, q)))
                axes.append(ax)
            else:
                vmap[i] = ("ax", len(axes), s[1], s[2])
                axes.append(s[0])
        else:
            kk = index_int(ax, k)
            if isinstance(ax, Range):
                vmap[i] = ("fix", kk)
            else:
                vmap[i] = ("ord", kk, ax)
        i += 1
    if any(m[0] == "ord" for m in vmap.values()):
        # integer index on a derived axis: read-only selection by ordinal
        def fn(pts, vmap=vmap, f=a.store.fn, sm=a.smap):
            def go(j, out):
                if j == a.ndim:
                    return f(sm(tuple(out)))
                m = vmap[j]
                if m[0] == "fix":
                    return go(j + 1, out + [m[1]])
                if m[0] == "ord":
                    return m[2].apply(m[1], lambda q: go(j + 1, out + [q]))
                return go(j + 1, out + [m[2](pts[m[1]])])
            return go(0, [])
        rd(a)
        if not axes:
            return fn(())
        r = new(axes, fn, a.dt)
        r.ro = True
        return r
    out = []
    for m in cur:
        if m[0] == "fix":
            out.append(m)
            continue
        _, vi, f0, g0 = m
        v = vmap[vi]
        if v[0] == "fix":
            out.append(("fix", f0(v[1])))
        else:
            _, nv, f1, g1 = v

            def g(q, g0=g0, g1=g1):
                c0, p = g0(q)
                c1, r = g1(p)
                return And(c0, c1), r
            out.append(("ax", nv, (lambda p, f0=f0, f1=f1: f0(f1(p))), g))
    r = SArr(axes, store=a.store, maps=out, ro=a.ro)
    if a.ixof is not None and a.ndim == 1 and len(axes) == 1 and vmap.get(0, ("x",))[0] == "ax" and isinstance(r.axes[0], (Sel, Rev, Perm)):
        r.ixof = a.ixof
    if not axes:
        return r.fn(())
    return r


def is_adv(k):
    return isinstance(k, (SArr, list))


def where1(mask):
    """Index array of the true entries of a 1-d mask."""
    m = copy(mask)
    ax = cached_sel(m.axes[0], m, lambda p: T(cast(m.store.fn((p,)), "bool")))
    base = m.axes[0]
    r = new([ax], lambda pts: base.ordinal(pts[0]), INT64)
    r.ixof = base
    return r


def getitem(a, key):
    key = norm_index(a, key)
    key = [mk_index(k) for k in key]
    if not any(isinstance(k, SArr) for k in key):
        return basic(a, key)
    # a single n-d mask (n >= 2), other entries full slices
    masks = [k for k in key if isinstance(k, SArr) and k.kind == "bool"]
    if len(masks) == 1 and masks[0].ndim >= 2:
        m = masks[0]
        if key[0] is not m or not all(isinstance(k, slice) and slice_axis(None, k) is None for k in key[1:]):
            raise Unsupported("mixed n-d mask index")
        return mask_get(a, m)
    if len(key) == 1 and len(masks) == 1:
        return mask_get(a, masks[0])
    key = [where1(k) if isinstance(k, SArr) and k.kind == "bool" else k for k in key]
    # integer arrays
    adv_pos = [i for i, k in enumerate(key) if isinstance(k, SArr) or (not isinstance(k, slice) and k is not None and k is not NEWAXIS)]
    if any(k is None or k is NEWAXIS for k in key):
        raise Unsupported("newaxis with index arrays")
    adv = [key[i] for i in adv_pos]
    baxes, acc = broadcast([k if isinstance(k, SArr) else k for k in adv])
    contiguous = adv_pos == list(range(adv_pos[0], adv_pos[0] + len(adv_pos)))
    first = adv_pos[0] if contiguous else 0
    # axes of the result and accessors
    axes, src = [], {}
    rest = [i for i in range(a.ndim) if i not in adv_pos]
    order = []
    if contiguous:
        for i in range(a.ndim):
            if i == first:
                order.append("adv")
            if i in rest:
                order.append(i)
    else:
        order = ["adv"] + rest
    pos_of_adv = 0
    for o in order:
        if o == "adv":
            pos_of_adv = len(axes)
            axes.extend(baxes)
        else:
            s = slice_axis(a.axes[o], key[o])
            src[o] = (len(axes), (lambda p: p) if s is None else s[1])
            axes.append(a.axes[o] if s is None else s[0])
    nb = len(baxes)
    accs = dict(zip(adv_pos, acc))
    # bounds obligations
    direct = {}
    for i in adv_pos:
        k = key[i]
        ax = a.axes[i]
        if isinstance(k, SArr):
            if k.ixof is not None and k.ixof.same(ax) and nb == 1 and baxes[0].same(k.axes[0]):
                direct[i] = True
                continue
            if k.kind != "int":
                raise Unsupported("index array of kind " + k.kind)
            if not ctx().quiet:
                for pts, g in points(k.axes):
                    v = k.fn(pts)
                    lo = 0 if (k.dt.lo is not None and isinstance(k.dt.lo, int) and k.dt.lo >= 0) else neg(ax.n)
                    ctx().oblige("index array within bounds", Implies(g, And(le(lo, v), lt(v, ax.n))), "bounds")
        else:
            key[i] = index_int(ax, k)
            accs[i] = lambda pts, v=key[i]: v
    f, sm = a.store.fn, a.smap
    rd(a)
    unsigned = {i: isinstance(key[i], SArr) and ((isinstance(key[i].dt.lo, int) and key[i].dt.lo >= 0) or (i not in direct and never_negative(key[i]))) for i in adv_pos}

    def fn(pts):
        bp = pts[pos_of_adv:pos_of_adv + nb]

        def go(i, out):
            if i == a.ndim:
                return f(sm(tuple(out)))
            if i in src:
                j, g = src[i]
                return go(i + 1, out + [g(pts[j])])
            if i in direct:
                return go(i + 1, out + [bp[0]])
            v = accs[i](bp)
            if not concrete(v) and not unsigned[i] and isinstance(key[i], SArr) and not key[i].axes == [] and key[i].ixof is None:
                if ctx().known(v >= 0) is None and not getattr(key[i], "nonneg", False):
                    v = ite(lt(v, 0), add(v, a.axes[i].n), v)
            elif concrete(v) and v < 0:
                v = add(v, a.axes[i].n)
            return a.axes[i].apply(v, lambda q: go(i + 1, out + [q]))
        return go(0, [])
    r = new(axes, fn, a.dt)
    if len(adv_pos) == 1 and a.ndim == 1 and a.ixof is not None and isinstance(key[0], SArr) and key[0].ixof is not None and direct:
        r.ixof = a.ixof
    return r


def never_negative(k):
    """The index array is known to hold no negative number (quick check; False if open)."""
    c = ctx()
    if getattr(k, "nonneg", False):
        return True
    if c.quiet or c.bound or k.ixof is not None:
        return False
    tag = (k.store.fn, tuple(id(x) for x in k.axes))
    reg = c.ghost.setdefault("nonneg", {})
    if tag not in reg:
        ok = True
        for pts, g in points(k.axes):
            v = k.fn(pts)
            if concrete(v):
                ok = ok and v >= 0
                continue
            s = z3.Solver()
            s.set("timeout", 150)
            s.add(*[f for f in c.facts])
            s.add(T(g), T(lt(v, 0)))
            ok = ok and s.check() == z3.unsat
        reg[tag] = ok
    return reg[tag]


def mk_index(k):
    if isinstance(k, list):
        if all(is_scalar(x) for x in k):
            return from_nested(k, INT64 if k and kind(k[0]) != "bool" else None)
        raise Unsupported("list index")
    return k


def mask_get(a, m):
    m = copy(m)
    k = m.ndim
    axes = []
    for x, y in zip(a.axes[:k], m.axes):
        if not x.same(y):
            e = ctxeq(x.n, y.n)
            if e is not True:
                ctx().oblige("mask shape agrees", e, "shape")
        axes.append(x)

    def mfn(pts):
        def go(i, out):
            if i == k:
                return m.store.fn(tuple(out))
            if a.axes[i].same(m.axes[i]):
                return go(i + 1, out + [pts[i]])
            return m.axes[i].apply(a.axes[i].ordinal(pts[i]), lambda q: go(i + 1, out + [q]))
        return T(cast(go(0, []), "bool"))
    if k == 1:
        sel = cached_sel(a.axes[0], m, lambda p: mfn((p,)))
    else:
        sel = cached_sel(tuple(a.axes[:k]), m, mfn)
    f, sm = a.store.fn, a.smap
    rd(a)
    if k == 1:
        fn = lambda pts: f(sm(tuple(pts)))
    else:
        fn = lambda pts: f(sm(tuple(pts[0]) + tuple(pts[1:])))
    r = new([sel] + a.axes[k:], fn, a.dt)
    r.maskof = (m, sel)
    if a.ixof is not None and a.ndim == 1:
        r.ixof = a.ixof
    return r


def cached_sel(parent, m, pred):
    """Selections of the same axis by the same predicate are the same axis."""
    c = ctx()
    reg = c.ghost.setdefault("selreg", [])
    pax = Prod(parent) if isinstance(parent, tuple) else parent
    for ax, par, src in reg:
        if not par.same(pax):
            continue
        if src is not None and m.copyof is not None and src[0] is m.copyof[0] and src[1] is m.copyof[1]:
            return ax
        ok = True
        for names, mk in pax.cases():
            vs = [z3.Const(f"sp{i}", s) for i, (n, s) in enumerate(names)]
            p = mk(vs)
            c.quiet += 1
            try:
                if not (z3.simplify(T(ax.pred(p))).eq(z3.simplify(T(pred(p))))):
                    ok = False
            finally:
                c.quiet -= 1
        if ok:
            return ax
    ax = complement_of(pax, pred) or Sel(pax, pred, "mask")
    if not c.bound:
        reg.append((ax, pax, m.copyof))
    return ax


def complement_of(pax, pred):
    """The axis np.delete gives, if the mask provably selects exactly the points outside a set of values."""
    c = ctx()
    us = c.ghost.get("uniqs", [])
    if not us or c.bound or not isinstance(pax, Range):
        return None
    p = z3.Const("sp_c", IS)
    c.quiet += 1
    try:
        t = z3.simplify(T(pred(p)))
        for u in us:
            d = u.mem(p)
            if not mentions(t, d):
                continue
            s = z3.Solver()
            s.set("timeout", 600)
            s.add(*c.facts)
            s.add(p >= 0, p < T(pax.n), t == d)
            if s.check() == z3.unsat:
                from . import npm
                return npm.complement_sel(pax, u)
    finally:
        c.quiet -= 1
    return None


def setitem(a, key, val):
    wr(a)
    key = norm_index(a, key)
    key = [mk_index(k) for k in key]
    st = a.store
    old = st.fn
    maps = a.maps or [("ax", i, (lambda p: p), (lambda q: (True, q))) for i in range(a.ndim)]

    def view_of(q):
        """store points -> (condition, view points)"""
        cond, pts = True, [None] * a.ndim
        for m, x in zip(maps, q):
            if m[0] == "fix":
                cond = And(cond, eq(x, m[1]))
            else:
                c1, p = m[3](x)
                cond = And(cond, c1)
                pts[m[1]] = p
        for i, ax in enumerate(a.axes):
            if pts[i] is None:
                pts[i] = 0
        return cond, tuple(pts)

    if isinstance(val, (list, tuple)):
        val = from_any(val)
    adv = [k for k in key if isinstance(k, SArr)]
    dt = st.dt

    def fit(v):
        return cast(v, dt.kind)

    if not adv:
        # basic
        sv_, ctx().rec = ctx().rec, []        # locating the target reads nothing
        try:
            tgt = basic(a, key)
        finally:
            ctx().rec = sv_
        if not isinstance(tgt, SArr):
            if isinstance(val, SArr):
                val = val.fn(tuple(0 for _ in val.axes))
            narrow_check(dt, [(True, val)])
            kk = [index_int(ax, k) for ax, k in zip(a.axes, key)]

            def fn(q):
                c, p = view_of(q)
                hit = c
                for x, y, ax in zip(p, kk, a.axes):
                    hit = And(hit, eq(x if isinstance(ax, Range) else ax.ordinal(x), y))
                return ite(hit, fit(val), old(q))
            st.fn = fn
            return
        if isinstance(val, SArr):
            axes, acc = broadcast([tgt, val])
            if len(axes) != tgt.ndim:
                raise Unsupported("broadcast in assignment")
            for x, y in zip(axes, tgt.axes):
                if not (x.same(y)):
                    e = ctxeq(x.n, y.n)
                    if e is not True:
                        ctx().oblige("assigned shape agrees", e, "shape")
            vf0 = acc[1]
            # accessor in terms of the target's points
            def vf(p):
                q = tuple(pp if x.same(y) else x_from(y, x, pp) for pp, x, y in zip(p, axes, tgt.axes))
                return vf0(q)
            frozen_ = val.store.fn
        else:
            vf = lambda p: val
        if dt.kind == "int" and not (dt.lo is None and dt.hi is None):
            cs = []
            for pts, g in points(tgt.axes):
                cs.append((g, vf(pts)))
            narrow_check(dt, cs)
        tm = tgt.maps

        def fn(q):
            cond, pts = True, [0] * tgt.ndim
            for m, x in zip(tm, q):
                if m[0] == "fix":
                    cond = And(cond, eq(x, m[1]))
                else:
                    c1, p = m[3](x)
                    cond = And(cond, c1)
                    pts[m[1]] = p
            if cond is False:
                return old(q)
            return ite(cond, fit(vf(tuple(pts))), old(q))
        st.fn = fn
        return
    if len(adv) == 1 and adv[0].kind == "bool" and key[0] is adv[0] and all(isinstance(k, slice) for k in key[1:]):
        m = copy(adv[0])
        k = m.ndim

        def hit(p):
            def go(i, out):
                if i == k:
                    return m.store.fn(tuple(out))
                if a.axes[i].same(m.axes[i]):
                    return go(i + 1, out + [p[i]])
                return m.axes[i].apply(a.axes[i].ordinal(p[i]), lambda q: go(i + 1, out + [q]))
            return T(cast(go(0, []), "bool"))
        for x, y in zip(a.axes[:k], m.axes):
            if not x.same(y):
                e = ctxeq(x.n, y.n)
                if e is not True:
                    ctx().oblige("mask shape agrees", e, "shape")
        if isinstance(val, SArr):
            f2 = val.store.fn
            sm2 = val.smap
            if val.ndim == 0:
                vf = lambda p: f2(sm2(()))
            else:
                sel = val.axes[0]
                ok = isinstance(sel, Sel)
                if ok:
                    par = sel.parent
                    tgtax = a.axes[0] if k == 1 else Prod(a.axes[:k])
                    ok = par.same(tgtax)
                if not ok:
                    raise Unsupported("masked assignment of an unrelated array")
                # the selection must be the one of the mask
                for pts, g in points(a.axes[:k]):
                    ctx().oblige("assigned values belong to the mask", Implies(g, Iff(sel.pred(pts[0] if k == 1 else pts), hit(pts))), "shape")
                vf = lambda p: f2(sm2(((p[0] if k == 1 else tuple(p[:k])),) + tuple(p[k:])))
        else:
            vf = lambda p: val
        if dt.kind == "int" and not (dt.lo is None and dt.hi is None):
            narrow_check(dt, [(And(g, hit(pts)), vf(pts)) for pts, g in points(a.axes)])

        def fn(q):
            c, p = view_of(q)
            return ite(And(c, hit(p)), fit(vf(p)), old(q))
        st.fn = fn
        return
    # integer + index array (a[i, slots] = values)
    key = [where1(k) if isinstance(k, SArr) and k.kind == "bool" else k for k in key]
    adv_pos = [i for i, k in enumerate(key) if isinstance(k, SArr)]
    if len(adv_pos) == 1:
        j = adv_pos[0]
        ks = key[j]
        if ks.ndim == 1 and ks.axes[0].is_concrete() and ks.axes[0].n <= 8:
            inds = [index_int(a.axes[j], ks.fn((t,))) for t in range(ks.axes[0].n)]
            member = None
        elif ks.ixof is not None and ks.ixof.same(a.axes[j]):
            inds = None
        elif ks.ndim == 1 and ks.kind == "int" and not isinstance(val, SArr) and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != j):
            # one value for all the positions listed (order and repetitions do not matter)
            from . import npm
            ext = a.axes[j].n
            for pts, g in points(ks.axes):
                ctx().oblige("index array within bounds", Implies(g, And(le(mul(-1, ext), ks.fn(pts)), lt(ks.fn(pts), ext))), "bounds")
            mem = npm.member(ks)
            narrow_check(dt, [(True, val)])

            def fn(q):
                cond, p = view_of(q)
                o = a.axes[j].ordinal(p[j])
                return ite(And(cond, Or(mem(o), mem(sub(o, ext)))), fit(val), old(q))
            st.fn = fn
            return
        else:
            raise Unsupported("assignment through a general index array")
        fixed, sl = {}, {}
        vaxes = []
        for i, k in enumerate(key):
            if i == j:
                vaxes.append(ks.axes[0])
                sl[i] = ("adv", len(vaxes) - 1)
            elif isinstance(k, slice):
                s = slice_axis(a.axes[i], k)
                vaxes.append(a.axes[i] if s is None else s[0])
                sl[i] = ("sl", len(vaxes) - 1, (lambda q: (True, q)) if s is None else s[2])
            else:
                fixed[i] = index_int(a.axes[i], k)
        if isinstance(val, SArr):
            dummy = new(vaxes, lambda p: 0, INT64)
            axes, acc = broadcast([dummy, val])
            vf = lambda p: acc[1](tuple(pp if x.same(y) else x_from(y, x, pp) for pp, x, y in zip(p, axes, vaxes)))
        else:
            vf = lambda p: val
        if dt.kind == "int" and not (dt.lo is None and dt.hi is None):
            narrow_check(dt, [(g, vf(pts)) for pts, g in points(vaxes)])

        def fn(q):
            cond, p = view_of(q)
            pts = [0] * len(vaxes)
            for i, v in fixed.items():
                cond = And(cond, eq(a.axes[i].ordinal(p[i]), v))
            for i, m in sl.items():
                if m[0] == "sl":
                    c1, r = m[2](p[i])
                    cond = And(cond, c1)
                    pts[m[1]] = r
            if inds is None:
                cond = And(cond, ks.axes[0].valid(p[j]))
                pts[sl[j][1]] = p[j]
                return ite(cond, fit(vf(tuple(pts))), old(q))
            r = old(q)
            for t, v in enumerate(inds):
                pts[sl[j][1]] = t
                r = ite(And(cond, eq(p[j], v)), fit(vf(tuple(pts))), r)
            return r
        st.fn = fn
        return
    raise Unsupported("assignment with several index arrays")


def x_from(src, dst, p):
    """Point of axis dst with the ordinal of point p on axis src."""
    if isinstance(dst, Range):
        return src.ordinal(p)
    raise Unsupported("axis conversion in assignment")


def narrow_check(dt, cases):
    if dt.kind != "int" or (dt.lo is None and dt.hi is None) or ctx().quiet:
        return
    for g, v in cases:
        ctx().oblige("stored value fits the data type", Implies(g, dt.fits(v)), "fits")


def from_any(x, dt=None):
    """np.array semantics for (nested) lists of scalars and arrays."""
    if isinstance(x, SArr):
        return x if dt is None else astype(x, dt)
    if is_scalar(x):
        return from_nested([x], dt)
    if hasattr(x, "as_array"):
        r = x.as_array()
        return r if dt is None else astype(r, dt)
    x = list(x)
    if all(is_scalar(y) for y in x):
        return from_nested(x, dt)
    ys = [from_any(y) if not is_scalar(y) else y for y in x]
    if any(is_scalar(y) for y in ys):
        raise Unsupported("mixed nesting")
    r = stack(ys)
    return r if dt is None else astype(r, dt)


def stack(ys):
    axes, acc = broadcast(ys)
    for y in ys:
        if y.ndim != len(axes):
            raise Unsupported("ragged array")
    dt = ys[0].dt
    for y in ys[1:]:
        dt = promote(dt, y.dt)
    fs = []
    for y in ys:
        y = copy(y)
        fs.append(y)
    axes, acc = broadcast(fs)

    def fn(pts):
        p = pts[0]
        if isinstance(p, int):
            return cast(acc[p](pts[1:]), dt.kind)
        r = None
        for i in reversed(range(len(acc))):
            v = cast(acc[i](pts[1:]), dt.kind)
            r = v if r is None else ite(eq(p, i), v, r)
        return r
    return new([Range(len(ys))] + axes, fn, dt)


def iter0(a):
    """Elements along a concrete first axis."""
    return [getitem(a, i) for i in range(a.axes[0].n)]


def transpose(a, order=None):
    order = list(order or reversed(range(a.ndim)))
    inv = {o: i for i, o in enumerate(order)}
    maps = a.maps or [("ax", i, (lambda p: p), (lambda q: (True, q))) for i in range(a.ndim)]
    maps = [m if m[0] == "fix" else ("ax", inv[m[1]], m[2], m[3]) for m in maps]
    return SArr([a.axes[o] for o in order], store=a.store, maps=maps, ro=a.ro)
