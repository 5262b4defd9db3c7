"""Assumed contracts of the numpy functions used by the code under verification."""
import itertools
from fractions import Fraction
import z3
from .sym import *
from . import sym
from . import arr as A
from .arr import *

FNS = {}


def np_fn(*names):
    def deco(f):
        for n in names:
            FNS[n] = f
        return f
    return deco


class Acc:
    """An array a symbolic loop appends one block per iteration to; any other use inside the loop is out of reach."""

    def __init__(self, base, blocks=(), owner=None):
        d = self.__dict__
        d["base"], d["blocks"], d["owner"] = base, list(blocks), owner

    def __getattr__(self, name):
        raise Unsupported("loop-carried array")


def arrlike(x):
    if isinstance(x, (SArr, Acc)):
        return x
    return from_any(x)


def val(x):
    """Array or scalar operand."""
    if isinstance(x, SArr) or is_scalar(x):
        return x
    return from_any(x)


def frz(a):
    rd(a)
    f, sm = a.store.fn, a.smap
    return lambda pts: f(sm(tuple(pts)))


# ------------------------------------------------------------------ creation
@np_fn("array")
def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, SArr):
        return A.copy(x) if dtype is None else astype(x, dtype)
    if is_scalar(x):
        raise Unsupported("0-d array")
    if isinstance(x, (list, tuple)) and len(x) == 0 and getattr(x, "parts", None) is None:
        return new([Range(0)], lambda p: Fraction(0), as_dtype(dtype) or FLOAT)
    r = from_any(x, dtype)
    return A.copy(r) if r.maps is not None else r


@np_fn("asarray", "asanyarray", "ascontiguousarray")
def asarray(x, dtype=None, **kw):
    if isinstance(x, SArr):
        return x if dtype is None or as_dtype(dtype) is x.dt else astype(x, dtype)
    if is_scalar(x):
        return x if dtype is None else to_kind(x, as_dtype(dtype).kind)
    return array(x, dtype)


@np_fn("atleast_1d")
def atleast_1d(x):
    if is_scalar(x):
        return from_nested([x])
    return asarray(x)


@np_fn("atleast_2d")
def atleast_2d(x):
    if is_scalar(x):
        return from_nested([[x]])
    x = asarray(x)
    return getitem(x, (None, slice(None))) if x.ndim == 1 else x


def shape_of(s):
    if isinstance(s, SArr):
        return [getitem(s, i) for i in range(s.axes[0].n)]
    return list(s) if isinstance(s, (list, tuple)) else [s]


def mkaxes(shape):
    out = []
    for n in shape_of(shape):
        if isinstance(n, Axis):
            out.append(n)
            continue
        n = norm(n)
        if is_term(n):
            ctx().oblige("dimension is not negative", n >= 0, "defined")
        out.append(Range(n))
    return out


def const_array(axes, v, dt):
    if dt.kind != kind(v):
        v = to_kind(v, dt.kind)
    narrow_check(dt, [(True, v)])
    return new(axes, lambda pts: v, dt)


@np_fn("zeros", "empty")
def zeros(shape, dtype=None, **kw):
    return const_array(mkaxes(shape), 0, as_dtype(dtype) or FLOAT)


@np_fn("ones")
def ones(shape, dtype=None):
    return const_array(mkaxes(shape), 1, as_dtype(dtype) or FLOAT)


@np_fn("full")
def full(shape, fill_value, dtype=None):
    return const_array(mkaxes(shape), fill_value, as_dtype(dtype) or BYKIND[kind(fill_value)])


@np_fn("zeros_like", "empty_like")
def zeros_like(a, dtype=None):
    if is_scalar(a):
        return to_kind(0, kind(a))
    a = arrlike(a)
    return const_array(a.axes, 0, as_dtype(dtype) or a.dt)


@np_fn("ones_like")
def ones_like(a, dtype=None):
    if is_scalar(a):
        return to_kind(1, kind(a))
    a = arrlike(a)
    return const_array(a.axes, 1, as_dtype(dtype) or a.dt)


@np_fn("full_like")
def full_like(a, fill_value, dtype=None):
    a = arrlike(a)
    return const_array(a.axes, fill_value, as_dtype(dtype) or a.dt)


@np_fn("eye", "identity")
def eye(n, dtype=None):
    return from_nested([[Fraction(int(i == j)) for j in range(n)] for i in range(n)], as_dtype(dtype) or FLOAT)


@np_fn("diag")
def diag(v):
    v = arrlike(v)
    n = v.axes[0].n
    if v.ndim == 1:
        x = [v.fn((i,)) for i in range(n)]
        return from_nested([[x[i] if i == j else 0 for j in range(n)] for i in range(n)])
    return from_nested([v.fn((i, i)) for i in range(n)])


@np_fn("arange")
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if kind(start) == "real" or kind(stop) == "real" or not (concrete(step) and step == 1):
        if all(concrete(norm(x)) for x in (start, stop, step)):
            out, x = [], norm(start)
            while x < norm(stop):
                out.append(x)
                x += norm(step)
            return from_nested(out)
        raise Unsupported("arange")
    n = sub(stop, start)
    if concrete(n):
        n = max(n, 0)
    elif ctx().feasible(T(n) < 0):
        n = max2(n, 0)
    dt = as_dtype(dtype) or INT64
    ax = Range(n)
    r = new([ax], lambda pts: cast(add(start, pts[0]), dt.kind), dt)
    if concrete(start) and start == 0 and dt.kind == "int":
        r.ixof = ax
    A.check_fits(r, "arange")
    return r


@np_fn("linspace")
def linspace(start, stop, num=50, endpoint=True, **kw):
    start, stop = val(start), val(stop)
    ax = Range(num)
    den = sub(num, 1) if endpoint is True else num
    if not isinstance(endpoint, bool) or kw:
        raise Unsupported("linspace")
    axes, acc = broadcast([start, stop])

    def fn(pts):
        p, q = acc[0](pts[1:]), acc[1](pts[1:])
        k = to_kind(pts[0], "real")
        if concrete(den):
            t = mul(k, Fraction(1, den)) if den > 0 else 0
        else:
            t = ite(T(den) > 0, T(to_kind(k, "real")) / z3.ToReal(T(den)), z3.RealVal(0))
        return to_kind(add(p, mul(sub(q, p), t)), "real")
    return new([ax] + axes, fn, FLOAT)


@np_fn("indices")
def indices(dims):
    ds = [norm(x) for x in shape_of(dims)]
    for d in ds:
        if is_term(d):
            ctx().oblige("dimension is not negative", d >= 0, "defined")
    axes = [Range(d) for d in ds]

    def fn(pts):
        p = pts[0]
        if isinstance(p, int):
            return axes[p].ordinal(pts[1 + p])
        r = None
        for i in reversed(range(len(axes))):
            r = pts[1 + i] if r is None else ite(eq(p, i), pts[1 + i], r)
        return r
    return new([Range(len(axes))] + axes, fn, INT64)


# ------------------------------------------------------------------ shape manipulation
def flat_axis(axes):
    out = []
    for a in axes:
        out.extend(a.axes if isinstance(a, Prod) else [a])
    return out


def flatten(a):
    if a.ndim == 1:
        return A.copy(a)
    f = frz(a)
    return new([Prod(a.axes)], lambda pts: f(tuple(pts[0])), a.dt)


def regroup(a, shape):
    """reshape"""
    shape = [norm(s) for s in shape]
    f = frz(a)
    parts = []          # (component axes, original axis index)
    for i, x in enumerate(a.axes):
        comps = x.axes if isinstance(x, Prod) else [x]
        parts.extend((c, i) for c in comps)
    comps = [p[0] for p in parts]
    groups, i = [], 0
    neg_pos = [j for j, s in enumerate(shape) if not is_term(s) and s == -1]
    if all(c.is_concrete() for c in comps) and all(not is_term(s) for s in shape):
        # fully concrete
        total = 1
        for c in comps:
            total *= c.n
        sh = list(shape)
        if neg_pos:
            k = 1
            for s in sh:
                if s != -1:
                    k *= s
            sh[neg_pos[0]] = total // k
        k = 1
        for s in sh:
            k *= s
        if k != total:
            ctx().oblige("reshape keeps the number of elements", False, "shape")
            raise Infeasible()
        src = flatten(a)
        dst = Prod([Range(s) for s in sh])
        ff = frz(src)
        return new([Range(s) for s in sh], lambda pts: src.axes[0].apply(dst.ordinal(pts), lambda p: ff((p,))), a.dt)

    def take(tok, i, last):
        """Consume components for token tok starting at i."""
        if not is_term(tok) and tok == -1:
            return None
        n, j, grp = 1, i, []
        while True:
            e = ctxeq(n, tok) if grp or (not is_term(tok) and tok == 1) else False
            if e is True:
                return grp, j
            if j >= len(comps):
                if grp and last:
                    ctx().oblige("reshape keeps the number of elements", ctxeq(n, tok), "shape")
                    return grp, j
                return None
            if grp and last is False and is_term(e) and ctx().feasible(z3.Not(e)) is False:
                return grp, j
            grp.append(comps[j])
            n = mul(n, comps[j].n)
            j += 1
    out, i = [], 0
    toks = list(shape)
    lead = toks[:neg_pos[0]] if neg_pos else toks
    tail = toks[neg_pos[0] + 1:] if neg_pos else []
    for t, tok in enumerate(lead):
        last = not neg_pos and t == len(lead) - 1
        if last:
            grp = comps[i:]
            n = 1
            for c in grp:
                n = mul(n, c.n)
            e = ctxeq(n, tok)
            if e is not True:
                ctx().oblige("reshape keeps the number of elements", e, "shape")
            out.append(grp)
            i = len(comps)
            continue
        r = take(tok, i, last)
        if r is None:
            raise Unsupported("reshape")
        out.append(r[0])
        i = r[1]
    if neg_pos:
        j = len(comps)
        tails = []
        for tok in reversed(tail):
            if j > i and ctxeq(comps[j - 1].n, tok) is True:
                j -= 1
                tails.append([comps[j]])
            else:
                raise Unsupported("reshape")
        out.append(comps[i:j])
        out.extend(reversed(tails))
    axes = [Range(1) if not g else g[0] if len(g) == 1 else Prod(g) for g in out]

    def fn(pts):
        flatpts = []
        for g, p in zip(out, pts):
            if not g:
                continue
            flatpts.extend([p] if len(g) == 1 else list(p))
        res, k = [], 0
        for x in a.axes:
            if isinstance(x, Prod):
                res.append(tuple(flatpts[k:k + len(x.axes)]))
                k += len(x.axes)
            else:
                res.append(flatpts[k])
                k += 1
        return f(tuple(res))
    return new(axes, fn, a.dt)


@np_fn("reshape")
def reshape(a, newshape=None, order="C", shape=None):
    a = arrlike(a)
    if order != "C":
        raise Unsupported("reshape order")
    s = newshape if newshape is not None else shape
    return regroup(a, shape_of(s))


@np_fn("ravel")
def ravel(a, order="C"):
    a = arrlike(a)
    if order == "F":
        return flatten(transpose(a))
    return flatten(a)


@np_fn("transpose")
def transpose_(a, axes=None):
    return transpose(arrlike(a), axes)


@np_fn("tile")
def tile(a, reps):
    a = arrlike(a)
    reps = [norm(r) for r in shape_of(reps)]
    f = frz(a)
    if a.ndim == 1 and len(reps) == 2 and not is_term(reps[1]) and reps[1] == 1:
        return new([Range(reps[0])] + a.axes, lambda pts: f((pts[1],)), a.dt)
    if a.ndim == 1 and len(reps) == 1:
        return new([Prod([Range(reps[0]), a.axes[0]])], lambda pts: f((pts[0][1],)), a.dt)
    raise Unsupported("tile")


@np_fn("repeat")
def repeat(a, repeats, axis=None):
    a = arrlike(a)
    if a.ndim == 1 and is_scalar(repeats):
        f = frz(a)
        return new([Prod([a.axes[0], Range(norm(repeats))])], lambda pts: f((pts[0][0],)), a.dt)
    raise Unsupported("repeat")


def arrays(xs, prep=lambda a: a):
    """The arrays of a list; a segment of symbolically many arrays of equal extents counts as one array."""
    parts = getattr(xs, "parts", None)
    if parts is None:
        if isinstance(xs, SArr) and not isinstance(xs.axes[0].n, int):
            raise Unsupported("joining the rows of an array")
        return [a if isinstance(a, Acc) else prep(arrlike(a)) for a in (A.iter0(xs) if isinstance(xs, SArr) else xs)]
    out = []
    for p in parts:
        if p[0] == "item":
            out.append(prep(arrlike(p[1])))
        else:
            out.append(blocks(p[1], p[2], prep))
    return out


def blocks(n, elem, prep=lambda a: a):
    """elem(0), ..., elem(n - 1) joined along the first axis."""
    c = ctx()
    k = z3.Int(c.fresh("blk"))
    c.bound.append((k, [k >= 0, k < T(n)]))
    try:
        x = prep(arrlike(elem(k)))
        f = frz(x)
        for i, a in enumerate(x.axes):
            if (is_term(a.n) and sym.mentions(a.n, k)) or not isinstance(a, Range):
                raise Unsupported("blocks of different extents")
    finally:
        c.bound.pop()
    return new([Prod([Range(n), x.axes[0]])] + x.axes[1:], lambda pts: sym.subst(f((pts[0][1],) + tuple(pts[1:])), [(k, T(pts[0][0]))]), x.dt)


def concat(arrs, axis):
    arrs = [arrlike(a) for a in arrs]
    if any(isinstance(a, Acc) for a in arrs):
        if not isinstance(arrs[0], Acc) or any(isinstance(a, Acc) for a in arrs[1:]) or axis % arrs[0].base.ndim != 0:
            raise Unsupported("loop-carried array")
        return Acc(arrs[0].base, arrs[0].blocks + arrs[1:], arrs[0].owner)
    nd = arrs[0].ndim
    axis = axis % nd
    if any(a.ndim != nd for a in arrs):
        ctx().oblige("dimensions agree", False, "shape")
        raise Infeasible()
    dt = arrs[0].dt
    for a in arrs[1:]:
        dt = promote(dt, a.dt)
    if len(arrs) == 1:
        return A.copy(arrs[0])
    # other axes agree
    base = arrs[0]
    fs = []
    for a in arrs:
        f = frz(a)
        conv = []
        for i in range(nd):
            if i == axis:
                conv.append(None)
                continue
            x, y = base.axes[i], a.axes[i]
            if x.same(y):
                conv.append(None)
            else:
                e = ctxeq(x.n, y.n)
                if e is not True:
                    ctx().oblige("shapes agree", e, "shape")
                conv.append((x, y))

        def g(pts, f=f, conv=conv):
            def go(i, out):
                if i == nd:
                    return cast(f(tuple(out)), dt.kind)
                if conv[i] is None:
                    return go(i + 1, out + [pts[i]])
                x, y = conv[i]
                return y.apply(x.ordinal(pts[i]), lambda q: go(i + 1, out + [q]))
            return go(0, [])
        fs.append(g)
    parts = [a.axes[axis] for a in arrs]
    if all(isinstance(p, Range) and p.is_concrete() for p in parts):
        offs = list(itertools.accumulate([0] + [p.n for p in parts]))
        ax = Range(offs[-1])

        def fn(pts):
            p = pts[axis]
            def part(t):
                return fs[t](tuple(pts[:axis]) + (sub(p, offs[t]),) + tuple(pts[axis + 1:]))
            if isinstance(p, int):
                t = max(i for i in range(len(parts)) if offs[i] <= p and parts[i].n > 0)
                return part(t)
            r = None
            for t in reversed(range(len(parts))):
                if parts[t].n == 0:
                    continue
                v = part(t)
                r = v if r is None else ite(lt(p, offs[t + 1]), v, r)
            return r
    else:
        live = [i for i, p in enumerate(parts) if not (p.is_concrete() and p.n == 0)]
        if len(live) == 1:
            k = live[0]
            return new([parts[k] if i == axis else base.axes[i] for i in range(nd)], fs[k], dt)
        parts, fs = [parts[i] for i in live], [fs[i] for i in live]
        ax = Concat(parts)

        def fn(pts):
            t, q = pts[axis]
            return fs[t](tuple(pts[:axis]) + (q,) + tuple(pts[axis + 1:]))
    axes = [ax if i == axis else base.axes[i] for i in range(nd)]
    return new(axes, fn, dt)


@np_fn("append")
def append(a, values, axis=None):
    a, values = arrlike(a), arrlike(values)
    if axis is None:
        if isinstance(a, Acc) and a.base.ndim == 1:
            return concat([a, flatten(values)], 0)
        return concat([flatten(a), flatten(values)], 0)
    return concat([a, values], axis)


@np_fn("concatenate")
def concatenate(arrs, axis=0, **kw):
    if getattr(arrs, "parts", None) is not None and axis != 0:
        raise Unsupported("joining symbolically many arrays along another axis")
    arrs = arrays(arrs)
    if axis is None:
        return concat([flatten(a) for a in arrs], 0)
    return concat(arrs, axis)


@np_fn("vstack")
def vstack(arrs):
    return concat(arrays(arrs, atleast_2d), 0)


@np_fn("hstack")
def hstack(arrs):
    arrs = arrays(arrs)
    if isinstance(arrs[0], Acc):
        return concat(arrs, 0 if arrs[0].base.ndim == 1 else 1)
    return concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@np_fn("column_stack")
def column_stack(arrs):
    arrs = [arrlike(a) for a in arrs]
    return concat([getitem(a, (slice(None), None)) if a.ndim == 1 else a for a in arrs], 1)


@np_fn("stack")
def stack_(arrs, axis=0):
    arrs = [arrlike(a) for a in arrs]
    r = A.stack(arrs)
    if axis == 0:
        return r
    nd = r.ndim
    axis = axis % nd
    order = list(range(1, nd))
    order.insert(axis, 0)
    return A.copy(transpose(r, order))


class CClass:
    def getitem(self, key):
        return column_stack(list(key) if isinstance(key, tuple) else [key])


@np_fn("pad")
def pad(a, pad_width, mode="constant", constant_values=0):
    a = arrlike(a)
    if mode != "constant":
        raise Unsupported("pad mode")
    for i, (b, e) in enumerate(pad_width):
        for side, w in ((0, norm(b)), (1, norm(e))):
            if not is_term(w) and w == 0:
                continue
            if is_term(w):
                ctx().oblige("pad width is not negative", w >= 0, "defined")
            shape = [x for x in a.axes]
            shape[i] = Range(w)
            blk = const_array(shape, constant_values, a.dt)
            a = concat([blk, a] if side == 0 else [a, blk], i)
    return a


@np_fn("copy")
def copy_(a):
    return A.copy(arrlike(a))


@np_fn("flip")
def flip(a, axis=None):
    a = arrlike(a)
    if a.ndim != 1:
        raise Unsupported("flip")
    return getitem(a, slice(None, None, -1))


# ------------------------------------------------------------------ element functions
def unary(name, f, dt=None):
    def g(x, **kw):
        x = val(x)
        if not isinstance(x, SArr):
            return f(x)
        d = dt or x.dt
        return elementwise(lambda v: cast(f(v), d.kind), x, dt=d)
    FNS[name] = g
    return g


def f_sqrt(x):
    x = to_kind(x, "real")
    return sqrt_(x)


def lte_inf(x):
    return And(cmp("<", x, INF), cmp("<", neg(INF), x))


unary("sqrt", f_sqrt, FLOAT)
unary("sin", lambda x: sincos(x)[0], FLOAT)
unary("cos", lambda x: sincos(x)[1], FLOAT)
unary("deg2rad", lambda x: mul(to_kind(x, "real"), T(PI) / 180), FLOAT)
unary("radians", lambda x: mul(to_kind(x, "real"), T(PI) / 180), FLOAT)
unary("floor", lambda x: to_kind(floor_(x), "real") if kind(x) == "real" else x)
unary("ceil", lambda x: to_kind(neg(floor_(neg(x))), "real") if kind(x) == "real" else x)
unary("rint", lambda x: to_kind(rint_(x), "real"), FLOAT)
unary("isfinite", lambda x: lte_inf(x) if kind(x) == "real" else True, BOOL)
unary("isinf", lambda x: Not(lte_inf(x)) if kind(x) == "real" else False, BOOL)
unary("isnan", lambda x: False, BOOL)
unary("logical_not", lambda x: Not(cast(x, "bool")), BOOL)
FNS["negative"] = lambda x: negate(val(x))
FNS["invert"] = lambda x: invert(val(x))


@np_fn("square")
def square(x):
    x = val(x)
    return arith("*", x, x)


@np_fn("abs", "absolute", "fabs")
def np_abs(x):
    x = val(x)
    if not isinstance(x, SArr):
        return abs_(x)
    r = elementwise(abs_, x, dt=x.dt)
    A.check_fits(r, "absolute value")
    return r


@np_fn("round", "around", "round_")
def np_round(x, decimals=0):
    x = val(x)
    if not isinstance(x, SArr):
        return round_(x, decimals)
    return elementwise(lambda v: round_(v, decimals), x, dt=x.dt)


def binary(name, f):
    FNS[name] = lambda a, b, **kw: f(val(a), val(b))


for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%"), ("power", "**")):
    binary(_n, lambda a, b, o=_o: arith(o, a, b))
for _n, _o in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">=")):
    binary(_n, lambda a, b, o=_o: compare(o, a, b))
for _n, _f in (("logical_and", And), ("logical_or", Or), ("logical_xor", lambda x, y: Not(Iff(x, y)))):
    binary(_n, lambda a, b, f=_f: elementwise(lambda x, y: f(cast(x, "bool"), cast(y, "bool")), a, b, dt=BOOL) if isinstance(a, SArr) or isinstance(b, SArr) else f(cast(a, "bool"), cast(b, "bool")))
binary("bitwise_and", lambda a, b: bitop("&", a, b))
binary("bitwise_or", lambda a, b: bitop("|", a, b))
binary("maximum", lambda a, b: elementwise(max2, a, b) if isinstance(a, SArr) or isinstance(b, SArr) else max2(a, b))
binary("minimum", lambda a, b: elementwise(min2, a, b) if isinstance(a, SArr) or isinstance(b, SArr) else min2(a, b))


@np_fn("divmod")
def np_divmod(a, b):
    a, b = val(a), val(b)
    return arith("//", a, b), arith("%", a, b)


@np_fn("isclose")
def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
    f = lambda x, y: le(abs_(sub(x, y)), add(atol, mul(rtol, abs_(y))))
    a, b = val(a), val(b)
    return elementwise(f, a, b, dt=BOOL) if isinstance(a, SArr) or isinstance(b, SArr) else f(a, b)


@np_fn("allclose")
def allclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
    r = isclose(a, b, rtol, atol)
    return np_all(r) if isinstance(r, SArr) else r


@np_fn("array_equal")
def array_equal(a, b):
    a, b = arrlike(a), arrlike(b)
    if a.ndim != b.ndim:
        return False
    c = True
    for x, y in zip(a.axes, b.axes):
        c = And(c, ctxeq(x.n, y.n))
    if c is False:
        return False
    return And(c, np_all(compare("==", a, b)))


@np_fn("where")
def where(cond, x=None, y=None):
    if x is None and y is None:
        return nonzero(cond)
    c, x, y = val(cond), val(x), val(y)
    ks = [v.dt if isinstance(v, SArr) else BYKIND[kind(v)] for v in (x, y)]
    dt = promote(*ks) if ks[0].kind == ks[1].kind and all(isinstance(v, SArr) for v in (x, y)) else BYKIND["real" if "real" in (ks[0].kind, ks[1].kind) else ks[0].kind if ks[0].kind == ks[1].kind else "int"]
    return elementwise(lambda c_, a, b: cast(ite(cast(c_, "bool"), a, b), dt.kind), c, x, y, dt=dt)


@np_fn("nonzero", "flatnonzero_")
def nonzero(m):
    m = arrlike(m)
    if m.ndim == 1:
        return (where1(elementwise(lambda v: cast(v, "bool"), m, dt=BOOL)),)
    f = frz(m)
    sel = Sel(Prod(m.axes), lambda p: cast(f(tuple(p)), "bool"), "where")
    out = []
    for i, x in enumerate(m.axes):
        out.append(new([sel], lambda pts, i=i, x=x: x.ordinal(pts[0][i]), INT64))
    return tuple(out)


FNS["flatnonzero"] = lambda m: nonzero(flatten(arrlike(m)))[0]
FNS["argwhere"] = lambda m: getitem(nonzero(m)[0], (slice(None), None)) if arrlike(m).ndim == 1 else (_ for _ in ()).throw(Unsupported("argwhere"))


# ------------------------------------------------------------------ reductions
SUMF = {}


def lam(ax, f, k):
    """Canonical z3 lambda of an element function over an axis (by ordinal)."""
    i = z3.Int("lam_i")
    return z3.Lambda([i], T(cast(ax.apply(i, f), k)))


def sum_axis(ax, f, k):
    """Sum over a symbolic axis as an uninterpreted functional."""
    if isinstance(ax, Concat):
        r = 0
        for t, p in enumerate(ax.parts):
            r = add(r, sum_axis(p, lambda q, t=t: f((t, q)), k))
        return r
    if ax.is_concrete() and isinstance(ax, Range):
        r = 0
        for i in range(ax.n):
            r = add(r, f(i))
        return r
    S = SORT[k]
    F = z3.Function("SUM_" + k, z3.ArraySort(IS, S), IS, S)
    with_q = lam(ax, f, k)
    body = z3.simplify(with_q)
    c = ctx()
    n = T(ax.n)
    t = F(body, n)
    if c.bound:
        return t
    # lemmas about finite sums (by induction on the extent): equal terms, positive terms, no terms
    at = lambda b, i: z3.simplify(z3.Select(b, i))
    reg = c.ghost.setdefault("sums", [])
    if any(t.eq(u) for u, _, _, _ in reg):
        return t
    rng_ = lambda v: And(v[0] >= 0, v[0] < n)
    c.fact(z3.Implies(n <= 0, t == 0), guarded=False)
    c.fact(z3.Implies(z3.And(n >= 1, forall([("i", IS)], rng_, lambda v: at(body, v[0]) > 0)), t > 0), guarded=False)
    c.fact(z3.Implies(forall([("i", IS)], rng_, lambda v: at(body, v[0]) >= 0), t >= 0), guarded=False)
    for u, b2, n2, k2 in reg:
        if k2 == k:
            c.fact(z3.Implies(z3.And(n == n2, forall([("i", IS)], rng_, lambda v: at(body, v[0]) == at(b2, v[0]))), t == u), guarded=False)
    reg.append((t, body, n, k))
    return t


SKEL = {}


def skeleton(i, b):
    """The body of a count as a function of its maximal subterms that do not mention the bound variable: equal
    bodies over different parameters give terms of the same function symbol, which the solvers can match."""
    has, params, memo = {}, [], {}

    def mentions(e):
        k = e.get_id()
        if k not in has:
            has[k] = e.eq(i) or (z3.is_quantifier(e) and mentions(e.body())) or any(mentions(x) for x in e.children())
        return has[k]

    def gen(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if e.eq(i):
            r = e
        elif not mentions(e):
            if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
                r = e
            else:
                r = z3.Const(f"par{len(params)}", e.sort())
                params.append(e)
        elif z3.is_quantifier(e):
            raise Unsupported("count over a quantified condition")
        else:
            r = e.decl()(*[gen(x) for x in e.children()])
        memo[k] = r
        return r
    try:
        sk = gen(b)
    except Unsupported:
        params.clear()
        sk = b
    key = sk.sexpr()
    if key not in SKEL:
        SKEL[key] = z3.Function(f"COUNT_{len(SKEL)}", *[p.sort() for p in params], IS, IS)
    return SKEL[key], params, sk


def count_lemmas(F, params, sk, i):
    """Two counts over equally long ranges agree if their conditions agree everywhere (witness of a difference)."""
    g = ctx().ghost.setdefault("counts", {})
    if F.name() in g:
        return
    for G, ps, sk2 in list(g.values()):
        a = [z3.Const(f"ca{k}", p.sort()) for k, p in enumerate(params)]
        b = [z3.Const(f"cb{k}", p.sort()) for k, p in enumerate(ps)]
        n = z3.Int("cn")
        w = z3.Function(f"DIFF_{F.name()}_{G.name()}", *[x.sort() for x in a + b], IS, IS)(*a, *b, n)
        sub1 = z3.substitute(sk, *[(z3.Const(f"par{k}", p.sort()), x) for k, (p, x) in enumerate(zip(params, a))], (i, w))
        sub2 = z3.substitute(sk2, *[(z3.Const(f"par{k}", p.sort()), x) for k, (p, x) in enumerate(zip(ps, b))], (i, w))
        t1, t2 = F(*a, n), G(*b, n)
        ctx().fact(z3.ForAll(a + b + [n], z3.Or(t1 == t2, z3.And(w >= 0, w < n, sub1 != sub2)), patterns=[z3.MultiPattern(t1, t2)]), guarded=False)
    a = [z3.Const(f"ca{k}", p.sort()) for k, p in enumerate(params)]
    n = z3.Int("cn")
    ctx().fact(z3.ForAll(a + [n], z3.And(F(*a, n) >= 0, z3.Or(F(*a, n) <= n, n < 0)), patterns=[F(*a, n)]), guarded=False)
    g[F.name()] = (F, list(params), sk)


def count_axis(ax, f):
    """Number of true entries."""
    if isinstance(ax, Concat):
        r = 0
        for t, p in enumerate(ax.parts):
            r = add(r, count_axis(p, lambda q, t=t: f((t, q))))
        return r
    if ax.is_concrete() and isinstance(ax, Range) and ax.n <= 16:
        r = 0
        for i in range(ax.n):
            r = add(r, to_kind(f(i), "int"))
        return r
    i = z3.Int("lam_i")
    b = z3.simplify(T(cast(ax.apply(i, f), "bool")))
    if z3.is_true(b):
        return ax.n
    if z3.is_false(b):
        return 0
    F, params, skel = skeleton(i, b)
    t = F(*params, T(ax.n))
    count_lemmas(F, params, skel, i)
    return t


def reduce_(a, axis, op, name, keepdims=False):
    a = arrlike(a)
    f = frz(a)
    if axis is None:
        if a.ndim > 1:
            fl = flatten(a)
            return reduce_(fl, 0, op, name)
        axis = 0
    if isinstance(axis, tuple):
        raise Unsupported("reduction over several axes")
    axis = axis % a.ndim
    ax = a.axes[axis]
    rest = [x for i, x in enumerate(a.axes) if i != axis]

    def fn(pts):
        g = lambda p: f(tuple(pts[:axis]) + (p,) + tuple(pts[axis:]))
        return op(ax, g, tuple(pts))
    if not rest:
        return fn(())
    return fn, rest


def conc(ax):
    return ax.is_concrete() and isinstance(ax, Range) and ax.n <= 64


def all_points(ax):
    """Concrete points or None."""
    if conc(ax):
        return list(range(ax.n))
    if isinstance(ax, Prod):
        sub_ = [all_points(x) for x in ax.axes]
        if all(s is not None for s in sub_):
            return list(itertools.product(*sub_))
    if isinstance(ax, Concat):
        sub_ = [all_points(x) for x in ax.parts]
        if all(s is not None for s in sub_):
            return [(t, p) for t, s in enumerate(sub_) for p in s]
    if isinstance(ax, (Rev,)):
        s = all_points(ax.parent)
        return s[::-1] if s is not None else None
    return None


def quant_over(ax, f, universal):
    pts = all_points(ax)
    if pts is not None and len(pts) <= 64:
        vs = [cast(f(p), "bool") for p in pts]
        return And(*vs) if universal else Or(*vs)
    out = []
    for names, mk in ax.cases():
        q = (forall if universal else exists)(names, lambda vs: ax.valid(mk(vs)), lambda vs: T(cast(f(mk(vs)), "bool")))
        out.append(q)
    return And(*out) if universal else Or(*out)


def mk(r, dt):
    if isinstance(r, tuple) and len(r) == 2 and callable(r[0]):
        return new(r[1], r[0], dt)
    return r


@np_fn("all")
def np_all(a, axis=None, **kw):
    if is_scalar(a):
        return cast(a, "bool")
    return mk(reduce_(a, axis, lambda ax, g, pts: quant_over(ax, g, True), "all"), BOOL)


@np_fn("any")
def np_any(a, axis=None, **kw):
    if is_scalar(a):
        return cast(a, "bool")
    return mk(reduce_(a, axis, lambda ax, g, pts: quant_over(ax, g, False), "any"), BOOL)


@np_fn("sum")
def np_sum(a, axis=None, dtype=None, **kw):
    if is_scalar(a):
        return a
    a = arrlike(a)
    k = "int" if a.kind == "bool" else a.kind

    def op(ax, g, pts):
        ps = all_points(ax)
        if ps is not None:
            r = 0
            for p in ps:
                r = add(r, cast(g(p), k))
            return cast(r, k)
        if a.kind == "bool":
            return count_axis(ax, g)
        return sum_axis(ax, g, k)
    return mk(reduce_(a, axis, op, "sum"), BYKIND[k])


@np_fn("mean")
def np_mean(a, axis=None):
    a = arrlike(a)
    n = a.axes[axis if axis is not None else 0].n
    return arith("/", np_sum(a, axis), n)


@np_fn("prod")
def np_prod(a, axis=None, dtype=None):
    if is_scalar(a):
        return a
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = mul(r, x)
        return r

    def op(ax, g, pts):
        ps = all_points(ax)
        if ps is None:
            raise Unsupported("product over a symbolic axis")
        r = 1
        for p in ps:
            r = mul(r, g(p))
        return r
    a = arrlike(a)
    return mk(reduce_(a, axis, op, "prod"), a.dt if a.kind != "int" else INT64)


@np_fn("count_nonzero")
def count_nonzero(a, axis=None):
    a = arrlike(a)

    def op(ax, g, pts):
        ps = all_points(ax)
        if ps is not None:
            r = 0
            for p in ps:
                r = add(r, to_kind(cast(g(p), "bool"), "int"))
            return r
        return count_axis(ax, lambda p: cast(g(p), "bool"))
    return mk(reduce_(a, axis, op, "count"), INT64)


def extremum(name, leop):
    def f(a, axis=None, **kw):
        if is_scalar(a):
            return a
        a = arrlike(a)
        k = a.kind

        cache = {}

        def op(ax, g, pts):
            ps = all_points(ax)
            if ps is not None:
                if not ps:
                    ctx().oblige(name + " of a non-empty array", False, "defined")
                    raise Infeasible()
                r = g(ps[0])
                for p in ps[1:]:
                    v = g(p)
                    r = ite(leop(r, v), r, v)
                return r
            key = str(pts)
            if key in cache:
                return cache[key]
            c = ctx()
            c.oblige(name + " of a non-empty array", T(ax.n) > 0, "defined")
            m = c.const(name, SORT[k])
            cache[key] = m
            c.ghost.setdefault("extremes", []).append((name, m))
            for names, mk_ in ax.cases():
                c.fact(forall(names, lambda vs: ax.valid(mk_(vs)), lambda vs: leop(m, g(mk_(vs)))), guarded=False)
            w = [(mk_([c.const("w_" + name, s) for _, s in names])) for names, mk_ in ax.cases()]
            c.fact(Or(*[And(ax.valid(p), eq(g(p), m)) for p in w]))
            return m
        return mk(reduce_(a, axis, op, name), a.dt)
    return f


np_min = FNS["min"] = FNS["amin"] = extremum("min", lambda x, y: le(x, y))
np_max = FNS["max"] = FNS["amax"] = extremum("max", lambda x, y: le(y, x))
FNS["ptp"] = lambda a, axis=None: arith("-", np_max(a, axis), np_min(a, axis))


@np_fn("cumsum")
def cumsum(a, axis=None):
    a = arrlike(a)
    if a.ndim != 1 or not conc(a.axes[0]):
        raise Unsupported("cumsum")
    return from_nested(list(itertools.accumulate([a.fn((i,)) for i in range(a.axes[0].n)], add)))


@np_fn("cumprod")
def cumprod(a, axis=None):
    a = arrlike(a)
    if a.ndim != 1 or not conc(a.axes[0]):
        raise Unsupported("cumprod")
    return from_nested(list(itertools.accumulate([a.fn((i,)) for i in range(a.axes[0].n)], mul)))


# ------------------------------------------------------------------ linear algebra
def contract(ax1, ax2, f, g, k):
    e = ctxeq(ax1.n, ax2.n)
    if e is False:
        ctx().oblige("shapes agree in a product", False, "shape")
        raise Infeasible()
    if e is not True:
        ctx().oblige("shapes agree in a product", e, "shape")
    if not conc(ax1) and not conc(ax2):
        raise Unsupported("contraction over a symbolic axis")
    n = ax1.n if conc(ax1) else ax2.n
    r = 0
    for i in range(n):
        r = add(r, mul(ax1.apply(i, f), ax2.apply(i, g)))
    return cast(r, k)


@np_fn("inner")
def inner(a, b):
    a, b = val(a), val(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return arith("*", a, b)
    dt = promote(a.dt, b.dt)
    f, g = frz(a), frz(b)
    na, nb = a.ndim - 1, b.ndim - 1
    fn = lambda pts: contract(a.axes[-1], b.axes[-1], lambda p: f(tuple(pts[:na]) + (p,)), lambda p: g(tuple(pts[na:]) + (p,)), dt.kind)
    axes = a.axes[:-1] + b.axes[:-1]
    contract(a.axes[-1], b.axes[-1], lambda p: 0, lambda p: 0, "int")
    return new(axes, fn, dt) if axes else fn(())


@np_fn("dot", "matmul")
def dot(a, b):
    a, b = val(a), val(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return arith("*", a, b)
    dt = promote(a.dt, b.dt)
    f, g = frz(a), frz(b)
    na = a.ndim - 1
    if b.ndim == 1:
        return inner(a, b)
    axes = a.axes[:-1] + b.axes[:-2] + [b.axes[-1]]
    contract(a.axes[-1], b.axes[-2], lambda p: 0, lambda p: 0, "int")

    def fn(pts):
        pa, pb = tuple(pts[:na]), tuple(pts[na:])
        return contract(a.axes[-1], b.axes[-2], lambda p: f(pa + (p,)), lambda p: g(pb[:-1] + (p,) + pb[-1:]), dt.kind)
    return new(axes, fn, dt)


def matmul(a, b):
    a, b = arrlike(a), arrlike(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of stacks")
    return dot(a, b)


@np_fn("cross")
def cross(a, b):
    a, b = arrlike(a), arrlike(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("cross of stacks")
    x = [a.fn((i,)) for i in range(a.axes[0].n)]
    y = [b.fn((i,)) for i in range(b.axes[0].n)]
    if len(x) == 2:
        return sub(mul(x[0], y[1]), mul(x[1], y[0]))
    return from_nested([sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))])


@np_fn("outer")
def outer(a, b):
    return arith("*", getitem(arrlike(a), (slice(None), None)), arrlike(b))


def entries(a):
    return [[a.fn((i, j)) for j in range(a.axes[1].n)] for i in range(a.axes[0].n)]


def det_(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = mul(m[0][j], det_(minor))
        r = add(r, t) if j % 2 == 0 else sub(r, t)
    return r


class Linalg:
    @staticmethod
    def inv(a):
        a = arrlike(a)
        n = a.axes[0].n
        m = entries(a)
        c = ctx()
        key = ("inv", tuple(str(x) for r in m for x in r))
        cache = c.ghost.setdefault("inv", {})
        tkey = ("inv", tuple(str(m[j][i]) for i in range(n) for j in range(n)))
        if key not in cache and tkey in cache:       # inverse of the transpose
            w = cache[tkey]
            cache[key] = [[w[j][i] for j in range(n)] for i in range(n)]
        if key not in cache:
            c.oblige("matrix is regular", T(det_(m)) != 0, "defined")
            w = [[c.real(f"inv{i}{j}") for j in range(n)] for i in range(n)]
            for i in range(n):
                for j in range(n):
                    for p, q in ((m, w), (w, m)):
                        s = 0
                        for k in range(n):
                            s = add(s, mul(p[i][k], q[k][j]))
                        c.fact(eq(s, Fraction(int(i == j))))
            cache[key] = w
            c.ghost.setdefault("invs", []).append((m, w))
            c.assumed.add("np.linalg.inv returns the exact two-sided inverse")
        return from_nested(cache[key], FLOAT)

    @staticmethod
    def norm(a, axis=None):
        a = arrlike(a)
        if axis is None and a.ndim > 1:
            raise Unsupported("matrix norm")
        return FNS["sqrt"](np_sum(square(astype(a, FLOAT)), axis))

    @staticmethod
    def det(a):
        return det_(entries(arrlike(a)))


# ------------------------------------------------------------------ sets and sorting
def ident(a):
    """Uniq axis if the array enumerates a set of values in ascending order."""
    if not isinstance(a, SArr) or a.ndim != 1:
        return None
    u = getattr(a, "uniq", None)
    if u is not None:
        return u
    ax = a.axes[0]
    if a.ixof is not None and isinstance(a.ixof, Range) and isinstance(ax, Sel) and sel_chain(ax, a.ixof):
        u = a.uniq = Uniq("int", "idx", sel=flat_sel(ax))
        return u
    return None


def sel_chain(ax, base):
    while isinstance(ax, Sel):
        ax = ax.parent
    return ax.same(base)


def flat_sel(ax):
    if isinstance(ax.parent, Range):
        return ax
    s = Sel(ax.root(), lambda p: ax.valid(p), "flat")
    ctx().fact(T(s._n) == T(ax.n))
    return s


def same_values(a):
    """The distinct values of an array with the same entries, if they were asked for before."""
    c = ctx()
    for ax, f, k, u in c.ghost.get("uniqreg", []):
        if k != a.kind or not a.axes[0].same(ax):
            continue
        c.quiet += 1
        try:
            ok = True
            for names, mk_ in ax.cases():
                vs = [z3.Const(f"sp{i}", s) for i, (n, s) in enumerate(names)]
                if not z3.simplify(T(f((mk_(vs),)))).eq(z3.simplify(T(a.fn((mk_(vs),))))):
                    ok = False
            if ok:
                return u
        finally:
            c.quiet -= 1
    return None


def unique_rows(a):
    """Distinct rows of a matrix, in lexicographic order."""
    c, f = ctx(), frz(a)
    ax, cols = a.axes
    pts = all_points(cols)
    if pts is None:
        raise Unsupported("unique rows of unknown width")
    n = c.fn("n_urows", [], IS)()
    src = c.fn("src_urows", [IS], IS)
    at = c.fn("at_urows", [IS], IS)
    row = lambda i: [ax.apply(i, lambda p, q=q: f((p, q))) for q in pts]
    c.fact(z3.And(n >= 0, n <= T(ax.n), z3.Implies(T(ax.n) > 0, n > 0)))
    c.fact(forall([("k", IS)], lambda v: And(v[0] >= 0, v[0] < n), lambda v: And(src(v[0]) >= 0, src(v[0]) < T(ax.n)), lambda v: [src(v[0])]), guarded=False)
    same = lambda i: And(*[eq(x, y) for x, y in zip(row(i), row(src(at(i))))])
    c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(ax.n)), lambda v: And(at(v[0]) >= 0, at(v[0]) < n, same(v[0])),
                  lambda v: [at(v[0])] + [x for x in row(v[0]) if is_term(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]), guarded=False)
    less = lambda x, y: Or(*[And(*[eq(x[i], y[i]) for i in range(j)], lt(x[j], y[j])) for j in range(len(x))])
    c.fact(forall([("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] < v[1], v[1] < n), lambda v: less(row(src(v[0])), row(src(v[1]))),
                  lambda v: [(src(v[0]), src(v[1]))]), guarded=False)
    return new([Range(n), cols], lambda p: ax.apply(src(T(p[0])), lambda x: f((x, p[1]))), a.dt)


@np_fn("unique")
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = arrlike(a)
    if axis is not None and a.ndim == 2 and axis in (0, -2) and not (return_index or return_inverse or return_counts):
        return unique_rows(a)
    if axis is not None and a.ndim == 1 and axis in (0, -1):
        axis = None
    if return_counts or axis is not None:
        raise Unsupported("np.unique with options")
    source = (list(a.axes), frz(a))
    if a.ndim > 1:
        a = flatten(a)
    if return_index or return_inverse:
        r = unique(a)
        u, f, ax = r.uniq, frz(a), a.axes[0]
        out = [r]
        if return_index:
            c = ctx()
            first = c.fn("first_uq", [SORT[u.kind]], IS)
            c.fact(forall([("v", SORT[u.kind])], lambda v: u.mem(v[0]), lambda v: And(first(v[0]) >= 0, first(v[0]) < T(ax.n), T(ax.apply(first(v[0]), lambda p: f((p,)))) == v[0]),
                          lambda v: [first(v[0])]), guarded=False)
            c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(ax.n)), lambda v: first(T(ax.apply(v[0], lambda p: f((p,))))) <= v[0]), guarded=False)
            out.append(new([u], lambda pts: first(T(pts[0])), INT64))
        if return_inverse:
            out.append(new([ax], lambda pts: u.ordinal(f(pts)), INT64))
        return tuple(out)
    u = ident(a) or same_values(a)
    if u is None:
        c = ctx()
        f = frz(a)
        ax = a.axes[0]
        u = Uniq(a.kind, "uq")
        S = SORT[a.kind]
        pts = all_points(ax)
        if pts is not None and len(pts) <= 16:
            c.fact(forall([("v", S)], lambda v: True, lambda v: u.mem(v[0]) == T(Or(*[eq(f((p,)), v[0]) for p in pts])), lambda v: [u.mem(v[0])]), guarded=False)
            for p in pts:
                c.fact(u.mem(T(f((p,)))))
        else:
            for names, mk_ in ax.cases():
                c.fact(forall(names, lambda vs: ax.valid(mk_(vs)), lambda vs: u.mem(T(f((mk_(vs),)))), getattr(a, "pats", None)), guarded=False)
            sax, sf = source
            if len(sax) == 2 and isinstance(sax[1], Concat):
                # the same with the column given by its number (for matching)
                col = sax[1]
                for names, mk_ in sax[0].cases():
                    def body(vs, mk_=mk_):
                        e = z3.simplify(T(col.apply(vs[-1], lambda q: sf((mk_(vs[:-1]), q)))))
                        return u.mem(e)
                    c.fact(forall(list(names) + [("j", IS)], lambda vs: And(sax[0].valid(mk_(vs[:-1])), vs[-1] >= 0, vs[-1] < T(col.n)), body), guarded=False)
            wit = []
            for names, mk_ in ax.cases():
                fs = [c.fn("w_uq", [S], s) for _, s in names]
                wit.append(lambda v, mk_=mk_, fs=fs: mk_([g(v) for g in fs]))
            c.fact(forall([("v", S)], lambda v: u.mem(v[0]),
                          lambda v: Or(*[And(ax.valid(w(v[0])), eq(f((w(v[0]),)), v[0])) for w in wit]), lambda v: [u.mem(v[0])]), guarded=False)
            c.fact(T(u.n) <= T(ax.n))
            c.fact(z3.Implies(T(ax.n) > 0, T(u.n) > 0))
        u.src = (ax, f)
        u.source = source
        if not c.bound:
            c.ghost.setdefault("uniqreg", []).append((ax, f, a.kind, u))
    r = new([u], lambda pts: pts[0], a.dt)
    r.uniq = u
    return r


@np_fn("union1d")
def union1d(a, b):
    a, b = arrlike(a), arrlike(b)
    a, b = flatten(a), flatten(b)
    r = unique(concat([a, b], 0))
    c, u = ctx(), getattr(r, "uniq", None)
    for x in (a, b):
        if u is None or c.bound or isinstance(x.axes[0].n, int):
            continue
        # ascending values are as many different ones; if there are no others, they are the union itself
        f, ax = frz(x), x.axes[0]
        at = lambda k: ax.apply(k, lambda p: f((p,)))
        up = forall([("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] < v[1], v[1] < T(ax.n)), lambda v: lt(at(v[0]), at(v[1])))
        same = forall([("k", IS)], lambda v: And(v[0] >= 0, v[0] < T(ax.n)), lambda v: eq(u._u(v[0]), at(v[0])), lambda v: [u._u(v[0])])
        c.fact(z3.Implies(up, z3.And(T(u.n) >= T(ax.n), z3.Implies(T(u.n) <= T(ax.n), same))))
    return r


@np_fn("sort")
def np_sort(a, axis=-1):
    a = arrlike(a)
    u = ident(a)
    if u is not None:
        r = new([u], lambda pts: pts[0], a.dt)
        r.uniq = u
        return r
    if a.ndim == 1 and conc(a.axes[0]):
        n = a.axes[0].n
        xs = [a.fn((i,)) for i in range(n)]
        for i in range(n):           # sorting network
            for j in range(n - 1 - i):
                x, y = xs[j], xs[j + 1]
                xs[j], xs[j + 1] = min2(x, y), max2(x, y)
        return from_nested(xs, a.dt)
    if a.ndim == 2 and conc(a.axes[0]) and axis == 0:
        n = a.axes[0].n
        rows = [getitem(a, i) for i in range(n)]
        for i in range(n):
            for j in range(n - 1 - i):
                x, y = rows[j], rows[j + 1]
                rows[j], rows[j + 1] = FNS["minimum"](x, y), FNS["maximum"](x, y)
        return A.stack(rows)
    if a.ndim != 1:
        raise Unsupported("sort along an axis")
    f = frz(a)
    ax = Perm(a.axes[0], "sort", lambda p, q: le(f((p,)), f((q,))))
    return new([ax], lambda pts: f(pts), a.dt)


def argext(name, ltop):
    def f(a, axis=None, **kw):
        """The first index of the smallest (largest) entry of a 1-d array."""
        a = arrlike(a)
        if kw or a.ndim != 1:
            raise Unsupported(name + " over several axes")
        c, ax, g = ctx(), a.axes[0], frz(a)
        c.oblige(name + " of a non-empty array", T(ax.n) > 0, "defined")
        m = c.const(name, IS)
        at = lambda i: ax.apply(i, lambda p: g((p,)))
        c.fact(z3.And(m >= 0, m < T(ax.n)), guarded=False)
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(ax.n)),
                      lambda v: And(Not(ltop(at(v[0]), at(m))), Implies(v[0] < m, ltop(at(m), at(v[0]))))), guarded=False)
        return m
    return f


FNS["argmin"] = argext("argmin", lambda x, y: lt(x, y))
FNS["argmax"] = argext("argmax", lambda x, y: lt(y, x))


@np_fn("argsort")
def argsort(a, axis=-1, kind=None, **kw):
    a = arrlike(a)
    f = frz(a)
    if a.ndim == 1:
        par = a.axes[0]
        ax = Perm(par, "argsort", lambda p, q: le(f((p,)), f((q,))))
        r = new([ax], lambda pts: par.ordinal(pts[0]), INT64)
        r.ixof = par
        return r
    if a.ndim == 2 and axis in (-1, 1):
        return rowperm(a.axes[0], a.axes[1], f)
    raise Unsupported("argsort along this axis")


def rowperm(ax0, ax1, f, name="rowsort"):
    """Per-row permutation: array (rows, k) of positions."""
    c = ctx()
    pi, inv = c.fn("pi_" + name, [IS, IS], IS), c.fn("ipi_" + name, [IS, IS], IS)
    n, m = T(ax0.n), T(ax1.n)
    row = lambda v: And(v[0] >= 0, v[0] < n, v[1] >= 0, v[1] < m)
    c.fact(forall([("i", IS), ("k", IS)], row, lambda v: And(pi(*v) >= 0, pi(*v) < m, inv(v[0], pi(*v)) == v[1]), lambda v: [pi(*v)]), guarded=False)
    c.fact(forall([("i", IS), ("k", IS)], row, lambda v: And(inv(*v) >= 0, inv(*v) < m, pi(v[0], inv(*v)) == v[1]), lambda v: [inv(*v)]), guarded=False)
    if f is not None:
        g = lambda i, k: ax0.apply(i, lambda p: ax1.apply(k, lambda q: f((p, q))))
        c.fact(forall([("i", IS), ("k", IS), ("l", IS)], lambda v: And(v[0] >= 0, v[0] < n, v[1] >= 0, v[1] <= v[2], v[2] < m),
                      lambda v: le(g(v[0], pi(v[0], v[1])), g(v[0], pi(v[0], v[2]))), lambda v: [(pi(v[0], v[1]), pi(v[0], v[2]))]), guarded=False)
    r = new([ax0, Range(ax1.n)], lambda pts: pi(T(ax0.ordinal(pts[0])), T(pts[1])), INT64)
    r.nonneg = True
    c.ghost["rowperm"].append((pi, inv, ax0, ax1))
    return r


@np_fn("take_along_axis")
def take_along_axis(a, ind, axis):
    a = arrlike(a)
    if a.ndim == 2 and axis in (1, -1):
        return getitem(a, (getitem(arange(a.axes[0].n), (slice(None), None)), ind))
    raise Unsupported("take_along_axis")


@np_fn("take")
def take(a, ind, axis=None):
    a = arrlike(a)
    if axis in (None, 0) and (a.ndim == 1 or axis == 0):
        return getitem(a, ind)
    if axis == 1:
        return getitem(a, (slice(None), ind))
    raise Unsupported("take")


@np_fn("lexsort")
def lexsort(keys):
    keys = arrlike(keys)
    if keys.ndim == 1:
        return argsort(keys)
    k = keys.axes[0].n
    if not isinstance(k, int):
        raise Unsupported("lexsort")
    f = frz(keys)
    par = keys.axes[1]

    def le_fn(p, q):
        r = True
        for i in range(k):       # last key is the primary one
            a, b = f((i, p)), f((i, q))
            r = Or(lt(a, b), And(eq(a, b), r))
        return r
    ax = Perm(par, "lexsort", le_fn)
    r = new([ax], lambda pts: par.ordinal(pts[0]), INT64)
    r.ixof = par
    return r


@np_fn("searchsorted")
def searchsorted(a, v, side="left"):
    a = arrlike(a)
    if side != "left":
        raise Unsupported("searchsorted right")
    u = ident(a)
    if u is not None:
        b = u.below
    else:
        c = ctx()
        f = frz(a)
        ax = a.axes[0]
        S = SORT[a.kind]
        n = T(ax.n)
        get = lambda k: T(ax.apply(k, lambda p: f((p,))))
        i, j = c.int("ss_i"), c.int("ss_j")
        c.oblige("searched array is sorted", z3.Implies(z3.And(i >= 0, i < j, j < n), get(i) <= get(j)), "defined")
        F = c.fn("below_arr", [S], IS)
        c.fact(forall([("x", S)], lambda q: True, lambda q: And(F(q[0]) >= 0, F(q[0]) <= n,
                      z3.Implies(F(q[0]) < n, get(F(q[0])) >= q[0]), z3.Implies(F(q[0]) > 0, get(F(q[0]) - 1) < q[0])), lambda q: [F(q[0])]), guarded=False)
        b = lambda x: F(to_kind(x, a.kind))
    v = val(v)
    if isinstance(v, SArr):
        r = elementwise(lambda x: b(T(x)), v, dt=INT64)
        r.nonneg = True
        return r
    return b(T(v))


@np_fn("isin", "in1d")
def isin(a, b, invert=False, **kw):
    a = val(a)
    mem = member(b)
    f = (lambda x: Not(mem(x))) if invert else mem
    if not isinstance(a, SArr):
        return f(a)
    return elementwise(f, a, dt=BOOL)


def member(b):
    if isinstance(b, (list, tuple)) and all(is_scalar(x) for x in b):
        return lambda x: Or(*[eq(x, y) for y in b])
    if is_scalar(b):
        return lambda x: eq(x, b)
    if hasattr(b, "member"):
        return b.member
    b = arrlike(b)
    u = ident(b)
    if u is not None:
        def mem(x):
            if kind(x) != u.kind:
                if u.kind == "int":
                    raise Unsupported("membership of mixed kinds")
                x = to_kind(x, u.kind)
            return u.mem(T(x))
        return mem
    b1 = flatten(b)
    f = frz(b1)
    return lambda x: quant_over(b1.axes[0], lambda p: eq(f((p,)), x), False)


def complement_sel(par, u):
    """The axis of the points of a plain range that are not values of u."""
    c = ctx()
    # the same deletion on the same axis gives the same axis
    reg = c.ghost.setdefault("delreg", [])
    sel = None
    for u2, p2, s2 in reg:
        if u2 is u and p2.same(par):
            sel = s2
    if sel is None:
        sel = Sel(par, lambda p: Not(u.mem(T(p))), "keep")
        # contract of np.delete: the remaining rows keep their order, i.e. row p moves to p - #(deleted < p)
        sel.ordinal_of = lambda p: sub(p, u.below(p))
        rank = sel._rank
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(par.n), Not(u.mem(v[0]))), lambda v: rank(v[0]) == v[0] - u.below(v[0]),
                      lambda v: [rank(v[0])]), guarded=False)
        c.fact(T(sel._n) == T(par.n) - T(u.n))
        # sel(k) is the point whose ordinal is k: instantiate on demand
        c.fact(forall([("i", IS)], lambda v: And(v[0] >= 0, v[0] < T(par.n), Not(u.mem(v[0]))),
                      lambda v: And(v[0] - u.below(v[0]) >= 0, v[0] - u.below(v[0]) < sel._n, sel._sel(v[0] - u.below(v[0])) == v[0]),
                      lambda v: [u.below(v[0])]), guarded=False)
        reg.append((u, par, sel))
    return sel


@np_fn("delete")
def delete(a, obj, axis=None):
    a = arrlike(a)
    if axis is None:
        if a.ndim == 2 and not is_term(a.axes[1].n) and a.axes[1].n == 1:
            f1 = frz(a)
            a = new([a.axes[0]], lambda q: f1((q[0], 0)), a.dt)
        if a.ndim != 1:
            raise Unsupported("delete on a flattened array")
        axis = 0
    axis = axis % a.ndim
    par = a.axes[axis]
    c = ctx()
    if is_scalar(obj):
        obj = from_nested([obj])
    obj = arrlike(obj)
    if not isinstance(par, Range):
        raise Unsupported("delete on a derived axis")
    u = ident(obj)
    if u is None:
        u = unique(obj).uniq
    if not c.quiet:
        for pts, g in points(obj.axes):
            v = obj.fn(pts)
            c.oblige("deleted index within bounds", Implies(g, And(le(0, v), lt(v, par.n))), "bounds")
    sel = complement_sel(par, u)
    f = frz(a)
    axes = list(a.axes)
    axes[axis] = sel
    return new(axes, f, a.dt)


# ------------------------------------------------------------------ dtypes
@np_fn("min_scalar_type")
def min_scalar_type(x):
    x = norm(x)
    if is_scalar(x) and kind(x) == "real":
        return FLOAT
    if not is_term(x):
        cand = (UINT8, UINT16, UINT32, UINT64) if x >= 0 else (INT8, INT16, INT32, INT64)
        for d in cand:
            if d.lo is None or (d.lo <= x and (d.hi is None or x <= d.hi)):
                return d
    c = ctx()
    if c.decide(x >= 0):
        h = c.int("dtmax")
        c.fact(z3.And(h >= x, h >= 255))
        return SDt(f"min({x})", "int", 0, h)
    h = c.int("dtmax")
    c.fact(z3.And(-h - 1 <= x, h >= 127))
    return SDt(f"min({x})", "int", -h - 1, h)


@np_fn("promote_types", "result_type")
def promote_types(a, b):
    return promote(as_dtype(a), as_dtype(b))


@np_fn("dtype")
def dtype(d):
    return as_dtype(d)


@np_fn("ndim")
def ndim(a):
    return 0 if is_scalar(a) else arrlike(a).ndim


@np_fn("shape")
def shape(a):
    return () if is_scalar(a) else arrlike(a).shape


@np_fn("size")
def size(a):
    n = 1
    for s in arrlike(a).shape:
        n = mul(n, s)
    return n


@np_fn("isscalar")
def isscalar(a):
    return is_scalar(a)


@np_fn("meshgrid")
def meshgrid(*arrs, indexing="xy"):
    raise Unsupported("meshgrid")
