from .lib import *
from fractions import Fraction


def bounds(v, lims, d, name, lo, hi):
    if same_shape(v, lims, (d, 2), name):
        for i in range(d):
            v.post(f"{name}: lower {i}", eq(lims(i, 0), lo[i]))
            v.post(f"{name}: upper {i}", eq(lims(i, 1), hi[i]))


def fields_kept(v, o, keep):
    for k, (x, f) in keep.items():
        y = o.f.get(k)
        if y is x and (not isinstance(x, SArr) or x.store.fn is f):
            v.post(f"shape field {k} unchanged", True)
        elif isinstance(x, SArr) and isinstance(y, SArr):
            old = SArr(x.axes, f, x.dt)
            if same_shape(v, y, x.shape, f"shape field {k} unchanged"):
                v.forall(f"shape field {k} unchanged", x, lambda *i: eq(y(*i), old(*i)))
        else:
            v.post(f"shape field {k} unchanged", False if y is not x else True)


def snap(o):
    return {k: (x, x.store.fn if isinstance(x, SArr) else None) for k, x in o.f.items()}


def flags(v, r, N, want, name):
    same_shape(v, r, (N,), name)
    v.post(f"{name}: flags", r.kind == "bool")
    v.forall(f"{name}: accepted exactly inside", (N,), lambda k: Iff(T(r(k)), T(want(k))))


@contract("C04", "box", ["shape.Shape.__init__", "shape.Shape.contains", "shape.AbstractShape.__init__"], dims(1, 2, 3, pos=[False, True], basis=[False, True]))
def _(v, d, pos, basis):
    size = v.arr("size", (d,))
    v.all(size, lambda x: x >= 0)
    p = v.arr("pos", (d,)) if pos else None
    P = [p(i) if pos else 0 for i in range(d)]
    kw = {}
    if basis:
        b = v.arr("b", (d, d))
        m = mat(b)
        v.pre(T(det(m)) != 0)
        kw["basis"] = b
    S = v.call("shape.Shape", size, p, **kw)
    N = v.size("N")
    x = v.arr("x", (N, d))
    tol = v.real("tol")
    fr = Frame(v, x=x, size=size, **({"pos": p} if pos else {}))
    keep = snap(S)
    if basis:
        # coordinates with respect to the basis, through the exact inverse of the basis
        w = mat(npm.Linalg.inv(npm.FNS["transpose"](b)))
        for i in range(d):
            for j in range(d):
                v.post(f"inverse {i}{j}", eq(dot([m[k][i] for k in range(d)], [w[k][j] for k in range(d)]), Fraction(int(i == j))))
        co = lambda k: [dot([x(k, j) for j in range(d)], w[i]) for i in range(d)]
    else:
        co = lambda k: [x(k, i) for i in range(d)]

    def want(t):
        return lambda k: And(*[And(le(sub(P[i], t), co(k)[i]), le(co(k)[i], add(add(P[i], size(i)), t))) for i in range(d)])
    flags(v, v.meth(S, "contains", x, tol), N, want(tol), "contains")
    flags(v, v.meth(S, "contains", x), N, want(0), "default tolerance")
    fields_kept(v, S, keep)
    fr.check()


@contract("C04", "box_limits", ["shape.Shape._build", "shape.Shape.limits"], dims(1, 2, 3, basis=[False, True]))
def _(v, d, basis):
    size = v.arr("size", (d,))
    v.all(size, lambda x: x >= 0)
    p = v.arr("pos", (d,))
    kw = {}
    if basis:
        b = v.arr("b", (d, d))
        m = mat(b)
        v.pre(T(det(m)) != 0)
        kw["basis"] = b
    S = v.call("shape.Shape", size, p, **kw)
    keep = snap(S)
    lims = v.meth(S, "limits")
    # the box is the image of the corners: extremes are attained at corners, spec per axis by interval arithmetic
    if not basis:
        bounds(v, lims, d, "limits", [p(i) for i in range(d)], [add(p(i), size(i)) for i in range(d)])
    elif same_shape(v, lims, (d, 2), "limits"):
        corners = [[add(p(i), size(i)) if c[i] else p(i) for i in range(d)] for c in itertools.product((0, 1), repeat=d)]
        world = [[dot(c, [m[j][i] for j in range(d)]) for i in range(d)] for c in corners]
        for i in range(d):
            v.post(f"lower {i} below all corners", And(*[le(lims(i, 0), w[i]) for w in world]))
            v.post(f"lower {i} attained", Or(*[eq(lims(i, 0), w[i]) for w in world]))
            v.post(f"upper {i} above all corners", And(*[le(w[i], lims(i, 1)) for w in world]))
            v.post(f"upper {i} attained", Or(*[eq(lims(i, 1), w[i]) for w in world]))
    fields_kept(v, S, keep)


@contract("C04", "box_scalar_size", ["shape.Shape.__init__"], [{}])
def _(v):
    s = v.real("s")
    v.pre(s >= 0)
    S = v.call("shape.Shape", s)
    N = v.size("N")
    x = v.arr("x", (N, 1))
    flags(v, v.meth(S, "contains", x), N, lambda k: And(x(k, 0) >= 0, x(k, 0) <= s), "one-dimensional box")


def dist2(x, k, p, d):
    return summ(mul(sub(x(k, i), p(i)), sub(x(k, i), p(i))) for i in range(d))


@contract("C04", "circle", ["shape.Circle.__init__", "shape.Circle.contains", "shape.Circle.limits"], DIMS)
def _(v, d):
    p = v.arr("pos", (d,))
    r, tol = v.real("r"), v.real("tol")
    v.pre(And(r >= 0, tol >= 0))
    S = v.call("shape.Circle", p, r)
    N = v.size("N")
    x = v.arr("x", (N, d))
    fr = Frame(v, x=x, p=p)
    keep = snap(S)
    sq = lambda t: (lambda k: le(dist2(x, k, p, d), mul(t, t)))
    flags(v, v.meth(S, "contains", x, tol), N, sq(r + tol), "contains")
    flags(v, v.meth(S, "contains", x), N, sq(r), "default tolerance")
    bounds(v, v.meth(S, "limits"), d, "limits", [sub(p(i), r) for i in range(d)], [add(p(i), r) for i in range(d)])
    fields_kept(v, S, keep)
    fr.check()


@contract("C04", "donut", ["shape.Donut.__init__", "shape.Donut.contains", "shape.Donut.limits"], DIMS)
def _(v, d):
    p = v.arr("pos", (d,))
    ro, ri, tol = v.real("ro"), v.real("ri"), v.real("tol")
    v.pre(And(ri >= 0, ro >= ri, tol >= 0))
    S = v.call("shape.Donut", p, ro, ri)
    N = v.size("N")
    x = v.arr("x", (N, d))
    fr = Frame(v, x=x, p=p)
    keep = snap(S)
    def want(t):
        def w(k):
            D = dist2(x, k, p, d)
            return And(Or(T(ri) < T(t), le(mul(sub(ri, t), sub(ri, t)), D)), le(D, mul(add(ro, t), add(ro, t))))
        return w
    flags(v, v.meth(S, "contains", x, tol), N, want(tol), "contains")
    flags(v, v.meth(S, "contains", x), N, want(Fraction(1, 10 ** 10)), "default tolerance")
    bounds(v, v.meth(S, "limits"), d, "limits", [sub(p(i), ro) for i in range(d)], [add(p(i), ro) for i in range(d)])
    fields_kept(v, S, keep)
    fr.check()


@contract("C04", "hull", ["shape.ConvexHull.__init__", "shape.ConvexHull.contains", "shape.ConvexHull.limits"], dims(2, 3))
def _(v, d):
    from engine.interp import PyClass, mkobj
    P, F = v.size("P", 1), v.size("F", 1)
    pts = v.arr("pts", (P, d))
    eqs = v.arr("eqs", (F, d + 1))

    def hull(points):
        v.c.assumed.add("scipy.spatial.ConvexHull: the hull is the set of points with all facet equations <= 0; the facet equations are normalised")
        o = mkobj(PyClass("scipy.spatial.ConvexHull"))
        o.f.update(points=points, equations=eqs)
        return o
    v.ip.externals["scipy.spatial.ConvexHull"] = hull
    S = v.call("shape.ConvexHull", pts)
    N = v.size("N")
    x = v.arr("x", (N, d))
    tol = v.real("tol")
    fr = Frame(v, x=x, pts=pts, eqs=eqs)
    inside = lambda k, t: forall([("f", IS)], lambda w: And(w[0] >= 0, w[0] < F),
                                 lambda w: le(add(dot([x(k, i) for i in range(d)], [eqs(w[0], i) for i in range(d)]), eqs(w[0], d)), t))
    flags(v, v.meth(S, "contains", x, tol), N, lambda k: inside(k, tol), "contains")
    flags(v, v.meth(S, "contains", x), N, lambda k: inside(k, Fraction(1, 10 ** 10)), "default tolerance")
    lims = v.meth(S, "limits")
    if same_shape(v, lims, (d, 2), "limits"):
        v.forall("limits contain all points", (P, d), lambda k, i: And(le(lims(i, 0), pts(k, i)), le(pts(k, i), lims(i, 1))))
        for i in range(d):
            for s in (0, 1):
                v.post(f"limit {i},{s} attained", exists([("k", IS)], lambda w: And(w[0] >= 0, w[0] < P), lambda w: eq(lims(i, s), pts(w[0], i))))
    fr.check()
