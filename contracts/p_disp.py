"""Dispersion paths (C20)."""
from .lib import *
from .p_helpers import is_root, sqd
from engine.interp import seg_list, vl_len, vl_get, SText
from engine.sym import PI
import engine.arr as A


def path(v, d, P, dim=None):
    """A path with P points given before (P unbounded)."""
    pts = v.arr("pt", (P, d))
    lab = v.arr("label", (P,), "int")          # labels are only carried along
    points = seg_list(P, lambda k: A.new([Range(d)], lambda q: pts(k, q[0]), FLOAT))
    labels = seg_list(P, lambda k: lab(k))
    for l in (points, labels):
        l.uid = 0
    o = v.obj("disptools.DispersionPath", dim=d if dim is None else dim, points=points, labels=labels, n_sect=0)
    return o, pts, lab


def same_points(v, o, P, pts, lab, d, more=()):
    """The points given before, in order, then those of more: (coordinates, label)."""
    p, l = o.f["points"], o.f["labels"]
    v.post("number of points", eq(vl_len(p), add(P, len(more))))
    v.post("number of labels", eq(vl_len(l), add(P, len(more))))
    v.post("num_points", eq(v.get(o, "num_points"), add(P, len(more))))
    k = v.int("k", 0, P)
    with v.under(k < T(P)):
        x = vl_get(p, k)
        v.post("earlier points kept", And(*[eq(x(j), pts(k, j)) for j in range(d)]))
        v.post("earlier labels kept", eq(vl_get(l, k), lab(k)))
    for i, (want, name) in enumerate(more):
        x = vl_get(p, add(P, i))
        v.post(f"added point {i} has the dimension of the path", eq(x.axes[0].n, d))
        v.post(f"added point {i}", And(*[eq(x(j), want[j]) for j in range(d)]))
        y = vl_get(l, add(P, i))
        if is_scalar(name):
            v.post(f"label of added point {i}", eq(y.t, name) if isinstance(y, SText) else is_scalar(y) and eq(y, name))
        else:
            v.post(f"label of added point {i}", isinstance(y, str) and not isinstance(y, SText) and y == name)


@contract("C20", "add", ["disptools.DispersionPath.add", "disptools.DispersionPath.num_points"],
          [{"d": d, "n": n, "named": b} for d in (1, 2, 3) for n in (1, 2, 3) if n >= d for b in (True, False)])
def _(v, d, n, named):
    P = v.size("P")
    o, pts, lab = path(v, d, P)
    q = v.arr("q", (n,))
    fr = Frame(v, point=q, points=pts)
    r = v.meth(o, "add", q, *(["X"] if named else []))
    v.post("the path itself is returned", r is o)
    same_points(v, o, P, pts, lab, d, [([q(j) for j in range(d)], "X" if named else P)])
    fr.check()


@contract("C20", "new", ["disptools.DispersionPath.__init__", "disptools.DispersionPath.add"], dims(1, 2, 3))
def _(v, d):
    o = v.call("disptools.DispersionPath")
    q, p = v.arr("q", (d,)), v.arr("p", (d,))
    r = v.meth(v.meth(o, "add", q), "add", p, "Y")
    v.post("dimension of the first point", eq(o.f["dim"], d))
    same_points(v, r, 0, None, None, d, [([q(j) for j in range(d)], "0"), ([p(j) for j in range(d)], "Y")]) if False else None
    P, L = o.f["points"], o.f["labels"]
    v.post("two points and labels", len(P) == 2 and list(L) == ["0", "Y"])
    v.post("points", And(*[And(eq(P[0](j), q(j)), eq(P[1](j), p(j))) for j in range(d)]))


@contract("C20", "add_points", ["disptools.DispersionPath.add_points"], [{"d": d, "m": m, "named": b} for d in (1, 2, 3) for m in (1, 2, 3) for b in (True, False)])
def _(v, d, m, named):
    P = v.size("P")
    o, pts, lab = path(v, d, P)
    q = v.arr("q", (m, d))
    names = ["A", "B", "C"][:m]
    r = v.meth(o, "add_points", q, *([vlist(names)] if named else []))
    v.post("the path itself is returned", r is o)
    same_points(v, o, P, pts, lab, d, [([q(i, j) for j in range(d)], names[i] if named else add(P, i)) for i in range(m)])


@contract("C20", "cycle", ["disptools.DispersionPath.cycle"], dims(1, 2, 3))
def _(v, d):
    P = v.size("P", 1)
    o, pts, lab = path(v, d, P)
    r = v.meth(o, "cycle")
    v.post("the path itself is returned", r is o)
    same_points(v, o, P, pts, lab, d, [([pts(0, j) for j in range(d)], lab(0))])


@contract("C20", "build", ["disptools.DispersionPath.build", "disptools.DispersionPath.get_ticks"], dims(1, 2, 3))
def _(v, d):
    P, n = v.size("P", 2), v.size("n", 2)
    o, pts, lab = path(v, d, P)
    r = v.meth(o, "build", n)
    if not same_shape(v, r, (mul(sub(P, 1), n), d), "path"):
        return
    s, q = v.int("s", 0, sub(P, 1)), v.int("q", 0, n)
    den = to_kind(sub(n, 1), "real")
    k = add(mul(s, n), q)
    v.c.fact(And(T(k) >= 0, T(k) < (P - 1) * n, T(k) / n == s, T(k) % n == q))       # div/mod of a sum with 0 <= q < n
    for j in range(d):
        a, b = pts(s, j), pts(add(s, 1), j)
        v.post(f"evenly spaced points of section s, coordinate {j}", eq(mul(sub(r(k, j), a), den), mul(sub(b, a), to_kind(q, "real"))))
    t, l = v.meth(o, "get_ticks")
    if same_shape(v, t, (P,), "ticks"):
        v.forall("ticks mark the section starts", (P,), lambda i: eq(t(i), mul(i, n)))
    v.post("labels of the ticks", eq(vl_len(l), P))
    i = v.int("i", 0, P)
    v.post("labels of the ticks in order", eq(vl_get(l, i), lab(i)))
    same_points(v, o, P, pts, lab, d)


@contract("C20", "edges", ["disptools.DispersionPath.edges", "disptools.DispersionPath.distances", "disptools.DispersionPath.scales"], dims(1, 2, 3))
def _(v, d):
    P = v.size("P", 2)
    o, pts, lab = path(v, d, P)
    row = lambda k: [pts(k, j) for j in range(d)]
    e = v.meth(o, "edges")
    v.post("number of edges", eq(vl_len(e), sub(P, 1)))
    k = v.int("k", 0, sub(P, 1))
    a, b = vl_get(e, k)
    v.post("edges join consecutive points", And(*[And(eq(a(j), pts(k, j)), eq(b(j), pts(add(k, 1), j))) for j in range(d)]))
    r = v.meth(o, "distances")
    if not same_shape(v, r, (sub(P, 1),), "distances"):
        return
    v.forall("length of the section", (sub(P, 1),), lambda i: is_root(r(i), sqd(row(i), row(add(i, 1)))))
    v.pre(Not(And(*[eq(pts(0, j), pts(1, j)) for j in range(d)])))
    s = v.meth(o, "scales")
    if same_shape(v, s, (sub(P, 1),), "scales"):
        v.forall("scales are relative to the first section", (sub(P, 1),), lambda i: eq(mul(s(i), r(0)), r(i)))
    same_points(v, o, P, pts, lab, d)


PTS = {"gamma": (0, 0, 0), "x": (1, 0, 0), "m": (1, 1, 0), "r": (1, 1, 1)}
NAMES = {"gamma": r"$\Gamma$", "x": "$X$", "m": "$M$", "r": "$R$"}


@contract("C20", "points", ["disptools.DispersionPath." + x for x in PTS], [{"d": d, "which": w} for d in (1, 2, 3) for w in PTS])
def _(v, d, which):
    P = v.size("P")
    o, pts, lab = path(v, d, P)
    a = v.real("a")
    v.pre(a != 0)
    r = v.meth(o, which, *([] if which == "gamma" else [a]))
    v.post("the path itself is returned", r is o)
    p, l = o.f["points"], o.f["labels"]
    x = vl_get(p, P)
    v.post("the point is added", And(eq(vl_len(p), add(P, 1)), eq(x.axes[0].n, d)))
    v.post("coordinates of the point", And(*[eq(mul(x(j), a), mul(PI, PTS[which][j])) for j in range(d)]))
    v.post("label of the point", vl_get(l, P) == NAMES[which])


@contract("C20", "standard", ["disptools.DispersionPath." + x for x in ("chain_path", "square_path", "cubic_path")],
          [{"which": "chain", "d": 1, "pts": "x gamma x"}, {"which": "square", "d": 2, "pts": "gamma x m gamma"}, {"which": "cubic", "d": 3, "pts": "gamma x m gamma r"}])
def _(v, which, d, pts):
    a = v.real("a")
    v.pre(a != 0)
    o = v.call(v.get(v.fn("disptools.DispersionPath"), which + "_path"), a)
    want = pts.split()
    v.post("points and labels", len(o.f["points"]) == len(want) and list(o.f["labels"]) == [NAMES[w] for w in want])
    for k, w in enumerate(want):
        x = o.f["points"][k]
        v.post(f"point {k}", And(eq(x.axes[0].n, d), *[eq(mul(x(j), a), mul(PI, PTS[w][j])) for j in range(d)]))
