"""Enumeration of the sites of a finite lattice (C05)."""
from .lib import *
from .p_config import configured
from engine.interp import UClass, Fn, SObj, mkobj
import engine.arr as A
from fractions import Fraction

TOL = Fraction(1, 1000)


def any_shape(v, d):
    """An arbitrary shape: limits() is a bounding box, contains() judges every point by itself and accepts no point
    outside the box enlarged by the tolerance (contract of the shapes: C04)."""
    lo, hi = [v.real(f"lo{j}") for j in range(d)], [v.real(f"hi{j}") for j in range(d)]
    inside = v.c.fn("inside", [RS] * (d + 1), z3.BoolSort())
    for a, b in zip(lo, hi):
        v.pre(a <= b)
    pat = lambda q: inside(*[T(x) for x in q])
    v.pre(forall([(f"x{j}", RS) for j in range(d)] + [("t", RS)], lambda q: And(q[d] >= 0), lambda q: Implies(pat(q), And(*[And(q[j] >= lo[j] - q[d], q[j] <= hi[j] + q[d]) for j in range(d)])),
                 lambda q: [pat(q)]))

    def contains(points, tol=0):
        p = npm.arrlike(points)
        if p.ndim != 2 or p.axes[1].n != d:
            raise Unsupported("points of another dimension")
        f = npm.frz(p)
        t = to_kind(tol, "real")
        return new([p.axes[0]], lambda pts: inside(*[T(to_kind(f((pts[0], j)), "real")) for j in range(d)], T(t)), BOOL)
    ns = {"limits": Fn(lambda: from_nested([[a, b] for a, b in zip(lo, hi)], FLOAT)), "contains": Fn(contains)}
    cls = UClass("AnyShape", [v.fn("shape.AbstractShape")], ns, "AnyShape")
    o = mkobj(cls)
    o.f.update(dim=d, pos=from_nested(lo, FLOAT))
    return o, lo, hi, (lambda p, t: inside(*[T(to_kind(x, "real")) for x in p], T(to_kind(t, "real"))))


@summary("spatial.vindices")
def vindices_summary(ip, limits, sort_axis=0, dtype=None):
    """Contract proved in C18: every integer vector inside the limits exactly once, ordered along the sort axis."""
    c = ctx()
    limits = npm.arrlike(limits)
    d = limits.axes[0].n
    lo, hi = [T(limits(i, 0)) for i in range(d)], [T(limits(i, 1)) for i in range(d)]
    if limits.kind != "int":
        raise Unsupported("limits of another type")
    n = c.int("nvec_count")
    c.fact(n >= 0)
    f = [c.fn(f"nvec{i}", [IS], IS) for i in range(d)]
    rank = c.fn("nvec_rank", [IS] * d, IS)
    c.fact(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < n), lambda q: And(*[And(f[i](q[0]) >= lo[i], f[i](q[0]) < hi[i]) for i in range(d)], rank(*[f[i](q[0]) for i in range(d)]) == q[0]),
                  lambda q: [f[0](q[0])]), guarded=False)
    c.fact(forall([(f"x{i}", IS) for i in range(d)], lambda q: And(*[And(q[i] >= lo[i], q[i] < hi[i]) for i in range(d)]),
                  lambda q: And(rank(*q) >= 0, rank(*q) < n, *[f[i](rank(*q)) == q[i] for i in range(d)]), lambda q: [rank(*q)]), guarded=False)
    sa = sort_axis
    if sa is not None:
        c.fact(forall([("k", IS), ("l", IS)], lambda q: And(q[0] >= 0, q[0] <= q[1], q[1] < n), lambda q: f[sa](q[0]) <= f[sa](q[1]), lambda q: [(f[sa](q[0]), f[sa](q[1]))]), guarded=False)
    c.ghost["vindices"] = (lo, hi, f, rank, n)
    dt = A.as_dtype(dtype) or INT64
    if dt is not INT64:
        raise Unsupported("other index type")
    return new([Range(n), Range(d)], lambda pts: f[pts[1]](T(pts[0])), INT64)


def inverse(v, m, d):
    """W with coordinate_i = sum_j W[i][j] x_j, as computed by the constructor."""
    for a, w in v.c.ghost["invs"]:
        if all(z3.eq(T(a[i][j]), T(m[j][i])) for i in range(d) for j in range(d)):
            return w
    raise Unsupported("inverse of the vectors")


def small_cells_excluded(v, W, d):
    """The tolerance of the containment test is smaller than the cells."""
    for i in range(d):
        v.pre(T(summ(abs_(W[i][j]) for j in range(d))) * TOL < 1)


def covered(v, lims, W, lo, hi, p, x, d, what):
    """A cell whose content reaches into the box lies inside the limits."""
    for i in range(d):
        hints = []
        for j in range(d):
            w = T(W[i][j])
            l, h = T(p[j]) - T(lo[j]) + T(TOL), T(hi[j]) + T(TOL) - T(p[j])
            hints += [Implies(w >= 0, And(w * l >= 0, w * h >= 0)), Implies(w <= 0, And(w * l <= 0, w * h <= 0))]
        v.post(f"{what}: lower limit {i}", T(lims[0][i]) <= T(x[i]), hints)
        v.post(f"{what}: upper limit {i}", T(x[i]) < T(lims[1][i]), hints)


@contract("C05", "translation_vectors", ["structure.LatticeStructure.build_translation_vectors"], [{"d": d, "how": h} for d in (1, 2, 3) for h in ("shape", "box", "origin")],
          use=["spatial.vindices"], timeout=20)
def _(v, d, how):
    L, m, a = basis(v, d, cls="structure.LatticeStructure")
    W = inverse(v, m, d)
    small_cells_excluded(v, W, d)
    if how == "shape":
        S, lo, hi, inside = any_shape(v, d)
        r = v.meth(L, "build_translation_vectors", S, check=False)
    else:
        size = v.arr("size", (d,))
        v.all(size, lambda q: q >= 0)
        pos = v.arr("pos", (d,)) if how == "box" else None
        lo = [pos(j) if pos is not None else z3.RealVal(0) for j in range(d)]
        hi = [add(lo[j], size(j)) for j in range(d)]
        fr = Frame(v, size=size, **({"pos": pos} if pos is not None else {}))
        r = v.meth(L, "build_translation_vectors", size, pos=pos, check=False)
        fr.check()
    lims = v.c.ghost.get("vindices")
    if lims is None:
        raise Unsupported("the cells are not enumerated by an index grid")
    n = lims[4]
    if not same_shape(v, r, (n, d), "result"):
        return
    v.forall("all cells of the grid are returned", (n, d), lambda k, i: eq(r(k, i), lims[2][i](k)))
    # every point of the box, up to the tolerance: its cell x, given as the position with coordinates x + f, 0 <= f < 1
    p = [v.real(f"p{j}") for j in range(d)]
    x = [v.int(f"x{i}") for i in range(d)]
    for j in range(d):
        v.pre(And(p[j] >= T(lo[j]) - TOL, p[j] <= T(hi[j]) + TOL))
    for i in range(d):
        c = summ(mul(W[i][j], p[j]) for j in range(d))
        v.pre(And(T(to_kind(x[i], "real")) <= T(c), T(c) < T(to_kind(x[i], "real")) + 1))
    covered(v, lims, W, lo, hi, p, x, d, "cells of points in the box")


def site_position(m, r, x, d):
    return [add(r(k), summ(mul(to_kind(x[i], "real"), m[i][k]) for i in range(d))) for k in range(d)]


def cells_summary(v, m, d, lo, hi):
    """Contract of build_translation_vectors: distinct cells, all cells that hold a point of the box."""
    c = v.c
    W = inverse(v, m, d)
    n = c.int("cells")
    c.fact(n >= 0)
    f = [c.fn(f"cell{i}", [IS], IS) for i in range(d)]
    rank = c.fn("cell_rank", [IS] * d, IS)
    c.fact(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < n), lambda q: rank(*[f[i](q[0]) for i in range(d)]) == q[0], lambda q: [f[0](q[0])]), guarded=False)
    has = c.fn("cell_in", [IS] * d, z3.BoolSort())
    c.fact(forall([(f"x{i}", IS) for i in range(d)], lambda q: has(*q), lambda q: And(rank(*q) >= 0, rank(*q) < n, *[f[i](rank(*q)) == q[i] for i in range(d)]), lambda q: [has(*q)]), guarded=False)
    return n, f, rank, has, W


@contract("C05", "build_indices", ["structure.LatticeStructure.build_indices", "structure.LatticeStructure.check_points", "spatial.interweave"],
          [{"d": d, "n": n, "how": h, "cb": cb} for d in (1, 2, 3) for n in (1, 2, 3) for h in ("shape", "box", "origin") for cb in (False, True) if (not cb or (d == 2 and n == 2)) and (d < 3 or n < 3 or h == "shape")],
          use=["structure.LatticeStructure.build_translation_vectors"], timeout=20)
def _(v, d, n, how, cb):
    L, m, pos, atoms, con = configured(v, d, n)
    W = inverse(v, m, d)
    kw = {}
    if how == "shape":
        S, lo, hi, inside = any_shape(v, d)
        arg = S
    else:
        size = v.arr("size", (d,))
        v.all(size, lambda q: q >= 0)
        org = v.arr("pos", (d,)) if how == "box" else None
        lo = [org(j) if org is not None else z3.RealVal(0) for j in range(d)]
        hi = [add(lo[j], size(j)) for j in range(d)]
        arg = size
        if org is not None:
            kw["pos"] = org
        inside = lambda p, t: And(*[And(T(p[j]) >= T(lo[j]) - T(t), T(p[j]) <= T(hi[j]) + T(t)) for j in range(d)])
    nc, f, rank, has, W = cells_summary(v, m, d, lo, hi)
    if cb:
        keep = v.c.fn("keep", [IS] * (d + 1) + [RS] * d, z3.BoolSort())

        def callback(ind, p):
            ind, p = npm.arrlike(ind), npm.arrlike(p)
            fi, fp = npm.frz(ind), npm.frz(p)
            v.post("callback: one position per index", eq(ind.axes[0].n, p.axes[0].n))
            k = v.int("row", 0, ind.axes[0].n)
            v.post("callback: positions of the indices", And(*[eq(p(k, j), q) for j, q in enumerate(at(ind, k))]))
            return new([ind.axes[0]], lambda pts: keep(*[T(fi((pts[0], j))) for j in range(d + 1)], *[T(fp((pts[0], j))) for j in range(d)]), BOOL)
        kw["callback"] = Fn(callback)

    def at(ind, k):
        out = None
        for a in reversed(range(n)):
            p = site_position(m, pos[a], [ind(k, i) for i in range(d)], d)
            out = p if out is None else [ite(eq(ind(k, d), a), x, y) for x, y in zip(p, out)]
        return out
    v.c.ghost["cells"] = (nc, f)
    fr = Frame(v, **{f"r{i}": x for i, x in enumerate(pos)})
    ind, p = v.meth(L, "build_indices", arg, return_pos=True, **kw)
    fr.check()
    v.post("arrays", isinstance(ind, SArr) and isinstance(p, SArr) and ind.ndim == 2 and p.ndim == 2 and ind.kind == "int")
    N = ind.axes[0].n
    v.post("columns", And(eq(ind.axes[1].n, d + 1), eq(p.axes[1].n, d), eq(p.axes[0].n, N)))
    k = v.int("row", 0, N)
    v.post("atom of the site", And(T(ind(k, d)) >= 0, T(ind(k, d)) < n))
    for a in range(n):
        q = site_position(m, pos[a], [ind(k, i) for i in range(d)], d)
        for j in range(d):
            v.post(f"position of a site of atom {a}, component {j}", Implies(eq(ind(k, d), a), eq(p(k, j), q[j])))
    pk = [p(k, j) for j in range(d)]
    v.post("the site is contained", inside(pk, TOL))
    if cb:
        v.post("the callback accepts the site", keep(*[T(ind(k, j)) for j in range(d + 1)], *[T(x) for x in pk]))
    l = v.int("other", 0, N)
    v.post("sites are distinct", Implies(And(*[eq(ind(k, j), ind(l, j)) for j in range(d + 1)]), eq(k, l)))
    # completeness
    x = [v.int(f"x{i}") for i in range(d)]
    for a in range(n):
        q = site_position(m, pos[a], x, d)
        # an atom inside the unit cell: the cell of the site is the one that holds its position, so it is enumerated
        for i in range(d):
            fi = T(summ(mul(W[i][j], pos[a](j)) for j in range(d)))
            ci = T(summ(mul(W[i][j], q[j]) for j in range(d)))
            v.post(f"cell of a site of atom {a}, component {i}", Implies(And(fi >= 0, fi < 1), And(ci >= z3.ToReal(x[i]), ci < z3.ToReal(x[i]) + 1)), [ci == z3.ToReal(x[i]) + fi])
        w = And(inside(q, TOL), has(*x))
        if cb:
            w = And(w, keep(*x, z3.IntVal(a), *[T(y) for y in q]))
        rk = rank(*x)
        hints = [And(rk >= 0, rk < nc, *[f[i](rk) == x[i] for i in range(d)])] + [Witness(y) for y in (rk * n + a, a * nc + rk, rk)]
        v.post(f"every contained site of atom {a} is listed", Implies(w, some_row(ind, lambda r: And(*[eq(ind.fn((r, j)), x[j]) for j in range(d)], eq(ind.fn((r, d)), a)))), hints)


@summary("structure.LatticeStructure.build_translation_vectors")
def cells(ip, self, shape, primitive=False, pos=None, check=True, dtype=None, oversample=0.0):
    c = ctx()
    if primitive or check or dtype is not None or "cells" not in c.ghost:
        raise Unsupported("other arguments of build_translation_vectors")
    nc, f = c.ghost["cells"]
    d = len(f)
    return new([Range(nc), Range(d)], lambda pts: f[pts[1]](T(pts[0])), INT64)


@contract("C05", "get_positions", ["structure.LatticeStructure.get_position", "structure.LatticeStructure.get_positions"], dims(1, 2, 3, n=[1, 2, 3]))
def _(v, d, n):
    L, m, pos, atoms, con = configured(v, d, n)
    fr = Frame(v, **{f"r{i}": x for i, x in enumerate(pos)})
    x = v.arr("nvec", (d,), "int")
    for a in range(n):
        r = v.meth(L, "get_position", x, a)
        if same_shape(v, r, (d,), f"position of atom {a}"):
            q = site_position(m, pos[a], [x(i) for i in range(d)], d)
            for j in range(d):
                v.post(f"position of atom {a} in a cell, component {j}", eq(r(j), q[j]))
        r = v.meth(L, "get_position", alpha=a)
        if same_shape(v, r, (d,), f"position of atom {a}, no cell"):
            for j in range(d):
                v.post(f"position of atom {a} in the home cell, component {j}", eq(r(j), pos[a](j)))
    N = v.size("N")
    ind = v.arr("ind", (N, d + 1), "int")
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: And(T(ind(q[0], d)) >= 0, T(ind(q[0], d)) < n), lambda q: [ind(q[0], d)]))
    r = v.meth(L, "get_positions", ind)
    if same_shape(v, r, (N, d), "positions"):
        k = v.int("row", 0, N)
        for a in range(n):
            q = site_position(m, pos[a], [ind(k, i) for i in range(d)], d)
            for j in range(d):
                v.post(f"positions of atom {a}, component {j}", Implies(eq(ind(k, d), a), eq(r(k, j), q[j])))
    fr.check()
