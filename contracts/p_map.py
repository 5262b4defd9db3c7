"""Pair lists, data map and matrices (C13); freshness of the data map (C14)."""
from .lib import *
from .p_data import Data, lattice, INF
from engine.arr import Prod, Concat, Sel, Perm
from engine.interp import PyClass, mkobj, SObj, vl_len, vl_get


def slots_of(ax, D):
    """The points of the axis are slots (site, slot) of the neighbor table."""
    r = ax.root()
    if not isinstance(r, Prod) or len(r.axes) != 2 or not all(isinstance(a, Range) for a in r.axes) \
            or arr.ctxeq(r.axes[0].n, D.N) is not True or arr.ctxeq(r.axes[1].n, D.M) is not True:
        raise Unsupported("result is not given as a selection of the slots of the table")
    return ax


def pair_list(v, D, pairs, dist, want, name):
    """Rows of pairs/dist are (i, nb(i, s), level(i, s)) for exactly the slots with want(i, s), each once."""
    v.post(f"{name}: shapes", pairs.ndim == 2 and dist.ndim == 1)
    v.post(f"{name}: as many levels as pairs", eq(pairs.axes[0].n, dist.axes[0].n))
    v.post(f"{name}: pairs", eq(pairs.axes[1].n, 2))
    ax = slots_of(pairs.axes[0], D)
    if not dist.axes[0].same(ax):
        raise Unsupported("levels and pairs are selected separately")
    v.forall(f"{name}: every wanted entry of the table occurs", (D.N, D.M), lambda i, s: Implies(want(i, s), And(ax.valid((i, s)),
             eq(pairs.fn(((i, s), 0)), i), eq(pairs.fn(((i, s), 1)), D.neighbors(i, s)), eq(dist.fn(((i, s),)), D.distances(i, s)))))
    v.forall(f"{name}: nothing else occurs", (D.N, D.M), lambda i, s: Implies(ax.valid((i, s)), want(i, s)))


@contract("C13", "neighbor_pairs", ["lattice.Lattice.neighbor_pairs"], [{"uniq": False}, {"uniq": True}])
def _(v, uniq):
    D = Data(v, 2)
    L = lattice(v, D)
    pairs, dist = v.meth(L, "neighbor_pairs", **({"unique": True} if uniq else {}))
    want = lambda i, s: And(D.valid(i, s), *([lt(i, D.neighbors(i, s))] if uniq else []))
    pair_list(v, D, pairs, dist, want, "pairs")
    D.unchanged()


@contract("C13", "adjacency_matrix", ["lattice.Lattice.adjacency_matrix"], [{}])
def _(v):
    got = []

    def csr(arg, shape=None, dtype=None):
        v.c.assumed.add("scipy.sparse.csr_matrix((data, (rows, cols)), shape) has the value data[k] at (rows[k], cols[k]) for pairs that occur once, and zero elsewhere")
        o = mkobj(PyClass("csr_matrix"))
        got.append((arg, shape, dtype))
        return o
    v.ip.externals["scipy.sparse.csr_matrix"] = csr
    D = Data(v, 2)
    L = lattice(v, D)
    v.pre(T(D.L) - 1 <= 127)
    r = v.meth(L, "adjacency_matrix")
    if len(got) != 1 or not isinstance(r, SObj):
        raise Unsupported("the matrix is not built by one call of csr_matrix")
    (data, (rows, cols)), shape, dtype = got[0]
    v.post("square", And(eq(shape[0], D.N), eq(shape[1], D.N)))
    ax = slots_of(data.axes[0], D)
    if not (rows.axes[0].same(ax) and cols.axes[0].same(ax)):
        raise Unsupported("rows, columns and values are selected separately")
    v.forall("level + 1 at every neighbor pair", (D.N, D.M), lambda i, s: Implies(D.valid(i, s), And(ax.valid((i, s)),
             eq(rows.fn(((i, s),)), i), eq(cols.fn(((i, s),)), D.neighbors(i, s)), eq(data.fn(((i, s),)), add(D.distances(i, s), 1)))))
    v.forall("no other entries", (D.N, D.M), lambda i, s: Implies(ax.valid((i, s)), D.valid(i, s)))
    if dtype is not None:
        v.forall("values fit the data type", (D.N, D.M), lambda i, s: Implies(D.valid(i, s), dtype.fits(add(D.distances(i, s), 1))))
    D.unchanged(but=("_dmap",))


def map_parts(ax, D):
    """Entries of the data map: an order of (sites ++ selected slots)."""
    r = ax.root()
    if not isinstance(r, Concat) or len(r.parts) != 2 or not isinstance(r.parts[0].root(), Range) or arr.ctxeq(r.parts[0].root().n, D.N) is not True:
        raise Unsupported("entries of the map are not given as sites and slots")
    slots_of(r.parts[1], D)
    return ax


def judge_map(v, D, dm, name="map"):
    mp, ind = dm.f["_map"], dm.f["_indices"]
    ax = map_parts(ind.axes[0], D)
    if not mp.axes[0].same(ax):
        raise Unsupported("indices and labels of the map are ordered separately")
    d = D.d
    v.post(f"{name}: index pairs", eq(ind.axes[1].n, 2))
    v.forall(f"{name}: one on-site entry per site, labelled with its atom", (D.N,), lambda i: And(ax.valid((0, i)),
             eq(ind.fn(((0, i), 0)), i), eq(ind.fn(((0, i), 1)), i), eq(mp.fn(((0, i),)), sub(neg(D.indices(i, d)), 1))))
    v.forall(f"{name}: one entry per valid neighbor entry", (D.N, D.M), lambda i, s: Implies(D.valid(i, s), And(ax.valid((1, (i, s))),
             eq(ind.fn(((1, (i, s)), 0)), i), eq(ind.fn(((1, (i, s)), 1)), D.neighbors(i, s)), eq(mp.fn(((1, (i, s)),)), D.distances(i, s)))))
    v.forall(f"{name}: no other entries", (D.N, D.M), lambda i, s: Implies(ax.valid((1, (i, s))), D.valid(i, s)))
    return ax, mp, ind


def atoms_small(v, D):
    """Atom labels of the stored sites (the map stores them in eight bits)."""
    d = D.d
    al = D.indices
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(D.N)), lambda q: And(T(al(q[0], d)) >= 0, T(al(q[0], d)) <= 126), lambda q: [al(q[0], d)]))


@contract("C13", "map", ["data.LatticeData.map", "data.DataMap.__init__", "data.DataMap.onsite", "data.DataMap.hopping", "data.DataMap.rows",
                         "data.DataMap.cols", "data.DataMap.size", "data.DataMap.indices"], DIMS)
def _(v, d):
    D = Data(v, d)
    atoms_small(v, D)
    dm = v.meth(D.obj, "map")
    ax, mp, ind = judge_map(v, D, dm)
    v.post("size", eq(v.get(dm, "size"), ax.n))
    rows, cols, both = v.get(dm, "rows"), v.get(dm, "cols"), v.get(dm, "indices")
    n = ax.n
    v.forall("rows and columns", (n,), lambda k: And(eq(rows(k), ind(k, 0)), eq(cols(k), ind(k, 1)), eq(both(0, k), ind(k, 0)), eq(both(1, k), ind(k, 1))))
    v.forall("rows ascend", (n, n), lambda k, l: Implies(lt(k, l), le(ind(k, 0), ind(l, 0))))
    al, lv = v.int("alpha", 0), v.int("level", 0)
    masks = (("onsite", (), lambda i: True, lambda i, s: False), ("onsite", (al,), lambda i: eq(D.indices(i, d), al), lambda i, s: False),
             ("hopping", (), lambda i: False, lambda i, s: True), ("hopping", (lv,), lambda i: False, lambda i, s: eq(D.distances(i, s), lv)))
    for meth, args, site, pair in masks:
        m = v.meth(dm, meth, *args)
        nm = f"{meth}{' of one' if args else ''}"
        if same_shape(v, m, (n,), nm):
            v.post(f"{nm}: mask", m.kind == "bool")
            f = (lambda p: m.fn((p,))) if m.axes[0].same(ax) else (lambda p: m(ax.ordinal(p)))
            v.forall(f"{nm}: on-site entries", (D.N,), lambda i: Iff(f((0, i)), site(i)))
            v.forall(f"{nm}: pairs", (D.N, D.M), lambda i, s: Implies(D.valid(i, s), Iff(f((1, (i, s))), pair(i, s))))
    D.unchanged(but=("_dmap",))
    v.post("the map is kept", D.obj.f["_dmap"] is dm)


@contract("C13", "build_matrices", ["data.DataMap.build_csr", "data.DataMap.zeros"], [{}])
def _(v):
    got = []

    def csr(arg, shape=None, dtype=None):
        v.c.assumed.add("scipy.sparse.csr_matrix((data, (rows, cols)), shape) places data[k] at (rows[k], cols[k])")
        got.append((arg, shape, dtype))
        return mkobj(PyClass("csr_matrix"))
    v.ip.externals["scipy.sparse.csr_matrix"] = csr
    n = v.size("n")
    ind = v.arr("ind", (n, 2), "int")
    mp = v.arr("mp", (n,), "int")
    dm = v.obj("data.DataMap", _map=mp, _indices=ind)
    data = v.arr("data", (n,))
    fr = Frame(v, ind=ind, mp=mp, data=data)
    r = v.meth(dm, "build_csr", data)
    if len(got) != 1 or not isinstance(r, SObj):
        raise Unsupported("the matrix is not built by one call of csr_matrix")
    dt, idx = got[0][0]
    rows, cols = (idx if isinstance(idx, (tuple, list)) else (arr.getitem(idx, 0), arr.getitem(idx, 1)))
    v.forall("every value at the position of its entry", (n,), lambda k: And(eq(dt(k), data(k)), eq(rows(k), ind(k, 0)), eq(cols(k), ind(k, 1))))
    z = v.meth(dm, "zeros")
    same_shape(v, z, (n,), "one value per entry")
    fr.check()
