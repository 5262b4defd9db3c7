"""Contracts of the neighbor table (data.py) and its queries."""
from .lib import *
from fractions import Fraction
from engine.arr import SDt
from engine.interp import vl_len, vl_get, SObj

INF = sym.INF


class Data:
    """A well-formed LatticeData object of symbolic size: N sites, M slots per site, L distance levels (the last
    one invalid)."""

    def __init__(self, v, d, name="", N=None, M=None, narrow=True, wf=True, periodic=True):
        self.v, self.d = v, d
        self.N = N = v.size("N" + name, 1) if N is None else N
        self.M = M = v.size("M" + name) if M is None else M
        self.L = L = v.size("L" + name, 1)
        if narrow:
            hi = v.int("nbhi" + name)
            v.pre(hi >= T(N))
            ndt = SDt("nb" + name, "int", 0, hi)
            dhi = v.int("dshi" + name)
            v.pre(dhi >= T(L) - 1)
            ddt = SDt("ds" + name, "int", 0, dhi)
        else:
            ndt = ddt = INT64
        self.indices = v.arr("ind" + name, (N, d + 1), "int")
        self.positions = v.arr("pos" + name, (N, d))
        self.neighbors = v.arr("nb" + name, (N, M), "int", 0, T(N) + 1, dt=ndt)
        self.distances = v.arr("ds" + name, (N, M), "int", 0, L, dt=ddt)
        self.distvals = v.arr("dv" + name, (L,))
        self.pmask = v.arr("pm" + name, (N, M), "bool")
        self.pnvecs = v.arr("pn" + name, (N, M, d), "int")
        self.paxes = v.arr("pa" + name, (N, M, d), "int")
        dv = self.distvals
        v.pre(dv(T(L) - 1) == INF)
        v.pre(forall([("k", IS), ("l", IS)], lambda q: And(q[0] >= 0, q[0] < q[1], q[1] < T(L)), lambda q: T(dv(q[0])) < T(dv(q[1])),
                     lambda q: [(dv(q[0]), dv(q[1]))]))
        if wf:
            nb, ds, pm = self.neighbors, self.distances, self.pmask
            inr = lambda q: And(q[0] >= 0, q[0] < T(N), q[1] >= 0, q[1] < T(M))
            v.pre(forall([("i", IS), ("s", IS)], inr, lambda q: And(Iff(eq(nb(*q), N), eq(ds(*q), T(L) - 1)), Implies(pm(*q), T(ds(*q)) < T(L) - 1)),
                         lambda q: [nb(*q), ds(*q), pm(*q)]))
            v.pre(forall([("i", IS), ("s", IS)], inr, lambda q: T(nb(*q)) != q[0], lambda q: [nb(*q)]))
        self.obj = v.obj("data.LatticeData", indices=self.indices, positions=self.positions, neighbors=self.neighbors,
                         distances=self.distances, distvals=self.distvals, pmask=self.pmask, pnvecs=self.pnvecs, paxes=self.paxes,
                         invalid_idx=N, invalid_distidx=T(L) - 1, _dmap=None)
        self.keep = {k: (x, x.store.fn if isinstance(x, SArr) else None) for k, x in self.obj.f.items()}

    def unchanged(self, but=()):
        v = self.v
        for k, (x, f) in self.keep.items():
            if k in but:
                continue
            y = self.obj.f.get(k)
            if not isinstance(x, SArr):
                v.post(f"field {k} unchanged", y is x or (y is not None and x is not None and eq(y, x)))
                continue
            if y is x and x.store.fn is f:
                v.post(f"field {k} unchanged", True)
            elif same_shape(v, y, x.shape, f"field {k} unchanged"):
                old = SArr(x.axes, f, x.dt)
                v.forall(f"field {k} unchanged", x, lambda *i: eq(y(*i), old(*i)))

    def valid(self, i, s):
        return T(self.distances(i, s)) < T(self.L) - 1


# ---------------------------------------------------------------- C12
def sel_args(v, D, lvl, per, uniq):
    k = v.int("level", 0) if lvl else None
    p = {None: None, "t": True, "f": False}[per]
    kw = {}
    if lvl:
        kw["distidx"] = k
    if p is not None:
        kw["periodic"] = p
    if uniq:
        kw["unique"] = True

    def want(i, s):
        c = D.valid(i, s)
        if lvl:
            c = And(c, eq(D.distances(i, s), k))
        if p is not None:
            c = And(c, D.pmask(i, s) if p else Not(D.pmask(i, s)))
        if uniq:
            c = And(c, T(D.neighbors(i, s)) > T(i))
        return c
    return kw, want


SELV = [{"lvl": a, "per": b, "uniq": c} for a in (False, True) for b in (None, "t", "f") for c in (False, True)]


def is_selection(v, r, n, want, value, name):
    """r lists value(s) for exactly the s < n with want(s), in ascending order of s: there is an order preserving
    bijection between the positions of r and the wanted slots."""
    v.post(f"{name}: one-dimensional", r.ndim == 1)
    # every entry of the result belongs to a wanted slot; ghost witness: the point of the axis
    ax = over(r.axes[0], n)
    v.forall(f"{name}: a wanted entry is contained", (n,), lambda s: Implies(want(s), And(ax.valid(s), eq(r.fn((s,)), value(s)))))
    v.forall(f"{name}: only wanted entries are contained", (n,), lambda s: Implies(ax.valid(s), want(s)))
    slot = lambda k: ax.apply(k, lambda p: p)
    v.forall(f"{name}: entries come from slots", (ax.n,), lambda k: And(T(slot(k)) >= 0, T(slot(k)) < T(n), want(slot(k)), eq(r(k), value(slot(k)))))
    v.forall(f"{name}: table order", (ax.n, ax.n), lambda k, l: Implies(lt(k, l), T(slot(k)) < T(slot(l))))


@contract("C12", "neighbor_mask", ["data.LatticeData.neighbor_mask"], SELV)
def _(v, lvl, per, uniq):
    D = Data(v, 2)
    i = v.int("site", 0, D.N)
    kw, want = sel_args(v, D, lvl, per, uniq)
    r = v.meth(D.obj, "neighbor_mask", i, **kw)
    if same_shape(v, r, (D.M,)):
        v.post("mask of flags", r.kind == "bool")
        v.forall("exactly the selected slots", (D.M,), lambda s: Iff(r(s), want(i, s)))
    D.unchanged()


@contract("C12", "get_neighbors", ["data.LatticeData.get_neighbors", "data.LatticeData.neighbor_mask"], SELV)
def _(v, lvl, per, uniq):
    D = Data(v, 2)
    i = v.int("site", 0, D.N)
    kw, want = sel_args(v, D, lvl, per, uniq)
    r = v.meth(D.obj, "get_neighbors", i, **kw)
    is_selection(v, r, D.M, lambda s: want(i, s), lambda s: D.neighbors(i, s), "neighbors")
    D.unchanged()


def lattice(v, D, **f):
    return v.obj("lattice.Lattice", data=D.obj, **f)


@contract("C12", "lattice_neighbors", ["lattice.Lattice.neighbors", "lattice.Lattice.nearest_neighbors"],
          [{"lvl": a, "uniq": b, "near": c} for a in (False, True) for b in (False, True) for c in (False, True) if a or not c])
def _(v, lvl, uniq, near):
    D = Data(v, 2)
    i = v.int("site", 0, D.N)
    kw, want = sel_args(v, D, lvl, None, uniq)
    L = lattice(v, D)
    if near:
        v.pre(kw["distidx"] == 0)
        del kw["distidx"]
        r = v.meth(L, "nearest_neighbors", i, **kw)
    else:
        r = v.meth(L, "neighbors", i, **kw)
    is_selection(v, r, D.M, lambda s: want(i, s), lambda s: D.neighbors(i, s), "neighbors")
    D.unchanged()


@contract("C12", "iter_neighbors", ["data.LatticeData.iter_neighbors", "lattice.Lattice.iter_neighbors"], [{"uniq": a, "latt": b} for a in (False, True) for b in (False, True)])
def _(v, uniq, latt):
    D = Data(v, 2)
    i = v.int("site", 0, D.N)
    r = v.meth(lattice(v, D) if latt else D.obj, "iter_neighbors", i, **({"unique": True} if uniq else {}))
    n = vl_len(r)
    # every valid entry is visited at its level
    mem = lambda lev: exists([("q", IS)], lambda q: And(q[0] >= 0, q[0] < T(n)), lambda q: eq(vl_get(r, q[0])[0], lev))
    v.forall("every level of the row is visited", (D.M,), lambda s: Implies(D.valid(i, s), mem(D.distances(i, s))))
    v.forall("levels ascend", (n, n), lambda k, l: Implies(lt(k, l), lt(vl_get(r, k)[0], vl_get(r, l)[0])))
    D.unchanged()
    # a generic level
    k = v.int("k", 0, n)
    ek = vl_get(r, k)
    a = ek[1]
    want = lambda s: And(D.valid(i, s), eq(D.distances(i, s), ek[0]), *([T(D.neighbors(i, s)) > i] if uniq else []))
    v.post("levels are valid", And(T(ek[0]) >= 0, T(ek[0]) < T(D.L) - 1))
    is_selection(v, a, D.M, want, lambda s: D.neighbors(i, s), "neighbors of one level")
    D.unchanged()


@contract("C12", "check_neighbors", ["lattice.Lattice.check_neighbors"], [{}])
def _(v):
    D = Data(v, 2)
    i, j = v.int("site0", 0, D.N), v.int("site1", 0, D.N)
    # a pair occurs at one level only
    M = D.M
    nb, ds = D.neighbors, D.distances
    v.pre(forall([("s", IS), ("t", IS)], lambda q: And(q[0] >= 0, q[0] < T(M), q[1] >= 0, q[1] < T(M), eq(nb(i, q[0]), nb(i, q[1]))), lambda q: eq(ds(i, q[0]), ds(i, q[1]))))
    r = v.meth(lattice(v, D), "check_neighbors", i, j)
    if r is None:
        v.forall("nothing is returned only for sites that are not neighbors", (D.M,), lambda s: Not(And(D.valid(i, s), eq(nb(i, s), j))))
    else:
        v.post("the level of a neighbor entry is returned",
               exists([("s", IS)], lambda q: And(q[0] >= 0, q[0] < T(M)), lambda q: And(D.valid(i, q[0]), eq(nb(i, q[0]), j), eq(ds(i, q[0]), r))))
    D.unchanged()
