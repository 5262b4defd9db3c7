"""Wigner-Seitz cells (C22)."""
from .lib import *
from .p_basis import basis
from .p_periodic import recorder
from engine.interp import EXTERNALS, PyClass, VList, Unsupported, mkobj, vlist

NC, RV = "basis.LatticeBasis.get_neighbor_cells", "basis.LatticeBasis.reciprocal_vectors"
for _q in (NC, RV):
    recorder(_q)


def kd_init(self, data, *a, **kw):
    x = npm.arrlike(data)
    self.f["data"] = new(x.axes, npm.frz(x), x.dt)


def kd_query(self, x, k=1, eps=0, *a, **kw):
    """Assumed contract of scipy.spatial.KDTree with k = 1: the index of a nearest point."""
    if a or kw or k != 1 or eps != 0:
        raise Unsupported("other query")
    c, P = ctx(), self.f["data"]
    n, d = P.axes[0].n, P.axes[1].n
    x = npm.arrlike(x)
    one = x.ndim == 1
    ii, dd = c.fn("near", [IS], IS), c.fn("near_dist", [IS], RS)
    at = lambda i, j: x(j) if one else x(i, j)
    sq = lambda i, k_: add(0, *[mul(sub(at(i, j), P(k_, j)), sub(at(i, j), P(k_, j))) for j in range(d)])
    same = lambda i, k_: And(*[eq(at(i, j), P(k_, j)) for j in range(d)])
    R = 1 if one else x.axes[0].n
    rng = lambda q: And(q[0] >= 0, q[0] < T(R))
    c.fact(forall([("i", IS)], rng, lambda q: And(ii(*q) >= 0, ii(*q) < T(n), dd(*q) >= 0), lambda q: [ii(*q)]), guarded=False)
    both = lambda q: And(q[0] >= 0, q[0] < T(R), q[1] >= 0, q[1] < T(n))
    c.fact(forall([("i", IS), ("k", IS)], both, lambda q: And(le(sq(q[0], ii(q[0])), sq(*q)), Implies(same(*q), same(q[0], ii(q[0])))), lambda q: [(ii(q[0]), P(q[1], 0))]), guarded=False)
    c.assumed.add("scipy.spatial.KDTree.query(x) returns the distance and the index of a nearest point")
    c.ghost.setdefault("near", []).append(ii)
    if one:
        return (dd(z3.IntVal(0)), ii(z3.IntVal(0)))
    return (new([x.axes[0]], lambda q: dd(T(q[0])), FLOAT), new([x.axes[0]], lambda q: ii(T(q[0])), INT64))


def vor_init(self, points, *a, **kw):
    p = npm.arrlike(points)
    c = ctx()
    V = z3.FreshInt("V")
    f = c.fn("vor", [IS, IS], RS)
    c.fact(V >= 0, guarded=False)
    self.f.update(vertices=new([Range(V), Range(p.axes[1].n)], lambda q: f(T(q[0]), T(q[1])), FLOAT), ridge_points=vlist([]), ridge_vertices=vlist([]))
    c.assumed.add("scipy.spatial.Voronoi: only the outline of the cell depends on it (not specified)")


for _f in (kd_init, kd_query, vor_init):
    _f.is_method = True
EXTERNALS["scipy.spatial.KDTree"] = PyClass("scipy.spatial.KDTree", {"__init__": kd_init, "query": kd_query})
EXTERNALS["scipy.spatial.Voronoi"] = PyClass("scipy.spatial.Voronoi", {"__init__": vor_init})


def add(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = arith("+", r, y)
    return r


def points(v, d):
    K = v.size("K", 2)
    o = v.int("origin", 0, K)
    P = v.arr("P", (K, d))
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(K)), lambda q: Iff(And(*[eq(P(q[0], j), 0) for j in range(d)]), q[0] == o), lambda q: [P(q[0], 0)]))
    return P, K, o


@contract("C22", "check", ["spatial.WignerSeitzCell.__init__", "spatial.WignerSeitzCell.check", "spatial.VoronoiTree.__init__", "spatial.VoronoiTree.query"], dims(1, 2, 3, one=[False, True]))
def _(v, d, one):
    P, K, o = points(v, d)
    fr = Frame(v, points=P)
    W = v.call("spatial.WignerSeitzCell", P)
    N = v.size("N", 1)
    x = v.arr("x", (d,) if one else (N, d))
    at = lambda i, j: x(j) if one else x(i, j)
    r = v.meth(W, "check", x)
    fr.check()
    sq0 = lambda i: add(0, *[mul(at(i, j), at(i, j)) for j in range(d)])
    sqk = lambda i, k: add(0, *[mul(sub(at(i, j), P(k, j)), sub(at(i, j), P(k, j))) for j in range(d)])
    ii = v.c.ghost["near"][-1]
    if one:
        ok = lambda i: cast(r() if isinstance(r, SArr) else r, "bool")
        if isinstance(r, SArr):
            v.post("one answer", r.ndim == 0)
    else:
        if not same_shape(v, r, (N,), "answers"):
            return
        ok = lambda i: cast(r(i), "bool")
    n = 1 if one else N
    v.forall("an accepted point is not closer to any other lattice point", (n, K), lambda i, k: Implies(ok(i), le(sq0(i), sqk(i, k))))
    v.forall("a rejected point is as close to another lattice point", (n,), lambda i: Or(ok(i), And(Not(eq(ii(T(i)), o)), le(sqk(i, ii(T(i))), sq0(i)))))


@contract("C22", "cell", ["basis.LatticeBasis.wigner_seitz_cell", "basis.LatticeBasis.brillouin_zone"], dims(1, 2, 3, zone=[False, True]), use=[NC + "@rec", RV + "@rec"])
def _(v, d, zone):
    L, m, a = basis(v, d)
    K = v.size("K", 2)
    o = v.int("origin", 0, K)
    nv = v.arr("nv", (K, d), "int")
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(K)), lambda q: Iff(And(*[eq(nv(q[0], j), 0) for j in range(d)]), q[0] == o), lambda q: [nv(q[0], 0)]))
    R = v.arr("rec", (d, d))
    asked = []

    def cells(self, distidx=0, include_origin=True, comparison=None):
        asked.append(include_origin)
        v.post("the origin is one of the points", include_origin is True)
        return nv

    def rec(self, tol=1e-6, check=False, min_negative=False):
        v.post("reciprocal lattice of this lattice", self is L)
        return R
    v.c.ghost["answers"] = {NC: cells, RV: rec}
    v.c.assumed.add("LatticeBasis.get_neighbor_cells returns cell indices, the origin once if requested (bounded check only); LatticeBasis.reciprocal_vectors under contract in C02")
    mn = v.case(v.bool("min_negative")) if zone else False
    if zone:
        det = {1: lambda: R(0, 0), 2: lambda: sub(mul(R(0, 0), R(1, 1)), mul(R(0, 1), R(1, 0))), 3: lambda: add(mul(R(0, 0), sub(mul(R(1, 1), R(2, 2)), mul(R(1, 2), R(2, 1)))), mul(R(0, 1), sub(mul(R(1, 2), R(2, 0)), mul(R(1, 0), R(2, 2)))),
                                 mul(R(0, 2), sub(mul(R(1, 0), R(2, 1)), mul(R(1, 1), R(2, 0)))))}[d]()
        v.pre(Not(eq(det, 0)))
    W = v.meth(L, "brillouin_zone", mn) if zone else v.meth(L, "wigner_seitz_cell")
    V = R if zone else v.get(L, "vectors")
    p = v.get(W, "points")
    if same_shape(v, p, (K, d), "points"):
        v.forall("spanned by lattice points", (K, d), lambda k, j: eq(p(k, j), add(0, *[mul(nv(k, i), V(i, j)) for i in range(d)])))

