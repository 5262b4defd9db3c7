"""Neighbors of a finite lattice (C06)."""
from .lib import *
from .p_config import configured
from .p_data import INF
from engine.interp import VList, Key, Fn, SObj, Unsupported
import engine.arr as A
from fractions import Fraction


def with_distances(v, d, n, levels, cls="structure.LatticeStructure"):
    """Analyzed lattice: ascending finite distances per pair of atoms, the same for (a, b) and (b, a)."""
    L, m, pos, atoms, con = configured(v, d, n, cls=cls)
    ds = {}
    for a in range(n):
        for b in range(a, n):
            ds[a, b] = ds[b, a] = [v.real(f"dist{a}{b}_{l}") for l in range(levels[a][b])]
            for x, y in zip([z3.RealVal(0)] + ds[a, b], ds[a, b]):
                v.pre(And(x < y, y < INF))
    L.f["_distance_matrix"] = vlist([vlist([vlist(list(ds[a, b])) for b in range(n)]) for a in range(n)])
    return L, m, pos, ds


LEVELS = [((1,),), ((2,),), ((1, 1), (1, 1)), ((0, 1), (1, 0)), ((2, 1), (1, 0)), ((0, 0), (0, 2))]


def table(v, N, M, rows=None, name=""):
    """Candidate neighbors: distances up to infinity, the mark N exactly at infinity, no candidate twice."""
    rows = N if rows is None else rows
    nb = v.arr("nb" + name, (rows, M), "int", 0, T(N) + 1)
    ds = v.arr("ds" + name, (rows, M))
    inr = lambda q: And(q[0] >= 0, q[0] < T(rows), q[1] >= 0, q[1] < T(M))
    v.pre(forall([("i", IS), ("s", IS)], inr, lambda q: And(T(ds(*q)) >= 0, T(ds(*q)) <= INF, Iff(eq(nb(*q), N), eq(ds(*q), INF))), lambda q: [nb(*q), ds(*q)]))
    v.pre(forall([("i", IS), ("s", IS), ("t", IS)], lambda q: And(q[0] >= 0, q[0] < T(rows), q[1] >= 0, q[1] < q[2], q[2] < T(M)),
                 lambda q: Implies(eq(nb(q[0], q[1]), nb(q[0], q[2])), eq(nb(q[0], q[1]), N)), lambda q: [(nb(q[0], q[1]), nb(q[0], q[2]))]))
    return nb, ds


def entries(v, r, kept, onb, ods, rows, M, N, what):
    """The rows of the result hold exactly the kept candidates, once, nearest first; other entries are unused."""
    nb2, ds2 = r
    v.post(f"{what}: two tables", isinstance(nb2, SArr) and isinstance(ds2, SArr) and nb2.ndim == 2 and ds2.ndim == 2)
    v.post(f"{what}: same shape", And(eq(nb2.axes[0].n, rows), eq(ds2.axes[0].n, rows), eq(nb2.axes[1].n, ds2.axes[1].n)))
    W = nb2.axes[1].n
    rp = v.c.ghost.get("rowperm", [])
    if len(rp) != 1:
        raise Unsupported("the new order is not given by one permutation per row")
    pi, ipi = rp[0][0], rp[0][1]
    i, s = v.int("site", 0, rows), v.int("slot", 0, M)
    v.post(f"{what}: every connected neighbor is listed with its distance",
           Implies(kept(i, s), some_row(nb2, lambda p: And(eq(nb2.fn((i, p)), onb(i, s)), eq(ds2.fn((i, p)), ods(i, s))), axis=1)), [Witness(ipi(i, s), i)])
    t, u = v.int("entry", 0, W), v.int("other", 0, W)
    e = Not(eq(ds2(i, t), INF))
    v.post(f"{what}: unused entries are marked", Iff(eq(ds2(i, t), INF), eq(nb2(i, t), N)))
    v.post(f"{what}: entries are connected neighbors", Implies(e, exists([("s", IS)], lambda q: And(q[0] >= 0, q[0] < T(M)), lambda q: And(kept(i, q[0]), eq(nb2(i, t), onb(i, q[0])), eq(ds2(i, t), ods(i, q[0]))))))
    v.post(f"{what}: nearest first", Implies(lt(t, u), le(ds2(i, t), ds2(i, u))))
    v.post(f"{what}: no neighbor twice", Implies(And(e, eq(nb2(i, t), nb2(i, u)), Not(eq(ds2(i, u), INF))), eq(t, u)))


@contract("C06", "filter_neighbors", ["structure.LatticeStructure._filter_neighbors"], [{"d": d, "levels": l} for d in (2,) for l in LEVELS] + [{"d": 1, "levels": LEVELS[4]}, {"d": 3, "levels": LEVELS[4]}])
def _(v, d, levels):
    n = len(levels)
    L, m, pos, ds = with_distances(v, d, n, levels)
    N, M = v.size("N", 1), v.size("M")
    ind = v.arr("ind", (N, d + 1), "int")
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: And(T(ind(q[0], d)) >= 0, T(ind(q[0], d)) < n), lambda q: [ind(q[0], d)]))
    nb, di = table(v, N, M)
    onb, ods = SArr(nb.axes, nb.store.fn, nb.dt), SArr(di.axes, di.store.fn, di.dt)
    fr = Frame(v, indices=ind)
    r = v.meth(L, "_filter_neighbors", ind, nb, di)
    conn = lambda i, j, x: Or(*[And(eq(ind(i, d), a), eq(ind(j, d), b), eq(x, y)) for (a, b), ys in ds.items() for y in ys])
    kept = lambda i, s: And(T(ods(i, s)) < INF, conn(i, onb(i, s), ods(i, s)))
    entries(v, r, kept, onb, ods, N, M, N, "table")
    fr.check()


# ---------------------------------------------------------------- nearest-neighbor search
def ckd_init(self, data, leafsize=16, compact_nodes=True, copy_data=False, balanced_tree=True, boxsize=None):
    if boxsize is not None:
        raise Unsupported("periodic search tree")
    a = npm.arrlike(data)
    if a.ndim != 2 or not isinstance(a.axes[1].n, int):
        raise Unsupported("points of the search tree")
    self.f["data"] = arr.copy(a)
    self.f["n"] = a.axes[0].n
    self.f["m"] = a.axes[1].n


def eu_fn(self, x):
    """Distances of the rows of x from the points of the tree, as an abstract function (one per pair of arrays)."""
    c = ctx()
    reg = c.ghost.setdefault("eu", [])
    for t, y, fn, eu in reg:
        if t is self and (y is x or (isinstance(x, SArr) and y.store is x.store and y.store.fn is fn and y.axes == x.axes)):
            return eu
    eu = c.fn("eu", [IS, IS], RS)
    c.assumed.add("scipy.spatial.cKDTree: the distances are Euclidean distances between the query points and the points of the tree")
    c.fact(forall([("i", IS), ("j", IS)], lambda q: True, lambda q: And(eu(*q) >= 0, eu(*q) < INF - 1), lambda q: [eu(*q)]), guarded=False)
    if x is self.f["data"]:
        n = self.f["n"]
        inr = lambda q: And(q[0] >= 0, q[0] < T(n), q[1] >= 0, q[1] < T(n))
        # Euclidean distances of one set of points: symmetric, zero on the diagonal, positive between distinct points
        c.fact(forall([("i", IS), ("j", IS)], inr, lambda q: eu(*q) == eu(q[1], q[0]), lambda q: [eu(*q)]), guarded=False)
        c.fact(forall([("i", IS), ("j", IS)], inr, lambda q: Iff(eu(*q) == 0, q[0] == q[1]), lambda q: [eu(*q)]), guarded=False)
        c.ghost["distinct_points"] = True
    reg.append((self, x, x.store.fn, eu))
    return eu


def metric(eps, p):
    if not (concrete(eps) and eps == 0 and concrete(p) and p == 2):
        raise Unsupported("approximate or non-Euclidean search")


def ball_fn(self, x, r):
    c = ctx()
    reg = c.ghost.setdefault("balls", [])
    eu = eu_fn(self, x)
    for e, q, f in reg:
        if e is eu and arr.ctxeq(q, r) is True:
            return f
    f = c.fn("ball", [IS], IS)
    c.fact(forall([("i", IS)], lambda q: True, lambda q: And(f(*q) >= 0, f(*q) <= T(self.f["n"])), lambda q: [f(*q)]), guarded=False)
    reg.append((eu, r, f))
    return f


def ckd_ball(self, x, r, p=2.0, eps=0, *a, **kw):
    metric(eps, p)
    x = self.f["data"] if same_points(x, self.f["data"]) else npm.arrlike(x)
    f = ball_fn(self, x, r)
    ctx().assumed.add("cKDTree.query_ball_point lists, per query point, the points within the radius")
    from engine.interp import seg_list
    return seg_list(x.axes[0].n, lambda k: seg_list(f(T(k)), lambda l: ctx().int("member")))


def same_points(x, y):
    if x is y:
        return True
    if not isinstance(x, SArr) or x.ndim != 2 or y.copyof is None:
        return False
    return y.copyof[0] is x and y.copyof[1] is x.store.fn


def ckd_query(self, x, k=1, eps=0, p=2, distance_upper_bound=None, workers=1):
    """Assumed contract of scipy.spatial.cKDTree.query."""
    c = ctx()
    metric(eps, p)
    ub = INF if distance_upper_bound is None else T(distance_upper_bound)
    x = self.f["data"] if same_points(x, self.f["data"]) else npm.arrlike(x)
    if x.ndim != 2:
        raise Unsupported("query of a single point")
    c.oblige("query: more than one neighbor per point (the result of k = 1 has one dimension less)", T(k) >= 2, "pre")
    n, R, eu = T(self.f["n"]), T(x.axes[0].n), eu_fn(self, x)
    ball = ball_fn(self, x, distance_upper_bound) if distance_upper_bound is not None else None
    dd, ii, sl = c.fn("kd_dist", [IS, IS], RS), c.fn("kd_idx", [IS, IS], IS), c.fn("kd_slot", [IS, IS], IS)
    inr = lambda q: And(q[0] >= 0, q[0] < R, q[1] >= 0, q[1] < T(k))
    c.fact(forall([("i", IS), ("s", IS)], inr, lambda q: And(ii(*q) >= 0, ii(*q) <= n, dd(*q) >= 0, dd(*q) <= INF, Iff(ii(*q) == n, dd(*q) == INF),
                  Implies(ii(*q) < n, And(dd(*q) == eu(q[0], ii(*q)), dd(*q) < ub, sl(q[0], ii(*q)) == q[1]))), lambda q: [ii(*q), dd(*q)]), guarded=False)
    c.fact(forall([("i", IS), ("s", IS), ("t", IS)], lambda q: And(q[0] >= 0, q[0] < R, q[1] >= 0, q[1] < q[2], q[2] < T(k)), lambda q: dd(q[0], q[1]) <= dd(q[0], q[2]),
                  lambda q: [(dd(q[0], q[1]), dd(q[0], q[2]))]), guarded=False)
    if x is self.f["data"]:
        c.fact(forall([("i", IS)], lambda q: And(q[0] >= 0, q[0] < R), lambda q: eu(q[0], q[0]) == 0, lambda q: [dd(q[0], z3.IntVal(0))]), guarded=False)
    inb = lambda q: And(q[0] >= 0, q[0] < R, q[1] >= 0, q[1] < n)
    lst = lambda q: And(sl(*q) >= 0, sl(*q) < T(k), ii(q[0], sl(*q)) == q[1])
    room = (lambda i: Or(n <= T(k), ball(i) <= T(k))) if ball is not None else (lambda i: n <= T(k))
    c.fact(forall([("i", IS), ("j", IS)], lambda q: And(inb(q), eu(*q) < ub), lambda q: Or(lst(q), And(Not(room(q[0])), dd(q[0], T(k) - 1) <= eu(*q))), lambda q: [eu(*q)]), guarded=False)
    c.assumed.add("cKDTree.query lists the k nearest points closer than the bound, nearest first, each once; missing entries are (inf, n)")
    c.ghost["kdquery"] = (eu, room, ub, sl, dd, ii)
    return (new([Range(x.axes[0].n), Range(k)], lambda q: dd(T(q[0]), T(q[1])), FLOAT), new([Range(x.axes[0].n), Range(k)], lambda q: ii(T(q[0]), T(q[1])), INT64))


def ckd_ball_tree(self, other, r, p=2.0, eps=0):
    """Assumed contract of scipy.spatial.cKDTree.query_ball_tree: per point of this tree the points of the other within r, in any order."""
    from engine.interp import seg_list
    c = ctx()
    metric(eps, p)
    x, y, n, n2 = self.f["data"], other.f["data"], T(self.f["n"]), T(other.f["n"])
    dist = pair_dist(x, y)
    cnt, mem, slot = c.fn("bt_cnt", [IS], IS), c.fn("bt_mem", [IS, IS], IS), c.fn("bt_slot", [IS, IS], IS)
    c.fact(forall([("i", IS)], lambda q: And(q[0] >= 0, q[0] < n), lambda q: cnt(*q) >= 0, lambda q: [cnt(*q)]), guarded=False)
    c.fact(forall([("i", IS), ("l", IS)], lambda q: And(q[0] >= 0, q[0] < n, q[1] >= 0, q[1] < cnt(q[0])),
                  lambda q: And(mem(*q) >= 0, mem(*q) < n2, T(dist(q[0], mem(*q))) <= T(r), slot(q[0], mem(*q)) == q[1]), lambda q: [mem(*q)]), guarded=False)
    c.fact(forall([("i", IS), ("j", IS)], lambda q: And(q[0] >= 0, q[0] < n, q[1] >= 0, q[1] < n2, T(dist(*q)) <= T(r)),
                  lambda q: And(slot(*q) >= 0, slot(*q) < cnt(q[0]), mem(q[0], slot(*q)) == q[1]), lambda q: [slot(*q)]), guarded=False)
    c.assumed.add("cKDTree.query_ball_tree lists, per point of the tree, the points of the other tree within the radius, each once")
    c.ghost["ball_tree"] = (slot, dist, r)
    return seg_list(self.f["n"], lambda i: seg_list(cnt(T(i)), lambda l: mem(T(i), T(l))))


def pair_dist(x, y):
    d = x.axes[1].n
    fx, fy = npm.frz(x), npm.frz(y)

    def dist(i, j):
        s = 0
        for t in range(d):
            z = sub(fx((i, t)), fy((j, t)))
            s = arith("+", s, mul(z, z))
        return npm.sqrt_(s)
    return dist


for _f in (ckd_init, ckd_query, ckd_ball, ckd_ball_tree):
    _f.is_method = True
from engine.interp import EXTERNALS, PyClass
EXTERNALS["scipy.spatial.cKDTree"] = PyClass("scipy.spatial.cKDTree", {"__init__": ckd_init, "query": ckd_query, "query_ball_point": ckd_ball, "query_ball_tree": ckd_ball_tree})


@contract("C06", "kdtree_query", ["spatial.KDTree.query", "spatial.KDTree.__init__", "spatial.KDTree.query_ball_point"],
          [{"d": 2, "dec": c, "how": h, "comp": m, "bound": b} for c in (None, 6) for h in ("self", "other") for m in (True, False) for b in (True, False) if b or m] + [{"d": 1, "dec": 6, "how": "self", "comp": True, "bound": True}, {"d": 3, "dec": 6, "how": "self", "comp": True, "bound": True}])
def _(v, d, dec, how, comp, bound):
    N = v.size("N", 1)
    P = v.arr("points", (N, d))
    k = v.int("k")
    v.pre(k >= 2)
    md = v.real("max_dist")
    v.pre(And(md > 0, md < INF))
    fr = Frame(v, points=P)
    t = v.call("spatial.KDTree", P, k=k, **({"max_dist": md} if bound else {}))
    if how == "self":
        R, X = N, None
        nb, ds = v.meth(t, "query", decimals=dec, compact=comp)
    else:
        R = v.size("R", 1)
        X = v.arr("x", (R, d))
        nb, ds = v.meth(t, "query", X, decimals=dec, compact=comp, include_zero=True)
    fr.check()
    q = v.c.ghost.get("kdquery")
    if q is None:
        raise Unsupported("no search")
    eu, room, ub, sl, dd, ii = q
    v.post("tables", isinstance(nb, SArr) and isinstance(ds, SArr) and nb.ndim == 2 and ds.ndim == 2 and nb.kind == "int")
    v.post("same shape", And(eq(nb.axes[0].n, R), eq(ds.axes[0].n, R), eq(nb.axes[1].n, ds.axes[1].n)))
    W = nb.axes[1].n
    i, s, u = v.int("site", 0, R), v.int("slot", 0, W), v.int("other", 0, W)
    rnd = lambda x: x if dec is None else round_(x, dec)
    v.post("unused entries are marked", Iff(eq(nb(i, s), N), eq(ds(i, s), INF)))
    used = Not(eq(ds(i, s), INF))
    v.post("entries are points with their distance", Implies(used, And(T(nb(i, s)) >= 0, T(nb(i, s)) < T(N), eq(ds(i, s), rnd(eu(i, T(nb(i, s))))))))
    v.post("no entry beyond the largest distance", Implies(used, eu(i, T(nb(i, s))) <= ub))
    v.post("no point twice", Implies(And(used, eq(nb(i, s), nb(i, u)), Not(eq(ds(i, u), INF))), eq(s, u)))
    j = v.int("j", 0, N)
    want = And(eu(i, j) < ub, room(i))
    if how == "self":
        v.post("no point is its own neighbor", Implies(used, Not(eq(nb(i, s), i))), [eu(i, i) == 0, dd(i, 0) == 0, ii(i, 0) == i, sl(i, i) == 0])
        want = And(want, i != j)
    v.post("every point within the largest distance is listed", Implies(want, some_row(nb, lambda p: eq(nb.fn((i, p)), j), axis=1)), [Witness(x, i) for x in ((sl(i, j) - 1, sl(i, j)) if how == "self" else (sl(i, j),))])


@summary("spatial.KDTree.query")
def query_summary(ip, self, x=None, num_jobs=1, decimals=None, include_zero=False, compact=True, **_):
    """Contract proved in kdtree_query (all points of the tree against each other)."""
    c = ctx()
    if x is not None or include_zero or not compact or _.get("_"):
        raise Unsupported("other query")
    data, n, k, md = self.f["data"], T(self.f["n"]), T(self.f["k"]), T(self.f["max_dist"])
    metric(self.f["eps"], self.f["p"])
    c.oblige("query: more than one neighbor per point", k >= 2, "pre")
    c.oblige("query: positive bound", And(md > 0, md < INF), "pre")
    eu, ball = eu_fn(self, data), ball_fn(self, data, self.f["max_dist"])
    W = c.int("W")
    c.fact(W >= 0)
    ii, dd, sl = c.fn("q_idx", [IS, IS], IS), c.fn("q_dist", [IS, IS], RS), c.fn("q_slot", [IS, IS], IS)
    rnd = (lambda y: y) if decimals is None else (lambda y: T(round_(y, decimals)))
    c.fact(forall([("i", IS), ("s", IS)], lambda q: And(q[0] >= 0, q[0] < n, q[1] >= 0, q[1] < W),
                  lambda q: And(ii(*q) >= 0, ii(*q) <= n, dd(*q) >= 0, dd(*q) <= INF, Iff(ii(*q) == n, dd(*q) == INF),
                                Implies(ii(*q) < n, And(dd(*q) == rnd(eu(q[0], ii(*q))), ii(*q) != q[0], sl(q[0], ii(*q)) == q[1], eu(q[0], ii(*q)) <= md))), lambda q: [ii(*q), dd(*q)]), guarded=False)
    c.fact(forall([("i", IS), ("j", IS)], lambda q: And(q[0] >= 0, q[0] < n, q[1] >= 0, q[1] < n, q[0] != q[1], eu(*q) < md, Or(n <= k, ball(q[0]) <= k)),
                  lambda q: And(sl(*q) >= 0, sl(*q) < W, ii(q[0], sl(*q)) == q[1]), lambda q: [eu(*q)]), guarded=False)
    c.ghost["query"] = (self, eu, sl, decimals)
    return (new([Range(self.f["n"]), Range(W)], lambda q: ii(T(q[0]), T(q[1])), INT64), new([Range(self.f["n"]), Range(W)], lambda q: dd(T(q[0]), T(q[1])), FLOAT))


@summary("structure.LatticeStructure._filter_neighbors")
def filter_summary(ip, self, indices, neighbors, distances, x_ind=None):
    """Contract proved in filter_neighbors."""
    c = ctx()
    if x_ind is not None:
        raise Unsupported("other sites")
    N = T(indices.axes[0].n)
    d = indices.axes[1].n - 1
    M = neighbors.axes[1].n
    f, g, al = npm.frz(neighbors), npm.frz(distances), npm.frz(indices)
    ok = And(eq(neighbors.axes[0].n, N), eq(distances.axes[0].n, N), eq(distances.axes[1].n, M))
    c.oblige("filter: tables of the sites", ok, "pre")
    i, s, t = c.int("i"), c.int("s"), c.int("t")
    r = And(i >= 0, i < N, s >= 0, s < T(M))
    c.oblige("filter: marks of unused entries", Implies(r, And(T(f((i, s))) >= 0, T(f((i, s))) <= N, T(g((i, s))) >= 0, T(g((i, s))) <= INF, Iff(eq(f((i, s)), N), eq(g((i, s)), INF)))), "pre")
    c.oblige("filter: no candidate twice", Implies(And(r, s < t, t < T(M), eq(f((i, s)), f((i, t)))), eq(f((i, s)), N)), "pre")
    dm = self.f["_distance_matrix"]
    conn = lambda i, j, x: Or(*[And(eq(al((i, d)), a), eq(al((j, d)), b), eq(x, y)) for a, row in enumerate(dm) for b, ys in enumerate(row) for y in ys])
    W = c.int("W2")
    c.fact(W >= 0)
    ii, dd, frm, to = c.fn("f_idx", [IS, IS], IS), c.fn("f_dist", [IS, IS], RS), c.fn("f_from", [IS, IS], IS), c.fn("f_to", [IS, IS], IS)
    kept = lambda i, s: And(T(g((i, s))) < INF, conn(i, T(f((i, s))), g((i, s))))
    c.fact(forall([("i", IS), ("t", IS)], lambda q: And(q[0] >= 0, q[0] < N, q[1] >= 0, q[1] < W),
                  lambda q: And(Iff(ii(*q) == N, dd(*q) == INF), Implies(dd(*q) != INF, And(frm(*q) >= 0, frm(*q) < T(M), to(q[0], frm(*q)) == q[1], kept(q[0], frm(*q)), ii(*q) == T(f((q[0], frm(*q)))), dd(*q) == T(g((q[0], frm(*q))))))),
                  lambda q: [ii(*q), dd(*q)]), guarded=False)
    c.fact(forall([("i", IS), ("s", IS)], lambda q: And(q[0] >= 0, q[0] < N, q[1] >= 0, q[1] < T(M), kept(*q)),
                  lambda q: And(to(*q) >= 0, to(*q) < W, ii(q[0], to(*q)) == T(f(q)), dd(q[0], to(*q)) == T(g(q))), lambda q: [to(*q)]), guarded=False)
    c.fact(forall([("i", IS), ("s", IS), ("t", IS)], lambda q: And(q[0] >= 0, q[0] < N, q[1] >= 0, q[1] < q[2], q[2] < W), lambda q: And(dd(q[0], q[1]) <= dd(q[0], q[2]), Implies(And(ii(q[0], q[1]) == ii(q[0], q[2])), ii(q[0], q[1]) == N)),
                  lambda q: [(dd(q[0], q[1]), dd(q[0], q[2]))]), guarded=False)
    c.ghost["filtered"] = to
    return (new([Range(N), Range(W)], lambda q: ii(T(q[0]), T(q[1])), INT64), new([Range(N), Range(W)], lambda q: dd(T(q[0]), T(q[1])), FLOAT))


@contract("C06", "compute_neighbors", ["structure.LatticeStructure.compute_neighbors"], [{"d": d, "levels": l} for d in (1, 2, 3) for l in LEVELS if d == 2 or l == LEVELS[4]],
          use=["spatial.KDTree.query", "structure.LatticeStructure._filter_neighbors"])
def _(v, d, levels):
    n = len(levels)
    L, m, pos, ds = with_distances(v, d, n, levels)
    top = max(max(r) for r in levels)
    raw = [[[v.real(f"raw{a}{b}_{l}") for l in range(max(top, 1))] for b in range(n)] for a in range(n)]
    for r in raw:
        for s in r:
            for x in s:
                v.pre(And(x > T(Fraction(1, 10 ** 5)), x < INF / 4))     # distances are larger than the rounding of the positions
    dist = v.arr("distances", (n, top))
    v.all(dist, lambda x: And(T(x) >= 0, T(x) < INF / 4))
    for (a, b), ys in ds.items():
        for y in ys:
            v.pre(Or(*[eq(dist(a, l), y) for l in range(top)]))
    rn = v.arr("rawnum", (n, n), "int", 1)
    L.f.update(_distances=dist, _raw_distance_matrix=vlist([vlist([vlist(s) for s in r]) for r in raw]), _raw_num_neighbors=rn)
    N = v.size("N", 1)
    ind, P = v.arr("ind", (N, d + 1), "int"), v.arr("pos", (N, d))
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: And(T(ind(q[0], d)) >= 0, T(ind(q[0], d)) < n), lambda q: [ind(q[0], d)]))
    fr = Frame(v, indices=ind, positions=P)
    nb, di = v.meth(L, "compute_neighbors", ind, P)
    fr.check()
    q = v.c.ghost.get("query")
    to = v.c.ghost.get("filtered")
    if q is None or to is None:
        raise Unsupported("neighbors found in another way")
    tree, eu, sl, dec = q
    v.forall("the tree holds the positions of the sites", (N, d), lambda k, j: eq(tree.f["data"](k, j), P(k, j)))
    v.post("number of points of the tree", eq(tree.f["n"], N))
    v.post("distances are rounded to six decimals", dec == 6)
    rd = lambda i, j: T(round_(eu(i, j), 6))
    i, j = v.int("site", 0, N), v.int("j", 0, N)
    conn = lambda i, j: And(i != j, Or(*[And(eq(ind(i, d), a), eq(ind(j, d), b), eq(rd(i, j), y)) for (a, b), ys in ds.items() for y in ys]))
    W = nb.axes[1].n
    v.post("tables", And(eq(nb.axes[0].n, N), eq(di.axes[0].n, N), eq(di.axes[1].n, W)))
    s, u = v.int("slot", 0, W), v.int("other", 0, W)
    used = Not(eq(di(i, s), INF))
    v.post("unused entries are marked", Iff(eq(di(i, s), INF), eq(nb(i, s), N)))
    v.post("entries are connected sites with their distance", Implies(used, And(T(nb(i, s)) >= 0, T(nb(i, s)) < T(N), conn(i, T(nb(i, s))), eq(di(i, s), rd(i, T(nb(i, s)))))))
    v.post("no neighbor twice", Implies(And(used, eq(nb(i, s), nb(i, u))), eq(s, u)))
    x = sl(i, j)
    v.post("every connected site is listed", Implies(conn(i, j), some_row(nb, lambda p: And(eq(nb.fn((i, p)), j), eq(di.fn((i, p)), rd(i, j))), axis=1)),
           [eu(i, j) <= rd(i, j) + T(Fraction(1, 10 ** 6)), eu(i, j) < T(tree.f["max_dist"]), And(x >= 0, T(v.c.ghost["balls"][0][2](i)) <= T(tree.f["k"])), Witness(to(i, x))])


def searched(v, L, ds, levels):
    """The distances and the raw analysis the search radius is computed from."""
    n, top = len(levels), max(max(r) for r in levels)
    raw = [[[v.real(f"raw{a}{b}_{l}") for l in range(max(top, 1))] for b in range(n)] for a in range(n)]
    for r in raw:
        for s in r:
            for x in s:
                v.pre(And(x > T(Fraction(1, 10 ** 5)), x < INF / 4))
    dist = v.arr("distances", (n, top))
    v.all(dist, lambda x: And(T(x) >= 0, T(x) < INF / 4))
    for (a, b), ys in ds.items():
        for y in ys:
            v.pre(Or(*[eq(dist(a, l), y) for l in range(top)]))
    L.f.update(_distances=dist, _raw_distance_matrix=vlist([vlist([vlist(s) for s in r]) for r in raw]), _raw_num_neighbors=v.arr("rawnum", (n, n), "int", 1))


@contract("C10", "connection_neighbors", ["lattice.Lattice._compute_connection_neighbors"], [{"d": d, "levels": l} for d in (1, 2, 3) for l in LEVELS if d == 2 or l == LEVELS[4]])
def _(v, d, levels):
    n = len(levels)
    L, m, pos, ds = with_distances(v, d, n, levels, cls="lattice.Lattice")
    searched(v, L, ds, levels)
    N1, N2 = v.size("N1", 1), v.size("N2", 1)
    P1, P2 = v.arr("pos1", (N1, d)), v.arr("pos2", (N2, d))
    a1, a2 = v.arr("alpha1", (N1,), "int", 0, n), v.arr("alpha2", (N2,), "int", 0, n)
    fr = Frame(v, positions1=P1, positions2=P2, alphas1=a1, alphas2=a2)
    pairs, di = v.meth(L, "_compute_connection_neighbors", P1, P2, a1, a2)
    fr.check()
    if "ball_tree" not in v.c.ghost or not v.c.ghost.get("flat"):
        raise Unsupported("connections found in another way")
    slot, _, r = v.c.ghost["ball_tree"]
    to = v.c.ghost["flat"][0]
    dist = pair_dist(P1, P2)
    rd = lambda i, j: T(round_(dist(i, j), 6))
    conn = lambda i, j: Or(*[And(eq(a1(i), a), eq(a2(j), b), eq(rd(i, j), y)) for (a, b), ys in ds.items() for y in ys])
    v.post("one distance per pair", And(pairs.ndim == 2 and eq(pairs.axes[1].n, 2), di.ndim == 1 and eq(di.axes[0].n, pairs.axes[0].n)))
    W = di.axes[0].n
    s, u = v.int("row", 0, W), v.int("other", 0, W)
    i0, j0 = T(pairs(s, 0)), T(pairs(s, 1))
    v.post("pairs are connected sites of the two lattices", And(i0 >= 0, i0 < T(N1), j0 >= 0, j0 < T(N2), conn(i0, j0)), [Opaque()])
    v.post("their distance", eq(di(s), rd(i0, j0)), [Opaque()])
    v.post("no pair twice", Implies(And(eq(pairs(s, 0), pairs(u, 0)), eq(pairs(s, 1), pairs(u, 1))), eq(s, u)), [Opaque()])
    i, j = v.int("i", 0, N1), v.int("j", 0, N2)
    v.post("every connected pair is listed", Implies(conn(i, j), some_row(di, lambda p: And(eq(pairs.fn((p, 0)), i), eq(pairs.fn((p, 1)), j)))),
           [Opaque(), T(dist(i, j)) <= rd(i, j) + T(Fraction(1, 10 ** 6)), T(dist(i, j)) <= T(r), And(slot(i, j) >= 0), Witness(to(i, slot(i, j)))])


# ---------------------------------------------------------------- building
def site_arrays(v, N, M, d, name=""):
    return (v.arr("ind" + name, (N, d + 1), "int"), v.arr("pos" + name, (N, d)), v.arr("nb" + name, (N, M), "int", 0, T(N) + 1), v.arr("ds" + name, (N, M)))


BUILD = ["structure.LatticeStructure.build_indices", "structure.LatticeStructure.compute_neighbors", "lattice._filter_dangling", "data.LatticeData.set", "lattice.Lattice.set_periodic"]


def same_array(v, what, a, b):
    if a is b:
        v.post(f"{what}", True)
    elif isinstance(a, SArr) and same_shape(v, a, b.shape, what):
        v.forall(what, b, lambda *i: eq(a(*i), b(*i)))
    else:
        v.post(what, False)


def build_contract(v, d, how, minn, per, cb):
    from .p_build import any_shape
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    L.f["_base_neighbors"] = vlist([{Key(v.real("d0")): None} for _ in range(2)])
    v.pre(Not(eq(con(0, 1), 0)))
    N, M = v.size("N", 1), v.size("M")
    N2, M2 = v.size("N2", 1), v.size("M2")
    A1, A2 = site_arrays(v, N, M, d), site_arrays(v, N2, M2, d, "f")
    L.f["periodic_axes"] = v.arr("oldaxes", (1,), "int")
    log = []
    data0 = L.f["data"]

    def setd(self, indices, positions, neighbors, distances):
        log.append(("set", (indices, positions, neighbors, distances)))
        v.post("the sites are stored in the data of the lattice", self is L.f["data"])
        v.post("earlier boundary conditions are forgotten before", pax_empty(L))
        self.f.update(indices=indices, positions=positions, neighbors=neighbors)

    def bi(self, shape, primitive=False, pos=None, check=True, callback=None, dtype=None, return_pos=False):
        log.append(("indices", (shape, primitive, pos, check, callback, return_pos)))
        return (A1[0], A1[1] if return_pos is True else None)

    def cn(self, indices, positions, num_jobs=1):
        log.append(("neighbors", (indices, positions)))
        return (A1[2], A1[3])

    def fd(indices, positions, neighbors, dists, min_neighbors):
        log.append(("filter", (indices, positions, neighbors, dists, min_neighbors)))
        return A2

    def sp(self, axis=None, primitive=None):
        log.append(("periodic", (axis,)))
    v.c.ghost["answers"] = {BUILD[0]: bi, BUILD[1]: cn, BUILD[2]: fd, BUILD[3]: setd, BUILD[4]: sp}
    if how == "shape":
        S, lo, hi, inside = any_shape(v, d)
        args = [S]
    else:
        args = [v.arr("size", (d,))]
    kw = {}
    if how == "pos":
        kw["pos"] = v.arr("origin", (d,))
    if minn:
        kw["min_neighbors"] = v.int("min_neighbors", 0)
    if per:
        kw["periodic"] = v.int("axis", 0, d)
    if cb:
        kw["callback"] = Fn(lambda *a: None)
    r = v.meth(L, "build", *args, **kw)
    kinds = [k for k, _ in log]
    v.post("every step once, in order", sorted(kinds) == sorted( ["indices", "neighbors"] + (["filter"] if minn else []) + ["set"] + (["periodic"] if per else [])))
    if kinds[:2] != ["indices", "neighbors"] or "set" not in kinds:
        return
    shp, prim, p, chk, call, rp = log[0][1]
    v.post("sites are filtered by the shape and by the callback", chk is True and call is kw.get("callback") and rp is True and prim is False)
    if how == "shape":
        v.post("the shape is built", shp is S and r is S)
    else:
        v.post("a box is built", isinstance(shp, SObj) and shp.cls.name == "Shape" and r is shp)
        org = kw.get("pos")
        lims = v.meth(shp, "limits")
        for j in range(d):
            o = org(j) if org is not None else 0
            v.post(f"box from the origin {j}", Implies(T(args[0](j)) >= 0, eq(lims(j, 0), o)))
            v.post(f"box of the size {j}", Implies(T(args[0](j)) >= 0, eq(lims(j, 1), add(o, args[0](j)))))
    same_array(v, "neighbors of the sites: indices", log[1][1][0], A1[0])
    same_array(v, "neighbors of the sites: positions", log[1][1][1], A1[1])
    if minn:
        for nm, x, y in zip(("indices", "positions", "neighbors", "distances"), log[2][1], A1):
            same_array(v, f"filtered {nm}", x, y)
        v.post("requested number of neighbors", eq(log[2][1][4], kw["min_neighbors"]))
    st = [b for k, b in log if k == "set"][0]
    for nm, x, y in zip(("indices", "positions", "neighbors", "distances"), st, A2 if minn else A1):
        same_array(v, f"stored {nm}", x, y)
    if per:
        v.post("requested boundary conditions", eq(log[-1][1][0], kw["periodic"]))
    P = A2[1] if minn else A1[1]
    same_array(v, "positions of the lattice", v.get(L, "positions"), P)
    v.post("no primitive build", v.get(L, "primitive") is False)


def pax_empty(L):
    x = L.f.get("periodic_axes")
    return isinstance(x, VList) and len(x) == 0 or (isinstance(x, SArr) and eq(x.axes[0].n, 0))


for _q in BUILD:
    def _mk(q):
        @summary(q + "@build")
        def _f(ip, _q=q, **b):
            h = ctx().ghost.get("answers", {}).get(_q)
            if h is None:
                raise Unsupported(f"unexpected call of {_q}")
            return h(**b)
    _mk(_q)

for _p in ("C05", "C06", "C19"):
    contract(_p, "build", ["lattice.Lattice.build"], [{"d": d, "how": h, "minn": mn, "per": pr, "cb": cb} for d in (1, 2, 3) for h in ("shape", "box", "pos") for mn in (False, True) for pr in (False, True) for cb in (False, True) if d == 2 or (mn == pr == cb)],
             use=[q + "@build" for q in BUILD])(build_contract)
