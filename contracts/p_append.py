"""Joining of data sets (C10)."""
from .lib import *
from .p_data import Data, lattice, INF
from engine.interp import VList, Unsupported
from engine.vc import Witness


@contract("C10", "data_append", ["data.LatticeData.append", "data.LatticeData.set", "data.LatticeData.sort_neighbors"],
          [{"d": 1, "how": "data"}, {"d": 2, "how": "data"}, {"d": 3, "how": "data"}, {"d": 2, "how": "parts"}, {"d": 2, "how": "copy"}], timeout=15, use=["utils.create_lookup_table"])
def _(v, d, how):
    D, E = Data(v, d), Data(v, d, "2")
    N1, M1, N2, M2 = D.N, D.M, E.N, E.M
    fin = lambda X: v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(X.L) - 1), lambda q: And(T(X.distvals(q[0])) >= 0, T(X.distvals(q[0])) < INF), lambda q: [X.distvals(q[0])]))
    fin(D)
    fin(E)
    old = {k: SArr(x.axes, f, x.dt) for k, (x, f) in D.keep.items() if isinstance(x, SArr)}
    if how == "parts":
        dist2 = v.arr("dsx", (N2, M2))
        inr = lambda q: And(q[0] >= 0, q[0] < T(N2), q[1] >= 0, q[1] < T(M2))
        v.pre(forall([("i", IS), ("s", IS)], inr, lambda q: And(T(dist2(*q)) >= 0, T(dist2(*q)) <= INF, Iff(eq(E.neighbors(*q), N2), eq(dist2(*q), INF))), lambda q: [dist2(*q), E.neighbors(*q)]))
        fr = Frame(v, dist2=dist2)
        r = v.meth(D.obj, "append", E.indices, E.positions, E.neighbors, dist2)
        ok2 = lambda i, s: T(dist2(i, s)) < INF
        d2 = lambda i, s: dist2(i, s)
        fr.check()
    else:
        r = v.meth(D.obj, "append", E.obj, **({"copy": True} if how == "copy" else {}))
        ok2 = lambda i, s: And(E.valid(i, s), Not(E.pmask(i, s)))
        d2 = lambda i, s: E.distvals(E.distances(i, s))
    ok1 = lambda i, s: And(T(old["distances"](i, s)) < T(D.L) - 1, Not(old["pmask"](i, s)))
    d1 = lambda i, s: old["distvals"](old["distances"](i, s))
    if how == "copy":
        D.unchanged()
        v.post("a new object is returned", r is not D.obj)
    else:
        v.post("the object itself is returned", r is D.obj)
    E.unchanged()
    F = r.f
    N, rp = add(N1, N2), v.c.ghost["rowperm"]
    if len(rp) > 1:
        raise Unsupported("several orders of the rows")
    pi = rp[0][0] if rp else (lambda i, s: T(s))
    W = F["neighbors"].axes[1].n
    v.post("width of the table", And(T(W) >= T(M1), T(W) >= T(M2)))
    if not (same_shape(v, F["indices"], (N, d + 1), "indices") and same_shape(v, F["positions"], (N, d), "positions") and same_shape(v, F["neighbors"], (N, W), "neighbors")
            and same_shape(v, F["distances"], (N, W), "distances") and same_shape(v, F["pmask"], (N, W), "pmask")):
        return
    v.forall("first sites: indices", (N1, d + 1), lambda i, j: eq(F["indices"](i, j), old["indices"](i, j)))
    v.forall("first sites: positions", (N1, d), lambda i, j: eq(F["positions"](i, j), old["positions"](i, j)))
    v.forall("added sites: indices", (N2, d + 1), lambda i, j: eq(F["indices"](add(N1, i), j), E.indices(i, j)))
    v.forall("added sites: positions", (N2, d), lambda i, j: eq(F["positions"](add(N1, i), j), E.positions(i, j)))
    nb, lev, dv = F["neighbors"], F["distances"], F["distvals"]
    L = dv.axes[0].n
    for nm, n, m, off, ok, dist, ob in (("first", N1, M1, 0, ok1, d1, old["neighbors"]), ("added", N2, M2, N1, ok2, d2, E.neighbors)):
        row = lambda i: add(off, i)
        slot = lambda i, k: pi(T(row(i)), T(k))
        there = lambda i, k: And(T(slot(i, k)) < T(m), ok(i, slot(i, k)))
        v.forall(f"{nm} sites: neighbors renumbered by the size of the first set", (n, W), lambda i, k: Implies(there(i, k), eq(nb(row(i), k), add(ob(i, slot(i, k)), off))))
        v.forall(f"{nm} sites: distances", (n, W), lambda i, k: Implies(there(i, k), And(eq(dv(lev(row(i), k)), dist(i, slot(i, k))), T(lev(row(i), k)) < T(L) - 1)))
        v.forall(f"{nm} sites: other entries unused, no periodic ones", (n, W), lambda i, k: Implies(Not(there(i, k)), And(eq(nb(row(i), k), N), eq(lev(row(i), k), sub(L, 1)))))
        v.forall(f"{nm} sites: slots are kept apart", (n, W), lambda i, k: And(T(slot(i, k)) >= 0, T(slot(i, k)) < T(W)))
        v.forall(f"{nm} sites: slots are kept apart", (n, W, W), lambda i, k, l: Implies(lt(k, l), T(slot(i, k)) != T(slot(i, l))))
    v.forall("no periodic neighbors", (N, W), lambda i, s: Not(cast(F["pmask"](i, s), "bool")))
    v.post("marks", And(eq(F["invalid_idx"], N), eq(F["invalid_distidx"], sub(L, 1)), eq(dv(sub(L, 1)), INF)))
    v.post("the data map is computed anew", F.get("_dmap") is None)


# ---------------------------------------------------------------- appending lattices
from .p_periodic import rect, extent, recorder
from .p_config import configured

PTV, OFF = "lattice.Lattice._build_periodic_translation_vector", "lattice.Lattice._boundary_offset"
DAPP, DADD, DSORT, CCN, APP = "data.LatticeData.append", "data.LatticeData.add_neighbors", "data.LatticeData.sort", "lattice.Lattice._compute_connection_neighbors", "lattice.Lattice._append"
for _q in (DAPP, DADD, DSORT, CCN, APP):
    recorder(_q)


@contract("C10", "boundary_offset", [OFF], [{"d": d, "ax": a, "prim": p} for d in (1, 2, 3) for a in range(d) for p in (False, True)])
def _(v, d, ax, prim):
    if prim:
        L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    else:
        L, a = rect(v, d)
    N1, N2 = v.size("N1", 1), v.size("N2", 1)
    i1, i2 = v.arr("ind1", (N1, d + 1), "int"), v.arr("ind2", (N2, d + 1), "int")
    L.f["data"].f["indices"] = i1
    lo1, hi1 = extent(v, i1, N1, ax, "1")
    lo2, hi2 = extent(v, i2, N2, ax, "2")
    v.pre(And(lo1 - lo2 < 10 ** 8, lo2 - lo1 < 10 ** 8))
    fr = Frame(v, ind1=i1, ind2=i2)
    r = v.meth(L, "_boundary_offset", i2, ax, prim)
    fr.check()
    hints = []
    if not prim:
        ln = a[ax]
        sc = lambda ind, N, lo: forall([("i", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: z3.ToReal(ind(q[0], ax)) * ln >= z3.ToReal(lo) * ln, lambda q: [ind(q[0], ax)])
        hints = [sc(i1, N1, lo1), sc(i2, N2, lo2), T(L.f["_vectors_inv"](ax, ax)) * ln == 1]
    if same_shape(v, r, (d,)):
        v.post("integers", r.kind == "int")
        for j in range(d):
            v.post(f"the first cells are put above each other {j}", eq(r(j), (lo1 - lo2) if j == ax else 0), hints)


def spread(ind, ax):
    """Smallest and largest entry of a column."""
    c = ctx()
    g = npm.frz(ind)
    n = ind.axes[0].n
    at = lambda i: ind.axes[0].apply(i, lambda p: g((p, ax)))
    lo, hi, i, j = [c.int(x) for x in ("lo_", "hi_", "ilo_", "ihi_")]
    c.fact(forall([("i", IS)], lambda q: And(q[0] >= 0, q[0] < T(n)), lambda q: And(T(at(q[0])) >= lo, T(at(q[0])) <= hi)), guarded=False)
    c.fact(And(i >= 0, i < T(n), j >= 0, j < T(n), eq(at(i), lo), eq(at(j), hi)))
    return lo, hi


@summary(PTV + "@cells")
def _(ip, self, axes, primitive=False, indices=None):
    if not isinstance(axes, int):
        raise Unsupported("period along an unknown axis")
    if primitive is not ctx().ghost["primitive"]:
        raise Unsupported("other kind of period")
    d = v_dim(self)
    lo, hi = spread(self.f["data"].f["indices"] if indices is None else indices, axes)
    return from_nested([hi - lo + 1 if j == axes else 0 for j in range(d)], INT64)


@summary(OFF + "@cells")
def _(ip, self, indices, ax, primitive=False):
    if primitive is not ctx().ghost["primitive"]:
        raise Unsupported("other kind of period")
    d = v_dim(self)
    lo1, lo2 = spread(self.f["data"].f["indices"], ax)[0], spread(indices, ax)[0]
    return from_nested([lo1 - lo2 if j == ax else 0 for j in range(d)], INT64)


def v_dim(L):
    return L.f["_vectors"].axes[0].n


def pairs_of(v, log, pairs, dist, P, n1):
    """The neighbors across the seam are entered once in both directions: log of add_neighbors in a generic round."""
    if not log:
        v.post("neighbors across the seam are entered", eq(P, 0))
        return
    ks = {k.get_id(): k for k, *_ in log}
    if len(ks) != 1:
        raise Unsupported("neighbors entered in several loops")
    k = list(ks.values())[0]
    rng = And(k >= 0, k < T(P))
    there = lambda e: And(eq(e[2], pairs(k, 0)), eq(e[3], add(pairs(k, 1), n1)), eq(e[4], dist(k)))
    back = lambda e: And(eq(e[2], add(pairs(k, 1), n1)), eq(e[3], pairs(k, 0)), eq(e[4], dist(k)))
    for e in log:
        v.post("only neighbors across the seam are entered", Implies(And(rng, e[1]), Or(there(e), back(e))))
    v.post("the added site is a neighbor of the first", Implies(rng, Or(*[And(e[1], there(e)) for e in log])))
    v.post("the first site is a neighbor of the added one", Implies(rng, Or(*[And(e[1], back(e)) for e in log])))
    for a, e in enumerate(log):
        for f in log[:a]:
            v.post("entered once", Implies(And(rng, e[1], f[1]), Or(T(e[2]) != T(f[2]), T(e[3]) != T(f[3]))))


@contract("C10", "lattice_append", [APP], [{"d": d, "ax": a, "prim": p, "side": s, "srt": st} for d in (1, 2, 3) for a in range(d) for p in (False, True) for s in (1, -1) for st in ((None,) if a else (None, 0))],
          use=[PTV + "@cells", OFF + "@cells"] + [q + "@rec" for q in (DAPP, DADD, DSORT, CCN)])
def _(v, d, ax, prim, side, srt):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    v.c.ghost["primitive"] = prim
    L.f["primitive"] = prim
    D = Data(v, d)
    L.f["data"] = D.obj
    N1, N2, M2 = D.N, v.size("N2", 1), v.size("M2")
    L.f["periodic_axes"] = v.arr("oldaxes", (1,), "int")
    ind, ps, nb, ds = v.arr("ind2", (N2, d + 1), "int"), v.arr("pos2", (N2, d)), v.arr("nb2", (N2, M2), "int", 0, T(N2) + 1), v.arr("ds2", (N2, M2))
    lo1, hi1 = extent(v, D.indices, N1, ax, "1")
    lo2, hi2 = extent(v, ind, N2, ax, "2")
    v.pre(And(lo1 - lo2 < 10 ** 8, lo2 - lo1 < 10 ** 8))
    P = v.size("P")
    pairs, dist = v.arr("pairs", (P, 2), "int", 0), v.arr("pdist", (P,))
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(P)), lambda q: And(T(pairs(q[0], 0)) < T(N1), T(pairs(q[0], 1)) < T(N2)), lambda q: [pairs(q[0], 0)]))
    fr = Frame(v, indices2=ind, positions2=ps, neighbors2=nb, distances2=ds)
    nall = add(N1, N2)
    P1, I1 = D.positions, D.indices
    allpos = v.arr("posall", (nall, d))
    log, app, con_ = [], [], []
    frz = lambda x: new(x.axes, npm.frz(x), x.dt) if isinstance(x, SArr) else x

    def dapp(self, args=(), copy=False):
        if len(args) != 4 or copy is not False or log or app:
            raise Unsupported("joined in another way")
        v.post("joined to the data of the lattice", self is D.obj)
        app.append([frz(x) for x in args])
        self.f.update(indices=v.arr("indall", (nall, d + 1), "int"), positions=allpos, invalid_idx=nall)

    def dadd(self, site, neighbors, distances):
        c = ctx()
        if not app or not c.bound or any(isinstance(x, SArr) and x.ndim for x in (site, neighbors, distances)):
            raise Unsupported("neighbors entered in another way")
        k, g = c.bound[-1]
        log.append((k, And(*g[2:]), site, neighbors, distances))

    def ccn(self, positions1, positions2, alphas1, alphas2):
        con_.append([frz(x) for x in (positions1, positions2, alphas1, alphas2)])
        return (pairs, dist)
    sorted_ = []

    def dsort(self, ax=None, indices=None, reverse=False):
        sorted_.append((ax, indices, reverse))
    v.c.ghost["answers"] = {DAPP: dapp, DADD: dadd, CCN: ccn, DSORT: dsort}
    v.meth(L, "_append", ind, ps, nb, ds, ax, side, srt, False, prim)
    fr.check()
    if len(app) != 1 or len(con_) != 1:
        raise Unsupported("joined in another way")
    shift = (hi1 - lo2 + 1) if side > 0 else (lo1 - hi2 - 1)
    ai, ap, an, ad = app[0]
    if not (same_shape(v, ai, (N2, d + 1), "added indices") and same_shape(v, ap, (N2, d), "added positions") and same_shape(v, an, (N2, M2), "added neighbors") and same_shape(v, ad, (N2, M2), "added distances")):
        return
    v.forall("directly next to the block, the other coordinates and the atoms stay", (N2, d + 1), lambda i, j: eq(ai(i, j), add(ind(i, j), shift if j == ax else 0)))
    v.forall("positions are shifted by the same lattice translation", (N2, d), lambda i, j: eq(ap(i, j), add(ps(i, j), mul(to_kind(shift, "real"), m[ax][j]))))
    v.forall("neighbors inside the added block", (N2, M2), lambda i, s: And(eq(an(i, s), nb(i, s)), eq(ad(i, s), ds(i, s))))
    c1, c2, b1, b2 = con_[0]
    if same_shape(v, c1, (N1, d), "first positions") and same_shape(v, c2, (N2, d), "second positions") and same_shape(v, b1, (N1,), "first atoms") and same_shape(v, b2, (N2,), "second atoms"):
        v.forall("neighbors across the seam of the first sites", (N1, d), lambda i, j: eq(c1(i, j), P1(i, j)))
        v.forall("neighbors across the seam of the shifted sites", (N2, d), lambda i, j: eq(c2(i, j), ap(i, j)))
        v.forall("atoms of the first sites", (N1,), lambda i: eq(b1(i), I1(i, d)))
        v.forall("atoms of the added sites", (N2,), lambda i: eq(b2(i), ind(i, d)))
    pairs_of(v, log, pairs, dist, P, N1)
    pax = L.f["periodic_axes"]
    v.post("no periodic axes", isinstance(pax, VList) and len(pax) == 0 or isinstance(pax, SArr) and eq(pax.axes[0].n, 0))
    v.post("sorted on request", len(sorted_) == (srt is not None) and (srt is None or (sorted_[0][0] == srt and sorted_[0][2] is False)))


BI, CN = "structure.LatticeStructure.build_indices", "structure.LatticeStructure.compute_neighbors"
for _q in (BI, CN):
    recorder(_q)


def block(v, got, ind, ps, nb, ds, N, M, d, what):
    gi, gp, gn, gd = got
    if not (same_shape(v, gi, (N, d + 1), f"{what}: indices") and same_shape(v, gp, (N, d), f"{what}: positions") and same_shape(v, gn, (N, M), f"{what}: neighbors") and same_shape(v, gd, (N, M), f"{what}: distances")):
        return
    v.forall(f"{what}: indices", (N, d + 1), lambda i, j: eq(gi(i, j), ind(i, j)))
    v.forall(f"{what}: positions", (N, d), lambda i, j: eq(gp(i, j), ps(i, j)))
    v.forall(f"{what}: neighbors", (N, M), lambda i, s: eq(gn(i, s), nb(i, s)))
    v.forall(f"{what}: distances", (N, M), lambda i, s: eq(gd(i, s), ds(i, s)))


def added(v, L, prim, ax, side, srt, rev, calls):
    """Records the calls of _append."""
    def f(self, ind, pos, neighbors, dists, ax=0, side=+1, sort_axis=None, sort_reverse=False, primitive=False):
        calls.append(([new(x.axes, npm.frz(x), x.dt) for x in (ind, pos, neighbors, dists)], self, ax, side, sort_axis, sort_reverse, primitive))
        D = self.f["data"]
        n = v.size("grown", 1)
        w = v.size("wider")
        d = D.f["positions"].axes[1].n
        D.f.update(indices=v.arr("gind", (n, d + 1), "int"), positions=v.arr("gpos", (n, d)), neighbors=v.arr("gnb", (n, w), "int"), distances=v.arr("gds", (n, w), "int"), pmask=v.arr("gpm", (n, w), "bool"), distvals=v.arr("gdv", (n,)), pnvecs=v.arr("gpn", (n, w, d), "int"), paxes=v.arr("gpa", (n, w, d), "int"))
    return f


def request(v, L, c, prim, ax, side, srt, rev):
    v.post("the lattice itself grows", c[1] is L)
    v.post("along the requested axis and side", eq(c[2], ax) if c[2] is not None else False)
    v.post("on the requested side", (T(c[3]) > 0) == T(side > 0))
    v.post("sorted as requested", (c[4] is None) == (srt is None) and (srt is None or c[4] == srt) and c[5] is rev and c[6] is prim)


@contract("C10", "append", ["lattice.Lattice.append"], [{"d": d, "side": s, "kw": k, "own": o} for d in (1, 2, 3) for s in (1, -1) for k in (False, True) for o in (False, True)], use=[APP + "@rec"])
def _(v, d, side, kw, own):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    prim = L.f["primitive"] = v.case(v.bool("primitive"))
    D = Data(v, d)
    L.f["data"] = D.obj
    if own:
        E, O = D, L
    else:
        E = Data(v, d, "2")
        O = v.obj("lattice.Lattice", data=E.obj, primitive=False)
    calls, ax = [], d - 1
    oi, op, on, olev, opm, odv = [new(x.axes, npm.frz(x), x.dt) for x in (E.indices, E.positions, E.neighbors, E.distances, E.pmask, E.distvals)]
    srt, rev = (0, True) if kw else (None, False)
    v.c.ghost["answers"] = {APP: added(v, L, prim, ax, side, srt, rev, calls)}
    v.meth(L, "append", O, ax, side, **({"sort_ax": 0, "sort_reverse": True} if kw else {}))
    if not own:
        E.unchanged()
    if len(calls) != 1:
        v.post("appended once", False)
        return
    request(v, L, calls[0], prim, ax, side, srt, rev)
    per = lambda i, s: cast(opm(i, s), "bool")
    block(v, calls[0][0], oi, op, new(on.axes, lambda q: ite(per(*q), E.N, on(*q)), on.dt), new(on.axes, lambda q: ite(per(*q), INF, odv(olev(*q))), FLOAT), E.N, E.M, d, "appended block without periodic neighbors")


@contract("C10", "repeat", ["lattice.Lattice.repeat"], [{"d": d, "side": s, "num": n} for d in (1, 2, 3) for s in (1, -1) for n in (None, 0, 1, 2, 3) if d == 2 or n in (None, 2)], use=[APP + "@rec"])
def _(v, d, side, num):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    prim = L.f["primitive"] = v.case(v.bool("primitive"))
    E = Data(v, d)
    L.f["data"] = E.obj
    calls, ax = [], d - 1
    oi, op, on, olev, opm, odv = [new(x.axes, npm.frz(x), x.dt) for x in (E.indices, E.positions, E.neighbors, E.distances, E.pmask, E.distvals)]
    v.c.ghost["answers"] = {APP: added(v, L, prim, ax, side, None, False, calls)}
    v.meth(L, "repeat", *([] if num is None else [num]), ax=ax, side=side)
    v.post("as many blocks as requested", len(calls) == (1 if num is None else num))
    per = lambda i, s: cast(opm(i, s), "bool")
    for k, c in enumerate(calls):
        request(v, L, c, prim, ax, side, None, False)
        block(v, c[0], oi, op, new(on.axes, lambda q: ite(per(*q), E.N, on(*q)), on.dt), new(on.axes, lambda q: ite(per(*q), INF, odv(olev(*q))), FLOAT), E.N, E.M, d, f"block {k} is the original one without periodic neighbors")


@contract("C10", "extend", ["lattice.Lattice.extend"], [{"d": d, "ax": a, "side": s} for d in (1, 2, 3) for a in range(d) for s in (1, -1)], use=[q + "@rec" for q in (APP, BI, CN)])
def _(v, d, ax, side):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    prim = L.f["primitive"] = v.case(v.bool("primitive"))
    E = Data(v, d)
    L.f["data"] = E.obj
    shape = L.f["shape"] = v.arr("shape", (d,))
    origin = L.f["pos"] = v.arr("origin", (d,))
    fr = Frame(v, shape=shape, origin=origin)
    N, M = v.size("Nb", 1), v.size("Mb")
    B = (v.arr("bind", (N, d + 1), "int"), v.arr("bpos", (N, d)), v.arr("bnb", (N, M), "int", 0, T(N) + 1), v.arr("bds", (N, M)))
    K = [new(x.axes, npm.frz(x), x.dt) for x in B]
    size = v.real("size")
    calls, built, com = [], [], []

    def bi(self, shape, primitive=False, pos=None, check=True, callback=None, dtype=None, return_pos=False):
        built.append((shape, primitive, pos, check, callback, return_pos))
        return (B[0], B[1] if return_pos is True else None)

    def cn(self, indices, positions, num_jobs=1):
        com.append((indices, positions))
        return (B[2], B[3])
    v.c.ghost["answers"] = {APP: added(v, L, prim, ax, side, None, False, calls), BI: bi, CN: cn}
    v.meth(L, "extend", size, ax, side)
    fr.check()
    if len(calls) != 1 or len(built) != 1 or len(com) != 1 or built[0][5] is not True:
        raise Unsupported("extended in another way")
    request(v, L, calls[0], prim, ax, side, None, False)
    shp, p, org, chk, cb, _ = built[0]
    if same_shape(v, shp, (d,), "size of the block"):
        for j in range(d):
            v.post(f"size of the block {j}", eq(shp(j), size if j == ax else shape(j)))
    v.post("a full block of the same kind", p is prim and chk is True and cb is None)
    if org is not None and same_shape(v, org, (d,), "origin"):
        v.forall("at the origin of the lattice", (d,), lambda j: eq(org(j), origin(j)))
    else:
        v.post("at the origin of the lattice", org is not None)
    for x, y, nm in zip(com[0], K, ("indices", "positions")):
        if same_shape(v, x, y.shape, f"neighbors of the block: {nm}"):
            v.forall(f"neighbors of the block: {nm}", y, lambda *i: eq(x(*i), y(*i)))
    block(v, calls[0][0], *K, N, M, d, "added block")
