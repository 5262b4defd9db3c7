"""Neighbors in the infinite lattice (C07)."""
from .lib import *
from .p_config import configured
from .p_build import site_position
from engine.interp import VList, Key
import engine.arr as A


def analyzed(v, d, n, levels, order, cls="structure.LatticeStructure"):
    """A lattice after its analysis: per atom a table {distance: neighbor indices}, inserted in some order."""
    L, m, pos, atoms, con = configured(v, d, n, cls=cls)
    tables, dists = [], []
    for a in range(n):
        ds = [v.real(f"dist{a}_{l}") for l in range(levels)]
        for x, y in zip([z3.RealVal(0)] + ds, ds):
            v.pre(x < y)
        t, tab = {}, []
        for l in range(levels):
            K = v.size(f"K{a}_{l}", 1)
            x = v.arr(f"nb{a}_{l}", (K, d + 1), "int")
            v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(K)), lambda q: And(T(x(q[0], d)) >= 0, T(x(q[0], d)) < n), lambda q: [x(q[0], d)]))
            tab.append((K, x))
        for l in order:
            t[Key(ds[l])] = tab[l][1]
        tables.append(t)
        dists.append((ds, tab))
    L.f["_base_neighbors"] = vlist(tables)
    L.f["_positions"] = npm.asarray(L.f["_positions"])
    return L, m, pos, dists


ORD = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1)]}


@contract("C07", "queries", ["structure.LatticeStructure.get_neighbors", "structure.LatticeStructure.get_neighbor_positions", "structure.LatticeStructure.get_neighbor_vectors"],
          [{"d": d, "n": n, "order": o, "cell": c} for d in (1, 2, 3) for n in (1, 2) for lv in (1, 2, 3) for o in ORD[lv] for c in ("array", "home") if (lv < 3 or n == 1) and (d < 3 or lv == 1 or o == (1, 0))])
def _(v, d, n, order, cell):
    levels = len(order)
    L, m, pos, dists = analyzed(v, d, n, levels, order)
    x = v.arr("nvec", (d,), "int") if cell == "array" else None
    kw = {"nvec": x} if x is not None else {}
    cellv = [x(i) if x is not None else 0 for i in range(d)]
    fr = Frame(v, **({"nvec": x} if x is not None else {}), **{f"r{i}": p for i, p in enumerate(pos)}, **{f"table{a}_{l}": t[1] for a in range(n) for l, t in enumerate(dists[a][1])})
    for a in range(n):
        for l in range(levels):
            K, t = dists[a][1][l]
            nm = f"atom {a}, level {l}"
            r = v.meth(L, "get_neighbors", alpha=a, distidx=l, **kw)
            if same_shape(v, r, (K, d + 1), f"neighbors of {nm}"):
                v.post(f"neighbors of {nm}: integers", r.kind == "int")
                for i in range(d):
                    v.forall(f"neighbors of {nm}: cells shifted, component {i}", (K,), lambda k: eq(r(k, i), add(t(k, i), cellv[i])))
                v.forall(f"neighbors of {nm}: atoms", (K,), lambda k: eq(r(k, d), t(k, d)))
            p = v.meth(L, "get_neighbor_positions", alpha=a, distidx=l, **kw)
            w = v.meth(L, "get_neighbor_vectors", alpha=a, distidx=l) if x is None else None
            for what, arr_, cl, off in (("positions", p, cellv, None), ("vectors", w, [0] * d, pos[a])):
                if arr_ is not None and same_shape(v, arr_, (K, d), f"{what} of {nm}"):
                    for b in range(n):
                        for j in range(d):
                            def body(k):
                                q = site_position(m, pos[b], [add(t(k, i), cl[i]) for i in range(d)], d)[j]
                                return Implies(eq(t(k, d), b), eq(arr_(k, j), q if off is None else sub(q, off(j))))
                            v.forall(f"{what} of {nm}: neighbors of kind {b}, component {j}", (K,), body)
    if x is None:
        z = v.meth(L, "get_neighbor_vectors", alpha=0, distidx=0, include_zero=True)
        K = dists[0][1][0][0]
        if same_shape(v, z, (add(K, 1), d), "vectors with the zero vector"):
            w = v.meth(L, "get_neighbor_vectors", alpha=0, distidx=0)
            for j in range(d):
                v.post(f"zero vector first, component {j}", eq(z(0, j), 0))
                v.forall(f"then the neighbors, component {j}", (K,), lambda k: eq(z(add(k, 1), j), w(k, j)))
    fr.check()
    for a in range(n):
        t = L.f["_base_neighbors"][a]
        v.post(f"table of atom {a} unchanged", [k.t.get_id() for k in t] == [dists[a][0][l].get_id() for l in order] and all(t[Key(dists[a][0][l])] is dists[a][1][l][1] for l in order))


@summary("structure.LatticeStructure._compute_base_neighbors")
def raw_neighbors(ip, self, max_distidx, num_jobs=1):
    """Assumed (bounded check: concrete/): for every pair of atoms the neighbors by distance, nearest first."""
    g = ctx().ghost
    if "raw" not in g:
        raise Unsupported("analysis of another lattice")
    ctx().oblige("enough distances are requested", T(max_distidx) >= g["want"], "pre")
    self.f["_positions"] = npm.asarray(self.f["_positions"])
    return vlist([vlist([dict(t) for t in row]) for row in g["raw"]])


PAIRS = {1: [(0, 0)], 2: [(0, 0), (0, 1), (1, 0), (1, 1)]}
CONS = [{"d": 2, "n": 1, "levels": 3, "con": ((c,),)} for c in (1, 2, 3)] + [{"d": 2, "n": 2, "levels": 1, "con": ((1, 1), (1, 1))}, {"d": 2, "n": 2, "levels": 2, "con": ((0, 1), (1, 0))}, {"d": 2, "n": 2, "levels": 2, "con": ((1, 0), (0, 1))},
        {"d": 2, "n": 2, "levels": 2, "con": ((0, 2), (2, 1))}, {"d": 2, "n": 2, "levels": 2, "con": ((0, 2), (2, 0))},
        {"d": 1, "n": 2, "levels": 2, "con": ((1, 2), (2, 0))}, {"d": 3, "n": 2, "levels": 1, "con": ((1, 1), (1, 0))}, {"d": 3, "n": 1, "levels": 2, "con": ((1,),)}]


@contract("C07", "analyze", ["structure.LatticeStructure.analyze", "structure.LatticeStructure._analyze_raw"], CONS, use=["structure.LatticeStructure._compute_base_neighbors"])
def _(v, d, n, levels, con):
    L, m, pos, atoms, _c = configured(v, d, n)
    L.f["_connections"] = from_nested([list(r) for r in con], INT64)
    L.f["_base_neighbors"] = None
    raw, ds, tab = [[None] * n for _ in range(n)], {}, {}
    for a, b in PAIRS[n]:
        if a <= b:
            ds[a, b] = ds[b, a] = [v.real(f"dist{a}{b}_{l}") for l in range(levels)]
            for x, y in zip([z3.RealVal(0)] + ds[a, b], ds[a, b]):
                v.pre(x < y)
    for a, b in PAIRS[n]:
        tab[a, b] = []
        for l in range(levels):
            K = v.size(f"K{a}{b}_{l}", 1)
            tab[a, b].append((K, v.arr(f"nb{a}{b}_{l}", (K, d + 1), "int")))
        raw[a][b] = {Key(ds[a, b][l]): tab[a, b][l][1] for l in range(levels)}
    v.c.ghost.update(raw=raw, want=max(max(r) for r in con))
    fr = Frame(v, **{f"r{i}": p for i, p in enumerate(pos)}, **{f"raw{a}{b}_{l}": x for (a, b), t in tab.items() for l, (K, x) in enumerate(t)})
    v.meth(L, "analyze")
    fr.check()
    bn, dm = L.f["_base_neighbors"], L.f["_distance_matrix"]
    v.post("tables per atom", len(bn) == n and len(dm) == n and all(len(r) == n for r in dm))
    nn = v.get(L, "num_neighbors")
    same_shape(v, nn, (n,), "number of neighbors")
    dist = v.get(L, "distances")
    v.post("distances per atom", dist.ndim == 2 and eq(dist.axes[0].n, n))
    allk = []
    for a in range(n):
        keys = [k.t if isinstance(k, Key) else k for k in bn[a]]
        want = [(b, l) for b in range(n) for l in range(con[a][b])]
        for b in range(n):
            v.post(f"distances of pair {a},{b}", len(dm[a][b]) == con[a][b] and And(*[eq(x, y) for x, y in zip(dm[a][b], ds[a, b])]))
        for i, k in enumerate(keys):
            v.post(f"level {i} of atom {a} is configured", Or(*[eq(k, ds[a, b][l]) for b, l in want]))
        for b, l in want:
            v.post(f"configured distance {l} of pair {a},{b} is a level", Or(*[eq(k, ds[a, b][l]) for k in keys]))
        for i, j in itertools.combinations(range(len(keys)), 2):
            v.post(f"levels {i},{j} of atom {a} differ", Not(eq(keys[i], keys[j])))
        tot = 0
        for k in keys:
            t = bn[a][Key(T(k))]
            # neighbors at this distance: those of all pairs configured to it, pair by pair
            parts = [(b, l) for b, l in want if v.c.decide(eq(k, ds[a, b][l]))]
            size = summ(tab[a, b][l][0] for b, l in parts)
            tot = add(tot, size)
            if same_shape(v, t, (size, d + 1), f"table of atom {a}"):
                off = 0
                for b, l in parts:
                    K, x = tab[a, b][l]
                    for j in range(d + 1):
                        v.forall(f"neighbors of atom {a} from pair {a},{b} at distance {l}, column {j}", (K,), lambda q: eq(t(add(q, off), j), x(q, j)))
                    off = add(off, K)
        v.post(f"number of neighbors of atom {a}", eq(nn(a), tot))
        allk += keys
        row = [dist(a, i) for i in range(len(keys))]
        for x, y in zip(row, row[1:]):
            v.post(f"distances of atom {a} ascend", lt(x, y))
        for i, x in enumerate(row):
            v.post(f"distance {i} of atom {a} is a level", Or(*[eq(x, k) for k in keys]))
    v.post("analyzed", v.raises(lambda: v.meth(L, "_assert_analyzed")) is None)
