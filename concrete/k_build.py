import itertools
import numpy as np
from common import *


def rand_region(rng, dim, scale, kind=None):
    """(argument for build, pos argument, contains(points, slack), lo, hi)"""
    from lattpy.shape import Shape, Circle, Donut, ConvexHull
    kind = kind or rng.choice(["tuple", "tuple", "shape", "circle", "donut", "hull"])
    off = rng.choice([0.0, 0.0, -3.0, 0.37, 5.0], size=dim) * scale
    if kind == "hull" and dim == 1:
        kind = "shape"
    size = rng.choice([0.8, 1.0, 2.0, 3.0, 2.6], size=dim) * scale
    box = lambda lo, hi: (lambda x, s: np.max(np.maximum(lo - x, x - hi), axis=1) <= s)
    if kind == "tuple":
        pos = None if rng.random() < 0.5 else off
        lo = np.zeros(dim) if pos is None else off
        arg = float(size[0]) if dim == 1 and rng.random() < 0.5 else tuple(float(x) for x in size)
        return arg, pos, box(lo, lo + size), lo, lo + size
    if kind == "shape":
        return Shape(size, pos=off), None, box(off, off + size), off, off + size
    r = float(rng.choice([1.0, 1.5, 2.2])) * scale
    if kind == "circle":
        return Circle(off, r), None, (lambda x, s: np.linalg.norm(x - off, axis=1) <= r + s), off - r, off + r
    if kind == "donut":
        r2 = float(rng.choice([0.3, 0.6])) * r
        return Donut(off, r, r2), None, (lambda x, s: (np.linalg.norm(x - off, axis=1) <= r + s) & (np.linalg.norm(x - off, axis=1) >= r2 - s)), off - r, off + r
    P = np.array(list(itertools.product(*zip(off, off + size))))
    return ConvexHull(P), None, box(off, off + size), off, off + size


def oracle_sites(spec, contains, lo, hi):
    """Sites surely inside / possibly inside (tolerance 1e-3 of the library, boundaries in between)."""
    inner = sites_in(spec, lambda x: contains(x, -1e-7), lo, hi)
    outer = sites_in(spec, lambda x: contains(x, 2e-3), lo - 1, hi + 1)
    exact = sites_in(spec, lambda x: contains(x, 9e-4), lo, hi)
    return inner, outer, exact


def judge_sites(spec, indices, positions, contains, lo, hi, where=""):
    inner, outer, exact = oracle_sites(spec, contains, lo, hi)
    keys = [tuple(int(x) for x in row) for row in indices]
    require(len(set(keys)) == len(keys), where + "no site is listed twice", dup=[k for k in keys if keys.count(k) > 1][:2])
    got = set(keys)
    miss = set(exact) - got
    require(not miss, where + "every site inside the shape is listed", missing=sorted(miss)[:4])
    extra = got - set(outer)
    require(not extra, where + "only sites inside the shape are listed", extra=sorted(extra)[:4])
    want = np.array([np.array(k[:-1]) @ spec.v + spec.atoms[k[-1]] for k in keys]).reshape(len(keys), spec.dim)
    require(close(positions, want), where + "positions belong to the indices")
    return keys


def spec_for_build(rng, k, info, **kw):
    dim = kw.pop("dim", None) or (1 + k % 3)
    if "skew" in kw:
        kw.pop("skew")
        n = int(rng.choice([1, 2, 3]))
        v = rand_basis(rng, dim)
        fr = []
        while len(fr) < n:
            f = rng.choice([0, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99], size=dim) if fr or rng.random() < 0.4 else np.zeros(dim)
            if all(np.linalg.norm(f - g) > 0.05 for g in fr):
                fr.append(f)
        s = Spec(v, fr, np.ones((n, n), int))
    else:
        s = rand_spec(rng, dim=dim, **kw)
    info["spec"] = s
    return s, dim


@check("C05", "build_indices", 120, 1000)
def _(rng, k, info):
    s, dim = spec_for_build(rng, k, info, skew=True)
    from lattpy import LatticeStructure, Lattice
    latt = (Lattice if k % 2 else LatticeStructure)(s.v.copy())
    for p in s.atoms:
        latt.add_atom(p.copy())
    scale = abs(np.linalg.det(s.v)) ** (1 / dim)
    arg, pos, contains, lo, hi = rand_region(rng, dim, scale)
    info["region"] = (arg, pos, lo, hi)
    keep = frozen(pos if pos is not None else 0)
    ind, p = latt.build_indices(arg, pos=pos, return_pos=True)
    keys = judge_sites(s, ind, p, contains, lo, hi)
    require(ind.shape[1] == dim + 1, "index columns")
    require(same(keep[0], pos if pos is not None else 0), "arguments unchanged")
    ind2, p2 = latt.build_indices(arg, pos=pos)
    require(p2 is None and same(ind, ind2), "positions are only returned on request")
    require(close(latt.get_positions(ind), p), "get_positions agrees")
    for key in keys[:5]:
        require(close(latt.get_position(key[:-1], key[-1]), s.atoms[key[-1]] + np.array(key[:-1]) @ s.v), "get_position agrees")
    # user filter
    c = (lo + hi) / 2
    f = lambda i, x: x[:, 0] <= c[0] + 0.01
    ind3, p3 = latt.build_indices(arg, pos=pos, callback=f, return_pos=True)
    sel = p[:, 0] <= c[0] + 0.01
    require(same(ind3, ind[sel]) and same(p3, p[sel]), "the filter keeps exactly the accepted sites in order")
    # sort order along the first axis
    require(np.all(np.diff(ind[:, 0]) >= 0), "sites are ordered along the first cell axis")


@check("C05", "build", 60, 500)
def _(rng, k, info):
    s, dim = spec_for_build(rng, k, info)
    latt = s.make()
    arg, pos, contains, lo, hi = rand_region(rng, dim, float(np.mean(np.linalg.norm(s.v, axis=1))))
    info["region"] = (arg, pos, lo, hi)
    inner, outer, exact = oracle_sites(s, contains, lo, hi)
    if len(outer) < 2 or len(exact) < 2:
        return
    latt.build(arg, pos=pos)
    keys = judge_sites(s, latt.data.indices, latt.data.positions, contains, lo, hi)
    require(latt.num_sites == len(keys), "number of sites")
    p = latt.data.positions
    require(close(latt.shape, p.max(0) - p.min(0)) and close(latt.pos, p.min(0)), "shape and position are the extents of the sites")


@check("C05", "large", 3, 12)
def _(rng, k, info):
    import lattpy as lp
    case = k % 3
    if case == 0:
        n = int(rng.integers(180, 700))
        off = int(rng.integers(-400, 10))
        info["chain"] = (n, off)
        latt = lp.simple_chain()
        latt.build(n, pos=off)
        require(latt.num_sites == n + 1, "all sites of a long chain", got=latt.num_sites, want=n + 1)
        require(close(np.sort(latt.positions[:, 0]), np.arange(off, off + n + 1)), "positions")
    elif case == 1:
        latt = lp.simple_square()
        latt.build((150, 3), pos=(-140, -1))
        require(latt.num_sites == 151 * 4, "all sites of a stripe", got=latt.num_sites)
        want = set(itertools.product(range(-140, 11), range(-1, 3)))
        require({tuple(int(y) for y in x[:2]) for x in latt.indices} == want, "cells")
    else:
        a = float(rng.choice([49.0, 0.1, 0.3, 1 / 3, 0.7]))
        n = int(rng.integers(2, 40))
        info["chain"] = (a, n)
        latt = lp.simple_chain(a)
        latt.build(a * n)
        require(latt.num_sites == n + 1, "upper boundary site included", got=latt.num_sites, want=n + 1)


@check("C05", "translation_vectors", 60, 400)
def _(rng, k, info):
    s, dim = spec_for_build(rng, k, info, skew=True)
    from lattpy import LatticeStructure
    latt = LatticeStructure(s.v.copy())
    latt.add_atom()
    s0 = Spec(s.v, [np.zeros(dim)], [[1]])
    scale = abs(np.linalg.det(s.v)) ** (1 / dim)
    arg, pos, contains, lo, hi = rand_region(rng, dim, scale, kind="tuple")
    info["region"] = (arg, pos, lo, hi)
    for check_ in (True, False):
        nv = latt.build_translation_vectors(arg, pos=pos, check=check_)
        keys = [tuple(int(x) for x in r) for r in nv]
        require(len(set(keys)) == len(keys), "no translation vector twice")
        inner, outer, exact = oracle_sites(s0, contains, lo, hi)
        require({x[:-1] for x in exact} <= set(keys), "every translation vector into the shape is listed", missing=sorted({x[:-1] for x in exact} - set(keys))[:3])
        if check_:
            require(set(keys) <= {x[:-1] for x in outer}, "only translation vectors into the shape")


# ---------------------------------------------------------------- C06
def judge_table(spec, data, where="", allow_periodic=False):
    wellformed(data, where)
    keys = [tuple(int(x) for x in r) for r in data.indices]
    want = edges_of(spec, keys, data.positions)
    vw = view(data)
    for i, row in enumerate(vw):
        js = [e[0] for e in row if not e[2]]
        require(len(set(js)) == len(js), where + "each neighbor is listed once", site=i, row=row)
        got = {e[0]: e[1] for e in row if not e[2]}
        require(set(got) == set(want[i]), where + "neighbors are exactly the configured connections", site=keys[i],
                missing=[keys[j] for j in set(want[i]) - set(got)][:3], extra=[keys[j] for j in set(got) - set(want[i])][:3])
        for j, d in got.items():
            require(abs(d - want[i][j]) < 1e-9, where + "stored distance", i=keys[i], j=keys[j], got=d, want=want[i][j])
        if not allow_periodic:
            require(not any(e[2] for e in row), where + "no periodic neighbors")
    return keys, want


@check("C06", "neighbors", 90, 700)
def _(rng, k, info):
    s, dim = spec_for_build(rng, k, info, maxconn=3 if k % 4 == 0 else 2)
    latt = s.make()
    scale = float(np.max(np.linalg.norm(s.v, axis=1)))
    arg, pos, contains, lo, hi = rand_region(rng, dim, scale * (1.6 if dim < 3 else 0.9))
    info["region"] = (arg, pos)
    n = len(sites_in(s, lambda x: contains(x, 9e-4), lo, hi))
    if n < 2 or n > 260:
        return
    latt.build(arg, pos=pos)
    keys, want = judge_table(s, latt.data)
    # public queries
    for i in rng.permutation(len(keys))[:8]:
        i = int(i)
        got = sorted(int(j) for j in latt.neighbors(i))
        require(got == sorted(want[i]), "query returns exactly the neighbors", site=keys[i])
        ds = [want[i][int(j)] for j in latt.neighbors(i)]
        require(ds == sorted(ds), "neighbors are ordered by distance after building")


@check("C06", "special", 40, 200)
def _(rng, k, info):
    """Configurations in which most atoms in range are not connected, or every slot is used."""
    case = k % 5
    if case == 0:
        b = float(rng.choice([6, 10, 20]))
        s = Spec([[1, 0], [0, b]], [[0, 0], [0, 0.5]], [[0, 1], [1, 0]])
        size = (float(rng.integers(1, 7)), 2 * b)
    elif case == 1:
        b = float(rng.choice([6, 10, 20]))
        s = Spec([[1, 0], [0, b]], [[0, 0], [0, 0.25]], [[0, 1], [1, 0]])
        size = (float(rng.integers(1, 4)), b * 0.3)
    elif case == 2:
        s = Spec([[1.0]], [[0], [0.1]], [[0, 1], [1, 0]])
        size = (0.5,)
    elif case == 3:
        s = Spec(np.eye(2), [[0, 0], [0.5, 0.5], [0.5, 0]], [[1, 0, 0], [0, 2, 0], [0, 0, 3]])
        size = (3.0, 3.0)
    else:
        s = Spec(np.diag([1.0, 1.3, 1.7]), [[0, 0, 0], [0.5, 0.5, 0.5]], [[3, 0], [0, 1]])
        size = (2.0, 2.6, 1.7)
    s.analyze()
    info.update(spec=s, size=size)
    latt = s.make()
    latt.build(size)
    judge_table(s, latt.data)


@check("C06", "large", 3, 10)
def _(rng, k, info):
    import lattpy as lp
    if k % 3 == 0:
        latt = lp.simple_chain(neighbors=2)
        n = int(rng.integers(250, 320))
        latt.build(n)
        wellformed(latt.data)
        for i in range(n + 1):
            want = sorted(j for j in (i - 2, i - 1, i + 1, i + 2) if 0 <= j <= n)
            require(sorted(int(x) for x in latt.neighbors(i)) == want, "chain neighbors", i=i)
    elif k % 3 == 1:
        s = Spec(np.eye(2), [[0, 0]], [[2]]).analyze()
        latt = s.make()
        latt.build((20, 15))
        judge_table(s, latt.data)
    else:
        s = Spec(0.5 * np.array([[3, 3 ** .5], [3, -3 ** .5]]), [[0, 0], [1 / 3, 1 / 3]], [[1, 1], [1, 1]]).analyze()
        latt = s.make()
        latt.build((14, 14))
        judge_table(s, latt.data)


@check("C06", "compute_neighbors", 40, 300)
def _(rng, k, info):
    s, dim = spec_for_build(rng, k, info)
    latt = s.make()
    # arbitrary (not box-like) set of sites
    cells = [c for c in itertools.product(range(-2, 3), repeat=dim)]
    keys = [tuple(c) + (a,) for c in cells for a in range(len(s.atoms))]
    sel = rng.permutation(len(keys))[: int(rng.integers(2, 60))]
    keys = [keys[i] for i in sel]
    ind = np.array(keys)
    pos = np.array([np.array(x[:-1]) @ s.v + s.atoms[x[-1]] for x in keys])
    keep = frozen(ind, pos)
    nb, ds = latt.compute_neighbors(ind, pos)
    require(same(ind, keep[0]) and same(pos, keep[1]), "arguments unchanged")
    want = edges_of(s, keys, pos)
    for i in range(len(keys)):
        got = [(int(j), float(d)) for j, d in zip(nb[i], ds[i]) if np.isfinite(d)]
        require(all(0 <= j < len(keys) for j, _ in got), "neighbor in range")
        require(len({j for j, _ in got}) == len(got), "each neighbor once")
        require({j for j, _ in got} == set(want[i]), "exactly the configured connections", site=keys[i], got=got, want=want[i])
        require(all(abs(want[i][j] - d) < 1e-9 for j, d in got), "distances")
        require(all(j == len(keys) for j, d in zip(nb[i], ds[i]) if not np.isfinite(d)), "invalid entries are marked")


EDGE_SIZES = [256, 128, 255, 257, 127, 129, 254, 258]


def chain_table(data, n, neighbors, clause, periodic=False):
    """Every site of a chain has exactly its neighbors within the given range."""
    require(data.num_sites == n, "number of sites", got=data.num_sites, want=n)
    wellformed(data)
    for i in range(n):
        js = [i + s * r for r in range(1, neighbors + 1) for s in (-1, 1)]
        want = sorted(j % n for j in js) if periodic else sorted(j for j in js if 0 <= j < n)
        got = sorted(int(x) for x, d in zip(data.neighbors[i], data.distances[i]) if int(d) != data.invalid_distidx and 0 <= int(x) < n)
        require(got == want, clause, site=i, got=got, want=want)
        require(sorted(int(x) for x in data.get_neighbors(i)) == want, clause + " (query)", site=i)


@check("C06", "type_boundaries", 2, 8)
def _(rng, k, info):
    """Numbers of sites at the boundaries of the narrow integer types."""
    import lattpy as lp
    n, r = EDGE_SIZES[k % len(EDGE_SIZES)], 1 + k % 2
    info.update(sites=n, neighbors=r)
    latt = lp.simple_chain(neighbors=r)
    latt.build(n - 1)
    chain_table(latt.data, n, r, "chain neighbors")


@check("C08", "type_boundaries", 2, 8)
def _(rng, k, info):
    import lattpy as lp
    n, r = EDGE_SIZES[k % len(EDGE_SIZES)], 1 + k % 2
    rem = [0] if k % 3 else [n, n + 1]
    info.update(sites=n, removed=rem)
    latt = lp.simple_chain(neighbors=r)
    latt.build(n + len(rem) - 1)
    latt.data.remove(rem)
    chain_table(latt.data, n, r, "chain neighbors after removing sites at the end")


@check("C10", "type_boundaries", 2, 8)
def _(rng, k, info):
    import lattpy as lp
    n, r = EDGE_SIZES[k % len(EDGE_SIZES)], 1
    a = int(rng.integers(2, n - 2))
    info.update(sites=n, first=a)
    latt, other = lp.simple_chain(neighbors=r), lp.simple_chain(neighbors=r)
    latt.build(a - 1)
    other.build(n - a - 1)
    latt.append(other)
    latt.data.sort(0)
    chain_table(latt.data, n, r, "chain neighbors after appending")


@check("C11", "type_boundaries", 2, 8)
def _(rng, k, info):
    import lattpy as lp
    n, r = EDGE_SIZES[k % len(EDGE_SIZES)], 1 + k % 2
    info.update(sites=n, neighbors=r)
    latt = lp.simple_chain(neighbors=r)
    latt.build(n - 1, periodic=0 if k % 3 == 0 else None)
    if k % 3:
        latt.set_periodic(0)
    chain_table(latt.data, n, r, "neighbors on the ring", periodic=True)


# ---------------------------------------------------------------- C07
@check("C07", "base", 60, 500)
def _(rng, k, info):
    s, dim = spec_for_build(rng, k, info, maxconn=3 if k % 3 == 0 else 2)
    from lattpy import LatticeStructure
    latt = s.make(LatticeStructure if k % 2 else None)
    n = len(s.atoms)
    for a in range(n):
        levels = {}
        for b in range(n):
            for d, cells in s.sh[a][b].items():
                levels.setdefault(d, set()).update(tuple(c) + (b,) for c in cells)
        ds = sorted(levels)
        got_levels = [float(x) for x in latt.distances[a] if x > 0]
        require(close(got_levels, ds), "distance levels are the configured ones, ascending", atom=a, got=got_levels, want=ds)
        require(int(latt.num_neighbors[a]) == sum(len(x) for x in levels.values()), "number of neighbors", got=int(latt.num_neighbors[a]))
        for i, d in enumerate(ds):
            nvec = rng.integers(-300, 300, size=dim)
            n0 = nvec.copy()
            for nv in (None, nvec, tuple(int(x) for x in nvec)):
                idx = latt.get_neighbors(nv, a, i)
                sh = np.zeros(dim, int) if nv is None else nvec
                got = [tuple(int(x) for x in r) for r in idx]
                want = {tuple(int(y) for y in np.array(c[:-1]) + sh) + (c[-1],) for c in levels[d]}
                require(len(got) == len(set(got)) and set(got) == want, "neighbors of a cell are the shifted neighbors", atom=a, level=i, nvec=nv,
                        missing=sorted(want - set(got))[:3], extra=sorted(set(got) - want)[:3])
                pos = latt.get_neighbor_positions(nv, a, i)
                wp = np.array([np.array(c[:-1]) @ s.v + s.atoms[c[-1]] for c in got])
                require(close(pos, wp), "neighbor positions")
            require(same(nvec, n0), "arguments unchanged")
            vec = latt.get_neighbor_vectors(a, i)
            wv = np.array([np.array(c[:-1]) @ s.v + s.atoms[c[-1]] - s.atoms[a] for c in [tuple(int(x) for x in r) for r in latt.get_neighbors(None, a, i)]])
            require(close(vec, wv), "neighbor vectors point from the atom to the neighbors")
            require(np.all(np.abs(np.linalg.norm(vec, axis=1) - d) < 1e-6), "neighbor vectors have the length of the level")
            vz = latt.get_neighbor_vectors(a, i, include_zero=True)
            require(close(vz, np.concatenate([np.zeros((1, dim)), wv])), "zero vector included on request", got=vz.tolist())
            for r, w in zip(latt.get_neighbors(None, a, i), wv):
                b = int(r[-1])
                back = [x for lv in range(len([x for x in latt.distances[b] if x > 0])) for x in latt.get_neighbor_vectors(b, lv)]
                require(any(np.allclose(x, -w, atol=1e-9) for x in back), "the reverse vector is a neighbor vector of the other atom")
            kk = rng.uniform(-3, 3, size=dim)
            require(abs(latt.fourier_weights(kk, a, i) - np.sum(np.exp(1j * wv @ kk))) < 1e-9, "fourier weights sum over the neighbor vectors")


@check("C07", "neighbor_cells", 60, 400)
def _(rng, k, info):
    from lattpy.basis import LatticeBasis
    dim = 1 + k % 3
    v = rand_reduced(rng, dim)
    L = LatticeBasis(v)
    info["vectors"] = v.tolist()
    di = int(rng.integers(0, 2 if dim == 3 else 3))
    for origin in (True, False):
        c = L.get_neighbor_cells(di, include_origin=origin, comparison=np.less_equal)
        keys = [tuple(int(x) for x in r) for r in c]
        require(len(keys) == len(set(keys)), "cells listed once")
        require(((0,) * dim in keys) == origin, "origin only on request")
        R = max(np.linalg.norm(np.array(x) @ v) for x in keys)
        f = di + 1
        want = {x for x in itertools.product(range(-f, f + 1), repeat=dim) if np.linalg.norm(np.array(x) @ v) < R - 1e-9}
        require(want - {(0,) * dim} <= set(keys), "all cells of the range up to the outermost distance are listed")
