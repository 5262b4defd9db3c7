import numpy as np
from common import *


def sizes(rng, k):
    """Mostly small tables, now and then beyond the 8-bit index range."""
    if k % 16 == 15:
        return dict(n=int(rng.choice([127, 128, 200, 254, 255, 256, 257, 300])), m=3)
    return {}


# ---------------------------------------------------------------- C08
@check("C08", "remove", 160, 1500)
def _(rng, k, info):
    kw = sizes(rng, k)
    data = rand_data(rng, **kw) if kw else rand_data(rng, n=int(rng.integers(2, 13)), dtype=None)
    n = data.num_sites
    info["before"] = (data.indices.tolist() if n < 20 else n, data.neighbors.tolist() if n < 20 else None)
    for rnd in range(2):
        n = data.num_sites
        if n < 2:
            break
        cnt = int(rng.integers(0 if k % 5 == 0 else 1, min(n, 7)))
        sites = rng.permutation(n)[:cnt]
        if rng.random() < 0.3 and cnt:
            sites = np.concatenate([sites, sites[:1]])
        arg = int(sites[0]) if cnt == 1 and len(sites) == 1 and k % 2 else (list(int(x) for x in sites) if k % 3 else sites)
        info["sites"] = [int(x) for x in sites]
        if isinstance(arg, list) and not arg:
            arg = np.array([], dtype=int)
        keep = np.array(sites, copy=True)
        before, b = view(data), snap(data)
        data.remove(arg)
        require(same(keep, sites), "argument unchanged")
        gone = set(int(x) for x in sites)
        left = [i for i in range(n) if i not in gone]
        new = {o: i for i, o in enumerate(left)}
        require(same(data.indices, b["indices"][left]) and same(data.positions, b["positions"][left]), "remaining sites keep index and position, in order")
        wellformed(data)
        after = view(data)
        require(len(after) == len(left), "number of sites")
        for i, o in enumerate(left):
            want = [(new[e[0]],) + e[1:] for e in before[o] if e[0] not in gone]
            require(sorted(after[i]) == sorted(want), "neighbors are the remaining ones, renumbered, with distance and periodic data", site=i, got=after[i], want=want)


@check("C08", "dangling", 120, 1000)
def _(rng, k, info):
    from lattpy.lattice import _filter_dangling
    kw = sizes(rng, k) or dict(n=int(rng.integers(2, 13)))
    ind, pos, nb, ds = rand_table(rng, symmetric=bool(k % 2), **kw)
    n = len(ind)
    mn = int(rng.integers(0, 4))
    info.update(neighbors=nb.tolist() if n < 20 else n, dists=ds.tolist() if n < 20 else n, min_neighbors=mn)
    cnt = np.isfinite(ds).sum(1)
    keep = frozen(ind, pos, nb, ds)
    bad = cnt < mn
    if bad.all():
        try:
            _filter_dangling(ind, pos, nb, ds, mn)
        except ValueError:
            return
        raise Fail("removing all sites is rejected")
    i2, p2, n2, d2 = _filter_dangling(ind, pos, nb, ds, mn)
    require(all(same(a, b) for a, b in zip(keep, (ind, pos, nb, ds))), "arguments unchanged")
    left = np.where(~bad)[0]
    new = {int(o): i for i, o in enumerate(left)}
    require(same(i2, ind[left]) and same(p2, pos[left]), "exactly the sites with enough neighbors remain, in order")
    for i, o in enumerate(left):
        want = sorted((new[int(j)], d) for j, d in zip(nb[o], ds[o]) if np.isfinite(d) and int(j) in new)
        got = sorted((int(j), d) for j, d in zip(n2[i], d2[i]) if np.isfinite(d))
        require(got == want, "neighbors are the remaining ones, renumbered", site=i, got=got, want=want)
        require(all(int(j) == len(left) for j, d in zip(n2[i], d2[i]) if not np.isfinite(d)), "unused entries carry the new number of sites")


@check("C08", "build_min_neighbors", 24, 200)
def _(rng, k, info):
    from k_build import rand_region, judge_sites
    s = rand_spec(rng, dim=1 + k % 3)
    info["spec"] = s
    latt, ref = s.make(), s.make()
    scale = float(np.max(np.linalg.norm(s.v, axis=1)))
    arg, pos, contains, lo, hi = rand_region(rng, s.dim, scale * (1.6 if s.dim < 3 else 0.8))
    m = len(sites_in(s, lambda x: contains(x, 9e-4), lo, hi))
    if m < 2 or m > 200:
        return
    mn = int(rng.integers(1, 5))
    info.update(region=(arg, pos), min_neighbors=mn)
    ref.build(arg, pos=pos)
    v = view(ref.data)
    left = [i for i in range(ref.num_sites) if len(v[i]) >= mn]
    if not left:
        return
    latt.build(arg, pos=pos, min_neighbors=mn)
    new = {o: i for i, o in enumerate(left)}
    require(same(latt.data.indices, ref.data.indices[left]) and same(latt.data.positions, ref.data.positions[left]), "exactly the sites with enough neighbors remain")
    wellformed(latt.data)
    got = view(latt.data)
    for i, o in enumerate(left):
        want = sorted((new[e[0]],) + e[1:] for e in v[o] if e[0] in new)
        require(sorted(got[i]) == want, "induced neighbors", site=i, got=got[i], want=want)


# ---------------------------------------------------------------- C09
def judge_relabel(data, b, before, perm):
    """perm[new] = old"""
    n = len(perm)
    inv = {int(o): i for i, o in enumerate(perm)}
    require(same(data.indices, b["indices"][perm]) and same(data.positions, b["positions"][perm]), "indices and positions are carried along")
    wellformed(data)
    after = view(data)
    for i in range(n):
        want = [(inv[e[0]],) + e[1:] for e in before[int(perm[i])]]
        require(sorted(after[i]) == sorted(want), "neighbor relation is relabeled consistently", site=i, got=after[i], want=want)
        row = lambda x, y, z: sorted(zip(x.tolist(), y.tolist(), z.tolist()))
        o = int(perm[i])
        require(row(data.distances[i], data.pmask[i], data.paxes[i]) == row(b["distances"][o], b["pmask"][o], b["paxes"][o]), "periodic axes are carried along", site=i)


@check("C09", "sort", 160, 1500)
def _(rng, k, info):
    data = rand_data(rng, **sizes(rng, k))
    n, dim = data.num_sites, data.dim
    info["before"] = (data.indices.tolist() if n < 20 else n, data.neighbors.tolist() if n < 20 else None)
    rev = bool(rng.random() < 0.4)
    before, b = view(data), snap(data)
    if k % 2:
        ax = int(rng.integers(0, dim + 1))
        info["ax"] = (ax, rev)
        data.sort(ax, reverse=rev)
        col = data.indices[:, ax]
        require(np.all(np.diff(col) <= 0) if rev else np.all(np.diff(col) >= 0), "rows ordered along the axis", col=col.tolist())
        perm = np.argsort(b["indices"][:, ax], kind="stable")
        # identify the permutation through the positions (ties may be broken in any way)
        key = {tuple(p) + tuple(q): i for i, (p, q) in enumerate(zip(b["positions"].tolist(), b["indices"].tolist()))}
        if len(key) < n:
            return
        require(set(tuple(p) + tuple(q) for p, q in zip(data.positions.tolist(), data.indices.tolist())) == set(key), "sites are permuted")
        perm = np.array([key[tuple(p) + tuple(q)] for p, q in zip(data.positions.tolist(), data.indices.tolist())], dtype=int)
        judge_relabel(data, b, before, perm)
    else:
        perm = rng.permutation(n)
        p0 = perm.copy()
        info["perm"] = (perm.tolist(), rev)
        data.sort(indices=perm, reverse=rev)
        require(same(perm, p0), "argument unchanged")
        judge_relabel(data, b, before, perm[::-1] if rev else perm)


@check("C09", "sort_neighbors", 120, 1000)
def _(rng, k, info):
    data = rand_data(rng, **sizes(rng, k))
    n = data.num_sites
    info["before"] = (data.neighbors.tolist() if n < 20 else n, data.distances.tolist() if n < 20 else n)
    before, b = view(data), snap(data)
    rows = [sorted(zip(b["neighbors"][i].tolist(), b["distances"][i].tolist(), b["pmask"][i].tolist(), b["pnvecs"][i].tolist(), b["paxes"][i].tolist())) for i in range(n)]
    data.sort_neighbors()
    require(same(data.indices, b["indices"]) and same(data.positions, b["positions"]), "sites unchanged")
    wellformed(data)
    for i in range(n):
        got = sorted(zip(data.neighbors[i].tolist(), data.distances[i].tolist(), data.pmask[i].tolist(), data.pnvecs[i].tolist(), data.paxes[i].tolist()))
        require(got == rows[i], "each row is permuted as a whole", site=i)
        d = data.distvals[data.distances[i]]
        require(all(x <= y for x, y in zip(d, d[1:])), "rows are ordered by distance", site=i, got=d.tolist())


# ---------------------------------------------------------------- C12
@check("C12", "queries", 160, 1500)
def _(rng, k, info):
    data = rand_data(rng, **sizes(rng, k))
    n, m = data.neighbors.shape
    if k % 3 == 0 and n > 1:      # self entries (periodic lattices of one site)
        i = int(rng.integers(0, n))
        free = np.where(data.distances[i] == data.invalid_distidx)[0]
        if len(free):
            data.neighbors[i, free[0]], data.distances[i, free[0]], data.pmask[i, free[0]] = i, 0, True
    info["table"] = (data.neighbors.tolist() if n < 20 else n, data.distances.tolist() if n < 20 else n)
    b = snap(data)
    for i in (range(n) if n < 20 else rng.integers(0, n, size=8)):
        i = int(i)
        for lev in [None] + list(range(int(data.invalid_distidx))):
            for per in (None, True, False):
                for uni in (False, True):
                    want = [j for j in range(m) if data.distances[i, j] != data.invalid_distidx
                            and (lev is None or data.distances[i, j] == lev)
                            and (per is None or bool(data.pmask[i, j]) == per)
                            and (not uni or int(data.neighbors[i, j]) > i)]
                    mask = np.asarray(data.neighbor_mask(i, lev, per, uni))
                    require(mask.shape == (m,) and np.where(mask)[0].tolist() == want, "mask selects exactly the matching entries", site=i, level=lev, periodic=per, unique=uni, got=np.where(mask)[0].tolist(), want=want)
                    got = data.get_neighbors(i, lev, per, uni)
                    require([int(x) for x in got] == [int(data.neighbors[i, j]) for j in want], "query returns the selected neighbors in table order", site=i)
        for uni in (False, True):
            seen = list(data.iter_neighbors(i, unique=uni))
            levs = [int(a) for a, _ in seen]
            require(levs == sorted(set(levs)), "levels ascend")
            valid = sorted(set(int(x) for x in data.distances[i] if x != data.invalid_distidx))
            require(levs == valid, "iteration visits every level of the site", got=levs, want=valid)
            for a, nb in seen:
                want = [int(data.neighbors[i, j]) for j in range(m) if data.distances[i, j] == a and (not uni or data.neighbors[i, j] > i)]
                require([int(x) for x in nb] == want, "iteration yields the neighbors of the level")
    require(unchanged(b, snap(data)), "queries change nothing")


def shell_lattice(data):
    """A Lattice object around given data (for the Lattice-level queries)."""
    from lattpy import Lattice
    latt = Lattice(np.eye(data.dim))
    for a in range(3):
        latt.add_atom(np.full(data.dim, a / 4))
    latt.add_connections(1)
    latt.data = data
    latt.primitive = False
    latt._update_shape()
    return latt


@check("C12", "lattice_queries", 100, 800)
def _(rng, k, info):
    data = rand_data(rng, **sizes(rng, k))
    latt = shell_lattice(data)
    n, m = data.neighbors.shape
    info["table"] = (data.neighbors.tolist() if n < 20 else n, data.distances.tolist() if n < 20 else n)
    b = snap(data)
    for i in (range(n) if n < 20 else rng.integers(0, n, size=6)):
        i = int(i)
        lev = {}
        for j in range(m):
            if data.distances[i, j] != data.invalid_distidx:
                lev.setdefault(int(data.neighbors[i, j]), int(data.distances[i, j]))
        for j in (range(n) if n < 20 else rng.integers(0, n, size=20)):
            j = int(j)
            got = latt.check_neighbors(i, j)
            require(got == lev.get(j), "pair check returns the level or nothing", i=i, j=j, got=got, want=lev.get(j))
        for uni in (False, True):
            f = lambda l: [int(data.neighbors[i, j]) for j in range(m) if data.distances[i, j] != data.invalid_distidx and (l is None or data.distances[i, j] == l) and (not uni or data.neighbors[i, j] > i)]
            require([int(x) for x in latt.neighbors(i, unique=uni)] == f(None), "neighbors")
            require([int(x) for x in latt.nearest_neighbors(i, unique=uni)] == f(0), "nearest neighbors are the first level")
            for l in range(int(data.invalid_distidx)):
                require([int(x) for x in latt.neighbors(i, l, uni)] == f(l), "neighbors of a level")
            require([(int(a), [int(x) for x in q]) for a, q in latt.iter_neighbors(i, uni)] ==
                    [(l, f(l)) for l in range(int(data.invalid_distidx)) if l in set(data.distances[i].tolist())], "iteration")
    require(unchanged(b, snap(data)), "queries change nothing")


# ---------------------------------------------------------------- C13
def expected_map(data):
    out = [(i, i, -int(data.indices[i, -1]) - 1) for i in range(data.num_sites)]
    for i in range(data.num_sites):
        for j, l in zip(data.neighbors[i], data.distances[i]):
            if l != data.invalid_distidx:
                out.append((i, int(j), int(l)))
    return sorted(out)


def actual_map(m):
    return sorted(zip((int(x) for x in m.rows), (int(x) for x in m.cols), (int(x) for x in m._map)))


@check("C13", "map", 160, 1500)
def _(rng, k, info):
    data = rand_data(rng, **sizes(rng, k))
    n = data.num_sites
    info["table"] = (data.neighbors.tolist() if n < 20 else n, data.distances.tolist() if n < 20 else n, data.indices[:, -1].tolist() if n < 20 else n)
    b = snap(data)
    mp = data.map()
    want = expected_map(data)
    require(actual_map(mp) == want, "one on-site entry per site plus one entry per valid neighbor", got=actual_map(mp)[:30], want=want[:30])
    require(mp.size == len(want), "size")
    require(same(mp.indices, np.array([mp.rows, mp.cols])), "indices are rows and columns")
    require(np.all(np.diff(mp.rows.astype(int)) >= 0), "entries are ordered by row")
    raw = [int(x) for x in mp._map]
    for a in [None, 0, 1, 2]:
        w = [x < 0 if a is None else x == -a - 1 for x in raw]
        require(np.asarray(mp.onsite(a)).tolist() == w, "on-site mask", alpha=a)
    for l in [None] + list(range(int(data.invalid_distidx))):
        w = [x >= 0 if l is None else x == l for x in raw]
        require(np.asarray(mp.hopping(l)).tolist() == w, "hopping mask", level=l)
    z = mp.zeros()
    require(z.shape == (mp.size,) and not z.any() and mp.zeros(3).shape == (mp.size, 3, 3), "value arrays")
    pairs = {}
    vals = rng.uniform(1, 2, size=mp.size)
    dense = np.zeros((n, n))
    for r, c, v in zip(mp.rows, mp.cols, vals):
        dense[int(r), int(c)] += v
    csr = mp.build_csr(vals, shape=(n, n))
    require(csr.shape == (n, n) and close(csr.toarray(), dense), "csr matrix places the values")
    if k % 2:
        blocks = rng.uniform(1, 2, size=(mp.size, 2, 2))
        dense = np.zeros((2 * n, 2 * n))
        for r, c, v in zip(mp.rows, mp.cols, blocks):
            r, c = int(r), int(c)
            dense[2 * r:2 * r + 2, 2 * c:2 * c + 2] += v
        bsr = mp.build_bsr(blocks, shape=(2 * n, 2 * n))
        require(close(bsr.toarray(), dense), "bsr matrix places the blocks")
    require(unchanged(b, snap(data)), "the table is unchanged")


@check("C13", "pairs_adjacency", 120, 1000)
def _(rng, k, info):
    data = rand_data(rng, **sizes(rng, k))
    latt = shell_lattice(data)
    n = data.num_sites
    info["table"] = (data.neighbors.tolist() if n < 20 else n, data.distances.tolist() if n < 20 else n)
    b = snap(data)
    want = sorted(x for x in expected_map(data) if x[2] >= 0)
    for uni in (False, True):
        p, l = latt.neighbor_pairs(unique=uni)
        got = sorted((int(i), int(j), int(d)) for (i, j), d in zip(p, l))
        w = [x for x in want if not uni or x[0] < x[1]]
        require(got == w, "pair list mirrors the table", unique=uni, got=got[:20], want=w[:20])
    A = latt.adjacency_matrix()
    require(A.shape == (n, n), "one row and column per site", got=A.shape)
    D = np.zeros((n, n), int)
    for i, j, l in want:
        D[i, j] += l + 1
    require(same(A.toarray().astype(int), D), "adjacency stores level + 1")
    require(actual_map(latt.dmap()) == expected_map(data), "map of the lattice")
    require(unchanged(b, snap(data)), "the table is unchanged")


@check("C13", "many_atoms", 6, 20)
def _(rng, k, info):
    """On-site labels for larger atom numbers and tables with several hundred sites."""
    n = int(rng.choice([130, 256, 300]))
    ind, pos, nb, ds = rand_table(rng, n=n, m=3, dim=2)
    ind[:, -1] = rng.integers(0, 100, size=n)
    from lattpy.data import LatticeData
    data = LatticeData(ind, pos, nb, ds)
    require(actual_map(data.map()) == expected_map(data), "map entries")


# ---------------------------------------------------------------- C14
@check("C14", "histories", 200, 2000)
def _(rng, k, info):
    from lattpy.data import LatticeData
    kw = dict(n=int(rng.choice([250, 254, 256])), m=3, dim=2) if k % 40 == 39 else dict(n=int(rng.integers(2, 9)), dim=2)
    data = rand_data(rng, **kw)
    hist = []
    info["history"] = hist
    ops = ["set_periodic", "remove_periodic", "remove", "sort", "sort_neighbors", "add_neighbors", "append", "map", "reset_set", "append_copy"]
    for _ in range(int(rng.integers(2, 7))):
        op = str(rng.choice(ops))
        if rng.random() < 0.7:
            data.map()
            hist.append("map")
        hist.append(op)
        n = data.num_sites
        if op == "set_periodic":
            add_periodic(rng, data)
        elif op == "remove_periodic":
            data.remove_periodic()
        elif op == "remove" and n > 2:
            data.remove([int(x) for x in rng.permutation(n)[: int(rng.integers(1, 3))]])
        elif op == "sort":
            data.sort(ax=int(rng.integers(0, 3)), reverse=bool(rng.random() < 0.5))
        elif op == "sort_neighbors":
            data.sort_neighbors()
        elif op == "add_neighbors" and n > 1:
            i, j = (int(x) for x in rng.permutation(n)[:2])
            if j not in [e[0] for e in view(data)[i]]:
                d = float(rng.choice(data.distvals[:-1])) if len(data.distvals) > 1 else 1.0
                data.add_neighbors(i, j, d)
                data.add_neighbors(j, i, d)
        elif op in ("append", "append_copy") and n < 400:
            other = rand_data(rng, dim=2, n=int(rng.integers(1, 5)))
            if op == "append":
                data.append(other)
            else:
                b = snap(data)
                new = data.append(other, copy=True)
                require(unchanged(b, snap(data)), "appending to a copy leaves the data unchanged", history=hist)
                require(actual_map(new.map()) == expected_map(new), "map of the joined copy")
        elif op == "reset_set":
            args = rand_table(rng, dim=2)
            if rng.random() < 0.5:
                data.reset()
            data.set(*args)
        b = snap(data)
        got, want = actual_map(data.map()), expected_map(data)
        require(got == want, "map equals the map computed from scratch", history=hist, got=got[:20], want=want[:20])
        require(unchanged(b, snap(data)), "requesting the map changes nothing")
        wellformed(data, "after " + ", ".join(hist) + ": ")


@check("C14", "lattice_histories", 40, 400)
def _(rng, k, info):
    s = rand_spec(rng, dim=1 + k % 2)
    latt = s.make()
    L = float(np.max(np.linalg.norm(s.v, axis=1)))
    hist = []
    info.update(spec=s, history=hist)
    latt.build(tuple([2.1 * L] * s.dim))
    for _ in range(4):
        op = str(rng.choice(["periodic", "off", "build", "repeat", "sort", "extend"]))
        if rng.random() < 0.8:
            latt.dmap()
        hist.append(op)
        if op == "periodic":
            latt.set_periodic(int(rng.integers(0, s.dim)) if rng.random() < 0.5 else True)
        elif op == "off":
            latt.set_periodic(None)
        elif op == "build":
            latt.build(tuple(float(x) * L for x in rng.choice([1.1, 2.1, 3.1], size=s.dim)))
        elif op == "repeat" and latt.num_sites < 60:
            latt.repeat()
        elif op == "extend" and latt.num_sites < 60:
            latt.extend(1.1 * L)
        elif op == "sort":
            latt.data.sort(0, reverse=True)
        got, want = actual_map(latt.dmap()), expected_map(latt.data)
        require(got == want, "map equals the map computed from scratch", history=hist)


# ---------------------------------------------------------------- C15
@check("C15", "lookup", 120, 1000)
def _(rng, k, info):
    from lattpy.utils import create_lookup_table
    if k % 12 == 11:
        nval = int(rng.choice([255, 256, 257, 300, 700, 65536 if k % 24 == 23 else 400]))
        vals = np.arange(nval) * 0.5
        arr = np.concatenate([vals, rng.choice(vals, size=50)])[rng.permutation(nval + 50)]
    else:
        sh = tuple(int(x) for x in rng.integers(1, 6, size=int(rng.integers(1, 4))))
        vals = np.round(rng.uniform(-5, 5, size=int(rng.integers(1, 8))), 2)
        if k % 2:
            vals = np.append(vals, np.inf)
        if k % 4 == 1:          # different values that lie close to each other
            vals = np.concatenate([vals, vals * (1 + 1e-9), np.nextafter(vals, 10)])
        arr = rng.choice(vals, size=sh)
        if k % 5 == 0:
            arr = np.array(rng.integers(-5, 6, size=sh))
    info["array"] = arr.tolist() if arr.size < 100 else (arr.shape, len(np.unique(arr)))
    keep = frozen(arr)
    v, i = create_lookup_table(arr if k % 3 else arr.tolist())
    require(same(arr, keep[0]), "argument unchanged")
    require(len(v) == len(set(arr.ravel().tolist())) and np.all(v[:-1] < v[1:]), "distinct values in ascending order")
    require(i.shape == arr.shape and np.issubdtype(i.dtype, np.integer), "index array")
    require(same(v[i], arr), "lookup reproduces the array")
    v2, i2 = create_lookup_table(arr, dtype=np.int64)
    require(same(v2[i2], arr) and i2.dtype == np.int64, "lookup with a given data type")


@check("C15", "min_dtype", 200, 2000)
def _(rng, k, info):
    from lattpy.utils import min_dtype
    edges = [0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40]
    edges = edges + [-x for x in edges]
    n = int(rng.integers(1, 4))
    vals = [int(rng.choice(edges)) if rng.random() < 0.7 else int(rng.integers(-70000, 70000)) for _ in range(n)]
    if k < len(edges):
        vals = [edges[k]]
    signed = bool(rng.random() < 0.5)
    info.update(vals=vals, signed=signed)
    for sg in (signed,) if n > 1 else (True, False):
        dt = min_dtype(np.array(vals) if n > 1 or k % 2 else vals[0], signed=sg)
        ii = np.iinfo(dt)
        require(all(ii.min <= v <= ii.max for v in vals), "every value fits", dtype=str(dt), signed=sg)
        if sg or min(vals) < 0:
            require(ii.min < 0, "signed type where requested or needed", dtype=str(dt))


@check("C15", "set", 120, 1000)
def _(rng, k, info):
    from lattpy.data import LatticeData
    if k % 10 == 9:
        n = int(rng.choice([90, 140]))
        nb = np.array([[(i + 1) % n, (i + 2) % n, (i + 3) % n] for i in range(n)])
        ds = np.arange(3 * n).reshape(n, 3) * 0.25 + 1
        if k % 20 == 9:
            ds[0, 0], nb[0, 0] = np.inf, n
        ind, pos = np.zeros((n, 3), int), np.zeros((n, 2))
    else:
        ind, pos, nb, ds = rand_table(rng, full=bool(k % 3 == 0), **sizes(rng, k))
    info["dists"] = ds.tolist() if ds.size < 60 else ds.shape
    d = LatticeData(ind, pos, nb, ds)
    require(same(d.distvals[d.distances], ds), "stored distances are the given ones")
    require(same(d.indices, ind) and same(d.positions, pos) and same(d.neighbors, nb), "stored arrays are the given ones")
    require(np.isinf(d.distvals[d.invalid_distidx]) and np.all(d.distvals[:-1] < np.inf) and d.invalid_distidx == len(d.distvals) - 1, "the invalid level is separate and largest")
    require(not d.pmask.any() and not d.pnvecs.any(), "no periodic data")
    require(d.invalid_idx == len(ind), "invalid index")
    valid = np.isfinite(ds)
    for i in range(min(len(ind), 10)):
        require([int(x) for x in d.get_neighbors(i)] == [int(x) for x in nb[i][valid[i]]], "every finite entry is a neighbor")
