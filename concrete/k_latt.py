"""C10 (append/extend/repeat), C11 (periodic boundary conditions), C19 (minimum distances)."""
import itertools
import numpy as np
from common import *
from k_build import rand_region, judge_table


def is_ortho(s):
    return close(s.v, np.diag(np.diag(s.v))) and np.all(np.diag(s.v) > 0)


def built(rng, k, info, cap=130, ortho=None, prim=None):
    """Random built lattice; returns (spec, lattice)."""
    while True:
        dim = 1 + k % 3 if rng.random() < 0.9 else 1
        s = rand_spec(rng, dim=dim, maxconn=2)
        if ortho is True and not is_ortho(s):
            s = Spec(np.diag(np.linalg.norm(s.v, axis=1)), s.fracs, s.conn)
            if s.ambiguous():
                continue
            s.analyze()
        scale = float(np.max(np.linalg.norm(s.v, axis=1)))
        p = bool(rng.random() < 0.25) if prim is None else prim
        latt = s.make()
        if p:
            n = rng.integers(1, 5 if dim < 3 else 3, size=dim)
            size = n * np.linalg.norm(s.v, axis=1)
            arg, pos = tuple(float(x) for x in size), None
            try:
                latt.build(arg, primitive=True)
            except ValueError:      # no site in the region
                continue
        else:
            arg, pos, contains, lo, hi = rand_region(rng, dim, scale * (1.3 if dim < 3 else 0.9),
                                                     kind=None if ortho is not True and rng.random() < 0.5 else "tuple")
            n = len(sites_in(s, lambda x: contains(x, 9e-4), lo, hi))
            if n < 2 or n > cap:
                continue
            latt.build(arg, pos=pos)
        if latt.num_sites < 2 or latt.num_sites > cap:
            continue
        info["spec"], info["shape"] = s, (arg, pos, "primitive" if p else "world")
        return s, latt


def keys_of(data):
    return [tuple(int(x) for x in r) for r in data.indices]


def period(s, latt, ax, keys=None):
    """The period along an axis (cell vector), by definition."""
    cells = np.array([k[:-1] for k in (keys or keys_of(latt.data))])
    if latt.primitive:
        out = np.zeros(s.dim, dtype=int)
        out[ax] = cells[:, ax].max() - cells[:, ax].min() + 1
        return out
    if is_ortho(s):
        out = np.zeros(s.dim, dtype=int)
        out[ax] = cells[:, ax].max() - cells[:, ax].min() + 1
        return out
    x = (cells @ s.v)[:, ax]
    lo, hi = min(0, s.v[:, ax].min()), max(0, s.v[:, ax].max())
    p = np.zeros(s.dim)
    p[ax] = x.max() - x.min() + (hi - lo) * 2 / 3
    f = p @ s.inv
    if np.any(np.abs(f - np.floor(f) - 0.5) < 1e-6):
        return None
    return np.round(f).astype(int)


# ---------------------------------------------------------------- C10
def judge_union(s, latt, before, bpos, added, ax, side, sorted_):
    """The lattice holds the sites `before` plus `added` shifted by one translation; correct table."""
    after = keys_of(latt.data)
    require(len(after) == len(before) + len(added), "number of sites", got=len(after), want=len(before) + len(added))
    if not (is_ortho(s) or latt.primitive) and len(set(after)) != len(after):
        return      # the placement is only claimed for orthogonal cells
    require(len(set(after)) == len(after), "no overlap", dup=[x for x in after if after.count(x) > 1][:2])
    if not sorted_:
        require(after[: len(before)] == before, "the original sites are unchanged and come first")
        require(same(latt.data.positions[: len(before)], bpos), "the original positions are unchanged")
        new = after[len(before):]
        shifts = {tuple(np.array(a[:-1]) - np.array(b[:-1])) + (a[-1] - b[-1],) for a, b in zip(new, added)}
        require(len(shifts) == 1, "the added sites are displaced by a single translation", shifts=sorted(shifts)[:3])
        sh = shifts.pop()
        require(sh[-1] == 0, "atoms are kept")
    else:
        require(set(before) <= set(after), "the original sites are kept")
        rest = sorted(set(after) - set(before))
        a0 = sorted(added)
        sh = tuple(np.array(rest[0][:-1]) - np.array(a0[0][:-1]))
        require(sorted(tuple(np.array(x[:-1]) + sh) + (x[-1],) for x in a0) == rest, "the added sites are displaced by a single translation")
    want = np.array([np.array(q[:-1]) @ s.v + s.atoms[q[-1]] for q in after])
    require(close(latt.data.positions, want, 1e-8), "positions belong to the indices")
    judge_table(s, latt.data)
    if is_ortho(s) or latt.primitive:
        c1 = np.array([q[ax] for q in before])
        c2 = np.array([q[ax] for q in added]) + sh[ax]
        if side > 0:
            require(c2.min() == c1.max() + 1, "added block starts directly after the original one", gap=int(c2.min() - c1.max()))
        else:
            require(c2.max() == c1.min() - 1, "added block ends directly before the original one", gap=int(c1.min() - c2.max()))
        require(all(x == 0 for i, x in enumerate(sh[: s.dim]) if i != ax) or not is_ortho(s), "no displacement along other axes", shift=sh)
    p = latt.data.positions
    require(close(latt.shape, p.max(0) - p.min(0)) and close(latt.pos, p.min(0)), "shape and position are updated")
    require(len(latt.periodic_axes) == 0, "periodic axes do not survive")


@check("C10", "append", 60, 400)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=70, ortho=True if k % 2 else None, prim=False if k % 5 else None)
    ax, side = int(rng.integers(0, s.dim)), int(rng.choice([1, -1]))
    info["args"] = (ax, side)
    other = s.make()
    if latt.primitive or k % 3:
        other = latt.copy()
    else:
        scale = float(np.max(np.linalg.norm(s.v, axis=1)))
        size = np.copy(latt.shape)
        size[ax] = float(rng.choice([1.0, 2.0, 3.0])) * scale
        try:
            other.build(tuple(float(x) for x in size), pos=latt.pos + float(rng.choice([0, 0, 5, -4])) * s.v[ax])
        except Exception:
            return
        if other.num_sites < 2 or other.num_sites > 90:
            return
        if not is_ortho(s):
            other = latt.copy()
    if rng.random() < 0.4:
        latt.set_periodic(int(rng.integers(0, s.dim)))
    if rng.random() < 0.4:
        other.set_periodic(True)
    sort = int(rng.integers(0, s.dim)) if rng.random() < 0.3 else None
    before, bpos, added = keys_of(latt.data), latt.data.positions.copy(), keys_of(other.data)
    o = snap(other.data)
    latt.append(other, ax, side, sort_ax=sort)
    require(unchanged(o, snap(other.data)), "the appended lattice is not modified")
    judge_union(s, latt, before, bpos, added, ax, side, sort is not None)


@check("C10", "repeat", 60, 400)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=60, ortho=True if k % 2 else None)
    ax, side, num = int(rng.integers(0, s.dim)), int(rng.choice([1, -1])), int(rng.choice([1, 1, 2, 3]))
    info["args"] = (ax, side, num)
    if rng.random() < 0.4:
        latt.set_periodic(True)
    sort = int(rng.integers(0, s.dim)) if rng.random() < 0.3 else None
    before, bpos = keys_of(latt.data), latt.data.positions.copy()
    if num == 1 or sort is not None:
        latt.repeat(1, ax, side, sort_ax=sort)
        judge_union(s, latt, before, bpos, before, ax, side, sort is not None)
        return
    latt.repeat(num, ax, side)
    after = keys_of(latt.data)
    require(len(after) == (num + 1) * len(before), "number of sites")
    if not (is_ortho(s) or latt.primitive) and len(set(after)) != len(after):
        return
    require(len(set(after)) == len(after), "all repetitions without overlap")
    require(after[: len(before)] == before, "original sites unchanged")
    judge_table(s, latt.data)
    if is_ortho(s):
        P = max(q[ax] for q in before) - min(q[ax] for q in before) + 1
        want = {q[:ax] + (q[ax] + side * r * P,) + q[ax + 1:] for q in before for r in range(num + 1)}
        require(set(after) == want, "repeated blocks lie side by side")


@check("C10", "extend", 60, 400)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=60, ortho=True, prim=False)
    ax, side = int(rng.integers(0, s.dim)), int(rng.choice([1, -1]))
    size = float(rng.choice([0.0, 1.0, 2.0, 3.0])) * s.v[ax, ax]
    info["args"] = (ax, side, size)
    if rng.random() < 0.4:
        latt.set_periodic(True)
    before, bpos = keys_of(latt.data), latt.data.positions.copy()
    ext = np.array(latt.shape, float)
    ext[ax] = size
    lo = np.array(latt.pos, float)
    inside = sites_in(s, lambda x: np.all((x >= lo - 9e-4) & (x <= lo + ext + 9e-4), axis=1), lo, lo + ext)
    if len(inside) < 2:
        return
    latt.extend(size, ax, side)
    after = keys_of(latt.data)
    require(after[: len(before)] == before, "the original sites are unchanged")
    judge_union(s, latt, before, bpos, sorted(inside, key=lambda q: 0) if False else [tuple(np.array(q[:-1])) + (q[-1],) for q in order_like(after[len(before):], inside)], ax, side, False)


def order_like(new, inside):
    """Source sites in the order of the added ones (the displacement is determined by the sets)."""
    ins = sorted(inside)
    srt = sorted(new)
    require(len(ins) == len(srt), "the added block has exactly the sites of the requested size", got=len(srt), want=len(ins))
    sh = np.array(srt[0][:-1]) - np.array(ins[0][:-1])
    return [tuple(int(x) for x in np.array(q[:-1]) - sh) + (q[-1],) for q in new] if {tuple(int(x) for x in np.array(q[:-1]) - sh) + (q[-1],) for q in new} == set(ins) else ins


@check("C10", "history", 25, 150)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=24, ortho=True, prim=False)
    log = info["ops"] = []
    for _ in range(int(rng.integers(2, 5))):
        if latt.num_sites > 90:
            break
        ax, side = int(rng.integers(0, s.dim)), int(rng.choice([1, -1]))
        before, bpos = keys_of(latt.data), latt.data.positions.copy()
        op = rng.choice(["append", "repeat", "periodic", "extend"])
        log.append((str(op), ax, side))
        if op == "append":
            latt.append(latt.copy(), ax, side)
            judge_union(s, latt, before, bpos, before, ax, side, False)
        elif op == "repeat":
            latt.repeat(1, ax, side)
            judge_union(s, latt, before, bpos, before, ax, side, False)
        elif op == "extend":
            latt.extend(s.v[ax, ax], ax, side)
            require(keys_of(latt.data)[: len(before)] == before, "original sites unchanged")
            require(len(set(keys_of(latt.data))) == latt.num_sites, "no overlap")
            judge_table(s, latt.data)
        else:
            latt.set_periodic(ax)


@check("C10", "data_append", 120, 900)
def _(rng, k, info):
    from lattpy.data import LatticeData
    dim = int(rng.integers(1, 4))
    n1, n2 = int(rng.choice([1, 2, 3, 5, 120, 200, 250])), int(rng.choice([1, 2, 4, 8, 120]))
    if k % 3:
        n1, n2 = min(n1, 5), min(n2, 8)
    d1 = rand_data(rng, n=n1, dim=dim)
    d2 = rand_data(rng, n=n2, dim=dim)
    info["data"] = (snap(d1), snap(d2))
    v1, v2 = view(d1), view(d2)
    s2 = snap(d2)
    s1 = snap(d1)
    raw = None
    if k % 2:
        d2.remove_periodic()
        s2 = snap(d2)
        v2 = view(d2)
        raw = (d2.indices, d2.positions, d2.neighbors, d2.distvals[d2.distances])
        keep = frozen(*raw)
    if k % 4 >= 2:
        new = d1.append(*(raw or (d2,)), copy=True)
        require(unchanged(s1, snap(d1)), "the data set itself is unchanged if a copy is requested")
    else:
        d1.append(*(raw or (d2,)))
        new = d1
    if raw:
        require(all(same(a, b) for a, b in zip(keep, raw)), "arguments unchanged")
    require(unchanged(s2, snap(d2)), "appended data unchanged")
    wellformed(new)
    require(new.num_sites == n1 + n2, "number of sites")
    require(same(new.positions, np.append(s1["positions"], s2["positions"], axis=0)), "positions are joined")
    require(same(new.indices, np.append(s1["indices"], s2["indices"], axis=0)), "indices are joined")
    want = [[(j, d, False, (0,) * dim) for j, d, p, _ in r if not p] for r in v1] + \
           [[(j + n1, d, False, (0,) * dim) for j, d, p, _ in r if not p] for r in v2]
    got = view(new)
    for i, (a, b) in enumerate(zip(got, want)):
        require(sorted(a) == sorted(b), "neighbors of the second data set are renumbered, the first ones kept", site=i, got=a, want=b)


# ---------------------------------------------------------------- C11
def images(s, latt, axes):
    P = [period(s, latt, a) for a in axes]
    if any(p is None for p in P):
        return None
    out = set()
    for signs in itertools.product((-1, 0, 1), repeat=len(axes)):
        if any(signs):
            out.add(tuple(int(x) for x in sum(c * p for c, p in zip(signs, P))))
    return sorted(out)


def periodic_oracle(s, keys, pos, regular, imgs):
    """{i: {j: (dist, set of admissible nvecs)}}"""
    dim = s.dim
    out = {i: {} for i in range(len(keys))}
    al = [q[-1] for q in keys]
    for n in imgs:
        sh = np.array(n) @ s.v
        for i in range(len(keys)):
            d = np.round(np.linalg.norm(pos[i] + sh - pos, axis=1), DEC)   # i displaced by n meets j
            for j in range(len(keys)):
                if j in regular[i]:
                    continue
                if any(abs(d[j] - x) < 1e-9 for x in s.dist[al[i]][al[j]]):
                    cur = out[i].get(j)
                    if cur is None or d[j] < cur[0] - 1e-9:
                        out[i][j] = (float(d[j]), {n})
                    elif abs(d[j] - cur[0]) < 1e-9:
                        cur[1].add(n)
    return out


def judge_periodic(s, latt, axes, info):
    data = latt.data
    wellformed(data)
    keys, regular = judge_table(s, data, allow_periodic=True)
    vw = view(data)
    imgs = images(s, latt, axes) if len(axes) else []
    if imgs is None:
        return False
    want = periodic_oracle(s, keys, data.positions, regular, imgs)
    table = {}
    for i, row in enumerate(vw):
        per = [e for e in row if e[2]]
        js = [e[0] for e in per]
        require(len(set(js)) == len(js), "each periodic neighbor is listed once", site=keys[i])
        require(set(js) == set(want[i]), "periodic neighbors are exactly the images at a configured distance", site=keys[i],
                missing=[keys[j] for j in set(want[i]) - set(js)][:3], extra=[keys[j] for j in set(js) - set(want[i])][:3])
        for j, d, _, nv in per:
            require(abs(d - want[i][j][0]) < 1e-9, "distance of the nearest image", i=keys[i], j=keys[j], got=d, want=want[i][j])
            require(nv in want[i][j][1], "translation vector leads to the neighbor", i=keys[i], j=keys[j], got=nv, want=want[i][j])
            table[i, j] = (d, nv)
    for (i, j), (d, nv) in table.items():
        require((j, i) in table, "the periodic relation is symmetric", pair=(keys[i], keys[j]))
        d2, nv2 = table[j, i]
        require(abs(d - d2) < 1e-9, "equal distances in both directions")
        if len(want[i][j][1]) == 1:
            require(tuple(-x for x in nv2) == nv, "opposite translation vectors", i=keys[i], j=keys[j], a=nv, b=nv2)
    return True


def rand_axes(rng, dim):
    n = int(rng.integers(1, dim + 1))
    return [int(x) for x in rng.permutation(dim)[:n]]


@check("C11", "set_periodic", 60, 450)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=100 if k % 3 else 40)
    b = [[e for e in r] for r in view(latt.data)]
    axes = rand_axes(rng, s.dim)
    info["axes"] = axes
    arg = axes[0] if len(axes) == 1 and rng.random() < 0.5 else (True if len(axes) == s.dim and rng.random() < 0.5 else axes)
    if arg is True:
        axes = list(range(s.dim))
    latt.set_periodic(arg)
    require(sorted(int(x) for x in np.atleast_1d(latt.periodic_axes)) == sorted(axes), "active periodic axes")
    judge_periodic(s, latt, axes, info)
    latt.set_periodic(None if k % 2 else False)
    require(len(latt.periodic_axes) == 0, "no active periodic axes")
    a = view(latt.data)
    require([sorted(r) for r in a] == [sorted(r) for r in b], "switching off restores the regular neighbors")
    wellformed(latt.data)


@check("C11", "build_periodic", 30, 200)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=36)
    (arg, pos, kind), axes = info["shape"], rand_axes(rng, s.dim)
    info["axes"] = axes
    latt.set_periodic(axes)
    other = s.make()
    other.build(arg, primitive=kind == "primitive", pos=pos, periodic=axes)
    require(sorted(int(x) for x in np.atleast_1d(other.periodic_axes)) == sorted(axes), "active periodic axes")
    require(other.num_sites == latt.num_sites and [sorted(r) for r in view(other.data)] == [sorted(r) for r in view(latt.data)], "built with periodic boundaries")
    other.build(arg, primitive=kind == "primitive", pos=pos)
    require(len(other.periodic_axes) == 0 and not np.any(other.data.pmask), "rebuilding opens the boundaries")


@check("C11", "history", 40, 250)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=36)
    b = [sorted(r) for r in view(latt.data)]
    log = info["ops"] = []
    for _ in range(int(rng.integers(2, 6))):
        op = rng.choice(["on", "on", "off", "map"])
        if op == "on":
            axes = rand_axes(rng, s.dim)
            log.append(axes)
            latt.set_periodic(axes)
            judge_periodic(s, latt, axes, info)
        elif op == "off":
            log.append(None)
            latt.set_periodic()
            require([sorted(r) for r in view(latt.data)] == b, "switching off restores the regular neighbors")
        else:
            log.append("map")
            latt.data.map()


@check("C11", "orthogonal_period", 40, 200)
def _(rng, k, info):
    """On full blocks of orthogonal cells periodic neighbors equal the torus."""
    import lattpy as lp
    dim = 1 + k % 3
    a = rng.choice([1.0, 1.0, 0.5, 2.0, 1.5], size=dim)
    n = rng.integers(3, 7 if dim < 3 else 5, size=dim)
    off = rng.choice([0, 0, -3, 4], size=dim)
    latt = lp.Lattice(np.diag(a))
    latt.add_atom()
    latt.add_connections(1)
    info["args"] = (a.tolist(), n.tolist(), off.tolist())
    s = Spec(np.diag(a), [np.zeros(dim)], [[1]])
    if s.ambiguous():
        return
    s.analyze()
    latt.build(tuple(float(x) for x in (n - 1) * a), pos=off * a)
    axes = rand_axes(rng, dim)
    latt.set_periodic(axes)
    require(latt.num_sites == int(np.prod(n)), "full block")
    keys = keys_of(latt.data)
    ix = {q[:-1]: i for i, q in enumerate(keys)}
    dmin = a.min()
    for q in keys:
        want = set()
        for d in range(dim):
            if abs(a[d] - dmin) > 1e-9:
                continue
            for sg in (-1, 1):
                c = list(q[:-1])
                c[d] += sg
                if d in axes:
                    c[d] = int(off[d] + (c[d] - off[d]) % n[d])
                if tuple(c) in ix:
                    want.add(ix[tuple(c)])
        got = [int(j) for j in latt.neighbors(ix[q[:-1]])]
        require(len(got) == len(set(got)) and set(got) == want, "neighbors on the torus", site=q, got=sorted(got), want=sorted(want))


@check("C11", "data_set_periodic", 100, 700)
def _(rng, k, info):
    data = rand_data(rng, periodic=bool(k % 2))
    before = [[e for e in r if not e[2]] for r in view(data)]
    info["data"] = snap(data)
    idx, dist, nv, ax = add_periodic(rng, data)
    info["periodic"] = (idx, dist, nv)
    wellformed(data)
    vw = view(data)
    for i in range(data.num_sites):
        require(sorted(e for e in vw[i] if not e[2]) == sorted(before[i]), "regular entries untouched", site=i)
        per = sorted((e[0], e[1], e[3]) for e in vw[i] if e[2])
        want = sorted(zip((int(x) for x in idx.get(i, [])), (float(x) for x in dist.get(i, [])), (tuple(int(y) for y in x) for x in nv.get(i, []))))
        require(per == want, "periodic entries are exactly the given ones", site=i, got=per, want=want)
        for sl in range(data.neighbors.shape[1]):
            if data.pmask[i, sl]:
                pos_ = [int(x) for x in idx[i]].index(int(data.neighbors[i, sl]))
                require(int(data.paxes[i, sl, 0]) == int(ax[i][pos_][0]), "axes stay attached")
    data.remove_periodic()
    require([sorted(r) for r in view(data)] == [sorted(r) for r in before], "removing restores the regular entries")
    require(np.all(data.paxes == data.dim), "no periodic axes left")


# ---------------------------------------------------------------- C19
@check("C19", "minimum_distances", 80, 500)
def _(rng, k, info):
    s, latt = built(rng, k, info, cap=80)
    ops = info["ops"] = []
    for _ in range(int(rng.integers(1, 4))):
        op = rng.choice(["on", "on", "off", "rebuild"])
        if op == "on":
            axes = rand_axes(rng, s.dim)
            latt.set_periodic(axes)
        elif op == "off":
            axes = []
            latt.set_periodic(None)
        else:
            axes = []
            latt.build(*[x for x in info["shape"][:1]], primitive=latt.primitive, pos=info["shape"][1])
        ops.append((str(op), axes))
        imgs = images(s, latt, axes) if axes else []
        if imgs is None:
            continue
        pos = latt.positions
        keep = frozen(pos)
        sites = [int(x) for x in rng.permutation(len(pos))[:4]]
        rows = {}
        for i in sites:
            want = np.min([np.linalg.norm(pos - (pos[i] + np.array(n) @ s.v), axis=1) for n in [(0,) * s.dim] + list(imgs)], axis=0)
            got = latt.minimum_distances(i)
            require(np.asarray(got).shape == (len(pos),), "one distance per site", shape=np.asarray(got).shape)
            require(close(got, want, 1e-8), "minimum over the images", site=i, at=int(np.argmax(np.abs(np.asarray(got) - want))))
            require(abs(got[i]) < 1e-9, "distance to itself is zero")
            rows[i] = got
        for i in sites:
            for j in sites:
                require(abs(rows[i][j] - rows[j][i]) < 1e-8, "symmetric")
        require(same(keep[0], latt.positions), "positions unchanged")
