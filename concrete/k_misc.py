"""C16 (configuration), C17 (lookups), C18 (helpers), C20 (dispersion paths)."""
import itertools
import math
import numpy as np
from common import *


# ---------------------------------------------------------------- C16
@check("C16", "configuration", 150, 1200)
def _(rng, k, info):
    from lattpy import Lattice, LatticeStructure, Atom
    from lattpy.utils import SiteOccupiedError, ConfigurationError, NotAnalyzedError, NoConnectionsError, NoAtomsError
    dim = 1 + k % 3
    v = rand_reduced(rng, dim)
    latt = (Lattice if k % 2 else LatticeStructure)(v.copy())
    pos, names, atoms = [], [], []
    conn = np.zeros((0, 0), int)
    valid = False
    log = info["ops"] = []
    info["vectors"] = v.tolist()
    for _ in range(int(rng.integers(2, 9))):
        op = rng.choice(["atom", "atom", "atom", "occupied", "dim", "connect", "connect", "name", "analyze", "all"])
        n = len(pos)
        b = ([p.copy() for p in latt.atom_positions], list(latt.atoms), None if latt._connections is None else latt._connections.copy(), latt.num_base)
        if op == "atom":
            f = rng.choice([0, 0.2, 0.25, 0.4, 0.5, 0.75], size=dim)
            if any(np.allclose(f, g) for g in [p @ np.linalg.inv(v) for p in pos]):
                continue
            prim = bool(rng.random() < 0.4)
            name = str(rng.choice(["A", "B", "C", f"u{len(log)}"]))
            log.append(("atom", f.tolist(), prim, name))
            arg = f.copy() if prim else f @ v
            keep = arg.copy()
            at = latt.add_atom(arg, Atom(name) if rng.random() < 0.5 else name, primitive=prim, **({"neighbors": 1} if False else {}))
            require(same(arg, keep), "the position passed is not modified")
            pos.append(f @ v)
            names.append(name)
            atoms.append(at)
            conn = np.zeros((n + 1, n + 1), int)
            valid = False
            require(at.name == name, "the atom returned carries the name")
        elif op in ("occupied", "dim"):
            if not n:
                continue
            log.append((str(op),))
            try:
                latt.add_atom(pos[int(rng.integers(n))].copy() if op == "occupied" else np.full(dim + 1, 0.3))
            except SiteOccupiedError:
                require(op == "occupied", "kind of error")
            except ValueError:
                require(op == "dim", "kind of error")
            else:
                require(False, "an occupied position or a wrong dimension is rejected", op=str(op))
            require(latt.num_base == b[3] and len(latt.atoms) == len(b[1]) and same(latt._connections, b[2]), "a rejected atom changes nothing")
        elif op in ("connect", "name"):
            if not n:
                continue
            i, j, c = int(rng.integers(n)), int(rng.integers(n)), int(rng.integers(1, 3))
            uni = [q for q in range(n) if names.count(names[q]) == 1]
            if op == "name":
                a, bb = names[i], (names[j] if rng.random() < 0.5 else j)
                ia = [q for q in range(n) if names[q] == names[i]]
                ib = [q for q in range(n) if names[q] == names[j]] if isinstance(bb, str) else [j]
            else:
                a, bb, ia, ib = i, j, [i], [j]
                if i in uni and rng.random() < 0.5:
                    a = atoms[i]
            log.append((str(op), i, j, c))
            latt.add_connection(a, bb, c)
            for x in ia:
                for y in ib:
                    conn[x, y] = conn[y, x] = c
            valid = False
        elif op == "all":
            if not n:
                continue
            c = int(rng.integers(1, 3))
            log.append(("all", c))
            latt.add_connections(c, analyze=bool(valid := rng.random() < 0.6))
            conn[:] = c
        else:
            log.append(("analyze",))
            try:
                latt.analyze()
                require(n and conn.any(), "analysis needs atoms and connections")
                valid = True
            except NoAtomsError:
                require(n == 0, "error for missing atoms")
            except NoConnectionsError:
                require(n and not conn.any(), "error for missing connections")
        require(latt.num_base == len(pos) == len(latt.atoms) == len(latt.atom_positions), "number of atoms")
        for p, q in zip(latt.atom_positions, pos):
            require(close(p, q), "positions of all atoms are kept", got=p, want=q)
        require([a.name for a in latt.atoms] == names, "names are kept")
        if len(pos):
            require(same(latt._connections, conn), "exactly the requested connections, symmetrically", got=latt._connections.tolist(), want=conn.tolist())
            for q in range(len(pos)):
                require(latt.get_atom(q) is latt.atoms[q], "atom of an index")
                require(list(np.atleast_1d(latt.get_alpha(names[q]))) == [z for z in range(len(pos)) if names[z] == names[q]], "indices of a name")
        if not valid and len(pos):
            for f in ((lambda: latt.get_neighbors(np.zeros(dim), 0, 0)), (lambda: latt.get_neighbor_vectors(0, 0)), (lambda: latt.build((2.0,) * dim))):
                if f.__code__.co_consts and "build" in f.__code__.co_names and not isinstance(latt, Lattice):
                    continue
                try:
                    f()
                except ConfigurationError as e:
                    str(e)
                else:
                    require(False, "a lattice that has not been analyzed cannot be built or queried")
        elif valid and k % 4 == 0 and conn[0].any():
            latt.get_neighbors(np.zeros(dim), 0, 0)


# ---------------------------------------------------------------- C17
def lattice_with(rng, k, info):
    import lattpy as lp
    data = rand_data(rng, n=int(rng.choice([1, 2, 3, 6, 12, 40])), dim=1 + k % 3)
    latt = lp.Lattice(np.eye(data.dim))
    for a in range(3):
        latt.add_atom(np.full(data.dim, 0.3 * a), atom=f"X{a}", **({"mass": float(a + 1)} if a else {}))
    latt.data = data
    info["positions"], info["indices"] = data.positions.copy(), data.indices.copy()
    return latt, data


@check("C17", "lookup", 150, 1200)
def _(rng, k, info):
    latt, data = lattice_with(rng, k, info)
    b = snap(data)
    n, dim = data.num_sites, data.dim
    for _ in range(6):
        atol = float(rng.choice([1e-4, 1e-2, 0.3]))
        q = data.positions[int(rng.integers(n))] + rng.choice([0, 0.5, 0.99, 1.01, 3]) * atol * rng.choice([-1, 1, 0.3, 0], size=dim)
        hits = [i for i in range(n) if all(abs(x - y) < atol for x, y in zip(data.positions[i], q))]
        near = [i for i in range(n) if all(abs(x - y) < atol * (1 + 1e-9) + 1e-12 for x, y in zip(data.positions[i], q))]
        got = latt.superindex_from_pos(q, atol)
        if len(hits) == len(near):
            require((got is None) == (not hits), "a position is found exactly if a site is there", pos=q, got=got, want=hits)
            require(got is None or int(got) == hits[0], "the site at the position", got=got, want=hits)
        ind = data.indices[int(rng.integers(n))].copy()
        ind[int(rng.integers(dim + 1))] += int(rng.choice([0, 0, 1, -1]))
        keep = ind.copy()
        hits = [i for i in range(n) if tuple(data.indices[i]) == tuple(ind)]
        got = latt.superindex_from_index(ind)
        require((got is None) == (not hits), "an index is found exactly if a site has it", ind=ind, got=got)
        require(got is None or int(got) == hits[0], "the site with the index")
        require(same(ind, keep), "argument unchanged")
    for i in range(n):
        require(close(latt.position(i), data.positions[i]) and int(latt.alpha(i)) == int(data.indices[i, -1]), "position and atom of a site")
        require(latt.atom(i) is latt.atoms[int(data.indices[i, -1])], "atom object of a site")
    require(unchanged(b, snap(data)), "lookups change nothing")


@check("C17", "regions", 150, 1200)
def _(rng, k, info):
    latt, data = lattice_with(rng, k, info)
    b = snap(data)
    n, dim = data.num_sites, data.dim
    P = data.positions
    for _ in range(6):
        lo = np.round(rng.uniform(-3, 2, size=dim), 2)
        hi = lo + np.round(rng.uniform(0, 4, size=dim), 2)
        if rng.random() < 0.3:
            lo = P[int(rng.integers(n))].copy()
        mode = k % 4
        mi = None if mode in (1, 3) else lo.copy()
        ma = None if mode in (2, 3) else hi.copy()
        if rng.random() < 0.3 and mi is not None:
            mi = [None if rng.random() < 0.4 else float(x) for x in lo]
        if rng.random() < 0.3 and ma is not None:
            ma = [None if rng.random() < 0.4 else float(x) for x in hi]
        if dim > 1 and rng.random() < 0.25 and mi is not None:
            mi = [float(x) for x in lo[:int(rng.integers(1, dim))]]
        if dim > 1 and rng.random() < 0.25 and ma is not None:
            ma = [float(x) for x in hi[:int(rng.integers(1, dim))]]
        inside = []
        for i in range(n):
            ok = True
            for d in range(dim):
                if mi is not None and d < len(mi) and mi[d] is not None and not (mi[d] <= P[i, d]):
                    ok = False
                if ma is not None and d < len(ma) and ma[d] is not None and not (P[i, d] <= ma[d]):
                    ok = False
            inside.append(ok)
        for inv in (False, True):
            m = data.site_mask(mi, ma, invert=inv)
            require(np.asarray(m).tolist() == [x != inv for x in inside], "mask selects exactly the sites inside (outside)", mins=mi, maxs=ma, invert=inv)
            s = data.find_sites(mi, ma, invert=inv)
            require([int(x) for x in s] == [i for i in range(n) if inside[i] != inv], "sites inside (outside)")
        ax = int(rng.integers(dim))
        off = float(np.round(rng.uniform(0.1, 2), 2))
        lo_, hi_ = P[:, ax].min() + off, P[:, ax].max() - off
        amb = np.any(np.abs(P[:, ax] - lo_) < 1e-9) or np.any(np.abs(P[:, ax] - hi_) < 1e-9)
        got = data.find_outer_sites(ax, off)
        if not amb:
            require([int(x) for x in got] == [i for i in range(n) if P[i, ax] < lo_ or P[i, ax] > hi_], "outer sites", ax=ax, offset=off)
    for a in range(3):
        require(same(data.get_positions(a), P[data.indices[:, -1] == a]), "positions of one atom, complete and in order")
    lim = np.array([P.min(0), P.max(0)])
    require(same(data.get_limits(), lim) and same(latt.limits(), lim), "limits are the extreme positions")
    require(same(data.get_index_limits(), [data.indices.min(0), data.indices.max(0)]), "index limits")
    require(same(data.get_cell_limits(), [data.indices[:, :-1].min(0), data.indices[:, :-1].max(0)]), "cell limits")
    require(close(latt.center(), lim.mean(0)), "center")
    f = rng.uniform(-0.5, 1.5, size=dim)
    require(close(latt.relative_position(f), lim[0] + f * (lim[1] - lim[0])), "relative position")
    w = np.array([[1.0, 2.0, 3.0][int(a)] for a in data.indices[:, -1]])
    require(close(latt.center_of_gravity(), (w[:, None] * P).sum(0) / w.sum(), 1e-8), "center of gravity")
    require(unchanged(b, snap(data)), "queries change nothing")


# ---------------------------------------------------------------- C18
@check("C18", "distances", 100, 800)
def _(rng, k, info):
    from lattpy.spatial import distance, distances
    dim, n = 1 + k % 3, int(rng.integers(1, 8))
    a, b = rng.uniform(-5, 5, (n, dim)), rng.uniform(-5, 5, (n, dim))
    info["args"] = (a, b)
    keep = frozen(a, b)
    w = np.array([math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q))) for p, q in zip(a, b)])
    require(close(distances(a, b), w), "euclidean distances")
    require(close(distances(a[0], b), [math.sqrt(sum((x - y) ** 2 for x, y in zip(a[0], q))) for q in b]), "one point to many")
    dec = int(rng.integers(0, 7))
    d = np.asarray(distances(a, b, dec))
    require(np.all(np.abs(d - w) <= 0.5 * 10.0 ** -dec + 1e-9) and close(d * 10 ** dec, np.round(d * 10 ** dec)), "rounded distances", dec=dec)
    d0 = distance(a[0], b[0])
    require(abs(d0 - w[0]) < 1e-9 and abs(distance(b[0], a[0]) - d0) < 1e-12, "distance of two points is symmetric")
    d1 = distance(a[0], b[0], dec)
    require(abs(d1 - w[0]) <= 0.5 * 10.0 ** -dec + 1e-9 and abs(d1 * 10 ** dec - round(d1 * 10 ** dec)) < 1e-6, "rounded distance")
    require(same(keep[0], a) and same(keep[1], b), "arguments unchanged")


@check("C18", "grids", 100, 700)
def _(rng, k, info):
    from lattpy.spatial import vindices, vrange
    dim = 1 + k % 3
    lo = rng.integers(-6, 6, dim)
    hi = lo + rng.integers(1, 6 if dim < 3 else 4, dim)
    if k % 17 == 5:
        lo[0], hi[0] = -150, 140
        if dim == 3:
            hi[1:] = lo[1:] + 2
    ax = None if k % 4 == 0 else int(rng.integers(dim))
    limits = np.array([lo, hi]).T
    info["args"] = (limits, ax)
    keep = frozen(limits)
    got = vindices(limits if k % 2 else limits.tolist(), sort_axis=ax)
    want = set(itertools.product(*[range(a, b) for a, b in zip(lo, hi)]))
    rows = [tuple(int(x) for x in r) for r in got]
    require(len(rows) == len(set(rows)) and set(rows) == want, "every integer vector once", n=len(rows), want=len(want))
    if ax is not None:
        require(np.all(np.diff(np.asarray(got)[:, ax].astype(int)) >= 0), "ordered along the sort axis")
    require(same(keep[0], limits), "argument unchanged")
    g = vrange(lo.astype(float), hi.astype(float), dtype=int, sort_axis=ax if ax is not None else 0)
    require(sorted(tuple(int(x) for x in r) for r in g) == sorted(want), "ranges contain every vector")
    g2 = vrange(np.abs(hi) + 1)
    require(len(g2) == int(np.prod(np.abs(hi) + 1)), "range from zero")


@check("C18", "sequences", 100, 800)
def _(rng, k, info):
    from lattpy.spatial import interweave
    from lattpy.utils import chain
    n, m, dim = int(rng.integers(1, 5)), int(rng.integers(0, 6)), int(rng.integers(1, 4))
    arrs = [rng.integers(-9, 9, (m, dim)) if k % 3 else rng.integers(-9, 9, m) for _ in range(n)]
    info["args"] = arrs
    keep = frozen(*arrs)
    r = interweave(arrs)
    require(len(r) == n * m, "length")
    for i in range(n):
        for q in range(m):
            require(same(r[q * n + i], arrs[i][q]), "interleaved positions", i=i, k=q)
    require(all(same(a, b) for a, b in zip(keep, arrs)), "arguments unchanged")
    items = [int(x) for x in rng.integers(0, 99, int(rng.integers(1, 7)))]
    for cyc in (False, True):
        c = chain(items, cyc)
        want = [[items[i], items[i + 1]] for i in range(len(items) - 1)] + ([[items[-1], items[0]]] if cyc else [])
        require([list(x) for x in c] == want, "consecutive pairs", items=items, cycle=cyc, got=c)


@check("C18", "rotations", 100, 700)
def _(rng, k, info):
    from lattpy.spatial import rx, ry, rz, rot, rotate2d, rotate3d, cell_size, cell_volume, compute_vectors
    t = float(rng.choice([0, 0.3, -1.2, math.pi / 2, 2.7, 5.5]))
    info["theta"] = t
    c, s = math.cos(t), math.sin(t)
    e = np.eye(3)
    for f, ax in ((rx, 0), (ry, 1), (rz, 2)):
        m = np.asarray(f(t))
        require(close(m @ m.T, e), "rotations are orthogonal")
        require(close(m @ e[ax], e[ax]), "the axis is kept")
        p, q = (ax + 1) % 3, (ax + 2) % 3
        require(close(m @ e[p], c * e[p] + s * e[q]) and close(m @ e[q], c * e[q] - s * e[p]), "rotation by the angle about the axis", axis=ax)
    a = rng.uniform(-3, 3, 2)
    keep = frozen(a)
    b = rotate2d(a, t, degree=False)
    require(abs(np.linalg.norm(b) - np.linalg.norm(a)) < 1e-9, "lengths are kept")
    require(close(b, rotate2d(a, math.degrees(t))), "degrees and radians agree")
    require(close(b, a @ np.array([[c, -s], [s, c]])), "plane rotation")
    th = [float(x) for x in rng.choice([0, 0.4, -0.9, 2.2], 3)]
    v = rng.uniform(-2, 2, 3)
    w = rotate3d(v, *th, degree=False)
    R = np.asarray(rz(th[2])) @ np.asarray(ry(th[1])) @ np.asarray(rx(th[0]))
    require(close(rot(*th), R), "composition about the three axes", theta=th)
    require(close(w, v @ R) and close(w, rotate3d(v, *[math.degrees(x) for x in th])), "rotated vector")
    require(same(keep[0], a), "argument unchanged")
    dim = 1 + k % 3
    vec = rand_basis(rng, dim)
    keep = frozen(vec)
    lo, hi = np.minimum(vec.min(0), 0), np.maximum(vec.max(0), 0)
    require(close(cell_size(vec), hi - lo), "extent of the box spanned by the vectors", vectors=vec, got=cell_size(vec))
    require(same(keep[0], vec), "argument unchanged")
    A, B, C = (float(x) for x in rng.uniform(0.5, 3, 3))
    al = float(rng.uniform(40, 140))
    m = compute_vectors(A, B, alpha=al)
    require(abs(np.linalg.norm(m[0]) - A) < 1e-9 and abs(np.linalg.norm(m[1]) - B) < 1e-9 and
            abs(m[0] @ m[1] - A * B * math.cos(math.radians(al))) < 1e-8, "lengths and angle of the vectors")
    al, be, ga = (float(x) for x in rng.uniform(65, 115, 3))
    m = compute_vectors(A, B, C, al, be, ga)
    require(close([m[i] @ m[i] for i in range(3)], [A * A, B * B, C * C], 1e-8) and
            close([m[1] @ m[2], m[0] @ m[2], m[0] @ m[1]], [B * C * math.cos(math.radians(al)), A * C * math.cos(math.radians(be)), A * B * math.cos(math.radians(ga))], 1e-8),
            "lengths and angles of three vectors")


# ---------------------------------------------------------------- C20
@check("C20", "path", 150, 1200)
def _(rng, k, info):
    from lattpy.disptools import DispersionPath
    dim = 1 + k % 3
    preset = k % 2 == 0
    path = DispersionPath(dim) if preset else DispersionPath()
    pts, labels = [], []
    ops = info["ops"] = []
    for _ in range(int(rng.integers(2, 7))):
        op = rng.choice(["add", "add", "named", "x", "gamma", "points"]) if preset else rng.choice(["add", "add", "named", "points"])
        a = float(rng.choice([1.0, 2.0, 0.5]))
        p = np.round(rng.uniform(-3, 3, dim), 3)
        ops.append((str(op), p.tolist()))
        if op == "add":
            r = path.add(p)
            labels.append(str(len(pts)))
            pts.append(p)
        elif op == "named":
            r = path.add(p.tolist(), "P")
            pts.append(p)
            labels.append("P")
        elif op == "points":
            q = np.round(rng.uniform(-3, 3, (2, dim)), 3)
            nm = ["U", "V"] if rng.random() < 0.5 else None
            r = path.add_points(q, nm)
            labels += nm or [str(len(pts)), str(len(pts) + 1)]
            pts += list(q)
        elif op == "gamma":
            r = path.gamma()
            pts.append(np.zeros(dim))
            labels.append("$\\Gamma$")
        else:
            nm, full = [("x", [1, 0, 0]), ("m", [1, 1, 0]), ("r", [1, 1, 1])][int(rng.integers(3))]
            r = getattr(path, nm)(a)
            pts.append((np.pi / a * np.array(full, float))[:dim])
            labels.append("$" + nm.upper() + "$")
        require(r is path, "calls can be chained")
    if rng.random() < 0.4:
        path.cycle()
        pts.append(pts[0])
        labels.append(labels[0])
    n = int(rng.integers(2, 9))
    info["n"] = n
    require(path.num_points == len(pts) and close(np.array(path.points), np.array(pts)), "points in order")
    require(list(path.labels) == labels, "labels stay attached", got=path.labels, want=labels)
    got = path.build(n)
    want = np.array([pts[i] + (pts[i + 1] - pts[i]) * q / (n - 1) for i in range(len(pts) - 1) for q in range(n)]).reshape(-1, dim)
    require(close(got, want), "sections interpolate linearly including both ends")
    ticks, lab = path.get_ticks()
    require([int(x) for x in ticks] == [i * n for i in range(len(pts))] and list(lab) == labels, "ticks mark the section starts")
    for i in range(len(pts) - 1):
        require(close(got[int(ticks[i])], pts[i]), "path at the tick is the labelled point")
    d = path.distances()
    w = [math.sqrt(sum((x - y) ** 2 for x, y in zip(pts[i], pts[i + 1]))) for i in range(len(pts) - 1)]
    require(close(d, w), "lengths of the sections")
    require([[list(a), list(b)] for a, b in path.edges()] == [[list(pts[i]), list(pts[i + 1])] for i in range(len(pts) - 1)], "edges are consecutive points")
    if w[0] > 1e-6:
        require(close(path.scales(), np.array(w) / w[0]), "scales relative to the first section")


@check("C20", "standard", 10, 20)
def _(rng, k, info):
    from lattpy.disptools import DispersionPath
    a = float(rng.uniform(0.3, 3))
    x = math.pi / a
    for f, pts in ((DispersionPath.chain_path, [[x], [0], [x]]), (DispersionPath.square_path, [[0, 0], [x, 0], [x, x], [0, 0]]),
                   (DispersionPath.cubic_path, [[0, 0, 0], [x, 0, 0], [x, x, 0], [0, 0, 0], [x, x, x]])):
        require(close(np.array(f(a).points, float), np.array(pts, float)), "points of the standard path", path=f.__name__)


# ---------------------------------------------------------------- C21
def state(latt):
    s = {"vectors": np.array(latt.vectors), "atoms": np.array(latt.atom_positions), "conn": np.array(latt._connections), "names": [a.name for a in latt.atoms],
         "weights": [a.weight for a in latt.atoms], "params": [repr(sorted(dict(a).items(), key=str)) for a in latt.atoms],
         "base": [{float(k): np.array(x) for k, x in t.items()} for t in latt._base_neighbors] if latt._base_neighbors else None}
    if hasattr(latt, "data"):
        s.update(snap(latt.data), shape=np.array(latt.shape), pos=np.array(latt.pos), axes=[int(x) for x in np.atleast_1d(latt.periodic_axes)], primitive=latt.primitive)
    return s


def same_state(a, b, keys=None):
    for k in keys or a:
        if k == "_dmap":
            continue
        x, y = a[k], b[k]
        if k == "base" and x is not None:
            if y is None or len(x) != len(y) or any(set(p) != set(q) or any(not np.array_equal(p[d], q[d]) for d in p) for p, q in zip(x, y)):
                return k
        elif isinstance(x, np.ndarray):
            if np.asarray(y).shape != x.shape or not np.array_equal(x, y):
                return k
        elif isinstance(x, (list, str, bool, int, float, type(None))) and x != y:
            return k
    return None


@check("C21", "copies", 60, 500)
def _(rng, k, info):
    import os
    import tempfile
    from copy import copy
    from lattpy import Lattice
    from lattpy.structure import LatticeStructure
    s = rand_spec(rng, dim=1 + k % 3, maxconn=2)
    info["spec"] = s
    latt = s.make()
    for a in latt.atoms:
        a["energy"], a["orbitals"] = float(rng.normal()), [1, 2]
    L = float(np.max(np.linalg.norm(s.v, axis=1)))
    try:
        latt.build(tuple([1.6 * L] * s.dim))
    except ValueError:
        return
    if rng.random() < 0.5:
        latt.set_periodic(int(rng.integers(s.dim)))
    how = info["how"] = ("copy", "file", "dict", "structure", "atom", "data")[k % 6]
    before = state(latt)
    if how == "copy":
        other = latt.copy()
    elif how == "file":
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "x.latt")
            latt.dump(f)
            other = Lattice.load(f)
    elif how == "dict":
        other = Lattice.fromdict(latt.todict())
    elif how == "structure":
        latt = LatticeStructure.fromdict(latt.todict())
        before = state(latt)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "x.latt")
            latt.dump(f)
            other = LatticeStructure.load(f)
    elif how == "data":
        c = latt.data.copy()
        b = snap(latt.data)
        require(unchanged(b, snap(c)) and c is not latt.data, "copied data")
        c.remove([0]) if c.num_sites > 1 else c.reset()
        c.distvals[...] = 0
        require(unchanged(b, snap(latt.data)), "changing the copy leaves the original")
        return
    else:
        a = latt.atoms[0]
        for c in (a.copy(), copy(a)):
            require(c is not a and c.name == a.name and c.weight == a.weight and dict(c) == dict(a), "copied atom")
            c["energy"] = 100.0
            require(a["energy"] != 100.0, "changing the copy leaves the original")
        return
    require(type(other) is type(latt) and other is not latt, "kind of lattice")
    keys = ("vectors", "atoms", "conn", "names", "weights", "params", "base") if how == "dict" else None
    bad = same_state(before, state(other), keys)
    require(bad is None, "the copy has the same content", differs=bad)
    require(same_state(before, state(latt)) is None, "the original is unchanged")
    for x, y in ((other, latt), (latt, other)):
        b = state(y)
        if hasattr(x, "data") and how != "dict":
            x.set_periodic(0 if k % 2 else None)
            x.data.sort_neighbors()
            x.data.positions += 1.0
            if x.data.num_sites > 1:
                x.data.remove([x.data.num_sites - 1])
        if how != "dict":
            x.atoms[0]["energy"] = 77.0 + len(b["names"])
            x.atoms[0]["orbitals"].append(5)
            for t in x._base_neighbors:
                for q in t.values():
                    q += 3
        x.add_connection(0, 0, 3)
        x.add_atom(rng.uniform(5, 6, s.dim), "new")
        bad = same_state(b, state(y))
        require(bad is None, "changing one lattice leaves the other", differs=bad)


# ---------------------------------------------------------------- C22
S3 = math.sqrt(3) / 2
BOUNDED = {     # lattices whose cell is bounded by the bisectors of the nearest lattice points
    "chain": [[1.0]], "square": [[1, 0], [0, 1]], "triangular": [[1, 0], [0.5, S3]], "triangular2": [[S3, 0.5], [S3, -0.5]],
    "sheared": [[1, 0], [0, -1]], "cubic": np.eye(3).tolist(), "fcc": [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
}


def nearest_ok(W, V, x, clause, tol=1e-9):
    """Accepted exactly if no lattice point is closer than the origin (ties either way)."""
    d = len(V)
    lat = np.array(list(itertools.product(range(-4, 5), repeat=d))) @ np.asarray(V, float)
    d0 = np.linalg.norm(x, axis=1)
    gap = np.min(np.linalg.norm(x[:, None] - lat[None], axis=2), axis=1) - d0
    inside = gap > -tol
    got = np.asarray(W.check(x))
    require(got.shape == (len(x),), "one answer per point", shape=got.shape)
    bad = np.where((got.astype(bool) != inside) & ((gap < -tol) | (gap_next(x, lat) > tol)))[0]
    require(len(bad) == 0, clause, point=x[bad[:1]].tolist(), accepted=got[bad[:1]].tolist())
    one = [bool(W.check(p)) for p in x[:4]]
    require(one == got[:4].astype(bool).tolist(), "one point and many points agree")


def gap_next(x, lat):
    """Distance to the nearest lattice point other than the origin, less the distance to the origin."""
    other = lat[np.linalg.norm(lat, axis=1) > 1e-9]
    return np.min(np.linalg.norm(x[:, None] - other[None], axis=2), axis=1) - np.linalg.norm(x, axis=1)


@check("C22", "cells", 60, 400)
def _(rng, k, info):
    from lattpy import LatticeBasis, Lattice
    name = list(BOUNDED)[k % len(BOUNDED)]
    scale = float(rng.choice([0.25, 0.5, 1, 2, 3, 7.5]))
    V = scale * np.array(BOUNDED[name], float)
    L = (LatticeBasis if k % 2 else Lattice)(V.copy())
    info.update(lattice=name, scale=scale)
    zone = (k // 7) % 2 == 1 and name != "fcc"
    W = L.brillouin_zone(*([bool(k % 3)] if k % 4 == 0 else [])) if zone else L.wigner_seitz_cell()
    if zone:
        V = 2 * math.pi * np.linalg.inv(V).T
    x = rng.uniform(-1.2, 1.2, (40, len(V))) @ V
    nearest_ok(W, V, x, "accepted exactly if no lattice point is closer")
    nearest_ok(W, V, 0.5 * V * 0.98, "accepted exactly if no lattice point is closer")
    nearest_ok(W, V, 0.5 * V * 1.02, "accepted exactly if no lattice point is closer")


@check("C22", "points", 60, 400)
def _(rng, k, info):
    """Cells of arbitrary points, the origin among them at any place."""
    from lattpy.spatial import WignerSeitzCell
    d = 1 + k % 3
    n = int(rng.integers(d + 3, 14))
    P = rng.normal(size=(n, d))
    o = int(rng.integers(0, n))
    if d > 1 and k % 2:          # points that share some feature with the origin without being it
        P[0, -1] = -np.sum(P[0, :-1])
        P[1, 0] = 0
        P[-1] = P[-2]
        P[-1, -1] *= -1
        P[2] /= 50
    P[o] = 0
    info.update(points=P.tolist(), origin=o)
    b = P.copy()
    W = WignerSeitzCell(P if k % 4 else P.tolist())
    require(same(P, b), "the points are not modified")
    x = rng.normal(size=(30, d))
    info["x"] = x.tolist()
    dist = np.linalg.norm(x[:, None] - P[None], axis=2)
    want = np.argmin(dist, axis=1) == o
    clear = np.abs(np.min(np.delete(dist, o, axis=1), axis=1) - dist[:, o]) > 1e-9
    got = np.asarray(W.check(x if k % 3 else x.tolist())).astype(bool)
    require(np.array_equal(got[clear], want[clear]), "accepted exactly if no point of the set is closer than the origin")
    require(bool(W.check(np.zeros(d))), "the origin is inside")


KNOWN_CELLS = {
    "rhombic-75": [[1, 0], [math.cos(math.radians(75)), math.sin(math.radians(75))]],
    "rectangular-1x2": [[1, 0], [0, 2]],
    "bcc": [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
}


@check("C22", "known_cells", 3, 3)
def _(rng, k, info):
    from lattpy import LatticeBasis
    name = list(KNOWN_CELLS)[k]
    V = np.array(KNOWN_CELLS[name], float)
    info["lattice"] = name
    try:
        nearest_ok(LatticeBasis(V).wigner_seitz_cell(), V, np.random.default_rng(0).uniform(-1, 1, (400, len(V))) @ V, "accepted exactly if no lattice point is closer")
    except (Fail, RuntimeError, ValueError) as e:
        if type(e) is Fail and "no lattice point" not in str(e) or type(e) is not Fail and "Qhull" not in type(e).__name__:
            raise
        known("C22", f"wigner_seitz_cell({name})", f"{type(e).__name__}: {str(e).splitlines()[0]}"[:200])
