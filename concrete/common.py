"""Independent oracles and input generators (run under the real interpreter on the real code)."""
import itertools
import math
import os
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("LATTPY_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402

CHECKS = {}       # name -> (property, function, quick count, thorough count)
DEC = 6


def check(prop, name, quick=40, thorough=400):
    def deco(f):
        CHECKS[f"{prop}.{name}"] = (prop, f, quick, thorough)
        return f
    return deco


class Fail(Exception):
    pass


def require(cond, clause, **info):
    if not bool(cond):
        raise Fail(clause + (": " + ", ".join(f"{k}={v!r}" for k, v in info.items()) if info else ""))


KNOWN = []      # findings of the run that known_findings.txt lists


def known(prop, key, what):
    """A failure for a specific input: reported as known if known_findings.txt lists that input, else a violation."""
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    listed = [l.strip() for l in open(path)] if os.path.exists(path) else []
    if not any(l.startswith(f"known: property={prop} input={key} ") for l in listed):
        raise Fail(f"{key}: {what}")
    if (prop, key) not in [x[:2] for x in KNOWN]:
        KNOWN.append((prop, key, what))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))


def frozen(*arrays):
    """Snapshot for frame conditions."""
    return [np.array(a, copy=True) for a in arrays]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


# ------------------------------------------------------------------ bases
def rand_basis(rng, dim, kind=None):
    """Random regular basis (rows = vectors), left- and right-handed, integer/dyadic or generic."""
    kind = kind or rng.choice(["eye", "ortho", "int", "generic", "hex", "left"])
    while True:
        if kind == "eye":
            v = np.eye(dim) * float(rng.choice([1.0, 0.5, 2.0, 3.0, 0.1]))
        elif kind == "ortho":
            v = np.diag(rng.choice([0.5, 0.7, 1.0, 1.3, 2.0, 3.0], size=dim))
        elif kind == "int":
            v = rng.integers(-3, 4, size=(dim, dim)).astype(float)
        elif kind == "hex" and dim >= 2:
            v = np.eye(dim)
            v[:2, :2] = 0.5 * np.array([[3, math.sqrt(3)], [3, -math.sqrt(3)]])
        else:
            v = rng.uniform(-2, 2, size=(dim, dim))
        if kind == "left" and np.linalg.det(v) > 0:
            v[[0, -1]] = v[[-1, 0]]
            if dim == 1:
                v = -np.abs(v)
        if abs(np.linalg.det(v)) > 0.15 * np.prod(np.linalg.norm(v, axis=1)) and np.min(np.linalg.norm(v, axis=1)) > 0.05:
            return v


def reduced(v, lo=60.0, hi=120.0):
    n = np.linalg.norm(v, axis=1)
    for i in range(len(v)):
        for j in range(i):
            c = np.degrees(np.arccos(np.clip(v[i] @ v[j] / n[i] / n[j], -1, 1)))
            if c < lo - 1e-6 or c > hi + 1e-6:
                return False
    if len(v) == 3:
        d = abs(np.linalg.det(v)) / np.prod(n)
        if d < 0.5:
            return False
    return True


def rand_reduced(rng, dim):
    while True:
        k = rng.choice(["eye", "ortho", "hex", "tri", "generic", "fcc"])
        if k == "tri" and dim >= 2:
            v = np.eye(dim)
            v[1, :2] = [-0.5, math.sqrt(3) / 2]
        elif k == "fcc" and dim == 3:
            v = 0.5 * np.array([[1, 1, 0], [1, 0, 1], [0, 1, 1.0]])
        elif k in ("tri", "fcc"):
            continue
        else:
            v = rand_basis(rng, dim, k)
        n = np.linalg.norm(v, axis=1)
        if reduced(v) and n.max() / n.min() < 2.6:
            return v


class Spec:
    """Abstract lattice: basis, atoms (fractional), connections; all oracles are brute force."""

    def __init__(self, vectors, fracs, conn):
        self.v = np.array(vectors, dtype=float)
        self.dim = len(self.v)
        self.fracs = [np.array(f, dtype=float) for f in fracs]
        self.atoms = [f @ self.v for f in self.fracs]
        self.conn = np.array(conn, dtype=int)
        self.inv = np.linalg.inv(self.v)

    def nrange(self, r):
        h = r * np.linalg.norm(self.inv, axis=0)
        return [range(-int(math.ceil(x)) - 1, int(math.ceil(x)) + 2) for x in h]

    def shells(self, a, b, count):
        """First `count` distinct rounded distances between atoms a and b, with their cells."""
        r = 1.5 * np.max(np.linalg.norm(self.v, axis=1))
        while True:
            cells = np.array(list(itertools.product(*self.nrange(r + np.linalg.norm(self.v.sum(0))))))
            d = np.linalg.norm(cells @ self.v + self.atoms[b] - self.atoms[a], axis=1)
            d = np.round(d, DEC)
            ok = (d <= r) & (d > 0)
            lev = np.unique(d[ok])
            if len(lev) >= count:
                return {float(x): [tuple(int(y) for y in c) for c in cells[d == x]] for x in lev[:count]}
            r *= 1.5

    def analyze(self):
        n = len(self.atoms)
        self.sh = [[self.shells(a, b, self.conn[a, b]) if self.conn[a, b] else {} for b in range(n)] for a in range(n)]
        self.dist = [[sorted(self.sh[a][b]) for b in range(n)] for a in range(n)]
        return self

    def ambiguous(self, tol=2e-6):
        """Two different distances too close for the six-decimal rounding (excluded by the domain)."""
        n = len(self.atoms)
        c = max(1, int(self.conn.max())) + 1
        for a in range(n):
            for b in range(n):
                cells = np.array(list(itertools.product(*[range(-5, 6)] * self.dim)))
                d = np.sort(np.linalg.norm(cells @ self.v + self.atoms[b] - self.atoms[a], axis=1))
                gap = np.diff(d[:200])
                if np.any((gap > 1e-10) & (gap < tol)):
                    return True
                x = d[:200] * 10 ** DEC
                if np.any(np.abs(x - np.floor(x) - 0.5) < 1e-3):
                    return True
        return False

    def make(self, cls=None, order=None):
        import lattpy as lp
        latt = (cls or lp.Lattice)(self.v.copy())
        for i, p in enumerate(self.atoms):
            latt.add_atom(p.copy(), atom=f"X{i}")
        n = len(self.atoms)
        for a in range(n):
            for b in range(a, n):
                if self.conn[a, b]:
                    latt.add_connection(a, b, int(self.conn[a, b]))
        latt.analyze()
        return latt

    def __repr__(self):
        return f"Spec(vectors={self.v.tolist()}, fracs={[f.tolist() for f in self.fracs]}, conn={self.conn.tolist()})"


def rand_spec(rng, dim=None, nb=None, maxconn=2, kind=None):
    for _ in range(200):
        d = dim or int(rng.integers(1, 4))
        n = nb or int(rng.choice([1, 1, 2, 2, 3]))
        v = rand_reduced(rng, d)
        if rng.random() < 0.15:
            v = -v
        fr = [np.zeros(d)] if rng.random() < 0.6 else [rng.choice([0, 0.25, 0.3, 0.5], size=d)]
        tries = 0
        while len(fr) < n and tries < 100:
            tries += 1
            f = rng.choice([0, 0.25, 1 / 3, 0.5, 0.6, 0.75], size=d)
            if all(np.linalg.norm((f - g) - np.round(f - g)) > 0.1 for g in fr):
                fr.append(f)
        n = len(fr)
        conn = np.zeros((n, n), dtype=int)
        for a in range(n):
            for b in range(a, n):
                conn[a, b] = conn[b, a] = int(rng.choice([0, 1, 1, 2, maxconn]) if n > 1 else rng.integers(1, maxconn + 1))
        if d == 3:
            conn = np.minimum(conn, 2)
        if not conn.any():
            conn[0, 0] = 1
        s = Spec(v, fr, conn)
        if s.ambiguous():
            continue
        return s.analyze()
    raise RuntimeError("no spec")


def sites_in(spec, contains, lo, hi):
    """All (cell, atom) whose position satisfies `contains`; lo/hi: bounding box."""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    corners = np.array(list(itertools.product(*zip(lo, hi)))) @ spec.inv
    rng_ = [range(int(math.floor(a)) - 3, int(math.ceil(b)) + 4) for a, b in zip(corners.min(0), corners.max(0))]
    cells = np.array(list(itertools.product(*rng_)))
    out = {}
    for al, r in enumerate(spec.atoms):
        pos = cells @ spec.v + r
        m = contains(pos)
        for c, p in zip(cells[m], pos[m]):
            out[tuple(int(x) for x in c) + (al,)] = p
    return out


def edges_of(spec, keys, pos):
    """Oracle neighbor relation: dict i -> {j: dist} over a list of (cell, atom) keys."""
    pos = np.asarray(pos, dtype=float).reshape(len(keys), -1)
    out = {i: {} for i in range(len(keys))}
    al = [k[-1] for k in keys]
    n = len(keys)
    for i in range(n):
        d = np.round(np.linalg.norm(pos - pos[i], axis=1), DEC)
        for j in range(n):
            if i != j and any(abs(d[j] - x) < 1e-9 for x in spec.dist[al[i]][al[j]]):
                out[i][j] = float(d[j])
    return out


# ------------------------------------------------------------------ neighbor tables
def view(data):
    """Abstract view of LatticeData: per site the list of (neighbor, distance, periodic, nvec)."""
    out = []
    for i in range(data.num_sites):
        row = []
        for k in range(data.neighbors.shape[1]):
            d = float(data.distvals[data.distances[i, k]])
            if np.isfinite(d):
                row.append((int(data.neighbors[i, k]), d, bool(data.pmask[i, k]),
                            tuple(int(x) for x in data.pnvecs[i, k])))
        out.append(row)
    return out


def wellformed(data, where=""):
    n, m = data.num_sites, data.neighbors.shape[1]
    dim = data.positions.shape[1]
    require(data.positions.shape == (n, dim), where + "positions shape")
    require(data.indices.shape[0] == n, where + "indices shape")
    require(data.neighbors.shape == (n, m), where + "neighbors shape")
    for nm, sh in (("distances", (n, m)), ("pmask", (n, m)), ("pnvecs", (n, m, dim)), ("paxes", (n, m, dim))):
        require(getattr(data, nm).shape == sh, where + nm + " shape", got=getattr(data, nm).shape, want=sh)
    require(data.invalid_idx == n, where + "invalid index is the number of sites")
    dv = np.asarray(data.distvals, dtype=float)
    require(np.all(np.diff(dv) > 0), where + "distance levels ascending", dv=dv.tolist())
    require(np.isinf(dv[-1]) and data.invalid_distidx == len(dv) - 1, where + "invalid level is the last one",
            dv=dv.tolist(), inv=data.invalid_distidx)
    if m:
        require(int(np.max(data.distances)) <= len(dv) - 1 and int(np.min(data.distances)) >= 0, where + "levels in range")
        bad = (data.distances == data.invalid_distidx) != (data.neighbors == n)
        require(not np.any(bad), where + "invalid neighbor iff invalid level", at=np.argwhere(bad)[:3].tolist())
        require(not np.any(data.neighbors > n) and not np.any(data.neighbors < 0), where + "neighbor in range")
        require(not np.any(data.pmask & (data.neighbors == n)), where + "periodic mark only on valid entries")
        require(not np.any(data.pnvecs[~data.pmask]), where + "translation vectors only on periodic entries")


def rand_table(rng, n=None, m=None, dim=None, nlev=None, symmetric=True, holes=True, dtype=None, full=False):
    """Arguments (indices, positions, neighbors, distances) for a LatticeData object."""
    n = n if n is not None else int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12]))
    dim = dim or int(rng.integers(1, 4))
    nlev = nlev or int(rng.integers(1, 5))
    levels = np.sort(rng.choice(np.arange(1, 4 * nlev + 1), size=nlev, replace=False)) * 0.5
    m = m if m is not None else int(rng.integers(1, 6))
    rows = [[] for _ in range(n)]
    if n > 1:
        for _ in range(n * m):
            i, j = (int(x) for x in rng.integers(0, n, size=2))
            if i == j or len(rows[i]) >= m or len(rows[j]) >= m or any(x == j for x, _ in rows[i]) or any(x == i for x, _ in rows[j]):
                continue
            d = float(rng.choice(levels))
            rows[i].append((j, d))
            if symmetric:
                rows[j].append((i, d))
    width = max(m if not full else 0, max(len(r) for r in rows), 1)
    nb = np.full((n, width), n)
    ds = np.full((n, width), np.inf)
    for i, r in enumerate(rows):
        slots = np.sort(rng.permutation(width)[: len(r)]) if holes else np.arange(len(r))
        for s, (j, d) in zip(slots, sorted(r, key=lambda x: x[1])):
            nb[i, s], ds[i, s] = j, d
    if dtype is None:
        dtype = rng.choice(["min", "int64"])
    nb = nb.astype(np.min_scalar_type(n) if dtype == "min" else dtype)
    ind = np.concatenate([rng.integers(-3, 4, size=(n, dim)), rng.integers(0, 3, size=(n, 1))], axis=1)
    pos = np.round(rng.uniform(-3, 3, size=(n, dim)), 3)
    return ind, pos, nb, ds


def add_periodic(rng, data):
    """Random symmetric periodic neighbors on a LatticeData object; returns the dictionaries."""
    n, dim = data.num_sites, data.dim
    idx, dist, nv, ax = {}, {}, {}, {}
    have = [set(e[0] for e in r) for r in view(data)]
    levels = [float(x) for x in data.distvals if np.isfinite(x)] + [7.25]
    for _ in range(int(rng.integers(0, 2 * n + 1))):
        i, j = (int(x) for x in rng.integers(0, n, size=2))
        if i == j or j in have[i]:
            continue
        have[i].add(j)
        have[j].add(i)
        d = float(rng.choice(levels))
        vec = rng.integers(-3, 4, size=dim)
        a = [int(rng.integers(0, dim))]
        for p, q, s in ((i, j, 1), (j, i, -1)):
            idx.setdefault(p, []).append(q)
            dist.setdefault(p, []).append(d)
            nv.setdefault(p, []).append(s * vec)
            ax.setdefault(p, []).append(a)
    arr = lambda dct: {k: np.array(x) for k, x in dct.items()}
    idx, dist, nv, ax = arr(idx), arr(dist), arr(nv), arr(ax)
    data.set_periodic(idx, dist, nv, ax)
    return idx, dist, nv, ax


def rand_data(rng, periodic=None, **kw):
    from lattpy.data import LatticeData
    args = rand_table(rng, **kw)
    data = LatticeData(*[np.array(a) for a in args])
    if periodic is None:
        periodic = rng.random() < 0.5
    if periodic:
        add_periodic(rng, data)
    return data


def snap(data):
    return {k: np.array(getattr(data, k), copy=True) for k in
            ("indices", "positions", "neighbors", "distances", "distvals", "pnvecs", "pmask", "paxes")} | {
                "invalid_idx": data.invalid_idx, "invalid_distidx": data.invalid_distidx}


def unchanged(a, b):
    return all(same(a[k], b[k]) for k in a)
