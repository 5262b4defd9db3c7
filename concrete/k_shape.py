import itertools
import numpy as np
from common import *


def pts(rng, dim, special):
    n = int(rng.choice([1, 2, 5, 60]))
    x = rng.uniform(-6, 6, size=(n, dim))
    x = np.concatenate([x, special, special + rng.uniform(-0.2, 0.2, size=special.shape)])
    return x[rng.permutation(len(x))]


def judge(shape, x, tol, depth, info, default_tol):
    """depth(points) > 0: outside by that much (same metric as the tolerance)."""
    x0 = x.copy()
    d = depth(x)
    got = np.asarray(shape.contains(x, tol))
    require(got.shape == (len(x),), "one flag per point")
    sure = np.abs(d - tol) > 1e-9
    bad = (got != (d <= tol)) & sure
    require(not np.any(bad), "contains accepts exactly the points of the region", point=x[bad][:2].tolist(), tol=tol, depth=d[bad][:2].tolist())
    got = np.asarray(shape.contains(x))
    sure = np.abs(d - default_tol) > 1e-9
    bad = (got != (d <= default_tol)) & sure & (np.abs(d) > 1e-9)
    require(not np.any(bad), "contains with the default tolerance", point=x[bad][:2].tolist())
    for i in range(min(3, len(x))):
        one = np.asarray(shape.contains(x[i:i + 1], tol))
        if abs(d[i] - tol) > 1e-9:
            require(bool(one[0]) == bool(d[i] <= tol), "points are judged independently")
    require(same(x, x0), "points unchanged")


@check("C04", "box", 120, 1000)
def _(rng, k, info):
    from lattpy.shape import Shape
    dim = 1 + k % 3
    size = rng.choice([0.5, 1.0, 2.0, 3.0, 4.25], size=dim)
    pos = None if k % 4 == 0 else rng.choice([-2.5, -1.0, 0.0, 0.7, 3.0], size=dim)
    tol = float(rng.choice([0.0, 1e-3, 0.3]))
    basis = rand_basis(rng, dim) if k % 2 else None
    info.update(size=size.tolist(), pos=None if pos is None else pos.tolist(), basis=None if basis is None else basis.tolist(), tol=tol)
    keep = frozen(size, pos if pos is not None else 0, basis if basis is not None else 0)
    arg = float(size[0]) if dim == 1 and k % 2 == 0 else (list(size) if k % 5 else size)
    s = Shape(arg, pos=pos, basis=basis)
    p = np.zeros(dim) if pos is None else pos
    corners = np.array(list(itertools.product(*zip(p, p + size))))
    world = corners if basis is None else corners @ basis
    inv = np.eye(dim) if basis is None else np.linalg.inv(basis)

    def depth(x):
        f = x @ inv
        return np.max(np.maximum(p - f, f - (p + size)), axis=1)
    lo, hi = world.min(0), world.max(0)
    inner = np.array([rng.uniform(p, p + size) for _ in range(10)])
    special = np.concatenate([world, inner if basis is None else inner @ basis])
    judge(s, pts(rng, dim, special), tol, depth, info, 0.0)
    lim = np.asarray(s.limits())
    require(lim.shape == (dim, 2) and close(lim, np.array([lo, hi]).T), "limits are the bounding box", got=lim.tolist())
    require(close(s.limits(), lim), "limits are stable")
    judge(s, pts(rng, dim, special), tol, depth, info, 0.0)
    require(all(same(a, b) for a, b in zip(keep, (size, pos if pos is not None else 0, basis if basis is not None else 0))), "arguments unchanged")


@check("C04", "circle", 90, 800)
def _(rng, k, info):
    from lattpy.shape import Circle
    dim = 1 + k % 3
    pos = rng.choice([-2.5, -1.0, 0.0, 0.7, 3.0], size=dim)
    r = float(rng.choice([0.5, 1.0, 2.0, 3.7]))
    tol = float(rng.choice([0.0, 1e-3, 0.3]))
    info.update(pos=pos.tolist(), radius=r, tol=tol)
    keep = frozen(pos)
    s = Circle(pos if k % 2 else tuple(pos), r)
    dirs = rng.normal(size=(12, dim))
    dirs /= np.linalg.norm(dirs, axis=1)[:, None]
    special = pos + dirs * r * rng.choice([0.0, 0.5, 0.9, 1.1], size=(12, 1))
    judge(s, pts(rng, dim, special), tol, lambda x: np.linalg.norm(x - pos, axis=1) - r, info, 0.0)
    require(close(s.limits(), np.array([pos - r, pos + r]).T), "limits are the bounding box", got=np.asarray(s.limits()).tolist())
    require(same(pos, keep[0]), "arguments unchanged")


@check("C04", "donut", 90, 800)
def _(rng, k, info):
    from lattpy.shape import Donut
    dim = 1 + k % 3
    pos = rng.choice([-2.5, -1.0, 0.0, 0.7, 3.0], size=dim)
    ri, ro = np.sort(rng.choice([0.5, 1.0, 2.0, 3.7, 4.0], size=2, replace=False))
    tol = float(rng.choice([0.0, 1e-3, 0.3]))
    info.update(pos=pos.tolist(), radii=(float(ri), float(ro)), tol=tol)
    keep = frozen(pos)
    s = Donut(pos if k % 2 else list(pos), float(ro), float(ri))
    dirs = rng.normal(size=(16, dim))
    dirs /= np.linalg.norm(dirs, axis=1)[:, None]
    special = pos + dirs * rng.choice([0.0, 0.5 * ri, 0.9 * ri, 0.5 * (ri + ro), 1.1 * ri, 0.95 * ro, 1.1 * ro], size=(16, 1))

    def depth(x):
        d = np.linalg.norm(x - pos, axis=1)
        return np.maximum(ri - d, d - ro)
    judge(s, pts(rng, dim, special), tol, depth, info, 1e-10)
    require(close(s.limits(), np.array([pos - ro, pos + ro]).T), "limits are the bounding box", got=np.asarray(s.limits()).tolist())
    require(same(pos, keep[0]), "arguments unchanged")


@check("C04", "hull", 60, 500)
def _(rng, k, info):
    from lattpy.shape import ConvexHull
    dim = 2 + k % 2
    if k % 3 == 0:      # simplex: barycentric oracle
        P = rng.uniform(-3, 3, size=(dim + 1, dim))
        if abs(np.linalg.det(P[1:] - P[0])) < 1.0:
            return
        M = np.linalg.inv(np.concatenate([P.T, np.ones((1, dim + 1))]))
        norms = np.linalg.norm(M[:, :dim], axis=1)

        def depth(x):
            b = np.concatenate([x, np.ones((len(x), 1))], axis=1) @ M.T
            return np.max(-b / norms, axis=1)
    else:               # box given by its corners plus interior points
        lo = rng.uniform(-3, 0, size=dim)
        hi = lo + rng.uniform(0.5, 4, size=dim)
        P = np.array(list(itertools.product(*zip(lo, hi))))
        P = np.concatenate([P, np.array([rng.uniform(lo, hi) for _ in range(3)])])[rng.permutation(2 ** dim + 3)]

        def depth(x):
            return np.max(np.maximum(lo - x, x - hi), axis=1)
    info["points"] = P.tolist()
    keep = frozen(P)
    tol = float(rng.choice([0.0, 1e-3, 0.3]))
    s = ConvexHull(P)
    c = P.mean(0)
    special = c + (P - c) * rng.choice([0.5, 0.9, 1.1], size=(len(P), 1))
    judge(s, pts(rng, dim, special), tol, depth, info, 1e-10)
    require(close(s.limits(), np.array([P.min(0), P.max(0)]).T), "limits are the bounding box")
    require(same(P, keep[0]), "arguments unchanged")
