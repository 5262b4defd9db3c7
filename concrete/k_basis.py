import itertools
import numpy as np
from common import *


def basis(rng, k, info):
    from lattpy.basis import LatticeBasis
    dim = 1 + k % 3
    v = rand_basis(rng, dim)
    info["vectors"] = v.tolist()
    b0 = v.copy()
    L = LatticeBasis(v if dim > 1 or rng.random() < 0.5 else float(v[0, 0]))
    require(same(v, b0), "constructor leaves the basis argument unchanged")
    return v, dim, L


def points(rng, dim, k):
    n = int(rng.choice([0, 1, 2, 3, 7, 40]))
    x = rng.uniform(-9, 9, size=(n, dim))
    if k % 2 and n:
        x = np.round(x * 4) / 4
    return x


@check("C01", "transform_itransform", 60, 600)
def _(rng, k, info):
    v, dim, L = basis(rng, k, info)
    x = points(rng, dim, k)
    info["points"] = x.tolist()
    x0 = x.copy()
    w = L.transform(x)
    require(w.shape == x.shape and close(w, x @ v), "transform is the linear combination of the basis vectors")
    require(close(L.itransform(w), x), "itransform(transform(x)) = x", got=L.itransform(w).tolist())
    require(close(L.transform(L.itransform(x)), x), "transform(itransform(x)) = x")
    require(same(x, x0), "points unchanged")
    for p in x[:3]:
        p0 = p.copy()
        require(L.transform(p).shape == (dim,) and close(L.transform(p), p @ v), "transform of a single point")
        require(close(L.itransform(L.transform(p)), p), "round trip of a single point")
        require(close(L.itransform(list(p)), L.itransform(p)), "sequences are accepted")
        require(same(p, p0), "point unchanged")
    xi = rng.integers(-5, 6, size=(4, dim))
    require(close(L.transform(xi), xi @ v), "transform of integer coordinates")
    if dim == 1:
        y = float(rng.uniform(-5, 5))
        require(close(L.transform(L.itransform(y)), [y]), "scalar coordinates in one dimension")


@check("C01", "translate", 60, 600)
def _(rng, k, info):
    v, dim, L = basis(rng, k, info)
    r = rng.uniform(-3, 3, size=dim)
    n = int(rng.choice([0, 1, 2, 5, 30]))
    nv = rng.integers(-9, 10, size=(n, dim))
    rs = rng.uniform(-3, 3, size=(n, dim))
    info.update(nvecs=nv.tolist(), r=r.tolist(), rs=rs.tolist())
    keep = frozen(nv, r, rs)
    require(close(L.translate(nv, r), r + nv @ v), "translate many cells, one position")
    require(close(L.translate(nv, rs), rs + nv @ v), "translate many cells, many positions")
    require(close(L.translate(nv), nv @ v), "translate without position")
    for a in nv[:3]:
        require(close(L.translate(a, r), r + a @ v), "translate one cell")
        require(close(L.translate(a), a @ v), "translate one cell without position")
        require(close(L.translate(a, rs), rs + a @ v), "translate many positions by one cell")
    require(all(same(a, b) for a, b in zip(keep, (nv, r, rs))), "arguments unchanged")


@check("C01", "itranslate", 80, 800)
def _(rng, k, info):
    v, dim, L = basis(rng, k, info)
    x = points(rng, dim, k) * 3
    info["points"] = x.tolist()
    x0 = x.copy()

    def judge(nvec, r, p):
        nvec, r = np.asarray(nvec), np.asarray(r)
        require(np.issubdtype(nvec.dtype, np.integer), "cell vector is an integer array", dtype=nvec.dtype)
        require(nvec.shape == p.shape and r.shape == p.shape, "shapes")
        require(close(nvec @ v + r, p), "cell + remainder reproduce the position")
        f = r @ np.linalg.inv(v)
        require(np.all(f > -1e-9) and np.all(f < 1 + 1e-9), "remainder lies in the unit cell", frac=f.tolist())
        f0 = p @ np.linalg.inv(v)
        far = np.abs(f0 - np.round(f0)) > 1e-9
        require(np.all((nvec == np.floor(f0)) | ~far), "cell is the floor of the lattice coordinates")
    n, r = L.itranslate(x)
    judge(n, r, x)
    for p in x[:3]:
        n, r = L.itranslate(p)
        judge(n, r, p)
        n2, r2 = L.itranslate(tuple(p))
        require(same(n, n2) and close(r, r2), "sequences are accepted")
    require(same(x, x0), "points unchanged")


@check("C01", "properties", 30, 200)
def _(rng, k, info):
    from lattpy.basis import LatticeBasis
    v, dim, L = basis(rng, k, info)
    require(L.dim == dim and same(L.vectors, v), "vectors are the given rows")
    require(close(L.norms, np.linalg.norm(v, axis=1)), "norms are the lengths of the basis vectors")
    v3 = np.eye(3)
    v3[:dim, :dim] = v
    require(same(L.vectors3d, v3), "3d vectors are padded with unit vectors")
    require(same(LatticeBasis(L).vectors, v), "basis from a basis")
    from lattpy.spatial import cell_size
    want = np.maximum(np.max(v, axis=0), 0) - np.minimum(np.min(v, axis=0), 0)
    require(close(L.cell_size, want), "cell size")


@check("C02", "reciprocal", 90, 900)
def _(rng, k, info):
    from lattpy.basis import LatticeBasis
    v, dim, L = basis(rng, k, info)
    want = 2 * np.pi * np.eye(dim)
    rv = L.reciprocal_vectors()
    require(rv.shape == (dim, dim), "shape")
    require(np.max(np.abs(v @ rv.T - want)) < 1e-8 * (1 + np.max(np.abs(v)) * np.max(np.abs(rv))), "a_i . b_j = 2 pi delta_ij", got=(v @ rv.T).tolist())
    rc = L.reciprocal_vectors(check=True)
    require(close(rc, rv), "check=True gives the same vectors")
    require(same(L.vectors, v), "vectors unchanged")
    rl = L.reciprocal_lattice()
    require(np.max(np.abs(v @ rl.vectors.T - want)) < 1e-6, "reciprocal lattice is spanned by the reciprocal vectors")
    rl2 = L.reciprocal_lattice(min_negative=True)
    require(np.max(np.abs(v @ rl2.vectors.T - want)) < 1e-6, "reciprocal lattice (min_negative)")
    require(close(rl.reciprocal_lattice().vectors, v, 1e-7), "reciprocal of the reciprocal lattice is the lattice")
    require(L.is_reciprocal(rv), "reciprocal vectors are recognised")


@check("C02", "is_reciprocal", 120, 1200)
def _(rng, k, info):
    v, dim, L = basis(rng, k, info)
    rv = 2 * np.pi * np.linalg.inv(v).T
    tol = float(rng.choice([1e-6, 1e-3, 0.1, 1.0]))
    cand = rv.copy()
    i, j = (int(x) for x in rng.integers(0, dim, size=2))
    eps = float(rng.choice([0, 0.5, -0.5, 2.0, -2.0, 2.0])) * tol
    # shift a_i . b_j by eps
    cand[j] = cand[j] + eps * np.linalg.inv(v).T[i]
    if k % 7 == 0:
        cand = -cand
    if k % 11 == 0 and dim > 1:
        cand = cand[::-1].copy()
    info.update(cand=cand.tolist(), tol=tol)
    dev = np.abs(v @ cand.T - 2 * np.pi * np.eye(dim))
    if np.any(np.abs(dev - tol) < 1e-9):
        return
    c0 = cand.copy()
    got = L.is_reciprocal(cand, tol)
    require(bool(got) == bool(np.all(dev <= tol)), "recogniser accepts exactly the dual vectors", got=got, dev=dev.tolist())
    if tol == 1e-6:
        require(bool(L.is_reciprocal(cand)) == bool(np.all(dev <= tol)), "default tolerance")
    require(same(cand, c0), "candidate unchanged")


@check("C02", "cell_volume", 60, 400)
def _(rng, k, info):
    from lattpy.spatial import cell_volume
    v, dim, L = basis(rng, k, info)
    want = abs(np.linalg.det(v))
    require(close(float(L.cell_volume), want), "cell volume of the basis", got=L.cell_volume)
    require(close(float(np.squeeze(cell_volume(v))), want), "cell_volume", got=cell_volume(v))


@check("C03", "bijection", 60, 400)
def _(rng, k, info):
    from lattpy.basis import LatticeBasis
    dim = 1 + k % 3
    L = LatticeBasis(rand_basis(rng, dim))
    shape = tuple(int(x) for x in rng.integers(1, 6, size=dim))
    if k % 10 == 9:
        shape = tuple(int(x) for x in rng.integers(50, 400, size=dim))
    if k % 10 == 5:         # numbers of cells beyond 32 bits
        top = {1: 2 ** 40, 2: 2 ** 20, 3: 2 ** 13}[dim]
        shape = tuple(int(x) for x in rng.integers(top // 2, top, size=dim))
    info["shape"] = shape
    total = int(np.prod(shape))
    if total <= 300:
        cells = np.array(list(itertools.product(*[range(s) for s in shape])))
        want = np.arange(total)
    else:
        cells = np.array([[int(rng.integers(0, s)) for s in shape] for _ in range(40)] + [[s - 1 for s in shape]])
        want = np.ravel_multi_index(cells.T, shape)
        sel = rng.permutation(len(cells))
        cells, want = cells[sel], want[sel]
    c0 = cells.copy()
    si = L.get_cell_superindex(cells, shape)
    require(same(si, want), "super-index is the row-major rank", got=np.asarray(si).tolist()[:20])
    w0 = want.copy()
    back = L.get_cell_index(want, shape)
    require(same(back, cells), "cell index of the super-index", got=np.asarray(back).tolist()[:20])
    require(same(cells, c0) and same(want, w0), "arguments unchanged")
    for i in list(range(min(4, len(cells)))) + [len(cells) - 1]:
        c = tuple(int(x) for x in cells[i])
        s = L.get_cell_superindex(c, shape)
        require(np.ndim(s) == 0 and int(s) == int(want[i]), "single super-index", cell=c, got=s)
        b = L.get_cell_index(int(want[i]), shape)
        require(same(b, cells[i]), "single cell index", si=int(want[i]), got=np.asarray(b).tolist())
    require(same(L.get_cell_superindex(cells, np.array(shape)), want), "shape as array")
    require(same(L.get_cell_index(want, list(shape)), cells), "shape as list")
