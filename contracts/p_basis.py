from .lib import *
from fractions import Fraction
from engine.sym import PI

B = "basis.LatticeBasis."


@contract("C01", "transform", [B + "__init__", B + "transform", B + "vectors"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    N = v.size("N")
    x = v.arr("x", (N, d))
    fr = Frame(v, x=x, a=a)
    w = v.meth(L, "transform", x)
    same_shape(v, w, (N, d))
    v.forall("linear combination of the basis vectors", (N, d), lambda k, i: eq(w(k, i), dot([x(k, j) for j in range(d)], [m[j][i] for j in range(d)])))
    p = v.arr("p", (d,))
    w1 = v.meth(L, "transform", p)
    same_shape(v, w1, (d,), "single point")
    v.forall("single point", (d,), lambda i: eq(w1(i), dot([p(j) for j in range(d)], [m[j][i] for j in range(d)])))
    fr.check()


@contract("C01", "round_trip", [B + "itransform", B + "transform"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    N = v.size("N")
    x = v.arr("x", (N, d))
    fr = Frame(v, x=x, a=a)
    y = v.meth(L, "itransform", v.meth(L, "transform", x))
    z = v.meth(L, "transform", v.meth(L, "itransform", x))
    p = v.arr("p", (d,))
    y1 = v.meth(L, "itransform", v.meth(L, "transform", p))
    z1 = v.meth(L, "transform", v.meth(L, "itransform", p))
    same_shape(v, y, (N, d))
    same_shape(v, z, (N, d))
    v.forall("itransform(transform(x)) = x", (N, d), lambda k, i: eq(y(k, i), x(k, i)))
    v.forall("transform(itransform(x)) = x", (N, d), lambda k, i: eq(z(k, i), x(k, i)))
    v.forall("itransform(transform(p)) = p", (d,), lambda i: eq(y1(i), p(i)))
    v.forall("transform(itransform(p)) = p", (d,), lambda i: eq(z1(i), p(i)))
    fr.check()


@contract("C01", "translate", [B + "translate"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    N = v.size("N")
    n = v.arr("n", (N, d), "int")
    n1 = v.arr("n1", (d,), "int")
    r = v.arr("r", (d,))
    rs = v.arr("rs", (N, d))
    fr = Frame(v, n=n, n1=n1, r=r, rs=rs, a=a)
    comb = lambda f, i: dot([f(j) for j in range(d)], [m[j][i] for j in range(d)])
    t = v.meth(L, "translate", n1, r)
    same_shape(v, t, (d,), "one cell, one position")
    v.forall("one cell, one position", (d,), lambda i: eq(t(i), add(r(i), comb(lambda j: n1(j), i))))
    t0 = v.meth(L, "translate", n1)
    same_shape(v, t0, (d,), "one cell, origin")
    v.forall("one cell, origin", (d,), lambda i: eq(t0(i), comb(lambda j: n1(j), i)))
    ts = v.meth(L, "translate", n, r)
    same_shape(v, ts, (N, d), "many cells, one position")
    v.forall("many cells, one position", (N, d), lambda k, i: eq(ts(k, i), add(r(i), comb(lambda j: n(k, j), i))))
    tr = v.meth(L, "translate", n, rs)
    v.forall("many cells, many positions", (N, d), lambda k, i: eq(tr(k, i), add(rs(k, i), comb(lambda j: n(k, j), i))))
    tz = v.meth(L, "translate", n)
    v.forall("many cells, origin", (N, d), lambda k, i: eq(tz(k, i), comb(lambda j: n(k, j), i)))
    tb = v.meth(L, "translate", n1, rs)
    v.forall("one cell, many positions", (N, d), lambda k, i: eq(tb(k, i), add(rs(k, i), comb(lambda j: n1(j), i))))
    fr.check()


@contract("C01", "itranslate", [B + "itranslate"], dims(1, 2, 3, single=[True, False]))
def _(v, d, single):
    L, m, a = basis(v, d)
    N = v.size("N")
    x = v.arr("x", (d,) if single else (N, d))
    fr = Frame(v, x=x, a=a)
    n, r = v.meth(L, "itranslate", x)
    sh = (d,) if single else (N, d)
    same_shape(v, n, sh, "cell")
    same_shape(v, r, sh, "remainder")
    v.post("cell vector is an integer array", n.kind == "int")
    ix = (lambda f, k, i: f(i)) if single else (lambda f, k, i: f(k, i))
    inv = v.get(L, "_vectors_inv")
    dims_ = (1, d) if single else (N, d)
    v.forall("cell and remainder reproduce the position", dims_, lambda k, i: eq(
        add(ix(r, k, i), dot([ix(n, k, j) for j in range(d)], [m[j][i] for j in range(d)])), ix(x, k, i)))
    # lattice coordinates of the remainder by the inverse (the two-sided inverse is fixed by the basis)
    w = mat(inv)
    for i in range(d):
        for j in range(d):
            v.post(f"stored inverse {i}{j}", eq(dot([m[k][i] for k in range(d)], [w[k][j] for k in range(d)]), Fraction(int(i == j))))

    def inside(k, i):
        c = dot([ix(r, k, j) for j in range(d)], w[i])
        cx = dot([ix(x, k, j) for j in range(d)], w[i])
        return And(T(c) >= 0, T(c) < 1)

    def lem(k, i):
        c = dot([ix(r, k, j) for j in range(d)], w[i])
        cx = dot([ix(x, k, j) for j in range(d)], w[i])
        return eq(c, sub(cx, ix(n, k, i)))
    v.forall("coordinates of the remainder", dims_, lem)
    v.forall("lattice coordinates of the remainder lie in [0, 1)", dims_, lambda k, i: Implies(lem(k, i), inside(k, i)))
    fr.check()


@contract("C02", "reciprocal_vectors", [B + "reciprocal_vectors", B + "vectors3d", "spatial.cell_volume"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    fr = Frame(v, a=a)
    b = v.meth(L, "reciprocal_vectors")
    same_shape(v, b, (d, d))
    v.forall("dot products are 2 pi or 0", (d, d), lambda i, j: eq(dot(m[i], [b(j, k) for k in range(d)]), mul(2, PI) if i == j else 0))
    fr.check()


@contract("C02", "reciprocal_lattice", [B + "reciprocal_lattice"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    b = v.meth(L, "reciprocal_vectors")
    R = v.meth(L, "reciprocal_lattice")
    rv = v.get(R, "vectors")
    v.post("same class", R.cls is L.cls)
    same_shape(v, rv, (d, d))
    v.forall("spanned by the reciprocal vectors", (d, d), lambda i, j: eq(rv(i, j), b(i, j)))


@contract("C02", "is_reciprocal", [B + "is_reciprocal"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    b = v.arr("b", (d, d))
    tol = v.real("tol")
    fr = Frame(v, a=a, b=b)
    r = v.meth(L, "is_reciprocal", b, tol)
    ok = And(*[T(abs_(sub(dot(m[i], [b(j, k) for k in range(d)]), mul(2, PI) if i == j else 0))) <= tol for i in range(d) for j in range(d)])
    v.post("accepted exactly when all dot products are met", Iff(r, ok))
    fr.check()


@contract("C02", "cell_volume", ["spatial.cell_volume", B + "cell_volume"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    vol = v.get(L, "cell_volume")
    D = T(det(m))
    v.post("absolute value of the determinant", And(T(vol) >= 0, Or(T(vol) == D, T(vol) == -D)))
    b = v.arr("b", (d, d))
    vb = v.call("spatial.cell_volume", b)
    E = T(det(mat(b)))
    v.post("absolute value of the determinant (any vectors)", And(T(vb) >= 0, Or(T(vb) == E, T(vb) == -E)))
    fr = Frame(v, b=b)
    fr.check()


def rank(idx, shape):
    r = 0
    for i, s in zip(idx, shape):
        r = add(mul(r, s), i)
    return r


def cells(v, d):
    shape = tuple(v.int(f"s{i}", 1) for i in range(d))
    return shape


@contract("C03", "superindex", [B + "get_cell_superindex"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    shape = cells(v, d)
    N = v.size("N")
    ix = v.arr("ix", (N, d), "int")
    for j in range(d):
        v.pre(forall([("k", IS)], lambda w: And(w[0] >= 0, w[0] < N), lambda w: And(ix(w[0], j) >= 0, ix(w[0], j) < shape[j]), lambda w: [ix(w[0], j)]))
    fr = Frame(v, ix=ix, a=a)
    si = v.meth(L, "get_cell_superindex", ix, shape)
    same_shape(v, si, (N,))
    v.forall("row-major rank", (N,), lambda k: eq(si(k), rank([ix(k, j) for j in range(d)], shape)))
    one = vlist([v.int(f"i{j}", 0, shape[j]) for j in range(d)])
    s1 = v.meth(L, "get_cell_superindex", one, shape)
    v.post("row-major rank of a single cell", eq(s1, rank(list(one), shape)))
    n = 1
    for s in shape:
        n = mul(n, s)
    fr.check()


@contract("C03", "rank_is_bijective", [B + "get_cell_superindex", B + "get_cell_index"], DIMS)
def _(v, d):
    """Lemma over the spec function: range, injectivity."""
    shape = cells(v, d)
    i = [v.int(f"i{j}", 0, shape[j]) for j in range(d)]
    k = [v.int(f"k{j}", 0, shape[j]) for j in range(d)]
    n = 1
    for s in shape:
        n = mul(n, s)
    ri, rk = T(rank(i, shape)), T(rank(k, shape))
    steps = []
    # Horner step: q*s + i with 0 <= i < s determines (q, i)
    v.post("rank is not negative", ri >= 0)
    v.post("rank is below the number of cells", ri < T(n))
    v.post("different cells have different ranks", Implies(ri == rk, And(*[i[j] == k[j] for j in range(d)])))


@contract("C03", "cell_index", [B + "get_cell_index"], DIMS)
def _(v, d):
    L, m, a = basis(v, d)
    shape = cells(v, d)
    n = 1
    for s in shape:
        n = mul(n, s)
    N = v.size("N")
    si = v.arr("si", (N,), "int", 0, n)
    fr = Frame(v, si=si, a=a)
    ix = v.meth(L, "get_cell_index", si, shape)
    if same_shape(v, ix, (N, d)):
        v.forall("cell index inside the grid", (N, d), lambda k, j: And(T(ix(k, j)) >= 0, T(ix(k, j)) < shape[j]))
        v.forall("the rank of the cell is the super-index", (N,), lambda k: eq(rank([ix(k, j) for j in range(d)], shape), si(k)))
    s1 = v.int("s1", 0, n)
    one = v.meth(L, "get_cell_index", s1, shape)
    same_shape(v, one, (d,), "single value")
    v.post("single value", And(eq(rank([one(j) for j in range(d)], shape), s1), *[And(T(one(j)) >= 0, T(one(j)) < shape[j]) for j in range(d)]))
    fr.check()
