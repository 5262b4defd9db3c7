from .lib import *
from fractions import Fraction
from engine.sym import PI, SIN, COS
from engine.interp import SObj

H = [{"d": 1}, {"d": 2}, {"d": 3}]


def sqd(p, q):
    return summ(mul(sub(a, b), sub(a, b)) for a, b in zip(p, q))


def is_root(x, s):
    return And(T(x) >= 0, eq(mul(x, x), s))


def rounded(x, s, dec):
    """x is the root of s rounded to dec decimals."""
    e = Fraction(1, 2 * 10 ** dec)
    lo, hi = sub(x, e), add(x, e)
    return And(Or(T(lo) <= 0, le(mul(lo, lo), s)), le(s, mul(hi, hi)), T(hi) >= 0,
               eq(to_kind(sym.rint_(mul(x, 10 ** dec)), "real"), mul(x, 10 ** dec)))


@contract("C18", "distance", ["spatial.distance", "spatial.distances"], dims(1, 2, 3))
def _(v, d):
    N = v.size("N", 1)
    a, b = v.arr("a", (N, d)), v.arr("b", (N, d))
    p, q = v.arr("p", (d,)), v.arr("q", (d,))
    fr = Frame(v, a=a, b=b, p=p, q=q)
    row = lambda x, k: [x(k, i) for i in range(d)]
    vec = lambda x: [x(i) for i in range(d)]
    v.post("distance of two points", is_root(v.call("spatial.distance", p, q), sqd(vec(p), vec(q))))
    r = v.call("spatial.distances", a, b)
    same_shape(v, r, (N,))
    v.forall("distances of many points", (N,), lambda k: is_root(r(k), sqd(row(a, k), row(b, k))))
    r = v.call("spatial.distances", p, b)
    same_shape(v, r, (N,), "one to many")
    v.forall("distances of one point to many", (N,), lambda k: is_root(r(k), sqd(vec(p), row(b, k))))
    for dec in (0, 3, 6):
        x = v.call("spatial.distance", p, q, dec)
        s = sym.sqrt_(sqd(vec(p), vec(q)))
        v.post(f"distance rounded to {dec} decimals", And(T(sub(x, s)) * 2 * 10 ** dec <= 1, T(sub(s, x)) * 2 * 10 ** dec <= 1))
        y = v.call("spatial.distances", a, b, decimals=dec)
        v.forall(f"distances rounded to {dec} decimals", (N,), lambda k: And(
            T(sub(y(k), sym.sqrt_(sqd(row(a, k), row(b, k))))) * 2 * 10 ** dec <= 1, T(sub(sym.sqrt_(sqd(row(a, k), row(b, k))), y(k))) * 2 * 10 ** dec <= 1))
    fr.check()


@contract("C18", "interweave", ["spatial.interweave"], [{"n": n, "nd": nd} for n in (1, 2, 3, 4, 5) for nd in (1, 2)])
def _(v, n, nd):
    N = v.size("N")
    arrs = [v.arr(f"a{i}", (N,) if nd == 1 else (N, 2), "int") for i in range(n)]
    fr = Frame(v, **{f"a{i}": a for i, a in enumerate(arrs)})
    r = v.call("spatial.interweave", vlist(arrs))
    if not same_shape(v, r, (mul(N, n),) if nd == 1 else (mul(N, n), 2)):
        return
    for i in range(n):
        v.forall(f"element k of array {i} is at position k * n + {i}", (N,) if nd == 1 else (N, 2),
                 lambda k, *j: eq(r(add(mul(k, n), i), *j), arrs[i](k, *j)))
    fr.check()


@contract("C18", "chain", ["utils.chain"], [{"cycle": False}, {"cycle": True}])
def _(v, cycle):
    from engine.interp import seg_list, vl_len, vl_get
    N = v.size("N", 1)
    a = v.arr("a", (N,), "int")
    items = a
    r = v.call("utils.chain", items, cycle)
    n = vl_len(r)
    v.post("number of pairs", eq(n, N if cycle else sub(N, 1)))

    def pair(k):
        p = vl_get(r, k)
        return And(eq(p[0], a(k)), eq(p[1], a(add(k, 1))))
    v.forall("consecutive pairs", (sub(N, 1),), pair)
    if cycle:
        p = vl_get(r, sub(N, 1))
        v.post("closing pair", And(eq(p[0], a(sub(N, 1))), eq(p[1], a(0))))


@contract("C18", "vindices", ["spatial.vindices"], [{"d": d, "ax": ax} for d in (1, 2, 3) for ax in [None] + list(range(d))])
def _(v, d, ax):
    lo = [v.int(f"lo{i}") for i in range(d)]
    hi = [v.int(f"hi{i}") for i in range(d)]
    v.sizes += [b - a for a, b in zip(lo, hi)]
    for a, b in zip(lo, hi):
        v.pre(a <= b)
    lims = from_nested([[a, b] for a, b in zip(lo, hi)], INT64)
    fr = Frame(v, lims=lims)
    r = v.call("spatial.vindices", lims, ax)
    n = 1
    for a, b in zip(lo, hi):
        n = mul(n, b - a)
    if not same_shape(v, r, (n, d)):
        return
    v.post("integers", r.kind == "int")
    v.forall("inside the limits", (n, d), lambda k, i: And(T(r(k, i)) >= lo[i], T(r(k, i)) < hi[i]))
    k, l = v.int("k", 0, n), v.int("l", 0, n)
    v.post("every vector at most once", Implies(And(*[eq(r(k, i), r(l, i)) for i in range(d)]), k == l))
    x = [v.int(f"x{i}", lo[i], hi[i]) for i in range(d)]
    v.post("every vector of the limits is contained", some_row(r, lambda p: And(*[eq(r.fn((p, i)), x[i]) for i in range(d)])))
    if ax is not None:
        v.post("ordered along the sort axis", Implies(k < l, le(r(k, ax), r(l, ax))))
    fr.check()


def mat3(a):
    return [[a(i, j) for j in range(3)] for i in range(3)]


@contract("C18", "rotation_matrices", ["spatial.rx", "spatial.ry", "spatial.rz"], [{"ax": 0}, {"ax": 1}, {"ax": 2}])
def _(v, ax):
    t = v.real("theta")
    m = mat3(v.call("spatial." + ("rx", "ry", "rz")[ax], t))
    s, c = sym.sincos(t)
    p, q = (ax + 1) % 3, (ax + 2) % 3
    want = [[0] * 3 for _ in range(3)]
    want[ax][ax] = 1
    want[p][p] = want[q][q] = c
    want[q][p], want[p][q] = s, -s
    for i in range(3):
        for j in range(3):
            v.post(f"entry {i}{j}", eq(m[i][j], want[i][j]))
            v.post(f"orthogonal {i}{j}", eq(dot(m[i], m[j]), int(i == j)))


def rotm(ax, t):
    s, c = sym.sincos(t)
    p, q = (ax + 1) % 3, (ax + 2) % 3
    w = [[0] * 3 for _ in range(3)]
    w[ax][ax] = 1
    w[p][p] = w[q][q] = c
    w[q][p], w[p][q] = s, neg(s)
    return w


def mm(a, b):
    return [[dot(r, [x[j] for x in b]) for j in range(len(b[0]))] for r in a]


@contract("C18", "rotate2d", ["spatial.rotate2d"], [{"degree": False}, {"degree": True}])
def _(v, degree):
    t = v.real("theta")
    a = v.arr("a", (2,))
    fr = Frame(v, a=a)
    r = v.call("spatial.rotate2d", a, t, degree=degree)
    s, c = sym.sincos(truediv(mul(t, PI), 180) if degree else t)
    same_shape(v, r, (2,))
    v.post("x", eq(r(0), add(mul(a(0), c), mul(a(1), s))))
    v.post("y", eq(r(1), sub(mul(a(1), c), mul(a(0), s))))
    v.post("length is preserved", eq(add(mul(r(0), r(0)), mul(r(1), r(1))), add(mul(a(0), a(0)), mul(a(1), a(1)))))
    fr.check()


@contract("C18", "rotate3d", ["spatial.rot", "spatial.rotate3d"], [{"degree": False}, {"degree": True}])
def _(v, degree):
    t = [v.real(f"t{i}") for i in range(3)]
    for x in t:
        v.c.fact(z3.And(SIN(z3.RealVal(0)) == 0, COS(z3.RealVal(0)) == 1))
    a = v.arr("a", (3,))
    fr = Frame(v, a=a)
    r = v.call("spatial.rotate3d", a, *t, degree=degree)
    u = [truediv(mul(x, PI), 180) if degree else x for x in t]
    R = mm(mm(rotm(2, u[2]), rotm(1, u[1])), rotm(0, u[0]))
    same_shape(v, r, (3,))
    for x, y in zip(t, u):
        if not degree:
            v.c.fact(z3.Implies(x == 0, z3.And(SIN(T(y)) == 0, COS(T(y)) == 1)))
        else:
            v.c.fact(z3.Implies(x == 0, z3.And(SIN(z3.simplify(T(y))) == 0, COS(z3.simplify(T(y))) == 1)))
    for j in range(3):
        v.post(f"component {j}", eq(r(j), dot([a(i) for i in range(3)], [R[i][j] for i in range(3)])))
    fr.check()


@contract("C18", "cell_size", ["spatial.cell_size"], DIMS)
def _(v, d):
    a = v.arr("a", (d, d))
    m = mat(a)
    fr = Frame(v, a=a)
    r = v.call("spatial.cell_size", a)
    if same_shape(v, r, (d,)):
        for i in range(d):
            col = [0] + [m[k][i] for k in range(d)]
            v.post(f"extent {i} covers the vectors", And(*[le(sub(x, y), r(i)) for x in col for y in col]))
            v.post(f"extent {i} attained", Or(*[eq(sub(x, y), r(i)) for x in col for y in col]))
    fr.check()


@contract("C18", "compute_vectors", ["spatial.compute_vectors"], [{"n": 1}, {"n": 2}, {"n": 3}])
def _(v, n):
    a, b, c = v.real("a"), v.real("b"), v.real("c")
    v.pre(And(a > 0, b > 0, c > 0))
    al, be, ga = v.real("alpha"), v.real("beta"), v.real("gamma")
    rad = lambda x: truediv(mul(x, PI), 180)
    cos = lambda x: sym.sincos(rad(x))[1]
    if n == 1:
        r = v.call("spatial.compute_vectors", a)
        v.post("one vector", eq(r[0], a))
        return
    if n == 2:
        r = v.call("spatial.compute_vectors", a, b, alpha=al)
        m = mat(r)
        v.post("lengths", And(eq(dot(m[0], m[0]), mul(a, a)), eq(dot(m[1], m[1]), mul(b, b))))
        v.post("angle", eq(dot(m[0], m[1]), mul(mul(a, b), cos(al))))
        return
    sg, cg = sym.sincos(rad(ga))
    v.pre(T(sg) > 0)
    ca, cb = cos(al), cos(be)
    # the three angles belong to a cell: the third vector has a real component
    v.pre(T(sub(mul(sg, sg), mul(cb, cb))) * T(sg) * T(sg) >= 0)
    g = sub(ca, mul(cg, cb))
    v.pre(T(mul(mul(c, c), sub(sub(mul(sg, sg), mul(mul(cb, cb), mul(sg, sg))), mul(g, g)))) >= 0)
    r = v.call("spatial.compute_vectors", a, b, c, al, be, ga)
    m = mat(r)
    v.post("first length", eq(dot(m[0], m[0]), mul(a, a)))
    v.post("second length", eq(dot(m[1], m[1]), mul(b, b)))
    v.post("angle between the first and the second", eq(dot(m[0], m[1]), mul(mul(a, b), cg)))
    v.post("angle between the first and the third", eq(dot(m[0], m[2]), mul(mul(a, c), cb)))
    v.post("angle between the second and the third", eq(dot(m[1], m[2]), mul(mul(b, c), ca)))
    x = m[2]
    v.post("third length", eq(dot(m[2], m[2]), mul(c, c)))


# ---------------------------------------------------------------- C15
@contract("C15", "min_dtype", ["utils.min_dtype"], [{"signed": s, "scalar": c} for s in (False, True) for c in (False, True)])
def _(v, signed, scalar):
    if scalar:
        a = v.int("a", -2 ** 63, 2 ** 63)
        d = v.call("utils.min_dtype", a, signed=signed)
        v.post("the value fits", d.fits(a))
        return
    N = v.size("N", 1)
    a = v.arr("a", (N,), "int", -2 ** 63 + 1, 2 ** 63)
    fr = Frame(v, a=a)
    d = v.call("utils.min_dtype", a, signed=signed)
    v.forall("every value fits", (N,), lambda k: d.fits(a(k)))
    fr.check()
