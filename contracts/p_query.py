"""Site lookups and region queries (C17)."""
from .lib import *
from .p_data import Data, lattice, is_selection, INF
from fractions import Fraction


def is_index_list(v, r, n, want, name):
    """r lists exactly the k < n with want(k), ascending."""
    same = isinstance(r, SArr) and r.ndim == 1
    v.post(f"{name}: list of sites", same and r.kind == "int")
    if not same:
        return
    m = r.axes[0].n
    v.forall(f"{name}: only wanted sites", (m,), lambda k: And(T(r(k)) >= 0, T(r(k)) < T(n), want(r(k))))
    v.forall(f"{name}: ascending", (m, m), lambda k, l: Implies(lt(k, l), lt(r(k), r(l))))
    s = v.int("site", 0, n)
    v.post(f"{name}: all wanted sites", Implies(want(s), some_row(r, lambda p: eq(r.fn((p,)), s))))


def limit_args(v, d, mode, name):
    """mode: None (argument missing), or a string per axis: 'x' bound given, '-' None; shorter than d: missing axes."""
    if mode is None:
        return None, [None] * d
    xs = [v.real(f"{name}{i}") if m == "x" else None for i, m in enumerate(mode)]
    return vlist(xs), [xs[i] if i < len(xs) else None for i in range(d)]


MODES = {1: [None, "x"], 2: [None, "xx", "x-", "-x", "x"], 3: [None, "xxx", "x-x", "-x", "x"]}
MASKV = [{"d": d, "lo": a, "hi": b, "inv": i} for d in (1, 2, 3) for a in MODES[d] for b in MODES[d] for i in (False, True) if d < 3 or a == b or a is None or b is None]


def inside(D, lo, hi, inv):
    def want(k):
        c = And(*[And(*([le(lo[i], D.positions(k, i))] if lo[i] is not None else []), *([le(D.positions(k, i), hi[i])] if hi[i] is not None else [])) for i in range(D.d)])
        return Not(c) if inv else c
    return want


def finite(v, D):
    v.all(D.positions, lambda x: And(T(x) < INF, T(x) > -INF))


@contract("C17", "find_sites", ["data.LatticeData.site_mask", "data.LatticeData.find_sites"], MASKV)
def _(v, d, lo, hi, inv):
    D = Data(v, d)
    finite(v, D)
    mins, lo = limit_args(v, d, lo, "lo")
    maxs, hi = limit_args(v, d, hi, "hi")
    want = inside(D, lo, hi, inv)
    r = v.meth(D.obj, "site_mask", mins, maxs, invert=inv)
    if same_shape(v, r, (D.N,), "mask"):
        v.forall("mask marks exactly the wanted sites", (D.N,), lambda k: Iff(Not(eq(r(k), 0)) if r.kind != "bool" else r(k), want(k)))
    is_index_list(v, v.meth(D.obj, "find_sites", mins, maxs, invert=inv), D.N, want, "sites")
    D.unchanged()


def extreme(v, D, x, ax, pos, hi, name):
    """x is the largest (smallest) coordinate of the sites along ax."""
    v.forall(f"{name}: bound", (D.N,), lambda k: le(pos(k, ax), x) if hi else le(x, pos(k, ax)))
    v.post(f"{name}: attained", exists([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(D.N)), lambda q: eq(pos(q[0], ax), x)))


@contract("C17", "find_outer_sites", ["data.LatticeData.find_outer_sites"], [{"d": d, "ax": a} for d in (1, 2, 3) for a in range(d)])
def _(v, d, ax):
    D = Data(v, d)
    finite(v, D)
    off = v.real("offset")
    r = v.meth(D.obj, "find_outer_sites", ax, off)
    lims = v.meth(D.obj, "get_limits")
    extreme(v, D, lims(0, ax), ax, D.positions, False, "lower limit")
    extreme(v, D, lims(1, ax), ax, D.positions, True, "upper limit")
    is_index_list(v, r, D.N, lambda k: Not(And(le(add(lims(0, ax), off), D.positions(k, ax)), le(D.positions(k, ax), sub(lims(1, ax), off)))), "outer sites")
    D.unchanged()


@contract("C17", "limits", ["data.LatticeData.get_limits", "data.LatticeData.get_index_limits", "data.LatticeData.get_cell_limits",
                            "data.LatticeData.get_translation_limits", "lattice.Lattice.limits"], DIMS)
def _(v, d):
    D = Data(v, d)
    L = lattice(v, D)
    for name, r, a, n in (("limits", v.meth(D.obj, "get_limits"), D.positions, d), ("lattice limits", v.meth(L, "limits"), D.positions, d),
                          ("index limits", v.meth(D.obj, "get_index_limits"), D.indices, d + 1),
                          ("cell limits", v.meth(D.obj, "get_cell_limits"), D.indices, d),
                          ("translation limits", v.meth(D.obj, "get_translation_limits"), D.indices, d)):
        if same_shape(v, r, (2, n), name):
            for ax in range(n):
                extreme(v, D, r(0, ax), ax, a, False, f"{name} lower {ax}")
                extreme(v, D, r(1, ax), ax, a, True, f"{name} upper {ax}")
    D.unchanged()


@contract("C17", "relative_position", ["lattice.Lattice.relative_position", "lattice.Lattice.center"], DIMS)
def _(v, d):
    D = Data(v, d)
    L = lattice(v, D, _dim=d)
    f = v.arr("f", (d,))
    fr = Frame(v, f=f)
    r = v.meth(L, "relative_position", f)
    c = v.meth(L, "center")
    lims = v.meth(L, "limits")
    if same_shape(v, r, (d,), "relative position") and same_shape(v, c, (d,), "center"):
        for i in range(d):
            v.post(f"interpolated {i}", eq(r(i), add(lims(0, i), mul(f(i), sub(lims(1, i), lims(0, i))))))
            v.post(f"middle {i}", eq(mul(2, c(i)), add(lims(0, i), lims(1, i))))
    fr.check()
    D.unchanged()


@contract("C17", "get_positions", ["data.LatticeData.get_positions"], DIMS)
def _(v, d):
    D = Data(v, d)
    al = v.int("alpha")
    r = v.meth(D.obj, "get_positions", al)
    v.post("two-dimensional", r.ndim == 2)
    for i in range(d):
        ax = over(r.axes[0], D.N)
        want = lambda s: eq(D.indices(s, d), al)
        v.forall(f"sites of the atom are contained {i}", (D.N,), lambda s: Implies(want(s), And(ax.valid(s), eq(r.fn((s, i)), D.positions(s, i)))))
        v.forall(f"only sites of the atom {i}", (D.N,), lambda s: Implies(ax.valid(s), want(s)))
        row = lambda k: ax.apply(k, lambda p: p)
        v.forall(f"entries {i}", (ax.n,), lambda k: And(eq(r(k, i), D.positions(row(k), i)), want(row(k))))
        v.forall(f"in order {i}", (ax.n, ax.n), lambda k, l: Implies(lt(k, l), T(row(k)) < T(row(l))))
    D.unchanged()


@contract("C17", "superindex_from_pos", ["lattice.Lattice.superindex_from_pos"], [{"d": d, "tol": t} for d in (1, 2, 3) for t in (False, True)])
def _(v, d, tol):
    D = Data(v, d)
    L = lattice(v, D)
    p = v.arr("p", (d,))
    t = v.real("atol") if tol else Fraction(1, 10 ** 4)
    fr = Frame(v, p=p)
    r = v.meth(L, "superindex_from_pos", p, **({"atol": t} if tol else {}))
    near = lambda k: And(*[And(lt(sub(D.positions(k, i), p(i)), t), lt(sub(p(i), D.positions(k, i)), t)) for i in range(d)])
    if r is None:
        v.forall("nothing only if no site is there", (D.N,), lambda k: Not(near(k)))
    else:
        v.post("the site is at the position", And(T(r) >= 0, T(r) < T(D.N), near(r)))
    fr.check()
    D.unchanged()


@contract("C17", "superindex_from_index", ["lattice.Lattice.superindex_from_index"], DIMS)
def _(v, d):
    D = Data(v, d)
    L = lattice(v, D)
    p = v.arr("p", (d + 1,), "int")
    fr = Frame(v, p=p)
    r = v.meth(L, "superindex_from_index", p)
    near = lambda k: And(*[eq(D.indices(k, i), p(i)) for i in range(d + 1)])
    if r is None:
        v.forall("nothing only if no site has the index", (D.N,), lambda k: Not(near(k)))
    else:
        v.post("the site has the index", And(T(r) >= 0, T(r) < T(D.N), near(r)))
    fr.check()
    D.unchanged()


@contract("C17", "site_attributes", ["lattice.Lattice.alpha", "lattice.Lattice.position"], DIMS)
def _(v, d):
    D = Data(v, d)
    L = lattice(v, D)
    k = v.int("site", 0, D.N)
    v.post("atom index of the site", eq(v.meth(L, "alpha", k), D.indices(k, d)))
    r = v.meth(L, "position", k)
    if same_shape(v, r, (d,)):
        for i in range(d):
            v.post(f"position of the site {i}", eq(r(i), D.positions(k, i)))
    v.post("number of sites", eq(v.get(L, "num_sites"), D.N))
    D.unchanged()


@contract("C17", "center_of_gravity", ["lattice.Lattice.center_of_gravity", "lattice.Lattice.atom"], [{"d": d, "n": n} for d in (1, 2, 3) for n in (1, 2, 3)])
def _(v, d, n):
    D = Data(v, d)
    v.all(D.indices, lambda x: True)
    al = D.indices
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(D.N)), lambda q: And(T(al(q[0], d)) >= 0, T(al(q[0], d)) < n), lambda q: [al(q[0], d)]))
    ms = [v.real(f"m{i}") for i in range(n)]
    atoms = []
    for i in range(n):
        v.pre(ms[i] > 0)
        a = v.call("atom.Atom", f"A{i}", **({"mass": ms[i]} if i != 1 else {}))
        if i == 1:
            ms[i] = 1
        atoms.append(a)
    L = lattice(v, D, _atoms=vlist(atoms))
    r = v.meth(L, "center_of_gravity")

    def mass(k):
        x = ms[-1]
        for i in reversed(range(n - 1)):
            x = ite(eq(al(k, d), i), ms[i], x)
        return x
    tot = npm.sum_axis(Range(D.N), lambda k: to_kind(mass(k), "real"), "real")
    if same_shape(v, r, (d,)):
        for i in range(d):
            s = npm.sum_axis(Range(D.N), lambda k: mul(mass(k), D.positions(k, i)), "real")
            v.post(f"mass weighted mean {i}", eq(r(i), truediv(s, tot)))
    D.unchanged()
