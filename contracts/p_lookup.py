"""Lookup tables of distances (C15): create_lookup_table and LatticeData.set."""
from .lib import *
from .p_data import INF
from .p_remove import uniq_of


def numbering(ip, s, f0, it, env):
    """Loop over the ascending distinct values of an array: after c rounds the entries holding one of the first c
    values contain its number."""
    u = uniq_of(it)
    a = getattr(u, "source", None)
    if u is None or a is None or len(s.axes) != len(a[0]):
        return None
    f = a[1]
    return lambda c, pts: ite(lt(u.below(f(pts)), c), u.below(f(pts)), f0(pts))


invariant("utils.create_lookup_table")(numbering)


def judge_table(v, vals, idx, a, dims, name="table"):
    L = vals.axes[0].n
    v.forall(f"{name}: values ascend", (L, L), lambda k, l: Implies(lt(k, l), lt(vals(k), vals(l))))
    if same_shape(v, idx, dims, f"{name}: indices"):
        v.forall(f"{name}: every index is a value number", dims, lambda *i: And(T(idx(*i)) >= 0, T(idx(*i)) < T(L)))
        v.forall(f"{name}: replacing indices by values gives the array", dims, lambda *i: eq(vals(idx(*i)), a(*i)))


@summary("utils.create_lookup_table")
def _(ip, array, dtype=None):
    """The contract proved below determines the result: ascending distinct values, index = number of the value."""
    a = npm.arrlike(array)
    vals = npm.unique(a)
    u, f = vals.uniq, npm.frz(a)
    c = ctx()
    hi = c.int("lut_hi")
    c.fact(hi >= T(u.n) - 1)
    idx = new(list(a.axes), lambda pts: u.ordinal(f(pts)), arr.SDt("lut", "int", 0, hi))
    return vals, idx


@contract("C15", "create_lookup_table", ["utils.create_lookup_table"], [{"nd": 1}, {"nd": 2}])
def _(v, nd):
    dims = [v.size(f"n{i}") for i in range(nd)]
    a = v.arr("a", dims)
    fr = Frame(v, a=a)
    vals, idx = v.call("utils.create_lookup_table", a)
    judge_table(v, vals, idx, a, dims)
    L = vals.axes[0].n
    v.forall("only values of the array are listed", (L,), lambda k: exists([(f"q{i}", IS) for i in range(nd)],
             lambda q: And(*[And(x >= 0, x < T(n)) for x, n in zip(q, dims)]), lambda q: eq(a(*q), vals(k))))
    fr.check()


@contract("C15", "set", ["data.LatticeData.set", "data.LatticeData.__init__"], [{"d": d, "ctor": c} for d in (1, 2, 3) for c in (False, True)])
def _(v, d, ctor):
    N, M = v.size("N", 1), v.size("M")
    ind, pos = v.arr("ind", (N, d + 1), "int"), v.arr("pos", (N, d))
    nb = v.arr("nb", (N, M), "int", 0, T(N) + 1)
    ds = v.arr("ds", (N, M))
    v.all(ds, lambda x: And(T(x) <= INF, T(x) >= 0))
    fr = Frame(v, ind=ind, pos=pos, nb=nb, ds=ds)
    if ctor:
        o = v.call("data.LatticeData", ind, pos, nb, ds)
    else:
        o = v.call("data.LatticeData")
        v.meth(o, "set", ind, pos, nb, ds)
    F = o.f
    for k, x in (("indices", ind), ("positions", pos), ("neighbors", nb)):
        if F[k] is not x and same_shape(v, F[k], x.shape, k):
            v.forall(f"{k} as given", x, lambda *i: eq(F[k](*i), x(*i)))
    vals, idx = F["distvals"], F["distances"]
    judge_table(v, vals, idx, ds, (N, M), "distances")
    L = vals.axes[0].n
    v.post("one level is reserved for invalid entries", And(T(L) >= 1, eq(F["invalid_distidx"], sub(L, 1)), eq(vals(sub(L, 1)), INF)))
    v.forall("the invalid level marks exactly the infinite distances", (N, M), lambda i, s: Iff(eq(idx(i, s), F["invalid_distidx"]), eq(ds(i, s), INF)))
    v.post("mark of unused neighbors", eq(F["invalid_idx"], N))
    if same_shape(v, F["pmask"], (N, M), "periodic markers"):
        v.forall("no periodic entries", (N, M), lambda i, s: Not(cast(F["pmask"](i, s), "bool")))
    same_shape(v, F["pnvecs"], (N, M, d), "translation vectors")
    same_shape(v, F["paxes"], (N, M, d), "periodic axes")
    v.post("the data map is computed anew", F.get("_dmap") is None)
    fr.check()
