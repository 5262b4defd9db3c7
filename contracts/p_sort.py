"""Sorting of sites and neighbors (C09)."""
from .lib import *
from .p_data import Data, lattice, INF


def relabel(ip, s, f0, it, env):
    """Loop over a list of distinct labels: after c rounds the entries holding one of the first c labels contain its
    position in the list.  at(w(x)) = x chooses a position for every label of the list."""
    src = it.src
    a = getattr(src, "arr", src)
    if not isinstance(a, SArr) or a.ndim != 1 or a.kind != "int" or len(s.axes) != 2:
        return None
    c, n = ctx(), T(a.axes[0].n)
    back = isinstance(a.axes[0], arr.Rev)
    base = a.axes[0].parent if back else a.axes[0]
    at = lambda k: T(base.apply(k, lambda q: a.fn((q,))))
    w = c.fn("where_label", [IS], IS)
    c.fact(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < n), lambda q: And(w(at(q[0])) >= 0, w(at(q[0])) < n, at(w(at(q[0]))) == at(q[0])),
                  lambda q: [at(q[0])]), guarded=False)
    num = (lambda x: n - 1 - w(x)) if back else w
    has = lambda x, m: And(num(x) >= 0, num(x) < T(m), at(w(x)) == x)
    return lambda m, pts: ite(has(T(f0(pts)), m), num(T(f0(pts))), f0(pts))


invariant("data.LatticeData.sort")(relabel)


def permutation(v, N):
    """An arbitrary permutation of the sites: array and inverse."""
    p = v.arr("perm", (N,), "int", 0, N)
    inv = v.c.fn("iperm", [IS], IS)
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: inv(T(p(q[0]))) == q[0], lambda q: [p(q[0])]))
    v.pre(forall([("x", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: And(inv(q[0]) >= 0, inv(q[0]) < T(N), T(p(inv(q[0]))) == q[0]), lambda q: [inv(q[0])]))
    return p, lambda x: inv(T(x))


def judge_relabelled(v, D, old, p, inv, N, M, d):
    """Row k is the old row of site p(k); neighbors are replaced by their new label."""
    F = D.obj.f
    for k, x in old.items():
        if not same_shape(v, F[k], x.shape, k):
            return
    for k in ("indices", "positions"):
        v.forall(f"{k} are carried along", old[k], lambda i, j: eq(F[k](i, j), old[k](p(i), j)))
    v.forall("distance levels are carried along", (N, M), lambda i, s: eq(F["distances"](i, s), old["distances"](p(i), s)))
    v.forall("periodic markers are carried along", (N, M), lambda i, s: Iff(F["pmask"](i, s), old["pmask"](p(i), s)))
    v.forall("translation vectors are carried along", (N, M, d), lambda i, s, j: eq(F["pnvecs"](i, s, j), old["pnvecs"](p(i), s, j)))
    v.forall("periodic axes are carried along", (N, M, d), lambda i, s, j: eq(F["paxes"](i, s, j), old["paxes"](p(i), s, j)))
    nb, ob = F["neighbors"], old["neighbors"]
    v.forall("neighbors are relabelled", (N, M), lambda i, s: Implies(T(ob(p(i), s)) < T(N), eq(nb(i, s), inv(ob(p(i), s)))))
    v.forall("unused entries stay unused", (N, M), lambda i, s: Implies(eq(ob(p(i), s), N), eq(nb(i, s), N)))
    v.post("marks kept", And(eq(F["invalid_idx"], N), eq(F["invalid_distidx"], T(D.L) - 1)))
    v.post("distance values kept", F["distvals"] is D.distvals)
    v.post("data map is computed anew", F.get("_dmap") is None)


def olds(D):
    return {k: SArr(x.axes, f, x.dt) for k, (x, f) in D.keep.items() if isinstance(x, SArr) and k != "distvals"}


@contract("C09", "sort", ["data.LatticeData.sort"], [{"d": d, "how": h, "rev": r} for d in (1, 2, 3) for h in ["perm"] + list(range(d + 1)) for r in (False, True)])
def _(v, d, how, rev):
    D = Data(v, d)
    N, M = D.N, D.M
    old = olds(D)
    kw = {"reverse": True} if rev else {}
    fr = Frame(v)
    if how == "perm":
        q, qi = permutation(v, N)
        fr = Frame(v, perm=q)
        v.meth(D.obj, "sort", indices=q, **kw)
    else:
        v.meth(D.obj, "sort", how, **kw)
        ps = v.c.ghost["perm"]
        if len(ps) != 1:
            raise Unsupported("the new order is not given by one permutation")
        q, qi = (lambda k: ps[0]._at(T(k))), (lambda x: ps[0]._inv(T(x)))
    p, inv = ((lambda k: q(sub(sub(N, 1), k))), (lambda x: sub(sub(N, 1), qi(x)))) if rev else (q, qi)
    v.forall("the new order is a permutation", (N,), lambda k: And(T(p(k)) >= 0, T(p(k)) < T(N), eq(inv(p(k)), k), T(inv(k)) >= 0, T(inv(k)) < T(N), eq(p(inv(k)), k)))
    judge_relabelled(v, D, old, p, inv, N, M, d)
    if how != "perm":
        F = D.obj.f["indices"]
        v.forall("rows ordered along the axis", (N, N), lambda k, l: Implies(lt(k, l), le(F(l, how), F(k, how)) if rev else le(F(k, how), F(l, how))))
    fr.check()


@contract("C09", "sort_neighbors", ["data.LatticeData.sort_neighbors"], DIMS)
def _(v, d):
    D = Data(v, d)
    N, M = D.N, D.M
    old = olds(D)
    dv = D.distvals
    v.meth(D.obj, "sort_neighbors")
    rp = v.c.ghost["rowperm"]
    if len(rp) != 1:
        raise Unsupported("the new order is not given by one permutation per row")
    pi, ipi = rp[0][0], rp[0][1]
    F = D.obj.f
    v.post("sites untouched", F["indices"] is D.indices and F["positions"] is D.positions)
    for k in ("neighbors", "distances", "pmask", "pnvecs", "paxes"):
        if not same_shape(v, F[k], old[k].shape, k):
            return
    v.forall("each row is permuted", (N, M), lambda i, s: And(pi(i, s) >= 0, pi(i, s) < T(M), eq(ipi(i, pi(i, s)), s), ipi(i, s) >= 0, ipi(i, s) < T(M), eq(pi(i, ipi(i, s)), s)))
    for k in ("neighbors", "distances"):
        v.forall(f"{k} stay together", (N, M), lambda i, s: eq(F[k](i, s), old[k](i, pi(i, s))))
    v.forall("periodic markers stay together", (N, M), lambda i, s: Iff(F["pmask"](i, s), old["pmask"](i, pi(i, s))))
    for k in ("pnvecs", "paxes"):
        v.forall(f"{k} stay together", (N, M, d), lambda i, s, j: eq(F[k](i, s, j), old[k](i, pi(i, s), j)))
    v.forall("distances ascend along the row", (N, M, M), lambda i, s, t: Implies(lt(s, t), le(dv(F["distances"](i, s)), dv(F["distances"](i, t)))))
    v.post("marks kept", And(eq(F["invalid_idx"], N), eq(F["invalid_distidx"], T(D.L) - 1)))
    v.post("distance values kept", F["distvals"] is D.distvals)
    v.post("data map is computed anew", F.get("_dmap") is None)
