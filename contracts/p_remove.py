"""Removal of sites (C08)."""
from .lib import *
from .p_data import Data, lattice, INF
from engine.interp import VList


def uniq_of(it):
    """The ascending set of values a loop runs over."""
    src = it.src
    a = getattr(src, "arr", src)
    return npm.ident(a) if isinstance(a, SArr) else None


def renumber(ip, s, f0, it, env):
    """Loop over the removed sites in ascending order: after c rounds every entry x of the table is x minus the
    number of removed sites below it, counting the first c only."""
    u = uniq_of(it)
    if u is None or len(s.axes) != 2:
        return None
    return lambda c, pts: sub(f0(pts), min2(c, u.below(f0(pts))))


invariant("data.LatticeData.remove")(renumber)
invariant("lattice._filter_dangling")(renumber)


def removed_set(v, N, how):
    """-> (argument, membership)"""
    if how == "int":
        k = v.int("site", 0, N)
        return k, lambda x: eq(x, k)
    if how == "list":
        ks = [v.int(f"site{i}", 0, N) for i in range(3)]
        return vlist(list(ks)), lambda x: Or(*[eq(x, k) for k in ks])
    K = v.size("K")
    a = v.arr("sites", (K,), "int", 0, N)
    return a, lambda x: exists([("q", IS)], lambda q: And(q[0] >= 0, q[0] < T(K)), lambda q: eq(a(q[0]), x))


def judge_kept(v, name, new, old, ax, N, gone):
    """Rows of the kept sites are carried over unchanged."""
    rest = list(old.axes[1:])
    v.forall(f"{name}: carried along", (N, *[x.n for x in rest]), lambda i, *j: Implies(Not(gone(i)), eq(new.fn((i, *j)), old(i, *j))))


def kept_axis(v, a, N, gone, name):
    """The rows of the array are the sites that are not removed, in order."""
    ax = over(a.axes[0], N)
    v.forall(f"{name}: exactly the remaining sites", (N,), lambda i: Iff(ax.valid(i), Not(gone(i))))
    row = lambda k: ax.apply(k, lambda p: p)
    v.forall(f"{name}: in order", (ax.n, ax.n), lambda k, l: Implies(lt(k, l), T(row(k)) < T(row(l))))
    return ax


@contract("C08", "remove", ["data.LatticeData.remove"], [{"d": d, "how": h} for d in (1, 2, 3) for h in ("array", "int", "list")], inv={})
def _(v, d, how):
    D = Data(v, d)
    N, M = D.N, D.M
    arg, gone = removed_set(v, N, how)
    fr = Frame(v, **({"sites": arg} if isinstance(arg, SArr) else {}))
    old = {k: x for k, x in D.keep.items()}
    oldarr = {k: SArr(x.axes, f, x.dt) for k, (x, f) in old.items() if isinstance(x, SArr)}
    v.meth(D.obj, "remove", arg)
    F = D.obj.f
    rows = ("indices", "positions", "neighbors", "distances", "pmask", "pnvecs", "paxes")
    axs = {}
    for k in rows:
        v.post(f"{k}: number of dimensions", isinstance(F[k], SArr) and F[k].ndim == oldarr[k].ndim)
        axs[k] = kept_axis(v, F[k], N, gone, k)
        for i in range(1, F[k].ndim):
            v.post(f"{k}: extent {i}", eq(F[k].axes[i].n, oldarr[k].axes[i].n))
    ax = axs["indices"]
    judge_kept(v, "indices", F["indices"], oldarr["indices"], ax, N, gone)
    judge_kept(v, "positions", F["positions"], oldarr["positions"], ax, N, gone)
    nb, ds, pm, pn, pa = (F[k] for k in ("neighbors", "distances", "pmask", "pnvecs", "paxes"))
    ob, od, opm, opn, opa = (oldarr[k] for k in ("neighbors", "distances", "pmask", "pnvecs", "paxes"))
    stays = lambda i, s: And(D.valid(i, s), Not(gone(ob(i, s))))
    site = lambda i, g: Implies(Not(gone(i)), g)
    v.forall("remaining neighbors are renumbered by the new position of the site", (N, M), lambda i, s: site(i, Implies(stays(i, s), eq(nb.fn((i, s)), ax.ordinal(T(ob(i, s)))))))
    v.forall("remaining neighbors keep their distance level", (N, M), lambda i, s: site(i, Implies(stays(i, s), eq(ds.fn((i, s)), od(i, s)))))
    v.forall("remaining neighbors keep their periodic marker", (N, M), lambda i, s: site(i, Implies(stays(i, s), Iff(pm.fn((i, s)), opm(i, s)))))
    v.forall("remaining neighbors keep their translation vector", (N, M, d), lambda i, s, j: site(i, Implies(stays(i, s), eq(pn.fn((i, s, j)), opn(i, s, j)))))
    v.forall("remaining neighbors keep their periodic axes", (N, M, d), lambda i, s, j: site(i, Implies(stays(i, s), eq(pa.fn((i, s, j)), opa(i, s, j)))))
    v.forall("other entries are marked with the new number of sites", (N, M), lambda i, s: site(i, Implies(Not(stays(i, s)), eq(nb.fn((i, s)), ax.n))))
    v.forall("other entries are invalid and not periodic", (N, M), lambda i, s: site(i, Implies(Not(stays(i, s)), And(eq(ds.fn((i, s)), T(D.L) - 1), Not(pm.fn((i, s)))))))
    v.post("mark of unused entries", And(eq(F["invalid_idx"], ax.n), eq(F["invalid_distidx"], T(D.L) - 1)))
    v.post("distance values kept", F["distvals"] is D.distvals)
    v.post("data map is computed anew", F.get("_dmap") is None)
    fr.check()


@contract("C08", "filter_dangling", ["lattice._filter_dangling"], DIMS)
def _(v, d):
    N, M = v.size("N", 1), v.size("M")
    ind, pos = v.arr("ind", (N, d + 1), "int"), v.arr("pos", (N, d))
    nb = v.arr("nb", (N, M), "int", 0, T(N) + 1)
    ds = v.arr("ds", (N, M))
    v.all(ds, lambda x: And(T(x) <= INF, T(x) >= 0))
    inr = lambda q: And(q[0] >= 0, q[0] < T(N), q[1] >= 0, q[1] < T(M))
    v.pre(forall([("i", IS), ("s", IS)], inr, lambda q: Iff(eq(nb(*q), N), eq(ds(*q), INF)), lambda q: [nb(*q), ds(*q)]))
    mn = v.int("min_neighbors")
    fr = Frame(v, ind=ind, pos=pos, nb=nb, ds=ds)
    num = npm.FNS["count_nonzero"](npm.FNS["isfinite"](ds), axis=1)      # number of entries in use, per site
    few = lambda i: lt(num.fn((i,)), mn)
    res = []
    ex = v.raises(lambda: res.append(v.call("lattice._filter_dangling", ind, pos, nb, ds, mn)), "ValueError")
    gone = few
    if ex is not None:
        v.forall("rejected only if no site has enough neighbors", (N,), lambda i: gone(i))
        fr.check()
        return
    i2, p2, n2, d2 = res[0]
    for nm, a, o in (("indices", i2, ind), ("positions", p2, pos), ("neighbors", n2, nb), ("distances", d2, ds)):
        ax = kept_axis(v, a, N, gone, nm)
        if nm in ("indices", "positions"):
            judge_kept(v, nm, a, o, ax, N, gone)
    stays = lambda i, s: And(T(ds(i, s)) < INF, Not(gone(nb(i, s))))
    site = lambda i, g: Implies(Not(gone(i)), g)
    v.forall("remaining neighbors are renumbered by the new position of the site", (N, M), lambda i, s: site(i, Implies(stays(i, s), eq(n2.fn((i, s)), ax.ordinal(T(nb(i, s)))))))
    v.forall("remaining neighbors keep their distance", (N, M), lambda i, s: site(i, Implies(stays(i, s), eq(d2.fn((i, s)), ds(i, s)))))
    v.forall("other entries are unused", (N, M), lambda i, s: site(i, Implies(Not(stays(i, s)), And(eq(n2.fn((i, s)), ax.n), eq(d2.fn((i, s)), INF)))))
    fr.check()
