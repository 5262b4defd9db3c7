"""Freshness of the data map (C14): object invariant `_dmap is None or _dmap describes the current data`."""
from .lib import *
from .p_data import Data, lattice, INF
from .p_map import judge_map, atoms_small
from .p_sort import permutation
from engine.interp import PyClass, mkobj, vlist


def stale(v, D):
    """The invariant with a map that was computed for the present data."""
    o = mkobj(PyClass("DataMap"))
    D.obj.f["_dmap"] = o
    return o


def invariant_kept(v, D, o):
    """The map asked for next is not the old one, unless the data did not change."""
    if D.obj.f["_dmap"] is None:
        v.post("the map is computed anew when it is asked for next", True)
        return
    with v.quiet():
        m = v.meth(D.obj, "map")
    if m is o:
        D.unchanged(but=("_dmap",))
    else:
        v.post("the map is computed anew when it is asked for next", True)


def finite(v, x):
    if isinstance(x, SArr):
        v.all(x, lambda y: And(T(y) >= 0, T(y) < INF))
    else:
        v.pre(And(x >= 0, x < INF))
    return x


OPS = ["reset", "remove", "remove_periodic", "sort", "sort_perm", "sort_neighbors", "add_neighbors", "add_neighbors_many", "append", "append_parts", "append_copy", "set",
       "set_periodic0", "set_periodic1", "set_periodic2"]


def mutate(v, D, op, d):
    N, M = D.N, D.M
    if op == "reset" or op == "remove_periodic" or op == "sort_neighbors":
        v.meth(D.obj, op)
    elif op == "remove":
        K = v.size("K")
        v.meth(D.obj, "remove", v.arr("sites", (K,), "int", 0, N))
    elif op == "sort":
        v.meth(D.obj, "sort", 0)
    elif op == "sort_perm":
        v.meth(D.obj, "sort", indices=permutation(v, N)[0])
    elif op == "add_neighbors":
        v.meth(D.obj, "add_neighbors", v.int("site", 0, N), v.int("neighbor", 0, N), finite(v, v.real("dist")))
    elif op == "add_neighbors_many":
        K = v.size("K")
        v.meth(D.obj, "add_neighbors", v.int("site", 0, N), v.arr("new", (K,), "int", 0, N), finite(v, v.arr("nd", (K,))))
    elif op == "set":
        N2, M2 = v.size("Nx", 1), v.size("Mx")
        v.meth(D.obj, "set", v.arr("indx", (N2, d + 1), "int"), v.arr("posx", (N2, d)), v.arr("nbx", (N2, M2), "int", 0, T(N2) + 1), v.arr("dsx", (N2, M2)))
    elif op.startswith("append"):
        E = Data(v, d, "2")
        if op == "append_parts":
            ds = v.arr("dsx", (E.N, E.M))
            r = v.meth(D.obj, "append", E.indices, E.positions, E.neighbors, ds)
        else:
            r = v.meth(D.obj, "append", E.obj, **({"copy": True} if op == "append_copy" else {}))
        if op == "append_copy":
            v.post("the copy starts without a map", r.f.get("_dmap") is None)
            D.unchanged(but=("_dmap",))
        if op != "append_parts":
            E.unchanged()
    else:
        k = int(op[-1])
        sites = [v.int(f"site{i}", 0, N) for i in range(k)]
        if k == 2:
            v.pre(sites[0] != sites[1])
        ind, dist, nv, axs = {}, {}, {}, {}
        for i, s in enumerate(sites):
            K = v.size(f"K{i}")
            ind[s], dist[s] = v.arr(f"pi{i}", (K,), "int", 0, N), v.arr(f"pd{i}", (K,))
            v.all(dist[s], lambda x: And(T(x) >= 0, T(x) < INF))
            nv[s], axs[s] = v.arr(f"pv{i}", (K, d), "int"), v.arr(f"px{i}", (K, d), "int", 0, d + 1)
        v.meth(D.obj, "set_periodic", ind, dist, nv, axs)


@contract("C14", "mutators", ["data.LatticeData." + x for x in ("reset", "set", "remove", "remove_periodic", "sort", "sort_neighbors", "add_neighbors", "append", "set_periodic",
                                                                "_add_distvals", "_free_slots")], [{"op": x} for x in OPS])
def _(v, op):
    d = 2
    D = Data(v, d)
    N, M = D.N, D.M
    o = stale(v, D)
    with v.quiet():
        mutate(v, D, op, d)
    invariant_kept(v, D, o)


@contract("C14", "map", ["data.LatticeData.map"], [{"known": False}, {"known": True}])
def _(v, known):
    D = Data(v, 2)
    atoms_small(v, D)
    if known:
        o = stale(v, D)
        r = v.meth(D.obj, "map")
        if r is o:
            v.post("the valid map is returned", True)
        else:
            judge_map(v, D, r)
    else:
        r = v.meth(D.obj, "map")
        judge_map(v, D, r)
    D.unchanged(but=("_dmap",))
