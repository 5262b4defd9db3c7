"""Construction of finite lattices: Lattice.build over the contracts of its parts (C05, C08, C11)."""
from .lib import *
from .p_data import Data
from .p_config import configured
from .p_append import BI, CN
from .p_periodic import recorder, as_axes
from engine.interp import VList, Unsupported

FD, DS, SP = "lattice._filter_dangling", "data.LatticeData.set", "lattice.Lattice.set_periodic"
for _q in (FD, DS, SP):
    recorder(_q)

VAR = {"C05": [{"d": d, "what": w, "filt": False, "per": False} for d in (1, 2, 3) for w in ("size", "box", "shape")],
       "C08": [{"d": d, "what": w, "filt": True, "per": False} for d in (1, 2, 3) for w in ("size", "shape") if d == 2 or w == "size"],
       "C11": [{"d": d, "what": w, "filt": f, "per": True} for d in (1, 2, 3) for w in ("size", "shape") for f in (False, True) if d == 2 or (w == "size" and f)]}


def same_array(v, x, y, name):
    if same_shape(v, x, y.shape, name):
        v.forall(name, y, lambda *i: eq(x(*i), y(*i)))


for _p in ("C05", "C08", "C11"):
    @contract(_p, "build", ["lattice.Lattice.build", "lattice.Lattice._update_shape", "data.LatticeData.reset"], VAR[_p], use=[q + "@rec" for q in (BI, CN, FD, DS, SP)])
    def _(v, d, what, filt, per):
        L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
        v.pre(T(con(0, 1)) > 0)
        old = Data(v, d)
        L.f["data"] = old.obj
        L.f["primitive"] = False
        L.f["periodic_axes"] = v.arr("oldaxes", (1,), "int", 0, d)
        prim = v.case(v.bool("primitive"))
        N, M = v.size("Nb", 1), v.size("Mb")
        K, P = v.size("Kb", 1), v.size("Pb")
        B = (v.arr("bind", (N, d + 1), "int"), v.arr("bpos", (N, d)), v.arr("bnb", (N, M), "int", 0, T(N) + 1), v.arr("bds", (N, M)))
        R = (v.arr("rind", (K, d + 1), "int"), v.arr("rpos", (K, d)), v.arr("rnb", (K, M), "int", 0, T(K) + 1), v.arr("rds", (K, M)))
        fz = lambda X: [new(x.axes, npm.frz(x), x.dt) for x in X]
        B0, R0 = fz(B), fz(R)
        minn = v.int("min_neighbors", 0) if filt else None
        axis = v.int("axis", 0, d) if per else None
        callback, dtype = v.obj("atom.Atom"), v.obj("atom.Atom")
        check = v.case(v.bool("check"))
        org = v.arr("origin", (d,))
        if what == "shape":
            arg = v.call("shape.Circle", org, v.real("radius"))
        else:
            size = v.arr("size", (d,))
            arg = size
        at = org if what == "box" else None
        log, got = [], {}

        def bi(self, shape, primitive=False, pos=None, check=True, callback=None, dtype=None, return_pos=False):
            log.append("indices")
            got["bi"] = (shape, primitive, pos, check, callback, dtype)
            return (B[0], B[1] if return_pos is True else None)

        def cn(self, indices, positions, num_jobs=1):
            log.append("neighbors")
            same_array(v, indices, B0[0], "neighbors are computed for the built sites: indices")
            same_array(v, positions, B0[1], "neighbors are computed for the built sites: positions")
            return (B[2], B[3])

        def fd(indices, positions, neighbors, dists, min_neighbors):
            log.append("filter")
            for nm, x, y in zip(("indices", "positions", "neighbors", "distances"), (indices, positions, neighbors, dists), B0):
                same_array(v, x, y, f"the built sites are filtered: {nm}")
            v.post("by the requested number of neighbors", minn is not None and eq(min_neighbors, minn))
            return R

        def ds(self, indices, positions, neighbors, distances):
            log.append("set")
            v.post("the data of the lattice is set", self is L.f["data"])
            for nm, x, y in zip(("indices", "positions", "neighbors", "distances"), (indices, positions, neighbors, distances), R0 if filt else B0):
                same_array(v, x, y, f"the lattice consists of the built sites: {nm}")
            n = K if filt else N
            self.f.update(indices=v.arr("nind", (n, d + 1), "int"), positions=(R if filt else B)[1], neighbors=v.arr("nnb", (n, M), "int"), distances=v.arr("nds", (n, M), "int"), pmask=v.arr("npm", (n, M), "bool"), distvals=v.arr("ndv", (n,)), pnvecs=v.arr("npn", (n, M, d), "int"), paxes=v.arr("npa", (n, M, d), "int"))

        def sp(self, axis_=None, primitive=None, **kw):
            axis_ = kw.get("axis", axis_)
            log.append("periodic")
            v.post("the boundary conditions of this lattice", self is L and primitive is None)
            v.post("set up once the sites are known", log.count("set") == 1)
            v.post("for the kind of lattice that was built", v.get(L, "primitive") is prim or v.get(L, "primitive") == prim)
            v.post("along the requested axes", axis is not None and axis_ is not None and not isinstance(axis_, bool) and eq(axis_, axis))
        v.c.ghost["answers"] = {BI: bi, CN: cn, FD: fd, DS: ds, SP: sp}
        kw = {} if at is None else {"pos": at}
        if filt:
            kw["min_neighbors"] = minn
        if per:
            kw["periodic"] = axis
        v.meth(L, "build", arg, primitive=prim, check=check, callback=callback, dtype=dtype, **kw)
        want = ["indices", "neighbors"] + ["filter"] * filt + ["set"] + ["periodic"] * per
        v.post("the sites are built, connected, filtered and stored once" + (", then made periodic" if per else ""), [x for x in log if x != "periodic"] == want[:4 if filt else 3] and log.count("periodic") == per)
        if "bi" not in got:
            return
        shp, p_, at_, chk, cb, dt = got["bi"]
        v.post("options are passed on", p_ is prim and chk is check and cb is callback and dt is dtype)
        v.post("the position is passed on", at_ is at or (at is not None and isinstance(at_, SArr) and And(*[eq(at_(j), at(j)) for j in range(d)])))
        if what == "shape":
            v.post("the given shape is filled", shp is arg)
        else:
            ok = hasattr(shp, "cls") and shp.cls.name == "Shape"
            v.post("a box is filled", ok)
            if ok:
                same_array(v, v.get(shp, "size"), size, "a box of the given size is filled")
                o = v.get(shp, "pos")
                if same_shape(v, o, (d,), "origin of the box"):
                    v.forall("the box lies at the given position", (d,), lambda j: eq(o(j), at(j) if at is not None else 0))
                bs = v.get(shp, "basis")
                v.post("along the lattice vectors if primitive", (bs is not None) == prim)
                if bs is not None and prim and same_shape(v, bs, (d, d), "basis of the box"):
                    v.forall("the lattice vectors span the box", (d, d), lambda i, j: eq(bs(i, j), v.get(L, "vectors")(i, j)))
        if not per:
            pax = L.f["periodic_axes"]
            v.post("open boundaries", isinstance(pax, VList) and len(pax) == 0 or isinstance(pax, SArr) and eq(pax.axes[0].n, 0))
        v.post("kind of lattice", v.get(L, "primitive") == prim)
        ps, n = (R0 if filt else B0)[1], K if filt else N
        for j in range(d):
            for nm, hi, x in (("lower", False, L.f["pos"](j)), ("upper", True, add(L.f["pos"](j), L.f["shape"](j)))):
                v.forall(f"extent {j} {nm}: bound", (n,), lambda k: le(ps(k, j), x) if hi else le(x, ps(k, j)))
                v.post(f"extent {j} {nm}: attained", exists([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(n)), lambda q: eq(ps(q[0], j), x)))
