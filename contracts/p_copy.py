"""Copies and stored lattices (C21)."""
from .lib import *
from .p_data import Data
from .p_config import configured
from engine.interp import VList, VSet, SObj, Unsupported

IMM = (str, int, float, bool, type(None), bytes)


def cells(x, out, path="", seen=None):
    """The modifiable objects reachable from x: identity -> where."""
    seen = set() if seen is None else seen
    if isinstance(x, SArr):
        out.setdefault(id(x.store), (path, x.store))
        return out
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, SObj):
        out.setdefault(id(x), (path, x))
        for k, y in x.f.items():
            cells(y, out, f"{path}.{k}", seen)
    elif isinstance(x, (list, tuple, dict)):
        if not isinstance(x, tuple):
            out.setdefault(id(x), (path, x))
        for k, y in (x.items() if isinstance(x, dict) else enumerate(x)):
            cells(y, out, f"{path}[{k}]", seen)
    return out


def frozen(x, memo=None):
    """The present value of x."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, SArr):
        return new(x.axes, npm.frz(x), x.dt)
    if isinstance(x, SObj):
        r = memo[id(x)] = ("obj", x.cls, {})
        r[2].update({k: frozen(y, memo) for k, y in x.f.items()})
        return r
    if isinstance(x, dict):
        return {k: frozen(y, memo) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return ("seq", isinstance(x, tuple), [frozen(y, memo) for y in x])
    return x


def equal(v, got, want, name, seen=None):
    """got has the value want (frozen)."""
    seen = set() if seen is None else seen
    if isinstance(want, SArr):
        if same_shape(v, got, want.shape, name):
            v.forall(name, want, lambda *i: eq(got(*i), want(*i)))
    elif isinstance(want, tuple) and want and want[0] == "obj":
        ok = isinstance(got, SObj) and got.cls is want[1]
        v.post(f"{name}: same class", ok)
        if ok and (id(got), id(want)) not in seen:
            seen.add((id(got), id(want)))
            for k, y in want[2].items():
                if k == "_dmap":
                    continue
                v.post(f"{name}.{k} is set", k in got.f)
                if k in got.f:
                    equal(v, got.f[k], y, f"{name}.{k}", seen)
    elif isinstance(want, tuple) and want and want[0] == "seq":
        ok = isinstance(got, (list, tuple)) and len(got) == len(want[2])
        v.post(f"{name}: as many", ok)
        if ok:
            for k, y in enumerate(want[2]):
                equal(v, got[k], y, f"{name}[{k}]", seen)
    elif isinstance(want, dict):
        ok = isinstance(got, dict) and set(got) == set(want)
        v.post(f"{name}: same keys", ok)
        if ok:
            for k, y in want.items():
                equal(v, got[k], y, f"{name}[{k}]", seen)
    elif isinstance(want, IMM):
        v.post(name, got == want if isinstance(got, IMM) else eq(got, want) if want is not None and not isinstance(want, str) else False)
    else:
        v.post(name, eq(got, want))


def independent(v, a, b, name):
    x, y = cells(a, {}), cells(b, {})
    both = [x[k][0] for k in x if k in y]
    v.post(f"{name} share no modifiable object" + (f" ({both[0]})" if both else ""), not both)


def full(v, d, n, cls):
    """A lattice with everything it can hold."""
    L, m, pos, atoms, con = configured(v, d, n, cls=cls)
    for i, a in enumerate(atoms):
        a.f["_params"] = {"color": None, "radius": v.real(f"radius{i}"), "orbitals": vlist([v.int(f"orb{i}")])}
    K = v.size("K", 1)
    L.f["_base_neighbors"] = vlist([{1: v.arr(f"bn{i}", (K, d + 1), "int")} for i in range(n)])
    L.f["_raw_distance_matrix"] = v.arr("rdm", (n, n))
    L.f["_raw_num_neighbors"] = v.arr("rnn", (n, n), "int")
    if cls.startswith("lattice."):
        D = Data(v, d)
        L.f.update(data=D.obj, shape=v.arr("shape", (d,)), pos=v.arr("origin", (d,)), periodic_axes=v.arr("axes", (1,), "int", 0, d), primitive=v.case(v.bool("primitive")))
    return L, pos, atoms, con


@contract("C21", "copy", ["lattice.Lattice.copy"], dims(1, 2, 3, n=[1, 2]))
def _(v, d, n):
    L, *_ = full(v, d, n, "lattice.Lattice")
    want = frozen(L)
    C = v.meth(L, "copy")
    v.post("a new lattice is returned", isinstance(C, SObj) and C is not L)
    equal(v, C, want, "copy")
    equal(v, L, want, "original")
    independent(v, L, C, "original and copy")


@contract("C21", "data_copy", ["data.LatticeData.copy"], dims(1, 2, 3))
def _(v, d):
    D = Data(v, d)
    want = frozen(D.obj)
    C = v.meth(D.obj, "copy")
    v.post("a new object is returned", isinstance(C, SObj) and C is not D.obj)
    equal(v, C, want, "copy")
    equal(v, D.obj, want, "original")
    independent(v, D.obj, C, "original and copy")


@contract("C21", "file", ["lattice.Lattice.dump", "lattice.Lattice.load", "structure.LatticeStructure.dump", "structure.LatticeStructure.load"],
          [{"d": d, "cls": c} for d in (1, 2, 3) for c in ("lattice.Lattice", "structure.LatticeStructure")])
def _(v, d, cls):
    L, *_ = full(v, d, 2, cls)
    want = frozen(L)
    v.meth(L, "dump", "some.latt")
    equal(v, L, want, "original")
    if cls.startswith("lattice."):
        L.f["data"].f["neighbors"] = v.arr("other", (2, 2), "int")          # later changes are not in the file
    C = v.meth(L.cls, "load", "some.latt")
    v.post("a new lattice is returned", isinstance(C, SObj) and C is not L)
    equal(v, C, want, "restored lattice")
    independent(v, L, C, "original and restored lattice")


@contract("C21", "dict", ["structure.LatticeStructure.todict", "structure.LatticeStructure.fromdict", "lattice.Lattice.todict"],
          [{"d": d, "n": n, "cls": c} for d in (1, 2, 3) for n in (1, 2) for c in ("lattice.Lattice", "structure.LatticeStructure")], use=["structure.LatticeStructure.analyze"])
def _(v, d, n, cls):
    L, pos, atoms, con = full(v, d, n, cls)
    want = frozen(L)
    D = v.meth(L, "todict")
    C = v.meth(L.cls, "fromdict", D)
    equal(v, L, want, "original")
    v.post("a new lattice is returned", isinstance(C, SObj) and C is not L and C.cls is L.cls)
    equal(v, v.get(C, "vectors"), frozen(v.get(L, "vectors")), "basis")
    equal(v, v.get(C, "num_base"), n, "number of atoms")
    for i in range(n):
        a, b = v.meth(C, "get_atom", i), frozen(atoms[i])
        equal(v, v.get(a, "name"), b[2]["_name"], f"name of atom {i}")
        equal(v, v.get(a, "weight"), b[2]["_weight"], f"weight of atom {i}")
        equal(v, a.f["_params"], b[2]["_params"], f"attributes of atom {i}")
        equal(v, v.get(C, "atom_positions")[i], frozen(pos[i]), f"position of atom {i}")
    equal(v, C.f["_connections"], frozen(con), "connections")
    v.post("the restored lattice is analyzed", v.raises(lambda: v.meth(C, "_assert_analyzed")) is None)
    # later changes of the configuration
    for x, y, w in ((C, L, "restored"), (L, C, "original")):
        before = {k: frozen(y.f[k]) for k in ("_atoms", "_positions", "_connections", "_num_base")}
        q = v.arr("q_" + w, (d,))
        for p in pos:
            v.pre(Not(And(*[eq(p(k), q(k)) for k in range(d)])))
        v.meth(x, "add_connection", 0, n - 1, 3)
        v.meth(x, "add_atom", q, "new")
        for k, b in before.items():
            equal(v, y.f[k], b, f"changing the {w} lattice leaves the other: {k}")


@contract("C21", "atom_copy", ["atom.Atom.copy", "atom.Atom.__copy__", "atom.Atom.__init__"], [{"k": k, "how": h} for k in (0, 1, 2) for h in ("copy", "__copy__")])
def _(v, k, how):
    A_ = v.call("atom.Atom", "X", radius=v.real("radius"), weight=v.real("weight"), **{f"p{i}": v.real(f"p{i}") for i in range(k)})
    want = frozen(A_)
    C = v.meth(A_, how)
    v.post("a new atom is returned", isinstance(C, SObj) and C is not A_)
    for f in ("_name", "_weight", "_params"):
        equal(v, C.f[f], want[2][f], f"copy{f}")
        equal(v, A_.f[f], want[2][f], f"original{f}")
    v.post("original and copy share no attributes", C.f["_params"] is not A_.f["_params"])
