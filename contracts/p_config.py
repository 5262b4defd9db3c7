"""Atoms and connections (C16)."""
from .lib import *
from engine.interp import VList, SObj
import engine.arr as A


def configured(v, d, n, names=None, cls="structure.LatticeStructure"):
    """A lattice with n atoms at distinct positions, arbitrary connections, analyzed."""
    L, m, a = basis(v, d, cls=cls)
    pos = [v.arr(f"r{i}", (d,)) for i in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        v.pre(Not(And(*[eq(pos[i](k), pos[j](k)) for k in range(d)])))
    names = names or [f"A{i}" for i in range(n)]
    atoms = [v.call("atom.Atom", x) for x in names]
    con = v.arr("con", (n, n), "int", 0) if n else None
    if n:
        for i, j in itertools.combinations(range(n), 2):
            v.pre(eq(con(i, j), con(j, i)))
    L.f.update(_num_base=n, _atoms=vlist(list(atoms)), _positions=vlist(list(pos)), _connections=con)
    L.f["_base_neighbors"] = vlist([{1: None} for _ in range(max(n, 1))])
    return L, m, pos, atoms, con


def unchanged(v, L, pos, atoms, con, keep, n):
    F = L.f
    v.post("rejected: atoms unchanged", [id(x) for x in v.get(L, "atoms")] == [id(x) for x in atoms])
    v.post("rejected: positions unchanged", len(v.get(L, "atom_positions")) == n)
    for i in range(n):
        x = v.get(L, "atom_positions")[i]
        v.post(f"rejected: position {i} unchanged", And(*[eq(x(k), pos[i](k)) for k in range(pos[i].axes[0].n)]))
    v.post("rejected: number of atoms unchanged", eq(v.get(L, "num_base"), n))
    if n:
        c = F["_connections"]
        v.post("rejected: connections unchanged", isinstance(c, SArr) and c.ndim == 2 and c.shape == (n, n))
        for i in range(n):
            for j in range(n):
                v.post(f"rejected: connection {i},{j} unchanged", eq(c(i, j), keep[i][j]))
    v.post("rejected: still analyzed", v.raises(lambda: v.meth(L, "_assert_analyzed")) is None)


def needs_analysis(v, L, d):
    """Queries and builds are refused."""
    for what, f in (("neighbors", lambda: v.meth(L, "get_neighbors")), ("positions", lambda: v.meth(L, "get_neighbor_positions")), ("vectors", lambda: v.meth(L, "get_neighbor_vectors"))):
        r = v.raises(f)
        v.post(f"neighbor {what} cannot be queried before the next analysis", r is not None and r.name == "NotAnalyzedError")
    if L.cls.lookup("build")[0] is not None:
        r = v.raises(lambda: v.meth(L, "build", vlist([2] * d)))
        v.post("cannot be built before the next analysis", r is not None and r.name in ("NotAnalyzedError", "NoConnectionsError"))


@contract("C16", "add_atom", ["structure.LatticeStructure.add_atom"],
          [{"d": d, "n": n, "how": h, "cls": c} for d in (1, 2, 3) for n in (0, 1, 2, 3) for h in ("world", "primitive", "default") for c in ("structure.LatticeStructure", "lattice.Lattice")
           if c.startswith("s") or (d == 2 and n < 3)])
def _(v, d, n, how, cls):
    L, m, pos, atoms, con = configured(v, d, n, cls=cls)
    keep = [[con(i, j) for j in range(n)] for i in range(n)]
    q = v.arr("q", (d,))
    fr = Frame(v, position=q, **{f"r{i}": x for i, x in enumerate(pos)})
    if how == "default":
        want = [0] * d
        f = lambda: v.meth(L, "add_atom")
    elif how == "primitive":
        want = [dot([q(i) for i in range(d)], [m[i][k] for i in range(d)]) for k in range(d)]
        f = lambda: v.meth(L, "add_atom", q, "B", primitive=True)
    else:
        want = [q(k) for k in range(d)]
        f = lambda: v.meth(L, "add_atom", q, "B", weight=3)
    got = []
    r = v.raises(lambda: got.append(f()))
    taken = Or(*[And(*[eq(x(k), want[k]) for k in range(d)]) for x in pos])
    if r is not None:
        v.post("an atom is rejected because its position is occupied", r.name == "SiteOccupiedError" and taken)
        unchanged(v, L, pos, atoms, con, keep, n)
        fr.check()
        return
    v.post("the position was free", Not(taken))
    P, At = v.get(L, "atom_positions"), v.get(L, "atoms")
    v.post("one more atom", len(P) == n + 1 and len(At) == n + 1 and eq(v.get(L, "num_base"), n + 1))
    for i in range(n):
        v.post(f"earlier atom {i} kept", At[i] is atoms[i])
        v.post(f"earlier position {i} kept", And(*[eq(P[i](k), pos[i](k)) for k in range(d)]))
    v.post("position of the atom", P[n].axes[0].n == d and And(*[eq(P[n](k), want[k]) for k in range(d)]))
    at = At[n]
    v.post("the atom is returned", got[0] is at)
    v.post("name of the atom", v.get(at, "name") == ("A" if how == "default" else "B"))
    v.post("weight of the atom", eq(v.get(at, "weight"), 3 if how == "world" else 1))
    c = L.f["_connections"]
    v.post("connections have one row per atom", isinstance(c, SArr) and c.shape == (n + 1, n + 1))
    needs_analysis(v, L, d)
    fr.check()


@contract("C16", "add_atom_object", ["structure.LatticeStructure.add_atom"], dims(1, 2, 3))
def _(v, d):
    L, m, pos, atoms, con = configured(v, d, 1)
    at = v.call("atom.Atom", "X", weight=2)
    got = []
    r = v.raises(lambda: got.append(v.meth(L, "add_atom", v.arr("q", (d,)), at)), "SiteOccupiedError")
    if r is None:
        v.post("the atom given is the one added", v.get(L, "atoms")[1] is at and got[0] is at)
        v.post("its name and weight are kept", v.get(at, "name") == "X" and eq(v.get(at, "weight"), 2))
    else:
        v.post("rejected", r.name == "SiteOccupiedError")


@contract("C16", "wrong_dimension", ["structure.LatticeStructure.add_atom"], [{"d": d, "n": n, "k": k, "prim": p} for d in (1, 2, 3) for n in (0, 1, 2) for k in (1, 2, 3, 4) if k != d for p in (False, True)])
def _(v, d, n, k, prim):
    L, m, pos, atoms, con = configured(v, d, n)
    keep = [[con(i, j) for j in range(n)] for i in range(n)]
    q = v.arr("q", (k,))
    r = v.raises(lambda: v.meth(L, "add_atom", q, "B", primitive=True) if prim else v.meth(L, "add_atom", q, "B"))
    v.post("a position of wrong dimension is rejected", r is not None and r.name in ("ValueError",))
    unchanged(v, L, pos, atoms, con, keep, n)


def who(v, kind_, names, atoms, i):
    """Argument naming atom i and the atoms it stands for."""
    if kind_ == "index":
        return i, [i]
    if kind_ == "atom":
        return atoms[i], [i]
    return names[i], [k for k, x in enumerate(names) if x == names[i]]


CON = []
for names in (["A"], ["A", "B"], ["A", "A"], ["A", "B", "A"], ["A", "B", "C"]):
    for i, j in itertools.product(range(len(names)), repeat=2):
        for k1, k2 in itertools.product(("index", "atom", "name"), repeat=2):
            if (k1 == "atom" and names.count(names[i]) > 1) or (k2 == "atom" and names.count(names[j]) > 1):
                continue
            CON.append({"names": ",".join(names), "i": i, "j": j, "k1": k1, "k2": k2})


@contract("C16", "add_connection", ["structure.LatticeStructure.add_connection", "structure.LatticeStructure.get_alpha"], [{"names": x} for x in sorted({c["names"] for c in CON})])
def _(v, names):
    d = 2
    for q, c in enumerate([c for c in CON if c["names"] == names]):
        v.c.loc = ""
        nm = names.split(",")
        n = len(nm)
        L, m, pos, atoms, con = configured(v, d, n, nm)
        old = [[con(a, b) for b in range(n)] for a in range(n)]
        num = v.int("num", 0)
        a1, s1 = who(v, c["k1"], nm, atoms, c["i"])
        a2, s2 = who(v, c["k2"], nm, atoms, c["j"])
        v.meth(L, "add_connection", a1, a2, num)
        C = L.f["_connections"]
        what = f"{c['k1']} {c['i']} to {c['k2']} {c['j']}"
        for a in range(n):
            for b in range(n):
                hit = (a in s1 and b in s2) or (a in s2 and b in s1)
                v.post(f"{what}: entry {a},{b}", eq(C(a, b), num if hit else old[a][b]))
        r = v.raises(lambda: v.meth(L, "_assert_analyzed"))
        v.post(f"{what}: must be analyzed again", r is not None and r.name == "NotAnalyzedError")
        if q == 0:
            needs_analysis(v, L, d)


@contract("C16", "add_connections", ["structure.LatticeStructure.add_connections"], [{"n": n} for n in (1, 2, 3)])
def _(v, n):
    L, m, pos, atoms, con = configured(v, 2, n)
    num = v.int("num", 0)
    v.meth(L, "add_connections", num, analyze=False)
    C = L.f["_connections"]
    for a in range(n):
        for b in range(n):
            v.post(f"entry {a},{b}", eq(C(a, b), num))
    needs_analysis(v, L, 2)


@summary("structure.LatticeStructure.analyze")
def analyze_summary(ip, self):
    """Analysis is what makes the lattice valid for queries (contract of analyze: C07)."""
    n = self.f["_num_base"]
    ip.setattr(self, "_base_neighbors", vlist([{1: None} for _ in range(n)]))
    ctx().ghost.setdefault("analyzed", []).append(self)


@contract("C16", "analyze_on_request", ["structure.LatticeStructure.add_connection", "structure.LatticeStructure.add_connections", "structure.LatticeStructure.add_atom"],
          [{"op": x} for x in ("all_default", "all", "all_no", "one_default", "one", "one_no", "atom", "atom_no")], use=["structure.LatticeStructure.analyze"])
def _(v, op):
    L, m, pos, atoms, con = configured(v, 2, 2)
    L.f["_base_neighbors"] = None
    if op.startswith("atom"):
        q = v.arr("q", (2,))
        for x in pos:
            v.pre(Not(And(*[eq(x(k), q(k)) for k in range(2)])))
        v.meth(L, "add_atom", q, "B", **({"neighbors": 2} if op == "atom" else {}))
        if op == "atom":
            C = L.f["_connections"]
            v.post("connections with the number of distances given", And(*[eq(C(a, b), 2) for a in range(3) for b in range(3)]))
    else:
        kw = {"default": {}, "no": {"analyze": False}}.get(op.split("_")[-1], {"analyze": True})
        v.meth(L, *(("add_connections", 1) if op.startswith("all") else ("add_connection", 0, 1, 1)), **kw)
    done = bool(v.c.ghost.get("analyzed"))
    v.post("analyzed exactly on request", done == (op in ("all_default", "all", "one", "atom")))
    r = v.raises(lambda: v.meth(L, "_assert_analyzed"))
    v.post("valid exactly after an analysis", (r is None) == done)


@contract("C16", "get_atom", ["structure.LatticeStructure.get_atom", "structure.LatticeStructure.get_alpha"], [{"names": x} for x in ("A", "A,B", "A,B,A", "A,B,C")])
def _(v, names):
    nm = names.split(",")
    L, m, pos, atoms, con = configured(v, 2, len(nm), nm)
    for i in range(len(nm)):
        v.post(f"atom by index {i}", v.meth(L, "get_atom", i) is atoms[i])
        v.post(f"atom by object {i}", v.meth(L, "get_atom", atoms[i]) is atoms[i])
        v.post(f"atom by name {i}", v.meth(L, "get_atom", nm[i]) is atoms[nm.index(nm[i])])
        v.post(f"index by index {i}", eq(v.meth(L, "get_alpha", i), i))
        v.post(f"indices by name {i}", list(v.meth(L, "get_alpha", nm[i])) == [k for k, x in enumerate(nm) if x == nm[i]])
        if nm.count(nm[i]) == 1:
            v.post(f"index by object {i}", eq(v.meth(L, "get_alpha", atoms[i]), i))
    r = v.raises(lambda: v.meth(L, "get_atom", "none such"))
    v.post("unknown name is rejected", r is not None and r.name == "ValueError")
    v.post("no index for an unknown name", list(v.meth(L, "get_alpha", "none such")) == [])


@contract("C16", "preconditions_of_analysis", ["structure.LatticeStructure.analyze", "structure.LatticeStructure._assert_atoms", "structure.LatticeStructure._assert_connections"], [{"n": n} for n in (0, 1, 2)])
def _(v, n):
    L, m, pos, atoms, con = configured(v, 2, n)
    if n:
        L.f["_connections"] = A.from_nested([[0] * n for _ in range(n)], INT64)
    L.f["_base_neighbors"] = None
    r = v.raises(lambda: v.meth(L, "analyze"))
    v.post("analysis needs atoms and connections", r is not None and r.name == ("NoConnectionsError" if n else "NoAtomsError"))
    r = v.raises(lambda: v.meth(L, "_assert_analyzed"))
    v.post("still not analyzed", r is not None and r.name == "NotAnalyzedError")
