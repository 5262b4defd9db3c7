"""Periods and periodic images (C11, C19)."""
from .lib import *
from .p_config import configured
from .p_data import Data, INF
from engine.vc import Witness
from engine.arr import SDt
from engine.interp import VList, Key, SObj, Unsupported, vl_get, vl_len

PTV = "lattice.Lattice._build_periodic_translation_vector"


def rect(v, d):
    """Orthogonal cells: the vectors along the axes, of any positive lengths."""
    a = [v.real(f"len{i}") for i in range(d)]
    for x in a:
        v.pre(x > 0)
    m = from_nested([[a[i] if i == j else z3.RealVal(0) for j in range(d)] for i in range(d)], FLOAT)
    v.c.ghost["regular"] = [[a[i] if i == j else z3.RealVal(0) for j in range(d)] for i in range(d)]
    return v.call("lattice.Lattice", m), a


def extent(v, ind, N, ax, name=""):
    """Smallest and largest cell of the sites along the axis."""
    lo, hi = v.int("lo" + name), v.int("hi" + name)
    at = lambda q: And(q[0] >= 0, q[0] < T(N))
    v.pre(forall([("i", IS)], at, lambda q: And(T(ind(q[0], ax)) >= lo, T(ind(q[0], ax)) <= hi), lambda q: [ind(q[0], ax)]))
    v.pre(hi - lo < 10 ** 8)
    i, j = v.int("ilo" + name, 0, N), v.int("ihi" + name, 0, N)
    v.pre(And(eq(ind(i, ax), lo), eq(ind(j, ax), hi)))
    return lo, hi


def rounded(r, j):
    """The real numbers that are rounded in a component of the result."""
    return [x.arg(0) for x in subterms(T(r(j))) if z3.is_app(x) and x.decl().name() == "rint"] if isinstance(r, SArr) and r.ndim == 1 else []


def subterms(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            st.extend(x.children())


@contract("C10", "period", [PTV], [{"d": d, "ax": a, "prim": p, "how": "given"} for d in (1, 2, 3) for a in range(d) for p in (False, True)])
@contract("C11", "period", [PTV], [{"d": d, "ax": a, "prim": p, "how": h} for d in (1, 2, 3) for a in range(d) for p in (False, True) for h in ("self", "given") if h == "self" or a == d - 1])
def _(v, d, ax, prim, how):
    N = v.size("N", 1)
    ind = v.arr("ind", (N, d + 1), "int")
    if prim:
        L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    else:
        L, a = rect(v, d)
    lo, hi = extent(v, ind, N, ax)
    if how == "self":
        L.f["data"].f["indices"] = ind
        r = v.meth(L, "_build_periodic_translation_vector", ax, prim)
    else:
        r = v.meth(L, "_build_periodic_translation_vector", ax, prim, ind)
    hints, own = [], []
    if not prim:
        ln, x = a[ax], lambda q: z3.ToReal(ind(q[0], ax))
        hints = [forall([("i", IS)], lambda q: And(q[0] >= 0, q[0] < T(N)), lambda q: And(x(q) * ln <= z3.ToReal(hi) * ln, x(q) * ln >= z3.ToReal(lo) * ln), lambda q: [ind(q[0], ax)])]
        w = T(L.f["_vectors_inv"](ax, ax))
        for nm, e in v.c.ghost.get("extremes", []):
            if z3.is_real(e):
                hints.append(e == z3.ToReal(lo if nm == "min" else hi) * ln)
        hints += [w * ln == 1, w > 0, w * (z3.ToReal(hi) * ln - z3.ToReal(lo) * ln) == z3.ToReal(hi - lo)]
        own = [t == z3.ToReal(hi - lo) + z3.Q(2, 3) for t in rounded(r, ax)]
    if same_shape(v, r, (d,)):
        v.post("integers", r.kind == "int")
        for j in range(d):
            v.post(f"as many cells as the lattice is wide {j}", eq(r(j), (hi - lo + 1) if j == ax else 0), hints + (own if j == ax else []))


@contract("C11", "images", ["lattice.Lattice.periodic_translation_vectors"], [{"d": d, "axes": a, "prim": p, "how": h} for d in (1, 2, 3) for k in range(1, d + 1) for a in itertools.combinations(range(d), k) for p in (False, True)
                                                                           for h in ("int", "array", "list") if (h == "int") <= (k == 1)], use=[PTV])
def _(v, d, axes, prim, how):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    per = v.c.ghost["periods"] = {(a, p): v.arr(f"period{a}{p:d}", (d,), "int") for a in range(d) for p in (False, True)}
    arg = axes[0] if how == "int" else from_nested(list(axes), INT64) if how == "array" else vlist(list(axes))
    r = v.meth(L, "periodic_translation_vectors", arg, prim)
    items = [vl_get(r, i) for i in range(vl_len(r))]
    signs = [s for s in itertools.product((1, 0, -1), repeat=len(axes)) if any(s)]
    half = [s for s in signs if next(x for x in s if x) > 0]
    v.post("one item for each pair of opposite displacements", len(items) == len(half))
    if len(items) != len(half):
        return
    disp = lambda s: [summ(mul(x, per[a, prim](j)) for x, a in zip(s, axes) if x) for j in range(d)]
    is_ = lambda s, vec: And(*[eq(vec(j), w) for j, w in enumerate(disp(s))])
    for s in half:
        o = tuple(-x for x in s)
        v.post(f"displacement {s}", Or(*[Or(is_(s, x[1]), is_(o, x[1])) for x in items]))
    for k, x in enumerate(items):
        if same_shape(v, x[1], (d,), f"vector {k}"):
            v.post(f"vector {k}: sum of the periods with signs", Or(*[is_(s, x[1]) for s in signs]))


@summary(PTV)
def _(ip, self, axes, primitive=False, indices=None):
    per = ctx().ghost.get("periods")
    if per is None or indices is not None:
        raise Unsupported("unexpected period")
    a = axes
    while isinstance(a, (SArr, VList)):
        if isinstance(a, SArr) and a.ndim == 0:
            a = a()
            continue
        n = a.axes[0].n if isinstance(a, SArr) else len(a)
        if n != 1:
            raise Unsupported("period of several axes")
        a = a(0) if isinstance(a, SArr) else a[0]
    if not isinstance(a, int):
        a = z3.simplify(T(a))
        if not z3.is_int_value(a):
            raise Unsupported("period along an unknown axis")
        a = a.as_long()
    x = per[a, bool(primitive)]
    f = x.store.fn
    return new(x.axes, f, x.dt)


@contract("C11", "image_of_sites", ["lattice.Lattice._build_periodic"], [{"d": d, "out": o} for d in (1, 2, 3) for o in (False, True)])
def _(v, d, out):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    N = v.size("N")
    ind, ps, vec = v.arr("ind", (N, d + 1), "int"), v.arr("ps", (N, d)), v.arr("nvec", (d,), "int")
    fr = Frame(v, ind=ind, ps=ps, vec=vec)
    if out:
        oi, op = v.arr("oi", (N, d + 1), "int"), v.arr("op", (N, d))
        v.meth(L, "_build_periodic", ind, ps, vec, oi, op)
    else:
        r = v.meth(L, "_build_periodic", ind, ps, vec)
        oi, op = r
    fr.check()
    if same_shape(v, oi, (N, d + 1), "indices") and same_shape(v, op, (N, d), "positions"):
        v.forall("cells are displaced, atoms stay", (N, d + 1), lambda i, j: eq(oi(i, j), add(ind(i, j), vec(j) if j < d else 0)))
        v.forall("positions are displaced by the lattice translation", (N, d), lambda i, j: eq(op(i, j), add(ps(i, j), summ(mul(vec(k), m[k][j]) for k in range(d)))))


# ---------------------------------------------------------------- distances to images (C19)
@contract("C19", "minimum_distances", ["lattice.Lattice.minimum_distances", "lattice.Lattice.periodic_translation_vectors", "spatial.distances"],
          [{"d": d, "axes": a, "prim": p, "how": h} for d in (1, 2, 3) for k in range(0, d + 1) for a in itertools.combinations(range(d), k) for p in (False, True) for h in ("array", "list") if (h == "array" or not k) and (d < 3 or p == (k % 2 == 0) or k == 0)], use=[PTV], timeout=20)
def _(v, d, axes, prim, how):
    L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
    per = v.c.ghost["periods"] = {(a, p): v.arr(f"period{a}{p:d}", (d,), "int") for a in range(d) for p in (False, True)}
    D = Data(v, d)
    L.f["data"] = D.obj
    L.f["primitive"] = prim
    L.f["periodic_axes"] = from_nested(list(axes), INT64) if how == "array" else vlist(list(axes))
    i = v.int("site", 0, D.N)
    r = v.meth(L, "minimum_distances", i)
    D.unchanged()
    if not same_shape(v, r, (D.N,)):
        return
    signs = list(itertools.product((1, 0, -1), repeat=len(axes)))
    disp = lambda s: [summ(mul(summ(mul(x, per[a, prim](k)) for x, a in zip(s, axes) if x), m[k][j]) for k in range(d)) for j in range(d)]
    P = D.positions
    sq = lambda s, a, b: summ(mul(y, y) for y in [sub(add(P(a, j), w), P(b, j)) for j, w in enumerate(disp(s))])
    far = lambda s, j: sym.sqrt_(sq(s, i, j))
    v.forall("distances are not negative", (D.N,), lambda j: T(r(j)) >= 0)
    for s in signs:
        v.forall(f"at most the distance of the image {s}", (D.N,), lambda j: T(r(j)) <= T(far(s, j)))
    v.forall("the distance of an image", (D.N,), lambda j: Or(*[eq(r(j), far(s, j)) for s in signs]))
    j = v.int("other", 0, D.N)
    for s in signs:
        v.post(f"images are symmetric between sites {s}", eq(sq(s, i, j), sq(tuple(-x for x in s), j, i)))


# ---------------------------------------------------------------- the neighbor table
@contract("C11", "data_remove_periodic", ["data.LatticeData.remove_periodic"], DIMS)
def _(v, d):
    D = Data(v, d)
    D.obj.f["_dmap"] = v.obj("data.DataMap")
    old = {k: SArr(x.axes, f, x.dt) for k, (x, f) in D.keep.items() if isinstance(x, SArr)}
    v.meth(D.obj, "remove_periodic")
    F, N, M = D.obj.f, D.N, D.M
    D.unchanged(("neighbors", "distances", "pmask", "pnvecs", "paxes", "_dmap"))
    if not (same_shape(v, F["neighbors"], (N, M), "neighbors") and same_shape(v, F["distances"], (N, M), "levels") and same_shape(v, F["pmask"], (N, M), "flags")):
        return
    per = lambda i, s: old["pmask"](i, s)
    v.forall("regular neighbors stay", (N, M), lambda i, s: Implies(Not(per(i, s)), And(eq(F["neighbors"](i, s), old["neighbors"](i, s)), eq(F["distances"](i, s), old["distances"](i, s)))))
    v.forall("periodic neighbors are gone", (N, M), lambda i, s: Implies(per(i, s), And(eq(F["neighbors"](i, s), N), eq(F["distances"](i, s), sub(D.L, 1)))))
    v.forall("no periodic flags, translations and axes", (N, M), lambda i, s: And(Not(cast(F["pmask"](i, s), "bool")), *[And(eq(F["pnvecs"](i, s, j), 0), eq(F["paxes"](i, s, j), d)) for j in range(d)]))
    v.post("the data map is computed anew", F.get("_dmap") is None)


class Rows:
    """A neighbor table before and after entries were added: widened, relabelled levels, new entries in free slots."""

    def __init__(self, v, D):
        self.v, self.D = v, D
        self.old = {k: SArr(x.axes, f, x.dt) for k, (x, f) in D.keep.items() if isinstance(x, SArr)}

    def tables(self):
        v, D, F = self.v, self.D, self.D.obj.f
        N, d = D.N, D.d
        self.W = W = F["neighbors"].axes[1].n
        self.L = L = F["distvals"].axes[0].n
        v.post("the table is not narrower", T(W) >= T(D.M))
        ok = all([same_shape(v, F[k], sh, k) for k, sh in (("neighbors", (N, W)), ("distances", (N, W)), ("pmask", (N, W)), ("pnvecs", (N, W, d)), ("paxes", (N, W, d)))])
        dv = F["distvals"]
        v.post("number of levels", And(T(L) >= T(D.L), eq(F["invalid_distidx"], sub(L, 1)), eq(dv(sub(L, 1)), INF)))
        v.forall("levels ascend", (L, L), lambda a, b: Implies(lt(a, b), T(dv(a)) < T(dv(b))))
        return ok

    def kept(self, i, s, dist=True):
        """Entry (i, s) is as before."""
        F, old, D = self.D.obj.f, self.old, self.D
        return And(eq(F["neighbors"](i, s), old["neighbors"](i, s)), eq(F["distvals"](F["distances"](i, s)), old["distvals"](old["distances"](i, s))), Iff(F["pmask"](i, s), old["pmask"](i, s)),
                   *[And(*[eq(F[k](i, s, j), old[k](i, s, j)) for k in ("pnvecs", "paxes")]) for j in range(D.d)])

    def unused(self, i, s):
        F, D = self.D.obj.f, self.D
        return And(eq(F["neighbors"](i, s), D.N), eq(F["distances"](i, s), sub(self.L, 1)), Not(cast(F["pmask"](i, s), "bool")))


@contract("C11", "add_distvals", ["data.LatticeData._add_distvals"], DIMS[1:2])
def _(v, d):
    D = Data(v, d)
    K = v.size("K")
    new_ = v.arr("dist", (K,))
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(K)), lambda q: And(T(new_(q[0])) >= 0, T(new_(q[0])) < INF), lambda q: [new_(q[0])]))
    fr = Frame(v, new=new_)
    R = Rows(v, D)
    v.meth(D.obj, "_add_distvals", new_)
    fr.check()
    D.unchanged(("distances", "distvals", "invalid_distidx"))
    if not R.tables():
        return
    F = D.obj.f
    v.forall("entries keep their distances", (D.N, D.M), lambda i, s: And(eq(F["distvals"](F["distances"](i, s)), R.old["distvals"](R.old["distances"](i, s))), T(F["distances"](i, s)) >= 0, T(F["distances"](i, s)) < T(R.L)))
    v.forall("unused entries stay unused", (D.N, D.M), lambda i, s: Iff(eq(F["distances"](i, s), sub(R.L, 1)), eq(R.old["distances"](i, s), sub(D.L, 1))))
    mem = lambda x: exists([("l", IS)], lambda q: And(q[0] >= 0, q[0] < T(R.L) - 1), lambda q: eq(F["distvals"](q[0]), x))
    hints = lambda k: [Witness(g[3].ordinal(new_(k))) for g in v.c.ghost.get("uniqreg", [])]
    v.post("the levels fit the table", And(*[T(sub(R.L, 1)) <= T(F["distances"].dt.hi)] if F["distances"].dt.hi is not None else [True]))
    v.forall("every new distance has a level", (K,), lambda k: mem(new_(k)), hints)


@contract("C11", "free_slots", ["data.LatticeData._free_slots"], [{"d": d, "per": p} for d in (1, 2, 3) for p in (False, True)])
def _(v, d, per):
    D = Data(v, d)
    i, num = v.int("site", 0, D.N), v.int("num", 0)
    R = Rows(v, D)
    v.c.ghost["lengths"] = True     # lengths of selections are numbers of true entries
    r = v.meth(D.obj, "_free_slots", i, num)
    D.unchanged(("neighbors", "distances", "pmask", "pnvecs", "paxes"))
    if not R.tables():
        return
    N, M, W, F = D.N, D.M, R.W, D.obj.f
    v.forall("old entries stay", (N, M), lambda a, s: R.kept(a, s))
    v.forall("added entries are unused", (N, W), lambda a, s: Implies(T(s) >= T(M), R.unused(a, s)))
    if same_shape(v, r, (num,), "as many slots as asked for"):
        v.forall("slots of the table", (num,), lambda k: And(T(r(k)) >= 0, T(r(k)) < T(W)))
        v.forall("slots are free", (num,), lambda k: eq(F["distances"](i, r(k)), sub(R.L, 1)))
        v.forall("slots are different", (num, num), lambda k, l: Implies(lt(k, l), T(r(k)) < T(r(l))))
    if F["neighbors"].dt.hi is not None:
        v.post("the marks fit the table", And(T(N) <= T(F["neighbors"].dt.hi), T(sub(R.L, 1)) <= T(F["distances"].dt.hi)))


ADV, FREE = "data.LatticeData._add_distvals", "data.LatticeData._free_slots"


@summary(ADV)
def _(ip, self, dists):
    c = ctx()
    v, F = V(ip, c), self.f
    x = npm.arrlike(dists)
    if x.ndim != 1:
        raise Unsupported("levels of a matrix")
    f, ax = x.store.fn, x.axes[0]
    L, ds, dv = F["distvals"].axes[0].n, F["distances"], F["distvals"]
    old, odv = SArr(ds.axes, ds.store.fn, ds.dt), SArr(dv.axes, dv.store.fn, dv.dt)
    xs = SArr(x.axes, f, x.dt)
    L2 = v.size("L_")
    hi = v.int("dshi_")
    c.fact(And(L2 >= T(L), hi >= L2 - 1))
    N, M = ds.axes[0].n, ds.axes[1].n
    dv2 = v.arr("dv_", (L2,))
    ds2 = v.arr("ds_", (N, M), "int", 0, L2, dt=SDt("ds_", "int", 0, hi))
    c.fact(eq(dv2(L2 - 1), INF))
    c.fact(forall([("k", IS), ("l", IS)], lambda q: And(q[0] >= 0, q[0] < q[1], q[1] < L2), lambda q: T(dv2(q[0])) < T(dv2(q[1])), lambda q: [(dv2(q[0]), dv2(q[1]))]), guarded=False)
    inr = lambda q: And(q[0] >= 0, q[0] < T(N), q[1] >= 0, q[1] < T(M))
    c.fact(forall([("i", IS), ("s", IS)], inr, lambda q: And(eq(dv2(ds2(*q)), odv(old(*q))), Iff(eq(ds2(*q), L2 - 1), eq(old(*q), sub(L, 1)))), lambda q: [ds2(*q)]), guarded=False)
    lev = c.fn("lev_", [IS], IS)
    c.fact(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(ax.n)), lambda q: And(lev(q[0]) >= 0, lev(q[0]) < L2 - 1, eq(dv2(lev(q[0])), xs(q[0])))), guarded=False)
    F.update(distances=ds2, distvals=dv2, invalid_distidx=L2 - 1)


@summary(FREE)
def _(ip, self, site, num):
    c = ctx()
    v, F = V(ip, c), self.f
    N, W = F["neighbors"].axes[0].n, F["neighbors"].axes[1].n
    d = F["pnvecs"].axes[2].n
    W2 = v.size("W_")
    c.fact(W2 >= T(W))
    Lm = F["invalid_distidx"]

    def wide(k, fill, extra=()):
        a = F[k]
        g = a.store.fn
        if not all(isinstance(x, Range) for x in a.axes):
            b = SArr(a.axes, g, a.dt)
            g = lambda pts: b(*pts)
        F[k] = new([Range(N), Range(W2), *[Range(n) for n in extra]], lambda pts: ite(lt(pts[1], W), g(pts), fill), a.dt)
    wide("neighbors", F["invalid_idx"])
    wide("distances", Lm)
    wide("pmask", False)
    wide("pnvecs", 0, (d,))
    wide("paxes", d, (d,))
    ds = F["distances"]
    g = SArr(ds.axes, ds.store.fn, ds.dt)
    chosen = c.fn("chosen_", [IS], z3.BoolSort())
    sl = npm.FNS["where"](new([Range(W2)], lambda pts: chosen(T(pts[0])), BOOL))[0]
    c.fact(eq(sl.axes[0].n, num))
    c.fact(forall([("s", IS)], lambda q: And(q[0] >= 0, q[0] < W2, chosen(q[0])), lambda q: eq(g(site, q[0]), Lm), lambda q: [chosen(q[0])]), guarded=False)
    c.ghost.setdefault("slots", []).append(sl)
    return sl


def finite(v, a, n):
    v.pre(forall([("k", IS)], lambda q: And(q[0] >= 0, q[0] < T(n)), lambda q: And(T(a(q[0])) >= 0, T(a(q[0])) < INF), lambda q: [a(q[0])]))


for _p in ("C10", "C11"):
    @contract(_p, "add_neighbors", ["data.LatticeData.add_neighbors"], [{"d": d, "how": h} for d in (1, 2, 3) for h in ("scalar", "array")], use=[ADV, FREE])
    def _(v, d, how):
        D = Data(v, d)
        i = v.int("site", 0, D.N)
        D.obj.f["_dmap"] = v.obj("data.DataMap")
        if how == "scalar":
            K, x, y = 1, v.int("neighbor", 0, D.N), v.real("dist")
            v.pre(And(y >= 0, y < INF))
            args, nbs, dst = (x, y), (lambda k: x), (lambda k: y)
        else:
            K = v.size("K", 1)
            nbs, dst = v.arr("nbs", (K,), "int", 0, D.N), v.arr("dist", (K,))
            finite(v, dst, K)
            args = (nbs, dst)
        R = Rows(v, D)
        v.meth(D.obj, "add_neighbors", i, *args)
        sl = v.c.ghost.get("slots", [])
        if len(sl) != 1:
            raise Unsupported("slots are not chosen by _free_slots")
        sl = sl[0]
        D.unchanged(("neighbors", "distances", "distvals", "invalid_distidx", "pmask", "pnvecs", "paxes", "_dmap"))
        if not R.tables():
            return
        N, M, W, F = D.N, D.M, R.W, D.obj.f
        v.post("as many slots as neighbors", eq(sl.axes[0].n, K))
        taken = lambda a, s: And(eq(a, i), exists([("q", IS)], lambda q: And(q[0] >= 0, q[0] < T(K)), lambda q: eq(sl(q[0]), s)))
        v.forall("the neighbors are entered", (K,), lambda k: And(eq(F["neighbors"](i, sl(k)), nbs(k)), eq(F["distvals"](F["distances"](i, sl(k))), dst(k)), T(F["distances"](i, sl(k))) < T(R.L) - 1))
        v.forall("as regular neighbors", (K,), lambda k: Not(cast(F["pmask"](i, sl(k)), "bool")))
        v.forall("other entries stay", (N, M), lambda a, s: Or(taken(a, s), R.kept(a, s)))
        v.forall("only unused entries are overwritten", (N, M), lambda a, s: Implies(taken(a, s), Not(T(R.old["distances"](a, s)) < T(D.L) - 1)))
        v.forall("added entries are unused otherwise", (N, W), lambda a, s: Implies(T(s) >= T(M), Or(taken(a, s), R.unused(a, s))))
        v.post("the data map is computed anew", F.get("_dmap") is None)


@contract("C11", "data_set_periodic", ["data.LatticeData.set_periodic", "data.LatticeData.remove_periodic"], [{"d": d, "n": n, "width": w} for d in (1, 2, 3) for n in (0, 1, 2) for w in range(1, d + 1) if n or w == 1], use=[ADV, FREE], timeout=15)
def _(v, d, n, width):
    """The periodic neighbors of n sites, any number each."""
    D = Data(v, d)
    D.obj.f["_dmap"] = v.obj("data.DataMap")
    R = Rows(v, D)
    N, M = D.N, D.M
    sites = [v.int(f"site{q}", 0, N) for q in range(n)]
    if n == 2:
        v.pre(sites[0] != sites[1])
    K = [v.size(f"K{q}", 1) for q in range(n)]
    nb = [v.arr(f"pnb{q}", (K[q],), "int", 0, N) for q in range(n)]
    ds = [v.arr(f"pds{q}", (K[q],)) for q in range(n)]
    vec = [v.arr(f"pvec{q}", (K[q], d), "int") for q in range(n)]
    axs = [v.arr(f"pax{q}", (K[q], width), "int", 0, d) for q in range(n)]
    for q in range(n):
        finite(v, ds[q], K[q])
    fr = Frame(v, **{f"{nm}{q}": x[q] for nm, x in (("neighbors", nb), ("distances", ds), ("translations", vec), ("axes", axs)) for q in range(n)})
    dic = lambda xs: {Key(s): x for s, x in zip(sites, xs)}
    v.meth(D.obj, "set_periodic", dic(nb), dic(ds), dic(vec), dic(axs))
    sl = v.c.ghost.get("slots", [])
    if len(sl) != n:
        raise Unsupported("slots are not chosen by _free_slots")
    fr.check()
    D.unchanged(("neighbors", "distances", "distvals", "invalid_distidx", "pmask", "pnvecs", "paxes", "_dmap"))
    if not R.tables():
        return
    W, F = R.W, D.obj.f
    for q in range(n):
        i, s = sites[q], sl[q]
        v.post(f"as many slots as neighbors ({q})", eq(s.axes[0].n, K[q]))
        v.forall(f"the neighbors are entered ({q})", (K[q],), lambda k: eq(F["neighbors"](i, s(k)), nb[q](k)))
        v.forall(f"with their distance ({q})", (K[q],), lambda k: And(eq(F["distvals"](F["distances"](i, s(k))), ds[q](k)), T(F["distances"](i, s(k))) < T(R.L) - 1))
        v.forall(f"as periodic neighbors ({q})", (K[q],), lambda k: F["pmask"](i, s(k)))
        for j in range(d):
            v.forall(f"with their translation ({q}) {j}", (K[q],), lambda k: eq(F["pnvecs"](i, s(k), j), vec[q](k, j)))
            v.forall(f"with their axes ({q}) {j}", (K[q],), lambda k: eq(F["paxes"](i, s(k), j), axs[q](k, j) if j < width else d))
    taken = lambda a, s: Or(*[And(eq(a, sites[q]), exists([("q", IS)], lambda t: And(t[0] >= 0, t[0] < T(K[q])), lambda t: eq(sl[q](t[0]), s))) for q in range(n)])
    reg = lambda a, s: And(T(R.old["distances"](a, s)) < T(D.L) - 1, Not(R.old["pmask"](a, s)))
    same = lambda a, s: And(eq(F["neighbors"](a, s), R.old["neighbors"](a, s)), eq(F["distvals"](F["distances"](a, s)), R.old["distvals"](R.old["distances"](a, s))), Not(cast(F["pmask"](a, s), "bool")))
    v.forall("regular neighbors stay", (N, M), lambda a, s: Implies(reg(a, s), same(a, s)))
    v.forall("all other entries are unused", (N, W), lambda a, s: Or(And(T(s) < T(M), reg(a, s)), taken(a, s), R.unused(a, s)))
    v.post("the data map is computed anew", F.get("_dmap") is None)


# ---------------------------------------------------------------- switching
CPN, DSP, DRP = "lattice.Lattice._compute_pneighbors", "data.LatticeData.set_periodic", "data.LatticeData.remove_periodic"


def recorder(q):
    @summary(q + "@rec")
    def _f(ip, **b):
        h = ctx().ghost.get("answers", {}).get(q)
        if h is None:
            raise Unsupported(f"unexpected call of {q}")
        return h(**b)


for _q in (CPN, DSP, DRP):
    recorder(_q)


def as_axes(x):
    if isinstance(x, SArr):
        return [x(i) for i in range(x.axes[0].n)] if isinstance(x.axes[0].n, int) else None
    return list(x) if isinstance(x, (list, tuple)) else None


for _p in ("C11", "C19"):
    @contract(_p, "set_periodic", ["lattice.Lattice.set_periodic"], [{"d": d, "how": h, "found": f} for d in (1, 2, 3) for h in ("none", "false", "true", "int", "list", "array", "tuple") for f in (True, False) if f or h in ("int", "true")],
              use=[CPN + "@rec", DSP + "@rec", DRP + "@rec"])
    def _(v, d, how, found):
        L, m, pos, atoms, con = configured(v, d, 2, cls="lattice.Lattice")
        D = Data(v, d)
        L.f["data"] = D.obj
        L.f["shape"] = v.arr("shape", (d,))
        L.f["primitive"] = v.case(v.bool("primitive"))
        L.f["periodic_axes"] = v.arr("oldaxes", (1,), "int", 0, d)
        a0, a1 = v.int("axis0", 0, d), v.int("axis1", 0, d)
        arg, want = {"none": (None, []), "false": (False, []), "true": (True, list(range(d))), "int": (a0, [a0]), "list": (vlist([a0, a1]), [a0, a1]), "array": (from_nested([a0, a1], INT64), [a0, a1]), "tuple": ((a0, a1), [a0, a1])}[how]
        log = []
        res = [{Key(v.int("key", 0, D.N)): None} if found else {} for _ in range(4)]

        def rem(self):
            log.append("remove")

        def comp(self, axis, primitive=False, indices=None, positions=None, num_jobs=-1):
            log.append("compute")
            v.post("earlier periodic neighbors are removed before", "remove" in log)
            ax = as_axes(axis)
            v.post("images along the requested axes", ax is not None and len(ax) == len(want) and And(*[eq(x, y) for x, y in zip(ax, want)]))
            v.post("of the kind of the lattice", bool(primitive) == bool(L.f["primitive"]))
            for x, y in ((indices, D.indices), (positions, D.positions)):
                if x is not None and x is not y:
                    raise Unsupported("other sites")
            return tuple(res)

        def setp(self, indices, distances, nvecs, axes):
            log.append("set")
            v.post("the computed neighbors are entered", indices is res[0] and distances is res[1] and nvecs is res[2] and axes is res[3])
        v.c.ghost["answers"] = {CPN: comp, DSP: setp, DRP: rem}
        v.meth(L, "set_periodic", arg)
        got = as_axes(v.get(L, "periodic_axes"))
        v.post("active axes", got is not None and len(got) == len(want) and And(*[eq(x, y) for x, y in zip(got, want)]))
        if not want:
            v.post("periodic neighbors are removed", "remove" in log and "set" not in log)
        elif found:
            v.post("periodic neighbors are entered", log.count("set") == 1 and log[-1] == "set" and log.count("compute") == 1)
        else:
            v.post("nothing to enter", "remove" in log)
        D.unchanged()
