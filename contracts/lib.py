"""Shared symbolic inputs and spec functions of the contracts."""
from engine.vc import *          # noqa: F401,F403
from engine.vc import contract, summary, invariant, V, vlist
from engine import sym, arr, npm
from engine.sym import *         # noqa: F401,F403
from engine.sym import Unsupported
from engine.arr import SArr, Range, BOOL, FLOAT, INT64, forall, exists, IS, RS, new, from_nested
import itertools
import z3

DIMS = [{"d": 1}, {"d": 2}, {"d": 3}]


def dims(*ds, **kw):
    keys = list(kw)
    return [dict({"d": d}, **dict(zip(keys, vals))) for d in ds for vals in itertools.product(*kw.values())]


def summ(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def dot(a, b):
    return summ(mul(x, y) for x, y in zip(a, b))


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return sub(mul(m[0][0], m[1][1]), mul(m[0][1], m[1][0]))
    return summ(mul((-1) ** j, mul(m[0][j], det([[r[k] for k in range(n) if k != j] for r in m[1:]]))) for j in range(n))


def mat(a):
    return [[a(i, j) for j in range(a.axes[1].n)] for i in range(a.axes[0].n)]


def basis(v, d, name="a", cls="basis.LatticeBasis"):
    """A lattice basis object made by the real constructor from symbolic regular vectors."""
    a = v.arr(name, (d, d))
    m = mat(a)
    v.pre(T(det(m)) != 0)
    v.c.ghost["regular"] = m
    L = v.call(cls, a)
    return L, m, a


class Frame:
    """Arrays that must come out unchanged."""

    def __init__(self, v, **arrs):
        self.v = v
        self.a = {k: (x, x.store.fn) for k, x in arrs.items()}

    def check(self):
        for k, (x, f) in self.a.items():
            if x.store.fn is f:
                self.v.post(f"{k} unchanged", True)
            else:
                y = SArr(x.axes, f, x.dt)
                self.v.forall(f"{k} unchanged", x, lambda *i: eq(x(*i), y(*i)))


def same_shape(v, a, shape, what="shape"):
    v.post(f"{what}: number of dimensions", isinstance(a, SArr) and a.ndim == len(shape))
    if isinstance(a, SArr) and a.ndim == len(shape):
        for i, (x, n) in enumerate(zip(a.axes, shape)):
            v.post(f"{what}: extent {i}", eq(x.n, n))
        return True
    return False


def some_row(a, pred, axis=0):
    """Some valid point of the axis satisfies pred (axes are bijections between their points and 0..n-1)."""
    out = []
    for names, mk in a.axes[axis].cases():
        out.append(exists(names, lambda vs: a.axes[axis].valid(mk(vs)), lambda vs: T(pred(mk(vs)))) if names else And(a.axes[axis].valid(mk(())), pred(mk(()))))
    return Or(*out)


def every_row(a, pred, axis=0):
    out = []
    for names, mk in a.axes[axis].cases():
        out.append(forall(names, lambda vs: a.axes[axis].valid(mk(vs)), lambda vs: T(pred(mk(vs)))) if names else Implies(a.axes[axis].valid(mk(())), pred(mk(()))))
    return And(*out)


def over(ax, n):
    """The points of the axis are the ordinals 0..n-1 of a plain range (else this way of specifying does not apply)."""
    r = ax.root()
    if not isinstance(r, Range) or arr.ctxeq(r.n, n) is not True:
        raise Unsupported("result is not given as a selection of the slots")
    return ax
