"""Symbolic scalars, path exploration, facts and obligations.

Scalars are python ints/bools/Fractions or z3 terms (Int/Real/Bool).  Machine integers of 64 bits and
floats are treated as mathematical integers/reals; narrower numpy integer types carry bounds (SDt) and
give `fits` obligations.
"""
import hashlib
from fractions import Fraction
import z3

ROOT = None  # current Ctx


class Unsupported(Exception):
    """Outside the verifier's subset: undecided, never a violation."""


class Infeasible(BaseException):
    """The current path cannot happen."""


INF = z3.Real("INF")
PI = z3.Real("PI")
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
RINT = z3.Function("rint", z3.RealSort(), z3.IntSort())


class Obl:
    __slots__ = ("name", "hyps", "goal", "loc", "kind", "group", "hints")

    def __init__(self, name, hyps, goal, loc, kind, hints=()):
        self.name, self.hyps, self.goal, self.loc, self.kind, self.hints = name, hyps, goal, loc, kind, hints


class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []           # [choice, other_feasible]
        self.facts = []
        self.bound = []           # generic variables [(const, [guards])]
        self.names = {}
        self.obls = []
        self.loc = "?"
        self.rec = []             # stack of recorders (generic loop bodies)
        self.local = []           # decisions inside generic iterations
        self.axcache = set()
        self.ghost = {"rowperm": [], "perm": [], "sel": []}
        self.quiet = 0
        self.catch = 0
        self.assumed = set()
        self.calls = set()
        self.inlined = set()
        self.prune = None

    # ---- names
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}!{n}" if n else base

    def fn(self, base, args, res):
        """Fresh function symbol (of the bound variables and `args` sorts)."""
        bv = [c for c, _ in self.bound]
        name = self.fresh(base)
        sorts = [c.sort() for c in bv] + list(args)
        if not sorts:
            c = z3.Const(name, res)
            return lambda: c
        f = z3.Function(name, *sorts, res)
        return lambda *a: f(*bv, *[T(x) for x in a])

    def const(self, base, sort):
        return self.fn(base, [], sort)()

    def int(self, base="k"):
        return self.const(base, z3.IntSort())

    def real(self, base="x"):
        return self.const(base, z3.RealSort())

    # ---- facts
    def close(self, f, guarded):
        vs = [(c, g) for c, g in self.bound if guarded or mentions(f, c)]
        vs = [(c, g) for c, g in vs if mentions(f, c) or any(mentions(x, c) for _, gg in vs for x in gg)]
        if not vs:
            return f
        gs = [x for _, g in vs for x in g]
        body = z3.Implies(z3.And(gs), f) if guarded and gs else f
        return z3.ForAll([c for c, _ in vs], body)

    def fact(self, f, guarded=True):
        """Add a fact (assumption, axiom instance or path condition)."""
        f = T(f)
        if z3.is_true(f):
            return
        self.facts.append(self.close(f, guarded))

    def once(self, key):
        if key in self.axcache:
            return False
        self.axcache.add(key)
        return True

    # ---- obligations
    def oblige(self, name, goal, kind="post", hints=()):
        if self.quiet and kind != "post":
            return
        goal = T(goal)
        g = z3.simplify(goal)
        if self.catch and kind == "shape" and z3.is_false(g):
            raise self.shape_error()         # numpy's exception, which the code around handles
        if z3.is_true(g):
            self.obls.append(Obl(name, (), z3.BoolVal(True), self.loc, kind))
            return
        hyps = list(self.facts) + [x for _, gg in self.bound for x in gg]
        self.obls.append(Obl(name, tuple(hyps), goal, self.loc, kind, tuple(hints)))
        if kind != "post" and not self.bound:
            self.facts.append(goal)      # continue under the checked condition

    # ---- branching
    def known(self, c):
        """Truth value of c if it is decided by the path condition, else None."""
        c = z3.simplify(T(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return None

    def feasible(self, c, ms=400):
        s = z3.Solver()
        s.set("timeout", ms)
        for f in self.facts:
            if not (z3.is_quantifier(f)):
                s.add(f)
        for _, gg in self.bound:
            s.add(*gg)
        s.add(c)
        return s.check() != z3.unsat

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        c = T(c)
        if self.bound:
            if not self.feasible(z3.Not(c)):
                return True
            if not self.feasible(c):
                return False
            if self.local and self.local[-1][1] == len(self.bound):
                loc = self.local[-1][0]
                i = len(loc.trace)
                ch = loc.prefix[i] if i < len(loc.prefix) else True
                loc.trace.append((ch, i >= len(loc.prefix)))
                self.bound[-1][1].append(c if ch else z3.simplify(z3.Not(c)))
                return ch
            raise Unsupported(f"branch on {str(c)[:80]} inside a generic iteration at {self.loc}")
        i = len(self.trace)
        if i < len(self.prefix):
            ch = self.prefix[i]
            self.trace.append((ch, False))
        else:
            a, b = self.feasible(c), self.feasible(z3.Not(c))
            if not a and not b:
                raise Infeasible()
            ch = a
            self.trace.append((ch, a and b))
        self.facts.append(c if ch else z3.simplify(z3.Not(c)))
        return ch


def ctx():
    return ROOT


def set_ctx(c):
    global ROOT
    ROOT = c


def mentions(f, c):
    seen = set()
    st = [f]
    cid = c.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


# ------------------------------------------------------------------ scalars
def is_term(x):
    return isinstance(x, z3.ExprRef)


def is_scalar(x):
    return isinstance(x, (int, bool, float, Fraction, z3.ExprRef))


def concrete(x):
    return not is_term(x)


def norm(x):
    """Python value of a literal term, floats as exact decimals."""
    if isinstance(x, float):
        if x != x:
            raise Unsupported("nan")
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else -INF
        return Fraction(repr(x))
    if is_term(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def T(x):
    """As z3 term."""
    if is_term(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    x = norm(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if is_term(x):
        return x
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def kind(x):
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, (float, Fraction)):
        return "real"
    s = x.sort()
    if s == z3.BoolSort():
        return "bool"
    if s == z3.IntSort():
        return "int"
    if s == z3.RealSort():
        return "real"
    raise Unsupported("sort " + str(s))


SORT = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}


def to_kind(x, k):
    kx = kind(x)
    if kx == k:
        return x
    if concrete(x):
        if k == "bool":
            return bool(x)
        if k == "real":
            return Fraction(int(x)) if kx == "bool" else Fraction(x)
        if k == "int":
            if kx == "bool":
                return int(x)
            return int(norm(x))
    if k == "bool":
        return x != 0
    if k == "int":
        if kx == "bool":
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return trunc(x)
    if kx == "bool":
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(x)


def whole(x):
    """The integer term equal to a real term that is built from integers, else None."""
    if z3.is_rational_value(x):
        f = x.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    if not z3.is_app(x):
        return None
    k = x.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = whole(x.arg(1)), whole(x.arg(2))
        return None if a is None or b is None else z3.If(x.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        xs = [whole(a) for a in x.children()]
        if any(a is None for a in xs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -xs[0]
        r = xs[0]
        for a in xs[1:]:
            r = r + a if k == z3.Z3_OP_ADD else r - a if k == z3.Z3_OP_SUB else r * a
        return r
    return None


def trunc(x):
    if concrete(x):
        return int(norm(x))
    w = whole(x)
    if w is not None:
        return w
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def floor_(x):
    if kind(x) != "real":
        return to_kind(x, "int")
    if concrete(x):
        import math
        return math.floor(norm(x))
    w = whole(x)
    return z3.ToInt(x) if w is None else w


def coerce(a, b):
    ka, kb = kind(a), kind(b)
    k = "real" if "real" in (ka, kb) else "int"
    return to_kind(a, k), to_kind(b, k)


def ite(c, a, b):
    c = norm(c) if is_term(c) else c
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    ka, kb = kind(a), kind(b)
    if ka != kb:
        a, b = coerce(a, b)
    a, b = T(a), T(b)
    if a.eq(b):
        return norm(a)
    return z3.If(c, a, b)


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        elif z3.is_true(c):
            pass
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def Not(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return T(a) == T(b)


def add(a, b):
    a, b = coerce(a, b)
    if concrete(a) and a == 0:
        return b
    if concrete(b) and b == 0:
        return a
    return norm(a + b) if concrete(a) and concrete(b) else T(a) + T(b)


def sub(a, b):
    a, b = coerce(a, b)
    if concrete(b) and b == 0:
        return a
    return a - b if concrete(a) and concrete(b) else T(a) - T(b)


def mul(a, b):
    a, b = coerce(a, b)
    for x, y in ((a, b), (b, a)):
        if concrete(x):
            if x == 0:
                return x
            if x == 1:
                return y
    return a * b if concrete(a) and concrete(b) else T(a) * T(b)


def neg(a):
    if kind(a) == "bool":
        a = to_kind(a, "int")
    return -a


def truediv(a, b):
    a, b = to_kind(a, "real"), to_kind(b, "real")
    if concrete(b):
        if b == 0:
            raise Unsupported("division by zero")
        return a / b if concrete(a) else T(a) / T(b)
    ctx().oblige("divisor is not zero", T(b) != 0, "defined")
    return T(a) / T(b)


def floordiv(a, b):
    if kind(a) == "real" or kind(b) == "real":
        return to_kind(floor_(truediv(a, b)), "real")
    a, b = to_kind(a, "int"), to_kind(b, "int")
    if concrete(a) and concrete(b):
        if b == 0:
            raise Unsupported("division by zero")
        return a // b
    if concrete(b) and b > 0:
        return T(a) / T(b)
    ctx().oblige("divisor is positive", T(b) > 0, "defined")
    return T(a) / T(b)


def mod(a, b):
    if kind(a) == "real" or kind(b) == "real":
        q = floor_(truediv(a, b))
        return sub(a, mul(q, b))
    a, b = to_kind(a, "int"), to_kind(b, "int")
    if concrete(a) and concrete(b):
        return a % b
    if concrete(b) and b > 0:
        return T(a) % T(b)
    ctx().oblige("divisor is positive", T(b) > 0, "defined")
    return T(a) % T(b)


def power(a, b):
    if concrete(b):
        b = norm(b)
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int) and b >= 0:
            if concrete(a):
                return norm(a) ** b
            r = 1
            for _ in range(b):
                r = mul(r, a)
            return r
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            return sqrt_(a)
        if isinstance(b, int) and concrete(a):
            return Fraction(norm(a)) ** b
    raise Unsupported("power")


def cmp(op, a, b):
    if op in ("==", "!="):
        if kind(a) == "bool" and kind(b) == "bool":
            if concrete(a) and concrete(b):
                return (a == b) == (op == "==")
            r = T(a) == T(b)
            return r if op == "==" else z3.Not(r)
    a, b = coerce(norm(a), norm(b))
    if concrete(a) and concrete(b):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    a, b = T(a), T(b)
    if a.eq(b):
        return op in ("==", "<=", ">=")
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
            ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def eq(a, b):
    return cmp("==", a, b)


def lt(a, b):
    return cmp("<", a, b)


def le(a, b):
    return cmp("<=", a, b)


def abs_(a):
    if concrete(a):
        return abs(norm(a))
    return ite(a >= 0, a, -a)


def min2(a, b):
    return ite(le(a, b), a, b)


def max2(a, b):
    return ite(le(a, b), b, a)


def sqrt_(x):
    import math
    x = to_kind(norm(x), "real")
    if concrete(x):
        if x < 0:
            raise Unsupported("sqrt of negative")
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
    x = z3.simplify(T(x))
    s = SQRT(x)
    ctx().fact(root_fact(x), guarded=False)
    return s


def squares(x):
    """The terms a_i if x is written as the sum of their squares, else None."""
    if z3.is_rational_value(x):
        return [] if x.as_fraction() == 0 else None
    if z3.is_add(x):
        out = []
        for a in x.children():
            r = squares(a)
            if r is None:
                return None
            out += r
        return out
    if z3.is_mul(x):
        c, k = list(x.children()), 1
        if z3.is_rational_value(c[0]) and c[0].as_fraction() > 0:
            c = c[1:]
        if len(c) == 1:
            return squares(c[0])
        if len(c) == 2 and c[0].eq(c[1]):
            return [c[0]]
        if len(c) == 4:
            for i, j, k in ((1, 2, 3), (2, 1, 3), (3, 1, 2)):
                if c[0].eq(c[i]) and c[j].eq(c[k]):
                    return [c[0] * c[j]]
        return None
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction() == 2:
        return [x.arg(0)]
    return None


def root_fact(x):
    s = SQRT(x)
    q = squares(x)
    if q is not None:
        return z3.And(s >= 0, s * s == x, (s == 0) == z3.And(*[a == 0 for a in q]))
    return z3.Implies(x >= 0, z3.And(s >= 0, s * s == x))


def sincos(x):
    x = to_kind(norm(x), "real")
    if concrete(x) and x == 0:
        return Fraction(0), Fraction(1)
    x = z3.simplify(T(x))
    s, c = SIN(x), COS(x)
    ctx().fact(s * s + c * c == 1, guarded=False)
    return s, c


def rint_(x):
    """Round to the nearest integer (ties unspecified)."""
    if kind(x) != "real":
        return to_kind(x, "int")
    if concrete(x):
        x = norm(x)
        if x.denominator != 2:
            return int((2 * x + 1) // 2)
    x = z3.simplify(T(x))
    r = RINT(x)
    ctx().fact(z3.And(2 * z3.ToReal(r) - 1 <= 2 * x, 2 * x <= 2 * z3.ToReal(r) + 1), guarded=False)
    return r


def round_(x, dec):
    if kind(x) != "real":
        return x
    dec = norm(dec)
    if not isinstance(dec, int):
        raise Unsupported("symbolic number of decimals")
    r = rint_(mul(x, Fraction(10) ** dec))
    y = mul(to_kind(r, "real"), Fraction(1, 1) / Fraction(10) ** dec)
    if is_term(x):
        ctx().assumed.add("rounding keeps infinite values (np.inf)")
        return ite(T(x) == INF, INF, y)
    return y


def bits(op, a, b):
    ka, kb = kind(a), kind(b)
    if ka == "bool" and kb == "bool":
        return {"&": And, "|": Or, "^": lambda x, y: Not(Iff(x, y))}[op](a, b)
    if "bool" in (ka, kb) and "int" in (ka, kb):
        i, c = (a, b) if ka == "int" else (b, a)
        if op == "&":
            if concrete(i):
                return to_kind(c, "int") if i % 2 else 0
            return ite(And(eq(mod(i, 2), 1), c), 1, 0)
    if concrete(a) and concrete(b):
        return {"&": int(a) & int(b), "|": int(a) | int(b), "^": int(a) ^ int(b)}[op]
    raise Unsupported("bitwise operation on integers")


def subst(x, pairs):
    return z3.substitute(x, *pairs) if is_term(x) else x


def digest(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(str(x).encode())
    return h.hexdigest()[:12]
