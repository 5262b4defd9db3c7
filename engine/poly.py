"""Linearisation back end: monomials become variables, polynomial equations are multiplied by the atoms of
the goal, and z3 decides the resulting linear problem.  Every step weakens the hypotheses, so `unsat` is
sound."""
import itertools
from fractions import Fraction
import z3

PRODUCTS = 4000


def poly(e, at):
    """dict monomial -> coefficient; atoms get numbers through `at`."""
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e):
        return {(): Fraction(e.numerator_as_long(), e.denominator_as_long())} if e.numerator_as_long() else {}
    if z3.is_int_value(e):
        return {(): Fraction(e.as_long())} if e.as_long() else {}
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = padd(r, poly(c, at))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(e.arg(0), at)
        for c in e.children()[1:]:
            r = padd(r, poly(c, at), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(e.arg(0), at), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in e.children():
            r = pmul(r, poly(c, at))
        return r
    if k == z3.Z3_OP_TO_REAL:
        return poly(e.arg(0), at)
    if k == z3.Z3_OP_DIV:
        d = poly(e.arg(1), at)
        if list(d) == [()]:
            return {m: c / d[()] for m, c in poly(e.arg(0), at).items()}
        at.divs[e.get_id()] = e
    return {(at(e),): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 200000:
        raise OverflowError
    for (m, c), (n, d) in itertools.product(a.items(), b.items()):
        k = tuple(sorted(m + n))
        x = r.get(k, 0) + c * d
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


class Atoms:
    def __init__(self):
        self.ids, self.terms, self.divs = {}, [], {}

    def __call__(self, e):
        i = e.get_id()
        if i not in self.ids:
            self.ids[i] = len(self.terms)
            self.terms.append(e)
        return self.ids[i]


def arith(e):
    return z3.is_app(e) and (z3.is_int(e) or z3.is_real(e))


class Lin:
    def __init__(self):
        self.at = Atoms()
        self.mono = {}
        self.eqs = []          # polynomials known to be zero
        self.bools = {}
        self.mixed = False

    def var(self, m):
        if m not in self.mono:
            name = "m" + "_".join(map(str, m))
            if all(z3.is_int(self.at.terms[i]) for i in m):
                self.mono[m] = z3.ToReal(z3.Int(name))
                self.mixed = True
            else:
                self.mono[m] = z3.Real(name)
        return self.mono[m]

    def define(self):
        """Defining constraints of the conditional terms and floors among the atoms."""
        out, i = [], 0
        while i < len(self.at.terms):
            e = self.at.terms[i]
            k = e.decl().kind() if z3.is_app(e) else None
            x = (lambda: self.lin({(i,): Fraction(1)}))
            if k == z3.Z3_OP_ITE:
                c = self.form(e.arg(0))
                out += [z3.Implies(c, x() == self.lin(poly(e.arg(1), self.at))), z3.Implies(z3.Not(c), x() == self.lin(poly(e.arg(2), self.at)))]
            elif k == z3.Z3_OP_TO_INT:
                y = self.lin(poly(e.arg(0), self.at))
                out += [x() <= y, y < x() + 1]
            i += 1
        return out

    def lin(self, p):
        s = [z3.RealVal(c) * self.var(m) if m else z3.RealVal(c) for m, c in p.items()]
        return z3.Sum(s) if s else z3.RealVal(0)

    def diff(self, a, b):
        return padd(poly(a, self.at), poly(b, self.at), -1)

    def form(self, f, pos=True, top=False):
        """Linear abstraction of a formula."""
        k = f.decl().kind() if z3.is_app(f) else None
        if z3.is_quantifier(f):
            return self.opaque(f)
        if k == z3.Z3_OP_AND:
            return z3.And([self.form(c, pos, top) for c in f.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.form(c) for c in f.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.form(f.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(f.arg(0)), self.form(f.arg(1)))
        if k == z3.Z3_OP_ITE and z3.is_bool(f):
            return z3.If(self.form(f.arg(0)), self.form(f.arg(1)), self.form(f.arg(2)))
        if k == z3.Z3_OP_EQ and arith(f.arg(0)):
            p = self.diff(f.arg(0), f.arg(1))
            if top:
                self.eqs.append(p)
            return self.lin(p) == 0
        if k == z3.Z3_OP_EQ and z3.is_bool(f.arg(0)):
            return self.form(f.arg(0)) == self.form(f.arg(1))
        if k == z3.Z3_OP_LE:
            return self.lin(self.diff(f.arg(0), f.arg(1))) <= 0
        if k == z3.Z3_OP_LT:
            return self.lin(self.diff(f.arg(0), f.arg(1))) < 0
        if k == z3.Z3_OP_GE:
            return self.lin(self.diff(f.arg(0), f.arg(1))) >= 0
        if k == z3.Z3_OP_GT:
            return self.lin(self.diff(f.arg(0), f.arg(1))) > 0
        if k == z3.Z3_OP_DISTINCT and len(f.children()) == 2 and arith(f.arg(0)):
            return self.lin(self.diff(f.arg(0), f.arg(1))) != 0
        if z3.is_true(f) or z3.is_false(f):
            return f
        return self.opaque(f)

    def opaque(self, f):
        i = f.get_id()
        if i not in self.bools:
            self.bools[i] = (z3.Bool(f"b{len(self.bools)}"), f)
        return self.bools[i][0]


def strip(goal, hyps):
    while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        hyps = hyps + [goal.arg(0)]
        goal = goal.arg(1)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_OR:
        ch = goal.children()
        eqs = [c for c in ch if not (z3.is_not(c))]
        if len(eqs) == 1 and len(ch) > 1:
            hyps = hyps + [c.arg(0) for c in ch if z3.is_not(c)]
            goal = eqs[0]
            return strip(goal, hyps)
    return goal, hyps


def prove(hyps, goal, ms=4000, deg=1):
    goal, hyps = strip(goal, list(hyps))
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_AND:
        return all(prove(hyps, g, ms, deg) for g in goal.children())
    hyps = [h for h in hyps if not z3.is_quantifier(h)]
    try:
        L = Lin()
        fs = [L.form(h, top=True) for h in hyps]
        neg = L.form(z3.Not(goal))
        # quotients with a divisor known to be different from zero
        nz = set()
        for h in hyps:
            for c in (h.children() if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_AND else [h]):
                if z3.is_not(c) and z3.is_eq(c.arg(0)):
                    nz.add((c.arg(0).arg(0).get_id(), str(c.arg(0).arg(1))))
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DISTINCT and len(c.children()) == 2:
                    nz.add((c.arg(0).get_id(), str(c.arg(1))))
        done = set()
        while set(L.at.divs) - done:
            for i, e in list(L.at.divs.items()):
                if i in done:
                    continue
                done.add(i)
                if (e.arg(1).get_id(), "0") in nz or (e.arg(1).get_id(), "0.0") in nz:
                    p = padd(pmul({(L.at(e),): Fraction(1)}, poly(e.arg(1), L.at)), poly(e.arg(0), L.at), -1)
                    L.eqs.append(p)
                    fs.append(L.lin(p) == 0)
        g = goal
        gm = []
        if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and arith(g.arg(0)):
            gm = list(L.diff(g.arg(0), g.arg(1)))
        mult = set()
        for m in gm:
            for r in range(1, min(deg, len(m)) + 1):
                mult |= set(itertools.combinations(m, r))
        # Equations are multiplied only where a monomial of the product can meet the goal.
        n = 0
        for p in L.eqs:
            for t in mult:
                n += 1
                if n > PRODUCTS:
                    break
                fs.append(L.lin(pmul(p, {t: Fraction(1)})) == 0)
        fs += L.define()
    except (OverflowError, RecursionError):
        return False
    s = z3.SolverFor("QF_LIRA" if L.mixed else "QF_LRA")
    s.set("timeout", int(ms))
    s.add(*fs)
    s.add(neg)
    return s.check() == z3.unsat
