"""Harnesses: symbolic preconditions, calls of the real functions, postconditions; path exploration and
discharge of the obligations (z3, then cvc5)."""
import hashlib
import os
import subprocess
import tempfile
import time
import traceback
import multiprocessing as mp
from fractions import Fraction
import z3

from . import sym, arr
from . import poly as polyb
from .sym import *          # noqa: F401,F403
from .sym import T, And, Or, Not, Implies, Iff, Ctx, Unsupported, Infeasible
from .arr import *          # noqa: F401,F403
from .arr import Range, SArr, forall, exists, new, IS, RS
from .interp import Interp, SObj, Raised, EXC, vlist, UClass, subclass, deep, mkobj

REG = {}          # property -> [Harness]
SUMMARIES = {}    # qualname -> contract used at call sites
INVARIANTS = {}


class Harness:
    def __init__(self, prop, name, fn, funcs, variants, use, timeout, inv):
        self.prop, self.name, self.fn, self.funcs, self.variants = prop, name, fn, funcs, variants
        self.use, self.timeout, self.inv = use, timeout, inv


def contract(prop, name, funcs, variants=({},), use=(), timeout=None, inv=None):
    """Register a proof harness.  funcs: functions whose contract this discharges; use: summaries applied."""
    def deco(fn):
        REG.setdefault(prop, []).append(Harness(prop, name, fn, list(funcs), list(variants), use, timeout, inv or {}))
        return fn
    return deco


def summary(qual):
    def deco(fn):
        SUMMARIES[qual] = fn
        return fn
    return deco


def invariant(qual):
    def deco(fn):
        INVARIANTS.setdefault(qual, []).append(fn)
        return fn
    return deco


class V:
    """What a harness talks to."""

    def __init__(self, ip, c):
        self.ip, self.c = ip, c
        self.sizes = []
        self.covered = False

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        k = self.c.int(name)
        if lo is not None:
            self.pre(k >= T(lo))
        if hi is not None:
            self.pre(k < T(hi))
        return k

    def size(self, name, lo=0):
        k = self.int(name, lo)
        self.sizes.append(k)
        return k

    def real(self, name):
        return self.c.real(name)

    def bool(self, name):
        return self.c.const(name, z3.BoolSort())

    def arr(self, name, shape, kind="real", lo=None, hi=None, dt=None):
        """Array of unconstrained values; integer extents are enumerated, terms are unbounded."""
        d = dt or arr.BYKIND[kind]
        axes = [s if isinstance(s, arr.Axis) else Range(s) for s in shape]
        conc = [isinstance(a, Range) and isinstance(a.n, int) for a in axes]
        sorts = [IS for k in conc if not k]
        cache = {}

        def fn(pts):
            key = tuple(p for p, k in zip(pts, conc) if k)
            if any(is_term(p) for p in key):
                key2 = None
                r = None
                for idx in __import__("itertools").product(*[range(a.n) for a, k in zip(axes, conc) if k]):
                    v = base(idx)(*[p for p, k in zip(pts, conc) if not k])
                    g = And(*[sym.eq(p, i) for p, i in zip(key, idx)])
                    r = v if r is None else sym.ite(g, v, r)
                return r
            return base(key)(*[p for p, k in zip(pts, conc) if not k])

        def base(key):
            if key not in cache:
                cache[key] = self.c.fn(name + "".join(f"_{i}" for i in key), sorts, sym.SORT[d.kind])
            return cache[key]
        # create the symbols now, independent of the path
        for idx in __import__("itertools").product(*[range(a.n) for a, k in zip(axes, conc) if k]):
            base(idx)
        a = new(axes, fn, d)
        if lo is not None or hi is not None or d.lo is not None:
            self.all(a, lambda x: And(*([x >= T(lo)] if lo is not None else []), *([x < T(hi)] if hi is not None else []), *([] if (lo is not None and hi is not None) or d.lo is None else [d.fits(x)])))
        return a

    def all(self, a, pred, assume=True):
        """Assume pred of every element."""
        import itertools
        conc = [isinstance(x, Range) and isinstance(x.n, int) for x in a.axes]
        ns = [x for x, k in zip(a.axes, conc) if not k]
        for idx in itertools.product(*[range(x.n) for x, k in zip(a.axes, conc) if k]):
            def elem(vs):
                it, jt = iter(idx), iter(vs)
                return a(*[next(it) if k else next(jt) for k in conc])
            if not ns:
                self.pre(pred(elem(())))
            else:
                self.pre(forall([("i%d" % i, IS) for i in range(len(ns))],
                                lambda vs: And(*[And(v >= 0, v < T(x.n)) for v, x in zip(vs, ns)]),
                                lambda vs: pred(elem(vs)),
                                lambda vs: [elem(vs)]))

    def obj(self, qual, **fields):
        cls = self.fn(qual)
        o = mkobj(cls)
        o.f.update(fields)
        return o

    def fn(self, qual):
        parts = qual.split(".")
        v = self.ip.module(parts[0])
        for p in parts[1:]:
            if isinstance(v, UClass):
                v, _ = v.lookup(p)
            else:
                v = v.env[p]
        return v

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        return self.ip.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.ip.call_method(o, name, list(args), kw)

    def get(self, o, name):
        return self.ip.attr(o, name)

    def raises(self, f, *excs):
        """Run f; the exception class raised or None."""
        self.c.catch += 1
        try:
            f()
        except Raised as e:
            if excs and e.cls.name not in excs:
                raise
            return e.cls
        finally:
            self.c.catch -= 1
        return None

    def quiet(self):
        """Definedness obligations of the calls inside are discharged by another harness of the same function."""
        return Quiet(self.c)

    # ---- logic
    def pre(self, c):
        self.c.fact(c)

    def post(self, name, goal, hints=()):
        self.covered = True
        self.c.oblige(name, goal, "post", hints)

    def forall(self, name, a_or_dims, body, hints=()):
        """Postcondition for generic indices (skolem constants) below the given extents."""
        import itertools
        dims = [x.n for x in a_or_dims.axes] if isinstance(a_or_dims, SArr) else list(a_or_dims)
        conc = [isinstance(n, int) and n <= 6 for n in dims]
        sk = [None if k else self.c.int("s") for k in conc]
        g = And(*[And(s >= 0, s < T(n)) for s, n, k in zip(sk, dims, conc) if not k])
        for idx in itertools.product(*[range(n) for n, k in zip(dims, conc) if k]):
            it = iter(idx)
            full = [next(it) if k else s for s, k in zip(sk, conc)]
            nm = name if not idx else name + " " + ",".join(map(str, idx))
            with self.under(g):
                goal = body(*full)
                self.post(nm, Implies(g, goal), hints(*full) if callable(hints) else hints)

    def under(self, g):
        return Under(self.c, g)

    def case(self, c):
        """Fork the exploration."""
        return self.c.decide(c)


class Quiet:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.c.quiet += 1

    def __exit__(self, *a):
        self.c.quiet -= 1
        return False


class Under:
    """Guard assumed while evaluating a term (facts recorded meanwhile hold regardless)."""

    def __init__(self, c, g):
        self.c, self.g = c, T(g)

    def __enter__(self):
        self.k = len(self.c.facts)
        self.c.facts.append(self.g)
        self.c.quiet += 0

    def __exit__(self, *a):
        del self.c.facts[self.k]
        return False


# ------------------------------------------------------------------ exploration
MAXPATHS = 400


def explore(h, var, deadline):
    obls, work, npaths, info = {}, [()], 0, {"assumed": set(), "inlined": set(), "calls": set(), "covered": 0, "dead": 0}
    while work:
        pre = work.pop()
        c = Ctx(pre)
        c.shape_error = lambda: Raised(EXC["ValueError"], ("shapes do not match",))
        sym.set_ctx(c)
        use = SUMMARIES if h.use == "all" else {q.split("@")[0]: SUMMARIES[q] for q in h.use}
        ip = Interp(dict(use), {**INVARIANTS, **h.inv})
        v = V(ip, c)
        npaths += 1
        if npaths > MAXPATHS or time.time() > deadline:
            raise Unsupported("too many paths")
        try:
            c.fact(sym.INF > 10 ** 9)
            c.fact(z3.And(sym.PI > Fraction_(3141592, 1000000), sym.PI < Fraction_(3141593, 1000000)))
            h.fn(v, **var)
        except Infeasible:
            info["dead"] += 1
        except Raised as e:
            c.oblige(f"no exception ({e.cls.name}{' ' + repr(e.args_[0])[:60] if e.args_ else ''})", False, "raise")
        for i in range(len(pre), len(c.trace)):
            ch, other = c.trace[i]
            if other:
                work.append(tuple(x for x, _ in c.trace[:i]) + (not ch,))
        for o in c.obls:
            key = (o.goal.get_id(), tuple(sorted(x.get_id() for x in o.hyps)), o.name if not o.hyps else "", o.kind)
            obls.setdefault(key, (o, c, v))
        if v.covered:
            info["covered"] += 1
            info.setdefault("ctxs", []).append(c)
        for k in ("assumed", "inlined", "calls"):
            info[k] |= getattr(c, k)
    info["paths"] = npaths
    return list(obls.values()), info


def Fraction_(a, b):
    return z3.RealVal(Fraction(a, b))


# ------------------------------------------------------------------ discharge
def _solver(ms, seed=0, mbqi=True):
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.set("random_seed", seed)
    if not mbqi:
        s.set("smt.mbqi", False)
    return s


def smt2(hyps, goal):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    return s.to_smt2()


def cvc5(hyps, goal, secs):
    txt = "(set-logic ALL)\n" + smt2(hyps, goal)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", f"--tlimit={int(secs * 1000)}", "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=secs + 5)
        return r.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


def relevant(hyps, goal, depth=None):
    """Hypotheses connected to the goal through uninterpreted symbols (in at most depth steps)."""
    def syms(e, memo={}):
        out, st, seen = set(), [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().get_id())
                st.extend(x.children())
        return out
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal)
    used = [False] * len(hs)
    while depth is None or depth > 0:
        ch, nxt = False, set(cur)
        for i, (h, s) in enumerate(hs):
            if not used[i] and (s & cur or not s):
                used[i] = True
                if not s <= nxt:
                    nxt |= s
                    ch = True
        cur = nxt
        if not ch:
            break
        if depth is not None:
            depth -= 1
    return [h for (h, s), u in zip(hs, used) if u]


INCOMPLETE = ("SUM_", "COUNT")


def discharge(o, sizes, tmo, tier):
    """-> (status, backend, seconds, note)"""
    if any(isinstance(h, Opaque) for h in o.hints):
        cache = {}
        f = lambda x: opaque(z3.simplify(T(x)), cache)
        o2 = Obl(o.name, tuple(f(h) for h in o.hyps), f(o.goal), o.loc, o.kind,
                 tuple(h if isinstance(h, Witness) else f(h) for h in o.hints if not isinstance(h, Opaque)))
        r = discharge0(o2, sizes, tmo, tier)
        if r[0] == "proved":
            return r
        o = Obl(o.name, o.hyps, o.goal, o.loc, o.kind, tuple(h for h in o.hints if not isinstance(h, Opaque)))
        tmo = min(tmo, 3)
    r = discharge0(o, sizes, tmo, tier)
    if r[0] == "refuted" and any(z3.is_app(x) and x.decl().name().startswith(INCOMPLETE) for x in _walk([o.goal])):
        # sums and counts are axiomatised by a few lemmas only: a model is no counterexample
        return "unknown", r[1], r[2], "model of an incompletely axiomatised sum: " + r[3]
    return r


def peel(goal):
    """Antecedents and conclusion of an implication."""
    ante = []
    while True:
        if z3.is_or(goal):
            neg = [x for x in goal.children() if z3.is_not(x)]
            pos = [x for x in goal.children() if not z3.is_not(x)]
            if not neg or len(pos) != 1:
                return ante, goal
            for x in neg:
                y = x.arg(0)
                st = [y]
                while st:
                    z = st.pop()
                    if z3.is_and(z):
                        st.extend(z.children())
                    else:
                        ante.append(z)
            goal = pos[0]
        elif z3.is_implies(goal):
            y = goal.arg(0)
            ante.append(y)
            goal = goal.arg(1)
        else:
            return ante, goal


def conds(e):
    """Conditions of conditional terms, innermost first."""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        for y in x.children():
            go(y)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_true(x.arg(0)) and not z3.is_false(x.arg(0)):
            out.append(x.arg(0))
    go(e)
    return out


def prune(hyps, goal, secs=3.0):
    """Decide conditions of conditional terms that follow from the ground hypotheses."""
    t0 = time.time()
    s = _solver(60)
    s.add(*hyps)
    known = {}
    for _ in range(60):
        todo = [c for c in conds(goal) if c.get_id() not in known and not has_quant(c)]
        if not todo or time.time() - t0 > secs:
            break
        c = todo[0]
        known[c.get_id()] = c
        val = None
        for v, t in ((True, z3.Not(c)), (False, c)):
            s.push()
            s.add(t)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                val = v
                break
        if val is not None:
            goal = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(val))))
    return goal


def by_normal_form(goal):
    """Polynomial identities, and square roots of equal polynomials taken as equal unknown numbers."""
    try:
        at = polyb.Atoms()
        if z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and not has_var(goal):
            if not polyb.padd(polyb.poly(goal.arg(0), at), polyb.poly(goal.arg(1), at), -1):
                return True
        roots, seen = {}, []
        for x in _walk([goal]):
            if z3.is_app(x) and x.decl().eq(sym.SQRT):
                if has_var(x) or any(z3.is_app(y) and y.decl().eq(sym.SQRT) for y in _walk([x.arg(0)])):
                    return False
                key = tuple(sorted(polyb.poly(x.arg(0), at).items()))
                seen.append((x, roots.setdefault(key, z3.Real(f"root!{len(roots)}"))))
        if len(seen) < 2:
            return False
        s = _solver(1500)
        s.add(*[r >= 0 for r in roots.values()])
        s.add(z3.Not(z3.substitute(goal, *seen)))
        return s.check() == z3.unsat
    except OverflowError:
        return False


def discharge0(o, sizes, tmo, tier):
    t0 = time.time()
    if z3.is_true(o.goal):
        return "proved", "simplifier", 0.0, ""
    if not has_quant(o.goal) and by_normal_form(peel(o.goal)[1]):
        return "proved", "z3 (normal form)", round(time.time() - t0, 3), ""
    hyps, goal = list(o.hyps), o.goal
    ante, g2 = peel(goal)
    if ante and conds(g2):
        g3 = prune([h for h in hyps + ante if not has_quant(h) and not z3.is_quantifier(h)], g2)
        if z3.is_true(g3):
            return "proved", "z3", round(time.time() - t0, 3), ""
        hyps, goal = hyps + ante, g3
        if not has_quant(goal) and by_normal_form(goal):
            return "proved", "z3 (normal form)", round(time.time() - t0, 3), ""
    elif ante and o.hints:
        hyps, goal = hyps + ante, g2
    # instances of the definition of the square root at the roots of the goal
    seen = set()
    for x in _walk([goal]):
        if z3.is_app(x) and x.decl().eq(sym.SQRT) and x.get_id() not in seen and not has_var(x):
            seen.add(x.get_id())
            hyps.append(sym.root_fact(x.arg(0)))
    if o.hints:
        for i, hint in enumerate(o.hints):
            if isinstance(hint, Witness):
                # instances of the existential goal
                if any(lemma(hyps, g, tmo, hint.more) for g in instances(goal, [hint.x])):
                    return "proved", "z3", round(time.time() - t0, 3), ""
            elif lemma(hyps, T(hint), tmo):
                hyps.append(T(hint))
    qf = not any(has_quant(h) for h in hyps + [goal])
    el = lambda: round(time.time() - t0, 3)
    ng = z3.Not(goal)
    note = ""
    # 1. relevant hypotheses only; first those next to the goal
    rel = relevant(hyps, goal)
    s = _solver(250)
    s.add(*rel)
    s.add(ng)
    if s.check() == z3.unsat:
        return "proved", "z3", el(), ""
    if not has_quant(goal) and any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT for x in _walk([goal])):
        if polyb.prove(rel, goal, 3000, 0):
            return "proved", "z3-linearised", el(), ""
    for dp in (1, 2):
        near = relevant(hyps, goal, dp)
        if len(near) < len(rel):
            for mb in (True, False):
                s = _solver(400, 0, mb)
                s.add(*near)
                s.add(ng)
                if s.check() == z3.unsat:
                    return "proved", "z3", el(), ""
    s = _solver(min(tmo, 1.5) * 1000)
    s.add(*rel)
    s.add(ng)
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", el(), ""
    if r == z3.unknown and not has_quant(goal):
        for deg in (1, 2):
            if polyb.prove(rel, goal, 4000, deg):
                return "proved", "z3-linearised", el(), ""
    if r == z3.sat:
        if len(rel) == len(hyps) or full_sat(hyps, ng, tmo):
            return "refuted", "z3", el(), model_text(s)
    # 2. quantifier-free core, nonlinear solver
    qfh = [h for h in rel if not has_quant(h)]
    if not has_quant(goal) and not has_fn_quant(qfh):
        try:
            s = z3.Then("simplify", "purify-arith", "solve-eqs", "qfnra-nlsat").solver() if no_int(qfh + [goal]) and no_uf(qfh + [goal]) else z3.SolverFor("QF_UFNIRA")
            s.set("timeout", int(min(tmo, 3) * 1000))
            s.add(*qfh)
            s.add(ng)
            r = s.check()
            if r == z3.unsat:
                return "proved", "z3-nl", el(), ""
            if r == z3.sat and qf and len(qfh) == len(hyps):
                return "refuted", "z3-nl", el(), model_text(s)
        except z3.Z3Exception:
            pass
    # 3. portfolio with growing limits
    for lim in (2.5, tmo):
        for seed, mb in ((0, False), (7, True)):
            s = _solver(lim * 1000, seed, mb)
            s.add(*rel)
            s.add(ng)
            r = s.check()
            if r == z3.unsat:
                return "proved", "z3", el(), ""
            note = s.reason_unknown() if r == z3.unknown else ""
            if r == z3.sat and len(rel) == len(hyps):
                return "refuted", "z3", el(), model_text(s)
        r = cvc5(rel, goal, lim)
        if r == "unsat":
            return "proved", "cvc5", el(), ""
        if r == "sat" and len(rel) == len(hyps):
            return "refuted", "cvc5", el(), "cvc5: sat"
        if lim == 2.5:
            f = refute(hyps, ng, sizes, el)
            if f:
                return f
    return "unknown", "-", el(), note or "incomplete"


class Witness:
    """Hint: a value for the variable of an existential goal."""

    def __init__(self, x, *more):
        self.x, self.more = x, more         # more: candidates for existentials inside


class Opaque:
    """Hint: the products do not matter (they are replaced by values of an unknown function first)."""


MULF = z3.Function("product!", z3.RealSort(), z3.RealSort(), z3.RealSort())


def opaque(e, cache):
    """e with the nonlinear products replaced by values of one unknown function (a weaker set of facts)."""
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_quantifier(e):
        cs = [z3.FreshConst(e.var_sort(i), e.var_name(i).split("!")[0]) for i in range(e.num_vars())]
        inst = lambda x: opaque(z3.substitute_vars(x, *reversed(cs)), cache)
        pats = [z3.MultiPattern(*[inst(y) for y in e.pattern(i).children()]) for i in range(e.num_patterns())]
        r = (z3.ForAll if e.is_forall() else z3.Exists)(cs, inst(e.body()), patterns=pats)
    elif z3.is_app(e) and e.num_args():
        ch = [opaque(x, cache) for x in e.children()]
        if z3.is_mul(e) and e.sort() == z3.RealSort() and sum(not z3.is_rational_value(x) for x in ch) > 1:
            r, cf = None, [x for x in ch if z3.is_rational_value(x)]
            for x in sorted((x for x in ch if not z3.is_rational_value(x)), key=lambda x: x.sexpr()):
                r = x if r is None else MULF(r, x)
            for x in cf:
                r = x * r
        else:
            kd = e.decl().kind()
            if kd == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif kd == z3.Z3_OP_MUL:
                r = z3.Product(ch)
            elif kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT):
                r = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_DISTINCT: z3.Distinct}[kd](*ch)
            else:
                r = e.decl()(*ch)
    else:
        r = e
    cache[k] = (e, r)
    return r


def instances(goal, xs):
    for g in (goal.children() if z3.is_or(goal) else [goal]):
        if z3.is_quantifier(g) and g.is_exists() and g.num_vars() == 1:
            for x in xs:
                if T(x).sort() == g.var_sort(0):
                    yield z3.substitute_vars(g.body(), T(x))


def rewrite(hyps, g):
    """Replace applications by the constants they are known to equal."""
    sub = {}
    st = list(hyps)
    while st:
        h = st.pop()
        if z3.is_and(h):
            st.extend(h.children())
        elif z3.is_eq(h):
            for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                if z3.is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_const(b) and not has_var(a):
                    sub.setdefault(a.get_id(), (a, b))
    return z3.simplify(z3.substitute(g, *sub.values())) if sub else g


def lemma(hyps, g, tmo, more=()):
    """An intermediate step given with the contract."""
    ante, g = peel(g)
    hyps = list(hyps) + ante
    ground = [h for h in hyps if not has_quant(h) and not z3.is_quantifier(h)]
    if conds(g):
        g = prune(ground, g, 6.0)
    g = rewrite(ground, g)
    if z3.is_true(g):
        return True
    if z3.is_and(g) and len(g.children()) > 1:
        return all(lemma(hyps, x, tmo, more) for x in g.children())
    if more and any(lemma(hyps, x, tmo) for x in instances(g, more)):
        return True
    rel = relevant(hyps, g)
    for f in (lambda: relevant(hyps, g, 1), lambda: rel):
        s = _solver(min(1000, tmo * 1000))
        s.add(*f())
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            return True
    if not has_quant(g):
        for deg in (0, 1, 2):
            if polyb.prove(rel, g, 3000, deg):
                return True
    s = _solver(tmo * 1000)
    s.add(*rel)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def refute(hyps, ng, sizes, el):
    """Model with small extents."""
    for n in ((1, 2, 3) if sizes else (None,)):
        s = _solver(2500)
        s.add(*hyps)
        s.add(ng)
        for k in sizes:
            s.add(k <= n)
        r = s.check()
        if r == z3.sat:
            return "refuted", f"z3 (sizes <= {n})", el(), model_text(s)
    return None


def full_sat(hyps, ng, tmo):
    s = _solver(tmo * 1000)
    s.add(*hyps)
    s.add(ng)
    return s.check() == z3.sat


def model_text(s):
    try:
        return str(s.model())[:4000]
    except z3.Z3Exception:
        return ""


def _walk(es):
    st, seen = list(es), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())


def has_var(e):
    return any(z3.is_var(x) for x in _walk([e]))


def has_quant(e):
    return any(z3.is_quantifier(x) for x in _walk([e]))


def has_fn_quant(es):
    return False


def no_int(es):
    return not any(z3.is_int(x) for x in _walk(es) if z3.is_app(x))


def no_uf(es):
    return not any(z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in _walk(es))


# ------------------------------------------------------------------ runner
def run_task(arg):
    prop, hi, vi, tier, tmo, budget = arg
    h = REG[prop][hi]
    var = h.variants[vi]
    t0 = time.time()
    out = {"harness": h.name, "variant": {k: str(x) for k, x in var.items()}, "funcs": h.funcs, "obls": [], "status": "ok", "paths": 0}
    try:
        obls, info = explore(h, var, t0 + budget)
        out.update(paths=info["paths"], assumed=sorted(info["assumed"]), inlined=sorted(info["inlined"]), calls=sorted(info["calls"]), covered=info["covered"])
        out["explore_s"] = round(time.time() - t0, 2)
        # vacuity: some path with a postcondition has satisfiable assumptions
        reach = False
        for c in info.get("ctxs", []):
            s = _solver(1500)
            s.add(*[f for f in c.facts if not has_quant(f)])
            if s.check() != z3.unsat:
                s2 = _solver(1500)
                s2.add(*c.facts)
                if s2.check() != z3.unsat:
                    reach = True
                    break
        out["reachable"] = reach
        if not any(o.kind == "post" for o, _, _ in obls):
            out["status"] = "no postcondition reached"
        elif not reach:
            out["status"] = "vacuous"
        for o, c, v in obls:
            if time.time() - t0 > budget:
                st = ("unknown", "-", 0, "budget")
            else:
                st = discharge(o, v.sizes, h.timeout or tmo, tier)
            out["obls"].append({"name": o.name, "kind": o.kind, "loc": o.loc, "status": st[0], "backend": st[1], "s": st[2], "note": st[3]})
        # the few that stay open get a second chance with larger limits
        again = [k for k, r in enumerate(out["obls"]) if r["status"] == "unknown" and r["note"] != "budget"]
        if len(again) <= 2:
            for k in again:
                if time.time() - t0 < budget:
                    o, c, v = obls[k]
                    st = discharge(o, v.sizes, 3 * (h.timeout or tmo), tier)
                    out["obls"][k].update(status=st[0], backend=st[1], s=out["obls"][k]["s"] + st[2], note=st[3])
    except Unsupported as e:
        out["status"] = f"unsupported: {e}"
        out["tb"] = traceback.format_exc()[-1500:]
    except RecursionError as e:
        out["status"] = "unsupported: recursion in the verifier"
    except (z3.Z3Exception, TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, NotImplementedError, SyntaxError, OSError) as e:
        out["status"] = f"verifier error: {type(e).__name__}: {e}"[:300]
        out["tb"] = traceback.format_exc()[-3000:]
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _child(task, q):
    try:
        os.setpgrp()
        q.put(run_task(task))
    except BaseException as e:   # noqa
        q.put({"harness": REG[task[0]][task[1]].name, "variant": {}, "funcs": [], "obls": [], "status": f"verifier error: {e}", "paths": 0})


def run_prop(prop, tier="quick", tmo=10, budget=240, procs=None, only=None, total=600):
    """Run all harnesses of a property; one forked process per (harness, variant)."""
    tasks = [(prop, i, j, tier, tmo, budget) for i, h in enumerate(REG.get(prop, [])) for j in range(len(h.variants))
             if not only or only in h.name]
    procs = procs or os.cpu_count() or 4
    ctxm = mp.get_context("fork")
    res, live, t0 = [None] * len(tasks), {}, time.time()
    nxt = 0
    while nxt < len(tasks) or live:
        while nxt < len(tasks) and len(live) < procs and time.time() - t0 < total:
            q = ctxm.SimpleQueue()
            p = ctxm.Process(target=_child, args=(tasks[nxt], q))
            p.start()
            live[nxt] = (p, q, time.time())
            nxt += 1
        if nxt < len(tasks) and time.time() - t0 >= total:
            for i in range(nxt, len(tasks)):
                res[i] = _fail(tasks[i], "time budget of the run")
            nxt = len(tasks)
        for i, (p, q, ts) in list(live.items()):
            if not q.empty():
                res[i] = q.get()
                p.join(5)
                del live[i]
            elif not p.is_alive():
                if not q.empty():
                    continue
                res[i] = _fail(tasks[i], f"verifier process ended ({p.exitcode})")
                del live[i]
            elif time.time() - ts > budget * 1.5 + 30:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    p.kill()
                res[i] = _fail(tasks[i], "timeout")
                del live[i]
        time.sleep(0.01)
    return res


def _fail(task, why):
    h = REG[task[0]][task[1]]
    return {"harness": h.name, "variant": {k: str(x) for k, x in h.variants[task[2]].items()}, "funcs": h.funcs, "obls": [], "status": why, "paths": 0}
