"""Lowering of Terms / Bools to z3 and the decision procedure of the checks.

level 1   linear real arithmetic: every distinct monomial is one real unknown
          (with the sign / interval known for it); the boolean structure and the
          if-then-else structure are kept.  unsat here is unsat for the reals.
level 2   the same after multiplying the goal by its denominators.
level 3   non linear real arithmetic over the input variables: products, integer
          and rational powers are exact, exp / ln / cos / symbolic powers are
          unknowns constrained by the axioms listed in `_axioms`.
A level answers `unsat` (discharged), or sat / unknown (try the next one).
"""
import math
import time
from fractions import Fraction

import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import terms as T
from .terms import Term, Bool, Base

EQ_TOL = 1e-9

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "by_level": {1: 0, 2: 0, 3: 0}}


def rv(c):
    f = Fraction(c)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(str(f.numerator))


class Lower:
    def __init__(self, level, extra_axioms=True):
        self.level = level
        self.side = []  # side constraints
        self.mc = {}
        self.tc = {}
        self.bc = {}
        self.vars = {}
        self.exps = []
        self.lns = []
        self.extra = extra_axioms

    # ---------------- booleans
    def bool(self, b):
        k = b.id
        r = self.bc.get(k)
        if r is None:
            r = self.bc[k] = self._bool(b)
        return r

    def _bool(self, b):
        if b.kind == "const":
            return z3.BoolVal(b.args[0])
        if b.kind == "not":
            return z3.Not(self.bool(b.args[0]))
        if b.kind == "and":
            return z3.And(self.bool(b.args[0]), self.bool(b.args[1]))
        if b.kind == "or":
            return z3.Or(self.bool(b.args[0]), self.bool(b.args[1]))
        if b.kind == "uf":
            return z3.Bool("b_%s" % b.args[0])
        if b.kind == "near":
            return self.near(*b.args)
        t = b.args[0]
        # normalise the scale of the atom
        e = self.term(t)
        return {"le": e <= 0, "lt": e < 0, "eq": e == 0}[b.kind]

    def near(self, a, b, tol):
        """|a - b| <= tol * (sum of the magnitudes of the monomials of a and b);
        both sides are scaled so that the leading coefficient is of order one"""
        m = max([abs(c) for t in (a, b) for c in _coefs(t)] or [1.0])
        k = 1.0 if (m == 0 or math.isinf(m)) else 1.0 / m
        d = self.tsub(a, b)
        if not d.m:
            return z3.BoolVal(True)
        e = self.term(T.scale(d, k))
        mg = (self.mag(a) + self.mag(b)) * rv(tol * k)
        return z3.And(e <= mg, -e <= mg)

    def tsub(self, a, b):
        """a - b dropping monomials whose coefficients agree to EQ_TOL"""
        da = dict(a.m)
        out = {}
        for mo, c in b.m:
            o = da.pop(mo, None)
            if o is None:
                out[mo] = -c
            elif abs(o - c) > EQ_TOL * max(abs(o), abs(c)):
                out[mo] = o - c
        for mo, c in da.items():
            out[mo] = c
        # pair if-then-elses over the same condition
        conds = {}
        for mo in out:
            if mo.has_ite:
                conds.setdefault(mo.f[0][0].args[0].id, []).append(mo)
        extra = T.ZERO
        for mos in conds.values():
            if len(mos) == 2:
                m1, m2 = mos
                c1, c2 = out.pop(m1), out.pop(m2)
                cnd, p1, q1 = m1.f[0][0].args
                _, p2, q2 = m2.f[0][0].args
                extra = T.add(extra, T.ite(cnd, self.tsub(T.scale(p1, c1), T.scale(p2, -c2)), self.tsub(T.scale(q1, c1), T.scale(q2, -c2))))
        return T.add(Term.make(out), extra)

    def mag(self, t):
        r = []
        for mo, c in t.m:
            if mo.has_ite:
                cnd, p, q = mo.f[0][0].args
                r.append(z3.If(self.bool(cnd), self.mag(p), self.mag(q)) * rv(abs(c)))
            else:
                e = self.mono(mo)
                if all(T.base_nonneg(b) for b, _ in mo.f):
                    r.append(e * rv(abs(c)))
                else:
                    r.append(z3.If(e >= 0, e, -e) * rv(abs(c)))
        return z3.Sum(r) if r else z3.RealVal(0)

    # ---------------- terms
    def term(self, t):
        r = self.tc.get(t.id)
        if r is None:
            if t is T.NAN or T.is_inf(t):
                r = z3.Real("special_%d" % t.id)
            else:
                r = [self.mono(mo) * rv(c) if c != 1 else self.mono(mo) for mo, c in t.m]
                r = z3.Sum(r) if len(r) > 1 else (r[0] if r else z3.RealVal(0))
            self.tc[t.id] = r
        return r

    def mono(self, mo):
        r = self.mc.get(mo.id)
        if r is None:
            r = self.mc[mo.id] = self._mono(mo)
        return r

    def _mono(self, mo):
        if not mo.f:
            return z3.RealVal(1)
        if mo.has_ite:
            cnd, p, q = mo.f[0][0].args
            return z3.If(self.bool(cnd), self.term(p), self.term(q))
        if self.level < 3:
            if len(mo.f) == 1 and mo.f[0][1].__class__ is Fraction and mo.f[0][1] == 1:
                return self.base(mo.f[0][0])
            v = z3.Real("m%d" % mo.id)
            self._range(v, T.mono_interval(mo), all(T.base_pos(b) for b, _ in mo.f))
            return v
        parts = [self.pw(b, e) for b, e in mo.f]
        r = parts[0]
        for p in parts[1:]:
            r = r * p
        return r

    def _range(self, v, iv, pos):
        lo, hi = iv
        if pos:
            self.side.append(v > 0)
            if lo > 0 and lo > 1e-300:
                self.side.append(v >= rv(lo * (1 - 1e-12)))
        elif lo > -math.inf:
            self.side.append(v >= rv(lo - 1e-12 * abs(lo)))
        if hi < math.inf:
            self.side.append(v <= rv(hi + 1e-12 * abs(hi)))

    def base(self, b):
        """the value of the base"""
        key = ("base", b.id)
        r = self.vars.get(key)
        if r is not None:
            return r
        if b.kind == "e":
            r = z3.Real("E")
            self.side += [r > rv(2.718281), r < rv(2.718282)]
        elif b.kind == "var":
            r = z3.Real(b.name)
            self._range(r, (b.lo, b.hi), bool(b._pos))
        elif b.kind == "sum" and self.level >= 3:
            r = self.term(b.args[0])
            if T.base_pos(b):
                self.side.append(r > 0)
        elif b.kind == "ite":
            r = z3.If(self.bool(b.args[0]), self.term(b.args[1]), self.term(b.args[2]))
        else:
            r = z3.Real("b%d" % b.id)
            self._range(r, T.base_interval(b), T.base_pos(b))
        self.vars[key] = r
        if self.level >= 3 and b.kind == "fn":
            self._axioms_fn(b, r)
        return r

    def pw(self, b, e):
        key = ("pw", b.id, T._expkey(e))
        r = self.vars.get(key)
        if r is not None:
            return r
        if isinstance(e, Term) or b.kind == "e":
            r = z3.Real("pw_%d_%s" % (b.id, e.id if isinstance(e, Term) else str(e)))
            self.vars[key] = r
            if T.base_pos(b):
                self.side.append(r > 0)
            if self.extra:
                self._axioms_pow(b, e if isinstance(e, Term) else T.const(float(e)), r)
            return r
        v = self.base(b)
        n, q = e.numerator, e.denominator
        if q != 1:
            root = self.vars.get(("root", b.id, q))
            if root is None:
                root = z3.Real("root_%d_%d" % (b.id, q))
                self.vars[("root", b.id, q)] = root
                self.side += [root >= 0, _ipow(root, q) == v]
                if T.base_pos(b):
                    self.side.append(root > 0)
            v = root
        if n < 0:
            inv = self.vars.get(("inv", b.id, q))
            if inv is None:
                inv = z3.Real("inv_%d_%d" % (b.id, q))
                self.vars[("inv", b.id, q)] = inv
                self.side.append(inv * v == 1)
                if T.base_pos(b):
                    self.side.append(inv > 0)
            v = inv
        r = _ipow(v, abs(n))
        self.vars[key] = r
        return r

    # ---------------- axioms
    def _axioms_fn(self, b, r):
        if not self.extra:
            return
        if b.name == "ln":
            z = self.term(b.args[0])
            self.side += [z > 0, r <= z - 1, z * r >= z - 1,
                          z3.Implies(z >= 1, (z + 1) * r >= 2 * (z - 1)),
                          z3.Implies(z <= 1, (z + 1) * r <= 2 * (z - 1)),
                          z3.Implies(z <= 1, 2 * z * r >= z * z - 1),
                          z3.Implies(z >= 1, 2 * z * r <= z * z - 1)]
            for z2, r2 in self.lns:
                self.side.append((z < z2) == (r < r2))
            self.lns.append((z, r))
        elif b.name in ("cos", "sin"):
            other = T.Base.find("fn", "sin" if b.name == "cos" else "cos", b.args)
            if other is not None and ("base", other.id) in self.vars:
                o = self.vars[("base", other.id)]
                self.side.append(r * r + o * o == 1)

    def _axioms_pow(self, b, e, r):
        """r = b ** e"""
        x = self.term(e)
        if b.kind == "e":
            self.side += [r >= 1 + x, r * (1 - x) <= 1, z3.Implies(x >= 0, 2 * r >= 2 + 2 * x + x * x),
                          z3.Implies(x <= 0, 2 * r <= 2 + 2 * x + x * x)]
            for x2, r2 in self.exps:
                self.side.append((x < x2) == (r < r2))
            self.exps.append((x, r))
        else:
            v = self.base(b)
            self.side += [
                z3.Implies(z3.And(v >= 1, x >= 0), r >= 1),
                z3.Implies(z3.And(v >= 1, x <= 0), r <= 1),
                z3.Implies(z3.And(v <= 1, x >= 0), r <= 1),
                z3.Implies(z3.And(v <= 1, x <= 0), r >= 1),
                z3.Implies(x == 0, r == 1),
                z3.Implies(v == 1, r == 1),
            ]


def _coefs(t):
    for mo, c in t.m:
        if mo.has_ite:
            yield from (abs(c) * x for x in _coefs(mo.f[0][0].args[1]))
            yield from (abs(c) * x for x in _coefs(mo.f[0][0].args[2]))
        else:
            yield abs(c)


def _ipow(v, n):
    if n == 0:
        return z3.RealVal(1)
    r = v
    for _ in range(n - 1):
        r = r * v
    return r


# --------------------------------------------------------------------------- #
def clear_denominators(t):
    """t multiplied by the positive sum bases it has in its denominators"""
    for _ in range(6):
        if any(mo.has_ite for mo, _ in t.m):
            return t
        den = {}
        for mo, _ in t.m:
            for b, e in mo.f:
                if b.kind == "sum" and isinstance(e, Fraction) and e < 0:
                    den[b] = max(den.get(b, Fraction(0)), -e)
        if not den:
            return t
        f = T.Term.make({T.Mono.get(den): 1.0})
        r = T.ZERO
        for mo, c in t.m:
            r = T.add(r, T.mono_product(mo, f.m[0][0], c))
        if r is t:
            return t
        t = r
    return t


def _clear_bool(b):
    if b.kind in ("and", "or", "not"):
        return Bool.get(b.kind, *[_clear_bool(a) for a in b.args])
    if b.kind == "near":
        a, c, tol = b.args
        den = {}
        for t in (a, c):
            if any(mo.has_ite for mo, _ in t.m):
                return b
        # expand both sides with the same multiplier
        for _ in range(10):
            den = {}
            for t in (a, c):
                for mo, _ in t.m:
                    for bb, e in mo.f:
                        if bb.kind == "sum" and isinstance(e, Fraction) and e < 0:
                            den[bb] = max(den.get(bb, Fraction(0)), -e)
            if den:
                f = T.Mono.get(den)

                def m_(t):
                    r = T.ZERO
                    for mo, k in t.m:
                        r = T.add(r, T.mono_product(mo, f, k))
                    return r
                a, c = m_(a), m_(c)
            else:
                # expanded sums may bring their own denominators
                a2, c2 = _expand_all(a), _expand_all(c)
                if (a2 is a and c2 is c) or len(a2.m) + len(c2.m) > 20000:
                    a, c = a2, c2
                    break
                a, c = a2, c2
        return Bool.get("near", a, c, tol)
    if b.kind == "eq":
        t = _expand_all(clear_denominators(b.args[0]))
        return T.cmp0("eq", t)
    if b.kind in ("le", "lt"):
        t = b.args[0]
        pos = all(
            T.base_pos(bb)
            for mo, _ in t.m
            for bb, e in mo.f
            if bb.kind == "sum" and isinstance(e, Fraction) and e < 0
        )
        if pos:
            return T.cmp0(b.kind, _expand_all(clear_denominators(t)))
    return b


def _expand_all(t):
    """expand even the powers of sums that are kept factorised for size"""
    old = T.EXPAND_LIMIT
    T.EXPAND_LIMIT = 20000
    try:
        r = T.ZERO
        for mo, c in t.m:
            if mo.has_ite:
                r = T.add(r, Term.make({mo: c}))
            else:
                r = T.add(r, T.mono_normal(dict(mo.f), c))
        return r
    finally:
        T.EXPAND_LIMIT = old


def check(assumptions, level, timeout_ms, extra=True, want_model=False):
    """satisfiability of a conjunction of Bools at the given level"""
    t0 = time.time()
    lo = Lower(3 if level >= 3 else 1, extra)
    s = z3.SolverFor("QF_NRA") if level >= 3 else z3.SolverFor("QF_LRA")
    s.set("timeout", int(timeout_ms))
    fs = []
    for a in assumptions:
        if level == 2:
            a = _clear_bool(a)
        fs.append(lo.bool(a))
    # the side conditions may grow while lowering
    s.add(*fs)
    s.add(*lo.side)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    res = "unsat" if r == z3.unsat else ("sat" if r == z3.sat else "unknown")
    STATS["queries"] += 1
    STATS[res] += 1
    STATS["by_level"][level] = STATS["by_level"].get(level, 0) + 1
    STATS["time"] += time.time() - t0
    model = None
    if want_model and res == "sat":
        m = s.model()
        model = {}
        for key, v in lo.vars.items():
            if key[0] == "base":
                x = m.eval(v, model_completion=True)
                try:
                    model[v.decl().name()] = _num(x)
                except Exception:
                    pass
    return res, model


def _num(x):
    if z3.is_rational_value(x):
        return x.numerator_as_long() / x.denominator_as_long()
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    raise ValueError


def near(a, b, tol=EQ_TOL):
    a, b = T.lift(a), T.lift(b)
    if a is b:
        return T.TRUE
    if a is T.NAN or b is T.NAN:
        return T.FALSE  # NAN is a singleton: equal NANs were caught above
    if T.is_inf(a) or T.is_inf(b):
        return T.FALSE
    return Bool.get("near", a, b, tol)


def prove(assumptions, goal, timeouts=(5000, 8000, 10000), levels=(1, 2, 3), split=True):
    """'proved' / 'refuted?' (sat at the last level) / 'unknown', plus a model"""
    if goal is T.TRUE:
        goal_neg = [T.FALSE]
    else:
        goal_neg = [negate(goal)]
    # at level 1 drop the assumptions that share nothing with the goal only when
    # there are many of them
    last, model = "unknown", []
    for lv in levels:
        if lv == 2 and split:
            r = split_prove(list(assumptions), goal, timeouts, levels, [64])
            if r is not None:
                if r[0] == "proved":
                    return r
                model += r[2] or []
        try:
            r, m = check(list(assumptions) + goal_neg, lv, timeouts[lv - 1], want_model=True)
        except RecursionError:
            r, m = "unknown", None
        if r == "unsat":
            return "proved", lv, None
        last = r
        if m:
            model.append(m)
    return last, levels[-1], model


# --------------------------------------------------------------------------- #
# case splitting on the conditions of if-then-elses
# --------------------------------------------------------------------------- #
def ite_atoms(things):
    """atomic conditions of the if-then-elses inside the terms"""
    atoms = {}
    stack = [b for b in T.bases_of(things) if b.kind == "ite"]
    for b in stack:
        todo = [b.args[0]]
        while todo:
            c = todo.pop()
            if c.kind in ("and", "or", "not"):
                todo.extend(c.args)
            elif c.kind != "const":
                atoms.setdefault(c.id, c)
    return [atoms[k] for k in sorted(atoms)]


class Subst:
    """rebuild terms with atoms replaced by truth values"""

    def __init__(self, val, var=None):
        self.val = val  # atom id -> bool
        self.var = var or {}  # base -> Term
        self.tc, self.bc = {}, {}

    def bool(self, b):
        if b.id in self.val:
            return T.TRUE if self.val[b.id] else T.FALSE
        r = self.bc.get(b.id)
        if r is not None:
            return r
        if b.kind == "not":
            r = T.b_not(self.bool(b.args[0]))
        elif b.kind == "and":
            r = T.b_and(self.bool(b.args[0]), self.bool(b.args[1]))
        elif b.kind == "or":
            r = T.b_or(self.bool(b.args[0]), self.bool(b.args[1]))
        elif b.kind == "near":
            r = near(self.term(b.args[0]), self.term(b.args[1]), b.args[2])
        elif b.kind in ("le", "lt", "eq"):
            t = self.term(b.args[0])
            r = b if t is b.args[0] else T.cmp0(b.kind, t)
        else:
            r = b
        self.bc[b.id] = r
        return r

    def term(self, t):
        r = self.tc.get(t.id)
        if r is None:
            r = self.tc[t.id] = self._term(t)
        return r

    def _term(self, t):
        if not any(b.kind == "ite" or b in self.var for b in T.bases_of([t])):
            return t
        r = T.ZERO
        for mo, c in t.m:
            p = T.const(c)
            for b, e in mo.f:
                v = self.base(b)
                ee = self.term(e) if isinstance(e, Term) else T.const(float(e))
                if b.kind == "e":
                    x = T.exp(ee)
                elif isinstance(e, Fraction) and e == 1:
                    x = v
                else:
                    x = T.power(v, ee)
                p = T.mul(p, x)
            r = T.add(r, p)
        return r

    def base(self, b):
        if b.kind == "e":
            return None
        if b in self.var:
            return self.var[b]
        if b.kind == "sum":
            return self.term(b.args[0])
        if b.kind == "ite":
            c = self.bool(b.args[0])
            if c is T.TRUE:
                return self.term(b.args[1])
            if c is T.FALSE:
                return self.term(b.args[2])
            return T.ite(c, self.term(b.args[1]), self.term(b.args[2]))
        if b.kind == "fn":
            a = [self.term(x) for x in b.args]
            if all(x is y for x, y in zip(a, b.args)):
                return T._base_term(b)
            if b.name == "ln":
                return T.ln(a[0])
            if b.name == "cos":
                return T.cos(a[0])
            if b.name == "sin":
                return T.sin(a[0])
            if b.name in ("arccos", "arcsin", "arctan2"):
                return T.func(b.name, *a)
            return Term.make({T.Mono.get({Base.get("fn", b.name, a): Fraction(1)}): 1.0})
        return T._base_term(b)


def equalities(assumptions):
    """var := term substitutions from pairs of opposite inequalities"""
    les = {}
    for a in assumptions:
        if a.kind in ("le", "eq"):
            les[a.args[0].id] = a
    out = {}
    for a in assumptions:
        if a.kind == "eq" or (a.kind == "le" and any(T.scale(a.args[0], -k).id in les for k in _ratios(a.args[0], les))):
            t = Subst({}, out).term(a.args[0])
            for mo, c in t.m:
                if len(mo.f) == 1 and mo.f[0][0].kind == "var" and mo.f[0][1].__class__ is Fraction and mo.f[0][1] == 1:
                    b = mo.f[0][0]
                    rest = T.scale(T.add(t, Term.make({mo: -c})), -1.0 / c)
                    if not any(x is b for x in T.bases_of([rest])):
                        out = {k: Subst({}, {b: rest}).term(v) for k, v in out.items()}
                        out[b] = rest
                        break
    return out


def _ratios(t, les):
    return (1.0, abs(t.m[-1][1]), 1 / abs(t.m[-1][1]), abs(t.m[0][1])) if t.m else ()


def split_prove(assumptions, goal, timeouts, levels, budget, depth=0):
    atoms = ite_atoms([goal])
    if not atoms or budget[0] <= 0 or depth > 12:
        if depth == 0:
            return None
        budget[0] -= 1
        r = prove(assumptions, goal, timeouts, levels, split=False)
        if r[0] != "proved":
            sub = equalities(assumptions)
            if sub:
                sb = Subst({}, sub)
                g2 = sb.bool(goal)
                if g2 is T.TRUE or prove([sb.bool(x) for x in assumptions], g2, timeouts, levels, split=False)[0] == "proved":
                    return ("proved", 2, None)
        return r
    a = atoms[0]
    worst = ("proved", 2, None)
    for v in (True, False):
        c = a if v else T.b_not(a)
        asm = assumptions + [c]
        r, _ = check(asm, 1, 1000)
        if r == "unsat":
            continue
        g = Subst({a.id: v, T.b_not(a).id: not v}).bool(goal)
        if g is T.TRUE:
            continue
        r = split_prove(asm, g, timeouts, levels, budget, depth + 1)
        if r[0] != "proved":
            return r
        worst = r
    return worst


def negate(g):
    if g.kind == "near":
        return Bool.get("not", g)
    return T.b_not(g)
