"""Term language of the symbolic executor.

Every number the executed code computes is a `Term`: a canonical sum of
monomials  c * prod(base ** exponent)  over hash-consed bases (variables,
normalised sums, Euler's number, function applications, if-then-else).
Comparisons of Terms give `Bool` objects.  Both overload the Python operators
(and the numpy ufunc protocol, see npsym.py), so that the *real* code of /repo
can be executed on them unchanged.

Abstraction: floats are read as the real numbers they denote and float rounding
is ignored: constants closer than TOL (relative) are identified.
"""
import math
import numbers
from fractions import Fraction

TOL = 4e-12
EXPAND_LIMIT = 600

# --------------------------------------------------------------------------- #
# constants
# --------------------------------------------------------------------------- #
_CONST = {}
_SNAP = {}


def snap(x):
    """canonical representative of the constant x (relative tolerance TOL)"""
    v = _SNAP.get(x)
    if v is not None:
        return v
    if x == 0 or x != x or x in (math.inf, -math.inf):
        return x
    v = _SNAP[x] = _snap(x)
    return v


def _snap(x):
    k = math.floor(math.log(abs(x)) / 1e-11)
    s = x > 0
    for j in (k, k - 1, k + 1):
        for v in _CONST.get((s, j), ()):
            if abs(v - x) <= TOL * abs(v):
                return v
    _CONST.setdefault((s, k), []).append(x)
    return x


for _i in range(1, 65):
    snap(float(_i))
    snap(-float(_i))
for _d in (2, 3, 4, 5, 6, 8, 10, 16, 32):
    for _i in range(1, 33):
        snap(_i / _d)
        snap(-_i / _d)


def to_fraction_exp(x):
    f = Fraction(x).limit_denominator(2000)
    if abs(float(f) - x) <= 1e-12 * max(1.0, abs(x)):
        return f
    return Fraction(x)


# --------------------------------------------------------------------------- #
# bases, monomials
# --------------------------------------------------------------------------- #
class Base:
    __slots__ = ("id", "kind", "name", "args", "lo", "hi", "_pos", "_infin")
    table = {}
    count = 0

    def __init__(self, kind, name, args):
        self.kind, self.name, self.args = kind, name, args
        self.lo, self.hi = -math.inf, math.inf
        self._pos = None
        Base.count += 1
        self.id = Base.count

    @staticmethod
    def get(kind, name, args=()):
        key = (kind, name) + tuple(
            (a.id if isinstance(a, (Term, Bool)) else ("c", a)) for a in args
        )
        b = Base.table.get(key)
        if b is None:
            b = Base.table[key] = Base(kind, name, tuple(args))
        return b

    @staticmethod
    def find(kind, name, args=()):
        key = (kind, name) + tuple(
            (a.id if isinstance(a, (Term, Bool)) else ("c", a)) for a in args
        )
        return Base.table.get(key)

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "sum":
            return "(" + repr(self.args[0]) + ")"
        if self.kind == "e":
            return "E"
        if self.kind == "ite":
            return "ite(%r, %r, %r)" % self.args
        return "%s(%s)" % (self.name, ", ".join(repr(a) for a in self.args))


def _expkey(e):
    return ("t", e.id) if isinstance(e, Term) else ("f", e)


class Mono:
    __slots__ = ("id", "f", "has_ite")
    table = {}
    count = 0

    def __init__(self, f):
        self.f = f
        self.has_ite = any(b.kind == "ite" for b, _ in f)
        Mono.count += 1
        self.id = Mono.count

    @staticmethod
    def get(factors):
        """factors: dict base -> exponent (non zero)"""
        f = tuple(sorted(factors.items(), key=lambda be: be[0].id))
        key = tuple((b.id, _expkey(e)) for b, e in f)
        m = Mono.table.get(key)
        if m is None:
            m = Mono.table[key] = Mono(f)
        return m

    def __repr__(self):
        return "*".join(
            repr(b) if e.__class__ is Fraction and e == 1 else "%r^(%s)" % (b, repr(e) if isinstance(e, Term) else e)
            for b, e in self.f
        ) or "1"


class HashTermDict(dict):
    pass


# --------------------------------------------------------------------------- #
# booleans
# --------------------------------------------------------------------------- #
class SymbolicBranch(Exception):
    pass


class Hooks:
    """call-backs installed by the explorer"""
    branch = None  # Bool -> bool
    hazard = None  # (Bool) a condition under which the real code may produce nan/inf


class Bool:
    __slots__ = ("id", "kind", "args")
    table = {}
    count = 0

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        Bool.count += 1
        self.id = Bool.count

    @staticmethod
    def get(kind, *args):
        key = (kind,) + tuple(a.id if isinstance(a, (Term, Bool)) else a for a in args)
        b = Bool.table.get(key)
        if b is None:
            b = Bool.table[key] = Bool(kind, args)
        return b

    def __repr__(self):
        if self.kind == "const":
            return str(self.args[0])
        if self.kind in ("le", "lt", "eq"):
            return "(%r %s 0)" % (self.args[0], {"le": "<=", "lt": "<", "eq": "=="}[self.kind])
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args)))

    # truth value: this is where the executed code branches
    def __bool__(self):
        if self.kind == "const":
            return self.args[0]
        if Hooks.branch is None:
            raise SymbolicBranch(repr(self))
        return Hooks.branch(self)

    def __hash__(self):
        return self.id

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        return NotImplemented if o is None else b_or(b_and(self, ~o), b_and(~self, o))

    # numpy semantics of bool arithmetic
    def __mul__(self, o):
        if _foreign(o):
            return NotImplemented
        ob = as_bool(o)
        return b_and(self, ob) if ob is not None else num(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        if _foreign(o):
            return NotImplemented
        ob = as_bool(o)
        return b_or(self, ob) if ob is not None else num(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return NotImplemented if _foreign(o) else num(self) - o

    def __rsub__(self, o):
        return NotImplemented if _foreign(o) else o - num(self)

    def __eq__(self, o):
        ob = as_bool(o)
        if ob is not None:
            return b_or(b_and(self, ob), b_and(~self, ~ob))
        if isinstance(o, (numbers.Number, Term)):
            return num(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __array_ufunc__(self, *a, **k):
        from . import npsym
        return npsym.array_ufunc(self, *a, **k)

    def __array_function__(self, *a):
        from . import npsym
        return npsym.array_function(self, *a)

    def astype(self, *a, **k):
        return num(self)


def as_bool(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return TRUE if x else FALSE
    return None


def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.kind == "not":
        return a.args[0]
    if a.kind == "le":
        return cmp0("lt", -a.args[0])
    if a.kind == "lt":
        return cmp0("le", -a.args[0])
    return Bool.get("not", a)


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return Bool.get("and", a, b)


def b_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return Bool.get("or", a, b)


def num(b):
    """numeric value of a Bool"""
    return ite(b, ONE, ZERO)


def _foreign(o):
    return hasattr(o, "__array_ufunc__") and not isinstance(o, (Term, Bool, numbers.Real)) or hasattr(
        o, "physical_type"
    ) or hasattr(o, "dtype") and getattr(o, "ndim", 0) > 0


# --------------------------------------------------------------------------- #
# terms
# --------------------------------------------------------------------------- #
class Term:
    __slots__ = ("id", "m", "_iv", "__weakref__")
    table = {}
    count = 0

    def __init__(self, m):
        self.m = m
        self._iv = None
        Term.count += 1
        self.id = Term.count

    @staticmethod
    def make(d):
        """d: dict Mono -> float"""
        items = []
        for mono, c in d.items():
            if c != 0:
                items.append((mono, snap(c)))
        items.sort(key=lambda mc: mc[0].id)
        key = tuple((mo.id, c) for mo, c in items)
        t = Term.table.get(key)
        if t is None:
            t = Term.table[key] = Term(tuple(items))
        return t

    # -- inspection
    def is_const(self):
        return len(self.m) == 0 or (len(self.m) == 1 and self.m[0][0] is MONE)

    def const(self):
        return self.m[0][1] if self.m else 0.0

    def __repr__(self):
        if not self.m:
            return "0"
        if len(self.m) > 12:
            return "<sum of %d terms #%d>" % (len(self.m), self.id)
        s = []
        for mo, c in self.m:
            if mo is MONE:
                s.append("%.6g" % c)
            elif c == 1:
                s.append(repr(mo))
            else:
                s.append("%.6g*%r" % (c, mo))
        return " + ".join(s)

    printed = {}

    def __format__(self, spec):
        """constants are printed, others leave a token from which `printed` recovers the term"""
        if self.is_const():
            return format(float(self.const()), spec)
        Term.printed[self.id] = self
        return "<sym#%d|%s>" % (self.id, spec)

    def __str__(self):
        return format(self, "")

    def __hash__(self):
        return self.id

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise TypeError("symbolic value has no float: %r" % (self,))

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise TypeError("symbolic value has no int")

    def __round__(self, n=None):
        if self.is_const():
            return round(self.const(), n)
        if n is None:
            raise TypeError("symbolic value has no int")
        return uf("round%d" % n, self)

    def __bool__(self):
        return bool(self != 0)

    # -- arithmetic
    def __add__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1.0)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else add(self, scale(o, -1.0))

    def __rsub__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else add(o, scale(self, -1.0))

    def __mul__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __pow__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __abs__(self):
        return absolute(self)

    # -- comparisons
    def _cmp(self, o, kind):
        if _foreign(o):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        return compare(kind, self, o)

    def __le__(self, o):
        return self._cmp(o, "le")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else b_not(r)

    # -- numpy object-loop protocol
    def sqrt(self):
        return power(self, HALF)

    def cbrt(self):
        return power(self, const(1 / 3))

    def square(self):
        return mul(self, self)

    def exp(self):
        return exp(self)

    def expm1(self):
        return exp(self) - 1

    def log(self):
        return ln(self)

    def log10(self):
        return scale(ln(self), 1 / LN10)

    def log2(self):
        return scale(ln(self), 1 / math.log(2))

    def log1p(self):
        return ln(self + 1)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def arccos(self):
        return func("arccos", self)

    def arcsin(self):
        return func("arcsin", self)

    def arctan2(self, o):
        return func("arctan2", self, lift(o))

    def conjugate(self):
        return self

    def item(self, *a):
        return self

    def astype(self, *a, **k):
        return self

    def round(self, *a, **k):
        return self

    @property
    def real(self):
        return self

    ndim = 0
    shape = ()

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise TypeError("scalar is not subscriptable")

    def copy(self, *a, **k):
        return self

    size = 1

    def __array_ufunc__(self, *a, **k):
        from . import npsym
        return npsym.array_ufunc(self, *a, **k)

    def __array_function__(self, *a):
        from . import npsym
        return npsym.array_function(self, *a)


numbers.Number.register(Term)

TRUE = Bool.get("const", True)
FALSE = Bool.get("const", False)
MONE = Mono.get({})
ZERO = Term.make({})
ONE = Term.make({MONE: 1.0})


def const(x):
    x = float(x)
    return Term.make({MONE: x}) if x != 0 else ZERO


HALF = const(0.5)
LN10 = math.log(10)
INF = const(math.inf)
NINF = const(-math.inf)
NAN = const(math.nan)  # identity of the object matters, nan != nan
E = Base.get("e", "E")


def is_inf(t):
    return t is INF or t is NINF


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, Bool):
        return num(x)
    if isinstance(x, (bool, int, float)):
        return NAN if x != x else const(x)
    if isinstance(x, Fraction):
        return const(float(x))
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        v = x.item()
        if v is x:
            return None
        return lift(v)
    return None


def var(name, lo=-math.inf, hi=math.inf, positive=None):
    b = Base.get("var", name)
    b.lo, b.hi = lo, hi
    b._pos = (lo > 0) if positive is None else positive
    return Term.make({Mono.get({b: Fraction(1)}): 1.0})


def add_many(ts):
    """the sum of many terms"""
    d = {}
    special = None
    for t in ts:
        if t is NAN or is_inf(t):
            special = t if special is None else add(special, t)
            continue
        for mo, c in t.m:
            _acc(d, mo, c)
    r = _merge_ites(d)
    return r if special is None else add(special, r)


def _acc(d, mo, c):
    o = d.get(mo)
    if o is None:
        d[mo] = c
    else:
        s = o + c
        if abs(s) <= TOL * max(abs(o), abs(c)):
            del d[mo]
        else:
            d[mo] = s


def _merge_ites(d):
    """merge if-then-else monomials sharing their condition"""
    conds = {}
    for mo in d:
        if mo.has_ite:
            conds.setdefault(mo.f[0][0].args[0], []).append(mo)
    for cnd, mos in conds.items():
        if len(mos) > 1:
            x, y = [], []
            for mo in mos:
                c = d.pop(mo)
                _, p, q = mo.f[0][0].args
                x.append(scale(p, c))
                y.append(scale(q, c))
            return add(Term.make(d), ite(cnd, add_many(x), add_many(y)))
    return Term.make(d)


def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    if a is NAN or b is NAN:
        return NAN
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b) and a is not b:
            return NAN
        return a if is_inf(a) else b
    d = dict(a.m)
    for mo, c in b.m:
        _acc(d, mo, c)
    return _merge_ites(d)


def scale(a, k):
    if k == 1:
        return a
    if k == 0 or not a.m:
        return ZERO
    if a is NAN:
        return NAN
    if is_inf(a):
        return a if k > 0 else (NINF if a is INF else INF)
    if k != k:
        return NAN
    if math.isinf(k):
        s = sign(a)
        if s is None:
            # inf * (value of unknown sign) only has a meaning when the sign is known
            return ite(compare("gt", a, ZERO), INF if k > 0 else NINF, ite(compare("lt", a, ZERO), NINF if k > 0 else INF, NAN))
        return (INF if k * s > 0 else NINF) if s else NAN
    d = {}
    for mo, c in a.m:
        if mo.has_ite:
            cnd, p, q = mo.f[0][0].args
            t = ite(cnd, scale(p, c * k), scale(q, c * k))
            for m2, c2 in t.m:
                d[m2] = d.get(m2, 0.0) + c2
        else:
            d[mo] = c * k
    return Term.make(d)


_MUL = {}


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.is_const():
        return scale(b, a.const())
    if b.is_const():
        return scale(a, b.const())
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _MUL.get(key)
    if r is not None:
        return r
    if len(a.m) * len(b.m) > EXPAND_LIMIT:
        # keep the product factorised
        fa = _as_base_factor(a)
        fb = _as_base_factor(b)
        r = mono_product(fa[0], fb[0], fa[1] * fb[1])
    elif len(a.m) == 1 and len(b.m) == 1:
        (m1, c1), (m2, c2) = a.m[0], b.m[0]
        r = mono_product(m1, m2, c1 * c2)
    else:
        r = _cancel(a, b)
        if r is None:
            r = _cancel(b, a)
        if r is not None:
            _MUL[key] = r
            return r
        r = add_many([mono_product(m1, m2, c1 * c2) for m1, c1 in a.m for m2, c2 in b.m])
    _MUL[key] = r
    return r


_cancelling = []


def _cancel(x, y):
    """x * y when y is a sum that some monomials of x have in a denominator"""
    if len(y.m) < 2:
        return None
    neg = None
    for mo, _ in x.m:
        if mo.has_ite:
            return None
        for b, e in mo.f:
            if b.kind == "sum" and isinstance(e, Fraction) and e < 0:
                neg = neg or set()
                neg.add(b)
    if neg is None or any(mo.has_ite for mo, _ in y.m):
        return None
    if _cancelling:
        return None
    _cancelling.append(1)
    try:
        for integer in (True, False):
            g, bt, k, sg = _sum_normal(y, integer)
            base = Base.find("sum", "", (bt,))
            if base in neg:
                break
        else:
            return None
    finally:
        _cancelling.pop()
    one = Mono.get({base: Fraction(1)})
    if g:
        rest = mono_normal(dict(g), k * sg)
    else:
        rest = const(k * sg)
    r = []
    for mo, c in x.m:
        e = dict(mo.f).get(base)
        if e is not None and isinstance(e, Fraction) and e < 0:
            r.append(mul(mono_product(mo, one, c), rest))
        else:
            r.append(mul(Term.make({mo: c}), y))
    return add_many(r)


def _as_base_factor(a):
    if len(a.m) == 1:
        return a.m[0]
    return (Mono.get({Base.get("sum", "", (a,)): Fraction(1)}), 1.0)


def exp_add(e1, e2):
    if isinstance(e1, Fraction) and isinstance(e2, Fraction):
        return e1 + e2
    t = add(_exp_term(e1), _exp_term(e2))
    return _exp_norm(t)


def _exp_term(e):
    return e if isinstance(e, Term) else const(float(e))


def _exp_norm(t):
    if t.is_const():
        return to_fraction_exp(t.const())
    return t


def mono_product(m1, m2, c=1.0):
    """product of two monomials and a constant, as a Term"""
    if m1.has_ite or m2.has_ite:
        if not m1.has_ite:
            m1, m2 = m2, m1
        cnd, p, q = m1.f[0][0].args
        t2 = Term.make({m2: c})
        if m2.has_ite:
            cnd2, p2, q2 = m2.f[0][0].args
            if cnd2 is cnd:
                return ite(cnd, scale(mul(p, p2), c), scale(mul(q, q2), c))
        return ite(cnd, mul(p, t2), mul(q, t2))
    if not m1.f:
        return Term.make({m2: c})
    if not m2.f:
        return Term.make({m1: c})
    d = dict(m1.f)
    dirty = False
    for b, e in m2.f:
        o = d.get(b)
        if o is None:
            d[b] = e
        else:
            s = exp_add(o, e)
            if isinstance(s, Fraction) and s == 0:
                del d[b]
            else:
                d[b] = s
                dirty = True
    if not dirty:
        return Term.make({Mono.get(d): c})
    return mono_normal(d, c)


def mono_normal(d, c=1.0):
    """normal form of c * prod(b**e): expands integer powers of sums, sin^2, E^..."""
    extra = []
    for b in list(d):
        e = d[b]
        if b.kind == "e":
            del d[b]
            extra.append(exp(e if isinstance(e, Term) else const(float(e))))
        elif isinstance(e, Fraction):
            if b.kind == "sum" and e.denominator == 1 and 1 <= e <= 4:
                t = b.args[0]
                if len(t.m) ** int(e) <= EXPAND_LIMIT:
                    del d[b]
                    for _ in range(int(e)):
                        extra.append(t)
            elif b.kind == "fn" and b.name == "sin" and e.denominator == 1 and e >= 2:
                k = int(e) // 2
                r = e - 2 * k
                if r:
                    d[b] = r
                else:
                    del d[b]
                cc = cos(b.args[0])
                for _ in range(k):
                    extra.append(ONE - mul(cc, cc))
    t = Term.make({Mono.get(d): c})
    for x in extra:
        t = mul(t, x)
    return t


def div(a, b):
    if b.is_const():
        k = b.const()
        if k == 0:
            if a is NAN or not a.m:
                return NAN
            s = sign(a)
            if s is None:
                return ite(compare("gt", a, ZERO), INF, ite(compare("lt", a, ZERO), NINF, NAN))
            return INF if s > 0 else (NINF if s < 0 else NAN)
        if b is NAN:
            return NAN
        if math.isinf(k):
            return NAN if is_inf(a) else ZERO
        return scale(a, 1.0 / k)
    if 2 <= len(b.m) <= len(a.m) <= 24 and len(a.m) % len(b.m) == 0:
        q = exact_quotient(a, b)
        if q is not None:
            return q
    return mul(a, power(b, const(-1.0)))


def exact_quotient(a, b):
    """a / b when a is a sum of disjoint multiples of b"""
    if any(mo.has_ite for mo, _ in a.m) or any(mo.has_ite for mo, _ in b.m):
        return None
    q, r = ZERO, a
    while r.m:
        m0 = Term.make({r.m[0][0]: r.m[0][1]})
        for mo, c in b.m:
            t = mul(m0, power(Term.make({mo: c}), const(-1.0)))
            if len(t.m) != 1:
                return None
            p = mul(t, b)
            if len(p.m) != len(b.m):
                continue
            r2 = add(r, scale(p, -1.0))
            if len(r2.m) == len(r.m) - len(b.m):
                q, r = add(q, t), r2
                break
        else:
            return None
    return q


# --------------------------------------------------------------------------- #
# sign / interval information
# --------------------------------------------------------------------------- #
def base_pos(b):
    """True when the base is known to be strictly positive"""
    if b._pos is None:
        if b.kind == "e":
            b._pos = True
        elif b.kind == "sum":
            if not interval(b.args[0])[0] > 0:
                return strictly_pos(b.args[0]) or Facts.positive(b.args[0])
            b._pos = True
        elif b.kind == "ite":
            return interval(b.args[1])[0] > 0 and interval(b.args[2])[0] > 0
        elif b.kind == "fn" and b.name.startswith("pos_"):
            b._pos = True
        else:
            b._pos = False
    return b._pos


def base_nonneg(b):
    if base_pos(b):
        return True
    if b.kind == "var":
        return b.lo >= 0
    if b.kind == "sum":
        return interval(b.args[0])[0] >= 0 or Facts.nonneg(b.args[0])
    return False


class Facts:
    """assumed / proved sign facts about sums (installed by the explorer)"""
    pos = set()
    nn = set()
    gen = 0

    @classmethod
    def positive(cls, t):
        return t.id in cls.pos

    @classmethod
    def nonneg(cls, t):
        return t.id in cls.nn or t.id in cls.pos

    @classmethod
    def reset(cls):
        cls.pos, cls.nn = set(), set()
        cls.gen += 1


def _imul(a, b):
    def p(x, y):
        if x == 0 or y == 0:
            return 0.0
        try:
            return x * y
        except OverflowError:
            return math.inf
    c = [p(x, y) for x in a for y in b]
    return (min(c), max(c))


def _ipow(iv, e):
    lo, hi = iv
    try:
        if lo > 0 or (lo == 0 and True):
            def pw(x):
                if x == 0:
                    return 0.0 if e > 0 else math.inf
                if x == math.inf:
                    return math.inf if e > 0 else 0.0
                try:
                    return x ** e
                except OverflowError:
                    return math.inf
            a, b = pw(lo), pw(hi)
            return (min(a, b), max(a, b))
        if e == int(e):
            n = int(e)
            if n > 0 and n % 2 == 0:
                m = max(abs(lo), abs(hi))
                m = m ** n if m < 1e150 else math.inf
                l = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** n
                return (l, m)
            if n > 0:
                f = lambda x: x ** n if abs(x) < 1e100 else math.copysign(math.inf, x)
                return (f(lo), f(hi))
            if n % 2 == 0:
                return (0.0, math.inf) if lo <= 0 <= hi else _ipow((min(abs(lo), abs(hi)), max(abs(lo), abs(hi))), e)
            return (-math.inf, math.inf) if lo <= 0 <= hi else (1 / lo if n == -1 else -math.inf, 1 / hi if n == -1 else math.inf) if False else (-math.inf, math.inf)
        return (0.0, math.inf)
    except OverflowError:
        return (-math.inf, math.inf)


def base_interval(b):
    if b.kind == "var":
        return (b.lo, b.hi)
    if b.kind == "e":
        return (math.e, math.e)
    if b.kind == "sum":
        lo, hi = interval(b.args[0])
        if lo < 0 and Facts.nonneg(b.args[0]):
            lo = 0.0
        return (lo, hi)
    if b.kind == "ite":
        p, q = interval(b.args[1]), interval(b.args[2])
        return (min(p[0], q[0]), max(p[1], q[1]))
    if b.kind == "fn":
        if b.name in ("cos", "sin"):
            return (-1.0, 1.0)
        if b.name == "arccos":
            return (0.0, math.pi)
        if b.name == "ln":
            lo, hi = interval(b.args[0])
            return (math.log(lo) if lo > 0 else -math.inf,
                    math.log(hi) if 0 < hi < math.inf else math.inf)
        if b.name.startswith("pos_"):
            return (0.0, math.inf)
    return (b.lo, b.hi)


def mono_interval(mo):
    iv = (1.0, 1.0)
    for b, e in mo.f:
        bi = base_interval(b)
        if isinstance(e, Term):
            if b.kind == "e":
                lo, hi = interval(e)
                f = lambda x: math.exp(x) if x < 700 else math.inf
                p = (0.0 if lo == -math.inf else f(lo), f(hi))
            elif base_pos(b):
                p = (0.0, math.inf)
            else:
                return (-math.inf, math.inf)
        else:
            p = _ipow(bi, float(e))
        iv = _imul(iv, p)
    return iv


def interval(t):
    if t._iv is not None and t._iv[0] == Facts.gen:
        return t._iv[1]
    if t is NAN:
        return (-math.inf, math.inf)
    lo = hi = 0.0
    for mo, c in t.m:
        a = mono_interval(mo)
        a = _imul(a, (c, c))
        lo += a[0]
        hi += a[1]
    if lo != lo:
        lo = -math.inf
    if hi != hi:
        hi = math.inf
    # absorb float rounding of the interval bounds themselves
    t._iv = (Facts.gen, (lo, hi))
    return (lo, hi)


def strictly_pos(t):
    """every monomial is a positive constant times positive bases"""
    return bool(t.m) and all(
        c > 0 and all(base_pos(b) for b, e in mo.f) for mo, c in t.m
    )


def sign(t):
    """1, -1, 0 or None (unknown)"""
    if not t.m:
        return 0
    if t is NAN:
        return None
    if t.is_const():
        return 1 if t.const() > 0 else -1
    lo, hi = interval(t)
    if lo > 0 or strictly_pos(t) or Facts.positive(t):
        return 1
    n = scale(t, -1.0)
    if hi < 0 or strictly_pos(n) or Facts.positive(n):
        return -1
    return None


# --------------------------------------------------------------------------- #
# comparisons
# --------------------------------------------------------------------------- #
def _inf_inside(t):
    """a lone if-then-else one branch of which is infinite"""
    if len(t.m) != 1 or not t.m[0][0].has_ite or len(t.m[0][0].f) != 1:
        return False
    b = t.m[0][0].f[0][0]
    if b.kind != "ite":
        return False
    r = getattr(b, "_infin", None)
    if r is None:
        r = b._infin = any(is_inf(x) or _inf_inside(x) for x in b.args[1:])
    return r


def compare(kind, a, b):
    if a is NAN or b is NAN:
        return FALSE
    if is_inf(a) or is_inf(b):
        va = a.const() if is_inf(a) else 0.0
        vb = b.const() if is_inf(b) else 0.0
        return TRUE if {"le": va <= vb, "lt": va < vb, "ge": va >= vb, "gt": va > vb, "eq": va == vb}[kind] else FALSE
    if kind == "ge":
        return compare("le", b, a)
    if kind == "gt":
        return compare("lt", b, a)
    for x in (a, b):
        if _inf_inside(x):
            mo, k = x.m[0]
            c, p, q = mo.f[0][0].args
            p, q = scale(p, k), scale(q, k)
            if x is a:
                return b_or(b_and(c, compare(kind, p, b)), b_and(b_not(c), compare(kind, q, b)))
            return b_or(b_and(c, compare(kind, a, p)), b_and(b_not(c), compare(kind, a, q)))
    # a constant compared with a very small / very large float stands for 0+ / inf
    d = add(a, scale(b, -1.0))
    # push comparison inside a lone if-then-else
    if len(d.m) == 1 and d.m[0][0].has_ite:
        cnd, p, q = d.m[0][0].f[0][0].args
        return b_or(b_and(cnd, cmp0(kind, p)), b_and(b_not(cnd), cmp0(kind, q)))
    if len(d.m) == 2 and d.m[0][0] is MONE and d.m[1][0].has_ite:
        cnd, p, q = d.m[1][0].f[0][0].args
        k = d.m[1][1]
        kk = const(d.m[0][1])
        return b_or(b_and(cnd, cmp0(kind, add(scale(p, k), kk))), b_and(b_not(cnd), cmp0(kind, add(scale(q, k), kk))))
    return cmp0(kind, d)


def cmp0(kind, d):
    """normalised atom  d kind 0"""
    if d is NAN:
        return FALSE
    if d.is_const():
        v = d.const()
        return TRUE if {"le": v <= 0, "lt": v < 0, "eq": v == 0}[kind] else FALSE
    if len(d.m) == 1 and d.m[0][0].has_ite:
        cnd, p, q = d.m[0][0].f[0][0].args
        return b_or(b_and(cnd, cmp0(kind, p)), b_and(b_not(cnd), cmp0(kind, q)))
    s = sign(d)
    if s is not None:
        if kind == "eq":
            return TRUE if s == 0 else FALSE
        return TRUE if s < 0 else FALSE
    lo, hi = interval(d)
    if kind == "le" and hi <= 0:
        return TRUE
    if kind == "lt" and lo >= 0:
        return FALSE
    r = _logs(d)
    if r is not None:
        return compare(kind, *r)
    if not any(mo.has_ite for mo, _ in d.m):
        d = positive_content(d)
        # ratio of two monomials of opposite sign: clear a common exponent
        if len(d.m) == 2:
            (m1, c1), (m2, c2) = d.m
            if c1 * c2 < 0 and all(base_pos(b) for b, _ in m1.f + m2.f):
                d = _normal_ratio(m1, c1, m2, c2)
                s = sign(d)
                if s is not None:
                    if kind == "eq":
                        return FALSE
                    return TRUE if s < 0 else FALSE
    if kind == "eq" and d.m[0][1] < 0:
        d = scale(d, -1.0)
    return Bool.get(kind, d)


def _logs(d):
    """(p, q) with  d <> 0  <=>  p <> q  for a sum of logarithms with small
    integer ratios; None when d is none"""
    if len(d.m) > 4:
        return None
    k, cs = 0.0, []
    for mo, c in d.m:
        if mo is MONE:
            k = c
        elif len(mo.f) == 1 and mo.f[0][1] == 1 and mo.f[0][0].kind == "fn" and mo.f[0][0].name == "ln":
            cs.append((mo.f[0][0].args[0], c))
        else:
            return None
    if not cs:
        return None
    unit = min(abs(c) for _, c in cs)
    if abs(k / unit) > 300:
        return None
    p, q = const(math.exp(k / unit)), ONE
    for x, c in cs:
        n = round(c / unit)
        if abs(n) > 3 or abs(n - c / unit) > 1e-12:
            return None
        y = power(x, const(float(abs(n))))
        if n > 0:
            p = mul(p, y)
        else:
            q = mul(q, y)
    return p, q


def _normal_ratio(m1, c1, m2, c2):
    """c1*m1 + c2*m2 (c1, c2 of opposite signs, positive bases): a sum with the
    same sign whose exponents are cleared of a common factor"""
    r = mul(Term.make({m1: 1.0}), power(Term.make({m2: 1.0}), const(-1.0)))
    k = -c2 / c1  # compare r with k, sign(c1)
    sg = 1.0 if c1 > 0 else -1.0
    if len(r.m) != 1:
        return Term.make({m1: c1, m2: c2})
    mo, c = r.m[0]
    k = k / c
    if any(isinstance(e, Term) for _, e in mo.f) or k <= 0:
        if len(mo.f) == 1 and mo.f[0][0] is E:
            # E^t <> k  <=>  t <> ln k
            e = mo.f[0][1]
            e = e if isinstance(e, Term) else const(float(e))
            return positive_content(scale(add(e, const(-math.log(k))), sg))
        return Term.make({m1: c1, m2: c2})
    exps = [e for _, e in mo.f]
    den = 1
    for e in exps:
        den = den * e.denominator // math.gcd(den, e.denominator)
    nums = [int(e * den) for e in exps]
    g = 0
    for n in nums:
        g = math.gcd(g, abs(n))
    if g == 0:
        return Term.make({m1: c1, m2: c2})
    f = Fraction(den, g)
    try:
        kk = k ** float(f)
    except OverflowError:
        return Term.make({m1: c1, m2: c2})
    if kk == 0 or math.isinf(kk):
        return Term.make({m1: c1, m2: c2})
    pos, neg = {}, {}
    for b, e in mo.f:
        n = e * f
        (pos if n > 0 else neg)[b] = abs(n)
    a = mono_normal(pos, sg)
    b = mono_normal(neg, -sg * kk)
    t = add(a, b)
    # fix the scale: leading coefficient of modulus one
    if t.m:
        t = scale(t, 1.0 / abs(t.m[0][1]))
    return t


def positive_content(d):
    """divide by the common positive monomial and |leading coefficient|"""
    if len(d.m) > 1:
        n = len(d.m)
        bases = {}
        for mo, _ in d.m:
            for b, e in mo.f:
                if b.kind != "ite" and base_pos(b):
                    bases.setdefault(b, []).append(e)
        g = {}
        for b, es in bases.items():
            if any(isinstance(e, Term) for e in es):
                if len(es) == n and all(e is es[0] for e in es):
                    g[b] = scale(es[0], -1.0)
                continue
            mn = min(es + ([Fraction(0)] if len(es) < n else []))
            if mn != 0:
                g[b] = -mn
        if g:
            d = mul(d, mono_normal(g))
            if not d.m:
                return d
    elif len(d.m) == 1:
        mo, c = d.m[0]
        f = {b: e for b, e in mo.f if not base_pos(b)}
        d = Term.make({Mono.get(f): c})
    return scale(d, 1.0 / abs(d.m[0][1]))


# --------------------------------------------------------------------------- #
# functions
# --------------------------------------------------------------------------- #
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    # canonical polarity for order atoms
    if c.kind in ("le", "lt"):
        n = b_not(c)
        if n.kind in ("le", "lt") and n.id < c.id:
            return ite(n, b, a)
    a = assume_in(a, c, True)
    b = assume_in(b, c, False)
    if a is b:
        return a
    base = Base.get("ite", "ite", (c, a, b))
    return Term.make({Mono.get({base: Fraction(1)}): 1.0})


_ASSUME = {}


def assume_in(t, c, val):
    """simplify top level if-then-else monomials of t under c == val"""
    if not any(mo.has_ite for mo, _ in t.m):
        return t
    key = (t.id, c.id, val)
    r = _ASSUME.get(key)
    if r is not None:
        return r
    rest = {}
    r = []
    for mo, k in t.m:
        if mo.has_ite:
            cc, p, q = mo.f[0][0].args
            v = implied(cc, c, val)
            if v is True:
                r.append(scale(assume_in(p, c, val), k))
            elif v is False:
                r.append(scale(assume_in(q, c, val), k))
            else:
                r.append(scale(ite(cc, assume_in(p, c, val), assume_in(q, c, val)), k))
        else:
            rest[mo] = k
    r.append(Term.make(rest))
    r = add_many(r)
    _ASSUME[key] = r
    return r


def implied(cc, c, val):
    if cc is c:
        return val
    n = b_not(c)
    if cc is n:
        return not val
    if val and c.kind == "and":
        for a in c.args:
            v = implied(cc, a, True)
            if v is not None:
                return v
    if not val and c.kind == "or":
        for a in c.args:
            v = implied(cc, a, False)
            if v is not None:
                return v
    if cc.kind == "and":
        vs = [implied(a, c, val) for a in cc.args]
        if False in vs:
            return False
        if all(v is True for v in vs):
            return True
    if cc.kind == "or":
        vs = [implied(a, c, val) for a in cc.args]
        if True in vs:
            return True
        if all(v is False for v in vs):
            return False
    return None


def map_ite(t, f):
    """apply f under the lone if-then-else of t, None if t has another form"""
    if len(t.m) == 1 and t.m[0][0].has_ite:
        mo, k = t.m[0]
        c, p, q = mo.f[0][0].args
        return ite(c, f(scale(p, k)), f(scale(q, k)))
    if sum(mo.has_ite for mo, _ in t.m) > 2:
        return None  # too many cases: the sum stays an opaque base
    for mo, k in t.m:
        if mo.has_ite:
            c, p, q = mo.f[0][0].args
            rest = add(t, Term.make({mo: -k}))
            return ite(c, f(add(scale(p, k), rest)), f(add(scale(q, k), rest)))
    return None


def _hazard(cond):
    if Hooks.hazard is not None and cond is not FALSE:
        Hooks.hazard(cond)


_POW = {}


def power(a, e):
    if a is NAN or e is NAN:
        return NAN
    key = (a.id, e.id)
    r = _POW.get(key)
    if r is None:
        r = _POW[key] = _power(a, e)
    return r


def _power(a, e):
    if not e.m:
        return ONE
    if e is ONE:
        return a
    if e.is_const():
        x = e.const()
        if math.isinf(x):
            return NAN
        if a.is_const():
            v = a.const()
            if v == 0:
                return ZERO if x > 0 else INF
            if math.isinf(v):
                return INF if x > 0 else ZERO
            if v < 0 and x != int(x):
                return NAN
            try:
                return const(v ** x)
            except OverflowError:
                return INF
        m = map_ite(a, lambda t: power(t, e))
        if m is not None:
            return m
        fr = to_fraction_exp(x)
        integer = fr.denominator == 1
        if x < 0:
            _hazard(cmp0("eq", a))
        if not integer:
            _hazard(cmp0("lt", a))
        if len(a.m) == 1:
            mo, c = a.m[0]
            if c < 0 and not integer:
                # only defined where the bases are negative: treat as nan-free product
                return _mono_power(mo, -c, fr, flip=True)
            return _mono_power(mo, c, fr)
        # sum
        if integer and 1 <= fr <= 4 and len(a.m) ** int(fr) <= EXPAND_LIMIT:
            t = a
            for _ in range(int(fr) - 1):
                t = mul(t, a)
            return t
        return _sum_power(a, fr, integer)
    # symbolic exponent
    m = map_ite(e, lambda t: power(a, t))
    if m is not None:
        return m
    m = map_ite(a, lambda t: power(t, e))
    if m is not None:
        return m
    # a ** e = exp(e * ln a), for a > 0
    return exp(mul(e, ln(a)))


def _mono_power(mo, c, fr, flip=False):
    x = float(fr)
    try:
        k = c ** x
    except OverflowError:
        k = None
    if k is None or k == 0 or math.isinf(k):
        # out of the float range as a constant: keep it as an exponential
        return mul(exp(const(x * math.log(c))), _mono_power(mo, 1.0, fr, flip)) if c > 0 else NAN
    d = {}
    extra = ONE
    for b, e in mo.f:
        if isinstance(e, Term):
            d[b] = _exp_norm(scale(e, x))
            continue
        ne = e * fr
        if fr.denominator != 1 and not base_nonneg(b):
            # |b| matters: (b^2)^(1/2)
            if e.denominator == 1 and e.numerator % 2 == 0 and not (ne.denominator == 1 and ne.numerator % 2 == 0):
                bt = Term.make({Mono.get({b: Fraction(1)}): 1.0})
                ab = absolute(bt)
                extra = mul(extra, power(ab, const(float(ne))))
                continue
        if ne != 0:
            d[b] = ne
    t = mono_normal(d, k)
    if extra is not ONE:
        t = mul(t, extra)
    return t


def _sum_power(a, fr, integer):
    g, base_t, k, sg = _sum_normal(a, integer)
    b = Base.get("sum", "", (base_t,))
    if sg < 0 and not integer:
        raise AssertionError
    try:
        kk = k ** float(fr)
    except OverflowError:
        kk = math.inf
    if math.isinf(kk) or kk == 0:
        t = exp(const(float(fr) * math.log(k)))
    else:
        t = const(kk)
    if sg < 0 and int(fr) % 2:
        t = scale(t, -1.0)
    t = mul(t, Term.make({Mono.get({b: fr}): 1.0}))
    if fr.denominator == 1 and 1 <= fr <= 4:
        t = t
    if g:
        t = mul(t, mono_normal({bb: _exp_norm(scale(_exp_term(e), float(fr))) for bb, e in g.items()}))
    return t


def _sum_normal(a, integer):
    """a = sg * k * prod(g) * base with k > 0"""
    g = {}
    t = a
    if not any(mo.has_ite for mo, _ in a.m):
        bases = {}
        n = len(a.m)
        for mo, _ in a.m:
            for b, e in mo.f:
                bases.setdefault(b, []).append(e)
        for b, es in bases.items():
            if not (integer or base_pos(b)):
                continue
            if b.kind == "e" or any(isinstance(e, Term) for e in es):
                if len(es) == n and all(e is es[0] for e in es):
                    g[b] = es[0]
                continue
            mn = min(es + ([Fraction(0)] if len(es) < n else []))
            if mn != 0:
                g[b] = mn
        if g:
            inv = mono_normal({b: _exp_norm(scale(_exp_term(e), -1.0)) for b, e in g.items()})
            t = mul(a, inv)
            if len(t.m) < 2:  # cannot happen for a genuine sum, keep it safe
                g, t = {}, a
    lead = t.m[0][1]
    k = abs(lead)
    t1 = scale(t, 1.0 / k)
    sg = 1
    if integer:
        n1 = scale(t1, -1.0)
        if Base.find("sum", "", (t1,)) is not None:
            pass
        elif Base.find("sum", "", (n1,)) is not None or (lead < 0 and not strictly_pos(t1)):
            t1, sg = n1, -1
    return g, t1, k, sg


def absolute(a):
    s = sign(a)
    if s is not None:
        return a if s >= 0 else scale(a, -1.0)
    lo, hi = interval(a)
    if lo >= 0:
        return a
    if hi <= 0:
        return scale(a, -1.0)
    m = map_ite(a, absolute)
    if m is not None:
        return m
    return ite(cmp0("lt", a), scale(a, -1.0), a)


def exp(t):
    if t is NAN:
        return NAN
    if t is INF:
        return INF
    if t is NINF:
        return ZERO
    m = map_ite(t, exp)
    if m is not None:
        return m
    d = {}
    k = 1.0
    rest = {}
    factors = {}
    for mo, c in t.m:
        if mo is MONE:
            if abs(c) < 600:
                k *= math.exp(c)
            else:
                rest[mo] = c
            continue
        lns = [(b, e) for b, e in mo.f if b.kind == "fn" and b.name == "ln"]
        if len(lns) == 1 and _is1(lns[0][1]) and base_like(lns[0][0].args[0]) is not None:
            o = {b: e for b, e in mo.f if b is not lns[0][0]}
            ex = Term.make({Mono.get(o): c})
            bb = base_like(lns[0][0].args[0])
            factors[bb] = exp_add(factors.get(bb, Fraction(0)), _exp_norm(ex))
        else:
            rest[mo] = c
    if rest:
        d[E] = Term.make(rest)
    for b, e in factors.items():
        if not (isinstance(e, Fraction) and e == 0):
            d[b] = e
    has_int_sum = any(b.kind == "sum" and isinstance(e, Fraction) and e.denominator == 1 and e >= 1 for b, e in d.items())
    if has_int_sum:
        e_ = d.pop(E, None)
        t = mono_normal(d, k)
        if e_ is not None:
            t = mul(t, Term.make({Mono.get({E: e_}): 1.0}))
        return t
    return Term.make({Mono.get(d): k})


def _is1(e):
    return e.__class__ is Fraction and e == 1


def base_like(t):
    """the base b if t is exactly b"""
    if len(t.m) == 1 and t.m[0][1] == 1.0 and len(t.m[0][0].f) == 1 and _is1(t.m[0][0].f[0][1]):
        return t.m[0][0].f[0][0]
    if len(t.m) > 1:
        return Base.get("sum", "", (t,))
    return None


_LN = {}


def ln(t):
    if t is NAN:
        return NAN
    if t is INF:
        return INF
    r = _LN.get(t.id)
    if r is None:
        r = _LN[t.id] = _ln(t)
    return r


def _ln(t):
    if t.is_const():
        v = t.const()
        if v == 0:
            return NINF
        return const(math.log(v)) if v > 0 else NAN
    m = map_ite(t, ln)
    if m is not None:
        return m
    _hazard(cmp0("le", t))
    if len(t.m) == 1:
        mo, c = t.m[0]
        if c > 0:
            r = const(math.log(c))
            opaque = {}
            for b, e in mo.f:
                if b.kind == "e":
                    r = add(r, _exp_term(e))
                elif base_pos(b) or isinstance(e, Term) or (isinstance(e, Fraction) and (e.denominator != 1)) or len(mo.f) == 1 and e != 1 and e.numerator % 2:
                    r = add(r, mul(_exp_term(e), _ln_base(b)))
                elif base_nonneg(b):
                    r = add(r, mul(_exp_term(e), _ln_base(b)))
                else:
                    opaque[b] = e
            if opaque:
                o = Term.make({Mono.get(opaque): 1.0})
                r = add(r, Term.make({Mono.get({Base.get("fn", "ln", (o,)): Fraction(1)}): 1.0}))
            return r
        return Term.make({Mono.get({Base.get("fn", "ln", (t,)): Fraction(1)}): 1.0})
    g, bt, k, sg = _sum_normal(t, False)
    r = const(math.log(k))
    for b, e in g.items():
        r = add(r, mul(_exp_term(e), _ln_base(b) if b.kind != "e" else ONE))
    Base.get("sum", "", (bt,))
    return add(r, Term.make({Mono.get({Base.get("fn", "ln", (bt,)): Fraction(1)}): 1.0}))


def _ln_base(b):
    arg = b.args[0] if b.kind == "sum" else Term.make({Mono.get({b: Fraction(1)}): 1.0})
    return Term.make({Mono.get({Base.get("fn", "ln", (arg,)): Fraction(1)}): 1.0})


def func(name, *args):
    args = tuple(lift(a) for a in args)
    if any(a is NAN for a in args):
        return NAN
    if name in ("arccos", "arcsin") and args[0].is_const():
        return const(getattr(math, name.replace("arc", "a"))(max(-1, min(1, args[0].const()))))
    if name == "arctan2" and all(a.is_const() for a in args):
        return const(math.atan2(args[0].const(), args[1].const()))
    for i, a in enumerate(args):
        if len(args) <= 2:
            m = map_ite(a, lambda t, i=i: func(name, *(args[:i] + (t,) + args[i + 1:])))
            if m is not None:
                return m
    return Term.make({Mono.get({Base.get("fn", name, args): Fraction(1)}): 1.0})


def uf(name, *args, positive=False, lo=-math.inf, hi=math.inf):
    """application of an uninterpreted function (nondeterministic stub)"""
    args = tuple(lift(a) for a in args)
    b = Base.get("fn", ("pos_" if positive else "uf_") + name, args)
    b.lo, b.hi = (0.0 if positive else lo), hi
    return Term.make({Mono.get({b: Fraction(1)}): 1.0})


def _lone_fn(t, name):
    if len(t.m) == 1 and abs(t.m[0][1]) == 1 and len(t.m[0][0].f) == 1:
        b, e = t.m[0][0].f[0]
        if b.kind == "fn" and b.name == name and _is1(e):
            return b, t.m[0][1]
    return None


def cos(t):
    if t is NAN:
        return NAN
    if t.is_const():
        v = math.cos(t.const())
        return const(0.0 if abs(v) < 1e-15 else v)
    m = map_ite(t, cos)
    if m is not None:
        return m
    f = _lone_fn(t, "arccos")
    if f:
        return f[0].args[0]
    f = _lone_fn(t, "arctan2")
    if f:
        y, x = f[0].args
        return div(x, power(add(mul(x, x), mul(y, y)), HALF))
    f = _lone_fn(t, "arcsin")
    if f:
        return power(ONE - mul(f[0].args[0], f[0].args[0]), HALF)
    if t.m[0][1] < 0:
        t = scale(t, -1.0)
    return Term.make({Mono.get({Base.get("fn", "cos", (t,)): Fraction(1)}): 1.0})


def sin(t):
    if t is NAN:
        return NAN
    if t.is_const():
        v = math.sin(t.const())
        return const(0.0 if abs(v) < 1e-15 else v)
    m = map_ite(t, sin)
    if m is not None:
        return m
    f = _lone_fn(t, "arccos")
    if f:
        return power(ONE - mul(f[0].args[0], f[0].args[0]), HALF) * f[1]
    f = _lone_fn(t, "arctan2")
    if f:
        y, x = f[0].args
        return div(y, power(add(mul(x, x), mul(y, y)), HALF)) * f[1]
    f = _lone_fn(t, "arcsin")
    if f:
        return f[0].args[0] * f[1]
    s = 1.0
    if t.m[0][1] < 0:
        t, s = scale(t, -1.0), -1.0
    return scale(Term.make({Mono.get({Base.get("fn", "sin", (t,)): Fraction(1)}): 1.0}), s)


def reset_caches():
    """forget everything that may depend on the facts of another path"""
    Facts.reset()
    for c in (_POW, _LN, _MUL, _ASSUME):
        c.clear()


def minimum(a, b):
    a, b = lift(a), lift(b)
    if a is NAN or b is NAN:
        return NAN
    return ite(compare("le", a, b), a, b)


def maximum(a, b):
    a, b = lift(a), lift(b)
    if a is NAN or b is NAN:
        return NAN
    return ite(compare("le", b, a), a, b)


# --------------------------------------------------------------------------- #
# derivative, evaluation, traversal
# --------------------------------------------------------------------------- #
def diff(t, v):
    """symbolic derivative with respect to the variable term v (conditions are
    treated as locally constant, i.e. away from the boundaries)"""
    vb = v.m[0][0].f[0][0]
    r = ZERO
    for mo, c in t.m:
        for b, e in mo.f:
            db = _diff_base(b, vb, v)
            others = {x: y for x, y in mo.f if x is not b}
            rest = Term.make({Mono.get(others): c}) if others else const(c)
            if isinstance(e, Term):
                # b^e * (e' ln b + e b'/b)
                de = diff(e, v)
                if b is E:
                    x = de
                else:
                    x = add(mul(de, _ln_base(b)), ZERO if not db.m else mul(e, div(db, _base_term(b))))
                r = add(r, mul(mul(rest, _pow_term(b, e)), x))
            elif db.m:
                r = add(r, mul(mul(rest, db), scale(power(_base_term(b), const(float(e - 1))), float(e))))
    return r


def _pow_term(b, e):
    return Term.make({Mono.get({b: e}): 1.0})


def _base_term(b):
    return b.args[0] if b.kind == "sum" else Term.make({Mono.get({b: Fraction(1)}): 1.0})


def _diff_base(b, vb, v):
    if b is vb:
        return ONE
    if b.kind in ("var", "e"):
        return ZERO
    if b.kind == "sum":
        return diff(b.args[0], v)
    if b.kind == "ite":
        c, p, q = b.args
        return ite(c, diff(p, v), diff(q, v))
    if b.name == "ln":
        return div(diff(b.args[0], v), b.args[0])
    if b.name == "cos":
        return scale(mul(sin(b.args[0]), diff(b.args[0], v)), -1.0)
    if b.name == "sin":
        return mul(cos(b.args[0]), diff(b.args[0], v))
    if all(not _depends(a, vb) for a in b.args):
        return ZERO
    raise NotImplementedError("derivative of " + b.name)


def _depends(t, vb, seen=None):
    for b in bases_of([t]):
        if b is vb:
            return True
    return False


def children(b):
    return b.args


def bases_of(things):
    """every base reachable from the terms / booleans"""
    out, seen, stack = [], set(), list(things)
    while stack:
        x = stack.pop()
        key = (type(x).__name__, x.id)
        if key in seen:
            continue
        seen.add(key)
        if isinstance(x, Term):
            for mo, _ in x.m:
                for b, e in mo.f:
                    stack.append(b)
                    if isinstance(e, Term):
                        stack.append(e)
        elif isinstance(x, Bool):
            stack.extend(a for a in x.args if isinstance(a, (Term, Bool)))
        else:
            out.append(x)
            stack.extend(a for a in x.args if isinstance(a, (Term, Bool)))
    return out


class Eval:
    """numeric evaluation of terms under an assignment of the variables; an
    uninterpreted application gets a value from `ufval`"""

    def __init__(self, env, ufval=None):
        self.env = env
        self.cache = {}
        self.ufval = ufval or (lambda b, args: math.nan)

    def term(self, t):
        k = t.id
        if k in self.cache:
            return self.cache[k]
        s = 0.0
        for mo, c in t.m:
            p = c
            for b, e in mo.f:
                if b.kind == "e":
                    x = self.term(e) if isinstance(e, Term) else float(e)
                    v = math.exp(min(x, 709)) if x == x else math.nan
                else:
                    bv = self.base(b)
                    x = self.term(e) if isinstance(e, Term) else float(e)
                    if isinstance(e, Fraction) and e == 1:
                        v = bv
                    else:
                        try:
                            v = bv ** x
                            if isinstance(v, complex):
                                v = math.nan
                        except ZeroDivisionError:
                            v = math.inf
                        except OverflowError:
                            v = math.inf
                p = p * v
            s += p
        self.cache[k] = s
        return s

    def base(self, b):
        k = ("b", b.id)
        if k in self.cache:
            return self.cache[k]
        if b.kind == "var":
            v = self.env[b.name]
        elif b.kind == "sum":
            v = self.term(b.args[0])
        elif b.kind == "ite":
            v = self.term(b.args[1]) if self.bool(b.args[0]) else self.term(b.args[2])
        else:
            args = [self.term(a) for a in b.args]
            try:
                if b.name == "ln":
                    v = math.log(args[0]) if args[0] > 0 else (-math.inf if args[0] == 0 else math.nan)
                elif b.name in ("cos", "sin"):
                    v = getattr(math, b.name)(args[0])
                elif b.name == "arccos":
                    v = math.acos(max(-1.0, min(1.0, args[0])))
                elif b.name == "arcsin":
                    v = math.asin(max(-1.0, min(1.0, args[0])))
                elif b.name == "arctan2":
                    v = math.atan2(*args)
                else:
                    v = self.ufval(b, args)
            except (ValueError, OverflowError):
                v = math.nan
        self.cache[k] = v
        return v

    def bool(self, c):
        if c.kind == "const":
            return c.args[0]
        if c.kind == "not":
            return not self.bool(c.args[0])
        if c.kind == "and":
            return self.bool(c.args[0]) and self.bool(c.args[1])
        if c.kind == "or":
            return self.bool(c.args[0]) or self.bool(c.args[1])
        v = self.term(c.args[0])
        return {"le": v <= 0, "lt": v < 0, "eq": v == 0}[c.kind]
