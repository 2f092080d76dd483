"""numpy / astropy plumbing that lets the unmodified code of /repo run on Terms.

* `SymND`   : object ndarray whose ufuncs and array functions work on Terms and
              return symbolic booleans instead of forcing a branch.
* `install` : makes the real astropy `Quantity` carry Terms.
* `NPProxy` : stands for `numpy` in the agnpy modules; array creation gives
              SymND and the sizes of the integration grids are bounded.
"""
import builtins
import functools
import math
import numbers
import operator
import sys

import numpy as np

from . import terms as T
from .terms import Term, Bool, lift, ite, TRUE, FALSE

SYM = (Term, Bool)


# --------------------------------------------------------------------------- #
# helpers
# --------------------------------------------------------------------------- #
def is_sym(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(v) for v in x)
    return False


def is_quantity(x):
    return hasattr(x, "unit") and hasattr(x, "to_value")


def raw(x):
    """plain object ndarray (possibly 0-d) or scalar for the element loops"""
    if isinstance(x, SYM) or not isinstance(x, (np.ndarray, list, tuple)):
        return x
    if isinstance(x, (list, tuple)):
        return to_obj(x)
    if x.dtype == object:
        return x.view(np.ndarray)
    return x.view(np.ndarray).astype(object)


def vec(fn, nin):
    """element loop of fn over plain object arrays / scalars"""
    f = np.frompyfunc(fn, nin, 1)

    def call(*args):
        if not any(isinstance(a, np.ndarray) and a.ndim for a in args):
            return fn(*[a[()] if isinstance(a, np.ndarray) else a for a in args])
        r = f(*[to_obj(a) if isinstance(a, SYM) or not isinstance(a, np.ndarray) else a.view(np.ndarray) for a in args])
        return r
    return call


def to_obj(x):
    """plain object ndarray from nested lists of scalars / arrays"""
    if isinstance(x, np.ndarray):
        return raw(x)
    if isinstance(x, (list, tuple)):
        parts = [to_obj(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shape = parts[0].shape
        out = np.empty((len(parts),) + shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.shape else p[()]
        return out
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def wrap(x):
    """result of an element loop -> SymND / scalar; constant booleans become
    real numpy booleans so that they index natively"""
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x
        if x.ndim == 0:
            return wrap(x[()])
        f = x.ravel()
        if f.size and all(isinstance(v, (Bool, bool, np.bool_)) for v in f):
            if all(not isinstance(v, Bool) or v.kind == "const" for v in f):
                return np.array([bool(v) for v in f], dtype=bool).reshape(x.shape)
        return x.view(SymND)
    if isinstance(x, Bool) and x.kind == "const":
        return np.bool_(x.args[0])
    return x


def _l(f):
    def g(*a):
        return f(*[lift(v) for v in a])
    return g


def _cmp(kind):
    def g(a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return FALSE
        ba, bb = T.as_bool(a), T.as_bool(b)
        if kind == "eq" and ba is not None and bb is not None:
            return ba == bb
        return T.compare(kind, lift(a), lift(b))
    return g


def _ne(a, b):
    return T.b_not(_cmp("eq")(a, b))


def _bool(x):
    b = T.as_bool(x)
    if b is not None:
        return b
    return T.b_not(T.compare("eq", lift(x), T.ZERO))


def _mulx(a, b):
    ba, bb = T.as_bool(a), T.as_bool(b)
    if ba is not None and bb is not None:
        return T.b_and(ba, bb)
    return T.mul(lift(a), lift(b))


def _addx(a, b):
    ba, bb = T.as_bool(a), T.as_bool(b)
    if ba is not None and bb is not None:
        return T.b_or(ba, bb)
    return T.add(lift(a), lift(b))


def _andx(a, b):
    return T.b_and(_bool(a), _bool(b))


def _orx(a, b):
    return T.b_or(_bool(a), _bool(b))


def _invert(a):
    return T.b_not(_bool(a))


def _isfinite(a):
    a = lift(a)
    if a is T.NAN or T.is_inf(a):
        return FALSE
    return TRUE


def _isnan(a):
    return TRUE if lift(a) is T.NAN else FALSE


def _signx(a):
    a = lift(a)
    return ite(a > 0, T.ONE, ite(a < 0, T.const(-1), T.ZERO))


def _floordiv(a, b):
    raise TypeError("floor division of symbolic values")


def _pow(a, b):
    a, b = lift(a), lift(b)
    return T.power(a, b)


UF = {
    np.add: _addx,
    np.subtract: _l(lambda a, b: T.add(a, T.scale(b, -1.0))),
    np.multiply: _mulx,
    np.divide: _l(T.div),
    np.power: _pow,
    np.float_power: _pow,
    np.negative: _l(lambda a: T.scale(a, -1.0)),
    np.positive: _l(lambda a: a),
    np.absolute: _l(T.absolute),
    np.fabs: _l(T.absolute),
    np.sqrt: _l(lambda a: T.power(a, T.HALF)),
    np.cbrt: _l(lambda a: T.power(a, T.const(1 / 3))),
    np.square: _l(lambda a: T.mul(a, a)),
    np.reciprocal: _l(lambda a: T.div(T.ONE, a)),
    np.exp: _l(T.exp),
    np.exp2: _l(lambda a: T.power(T.const(2), a)),
    np.expm1: _l(lambda a: T.add(T.exp(a), T.const(-1))),
    np.log: _l(T.ln),
    np.log10: _l(lambda a: T.scale(T.ln(a), 1 / T.LN10)),
    np.log2: _l(lambda a: T.scale(T.ln(a), 1 / math.log(2))),
    np.log1p: _l(lambda a: T.ln(T.add(a, T.ONE))),
    np.cos: _l(T.cos),
    np.sin: _l(T.sin),
    np.tan: _l(lambda a: T.div(T.sin(a), T.cos(a))),
    np.arccos: _l(lambda a: T.func("arccos", a)),
    np.arcsin: _l(lambda a: T.func("arcsin", a)),
    np.arctan2: _l(lambda a, b: T.func("arctan2", a, b)),
    np.deg2rad: _l(lambda a: T.scale(a, math.pi / 180)),
    np.rad2deg: _l(lambda a: T.scale(a, 180 / math.pi)),
    np.radians: _l(lambda a: T.scale(a, math.pi / 180)),
    np.degrees: _l(lambda a: T.scale(a, 180 / math.pi)),
    np.hypot: _l(lambda a, b: T.power(T.add(T.mul(a, a), T.mul(b, b)), T.HALF)),
    np.sinh: _l(lambda a: T.scale(T.add(T.exp(a), T.scale(T.exp(T.scale(a, -1.0)), -1.0)), 0.5)),
    np.cosh: _l(lambda a: T.scale(T.add(T.exp(a), T.exp(T.scale(a, -1.0))), 0.5)),
    np.tanh: _l(lambda a: T.add(T.ONE, T.scale(T.div(T.ONE, T.add(T.exp(T.scale(a, 2.0)), T.ONE)), -2.0))),
    np.minimum: T.minimum,
    np.maximum: T.maximum,
    np.fmin: T.minimum,
    np.fmax: T.maximum,
    np.sign: _signx,
    np.less: _cmp("lt"),
    np.less_equal: _cmp("le"),
    np.greater: _cmp("gt"),
    np.greater_equal: _cmp("ge"),
    np.equal: _cmp("eq"),
    np.not_equal: _ne,
    np.logical_and: _andx,
    np.logical_or: _orx,
    np.logical_not: _invert,
    np.logical_xor: lambda a, b: _bool(a) ^ _bool(b),
    np.bitwise_and: _andx,
    np.bitwise_or: _orx,
    np.bitwise_xor: lambda a, b: _bool(a) ^ _bool(b),
    np.invert: _invert,
    np.isfinite: _isfinite,
    np.isnan: _isnan,
    np.isinf: lambda a: TRUE if T.is_inf(lift(a)) else FALSE,
    np.conjugate: lambda a: a,
    np.floor_divide: _floordiv,
    np.heaviside: lambda a, h: ite(lift(a) > 0, T.ONE, ite(lift(a) < 0, T.ZERO, lift(h))),
}
_PY = {}


class Unsupported(TypeError):
    pass


def pyfunc(uf):
    f = _PY.get(uf)
    if f is None:
        if uf not in UF:
            raise Unsupported("ufunc %s is not encoded" % uf.__name__)
        f = _PY[uf] = vec(UF[uf], uf.nin)
    return f


def array_ufunc(self, uf, method, *inputs, **kwargs):
    if any(is_quantity(x) for x in inputs):
        return NotImplemented
    return sym_ufunc(uf, method, *inputs, **kwargs)


def sym_ufunc(uf, method, *inputs, out=None, **kwargs):
    if uf is np.matmul and method == "__call__" and out is None:
        return wrap(matmul(to_obj(inputs[0]), to_obj(inputs[1])))
    f = pyfunc(uf)
    args = [raw(x) for x in inputs]
    if method == "__call__":
        kwargs.pop("casting", None)
        kwargs.pop("dtype", None)
        kwargs.pop("subok", None)
        where = kwargs.pop("where", True)
        if kwargs:
            raise Unsupported("ufunc kwargs %s" % list(kwargs))
        r = f(*args)
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out")
            o = out[0] if isinstance(out, tuple) else out
            r = vec(lambda w, a, b: ite(_bool(w), lift(a), lift(b)), 3)(raw(where), r, raw(o))
    elif method == "reduce":
        axis = kwargs.get("axis", 0)
        keepdims = kwargs.get("keepdims", False)
        initial = kwargs.get("initial", None)
        a = args[0]
        if not isinstance(a, np.ndarray):
            a = to_obj(a)
        r = reduce_axis(UF[uf], a, axis, keepdims, initial, identity=uf.identity)
    elif method == "accumulate":
        axis = kwargs.get("axis", 0)
        a = np.moveaxis(args[0], axis, 0)
        out_ = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.shape[0]):
            acc = a[i] if acc is None else f(acc, a[i])
            out_[i] = acc
        r = np.moveaxis(out_, 0, axis)
    elif method == "reduceat" and kwargs.get("axis", 0) in (0, -1) and args[0].ndim == 1:
        a, ix = args[0], [int(i) for i in np.asarray(args[1]).ravel()]
        r = np.empty(len(ix), dtype=object)
        for k, (i, j) in enumerate(zip(ix, ix[1:] + [len(a)])):
            r[k] = reduce_axis(UF[uf], a[i:max(j, i + 1)], 0)
    elif method == "outer":
        a, b = [to_obj(x) for x in args]
        r = f(a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            store(o, Ellipsis, r)
            return o
    return wrap(r)


def matmul(a, b):
    def mm(x, y):
        v, w = x.ndim == 1, y.ndim == 1
        x = x[None, :] if v else x
        y = y[:, None] if w else y
        if x.shape[-1] != y.shape[-2]:
            raise ValueError("matmul: shapes %s and %s not aligned" % (a.shape, b.shape))
        p = vec(_mulx, 2)(x[..., :, :, None], y[..., None, :, :])
        r = reduce_axis(_addx, p, p.ndim - 2, identity=0)
        r = to_obj(r)
        if w:
            r = r[..., 0]
        if v:
            r = r[..., 0] if w else r[..., 0, :]
        return r
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    return mm(a, b)


def store(o, idx, r):
    if o.dtype == object:
        o.view(np.ndarray)[idx] = r
    else:
        r = to_obj(r)
        conv = np.vectorize(lambda v: (bool(v) if isinstance(v, Bool) else float(v)), otypes=[o.dtype if o.dtype != bool else bool])
        o.view(np.ndarray)[idx] = conv(r) if r.size else r.astype(o.dtype)


def reduce_axis(fn, a, axis, keepdims=False, initial=None, identity=None):
    if axis is None:
        ax = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        ax = tuple(x % a.ndim for x in axis)
    else:
        ax = (axis % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in ax]
    b = np.transpose(a, list(ax) + rest)
    shape = [a.shape[i] for i in rest]
    n = 1
    for i in ax:
        n *= a.shape[i]
    b = b.reshape([n] + shape)
    f = vec(fn, 2)
    # numpy's _NoValue marks an absent initial
    if initial is not None and type(initial).__name__ == "_NoValueType":
        initial = None
    if initial is not None:
        acc = np.full(shape, None, dtype=object)
        acc[...] = initial
        start = 0
    elif n == 0:
        if identity is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        acc = np.full(shape, identity, dtype=object)
        start = 0
    else:
        acc = b[0]
        start = 1
    for i in range(start, n):
        acc = f(acc, b[i])
    if not isinstance(acc, np.ndarray):
        acc = to_obj(acc)
    if n == 1 and start == 1:
        acc = acc.copy()
    if keepdims:
        acc = acc.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return acc if acc.ndim else acc[()]


# --------------------------------------------------------------------------- #
# the array class
# --------------------------------------------------------------------------- #
def concrete_index(idx):
    """decide symbolic masks used as indices (forks the exploration)"""
    if isinstance(idx, tuple):
        return tuple(concrete_index(i) for i in idx)
    if isinstance(idx, Bool):
        return bool(idx)
    if isinstance(idx, Term):
        return int(idx)
    if isinstance(idx, (list,)) and is_sym(idx):
        return concrete_index(to_obj(idx).view(SymND))
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        f = idx.ravel()
        if f.size == 0:
            return np.zeros(idx.shape, dtype=bool)
        if all(isinstance(v, (Bool, bool, np.bool_)) for v in f):
            return np.array([bool(v) for v in f.view(np.ndarray)], dtype=bool).reshape(idx.shape)
        return np.array([int(v) for v in f.view(np.ndarray)]).reshape(idx.shape)
    return idx


def has_sym_mask(idx):
    if isinstance(idx, tuple):
        return any(has_sym_mask(i) for i in idx)
    if isinstance(idx, Bool):
        return True
    return isinstance(idx, np.ndarray) and idx.dtype == object


def masked_store(a, idx, value):
    """a[mask] = scalar  becomes an if-then-else; other uses fork"""
    v = value
    scalar = not isinstance(v, (np.ndarray, list, tuple)) or (isinstance(v, np.ndarray) and v.ndim == 0)
    if isinstance(idx, (np.ndarray, Bool)) and scalar and (isinstance(idx, Bool) or idx.shape == a.shape):
        if isinstance(v, np.ndarray):
            v = v[()]
        p = a.view(np.ndarray)
        r = vec(lambda m, x: ite(_bool(m), lift(v), lift(x)), 2)(raw(idx), p)
        p[...] = r
        return
    a.view(np.ndarray)[concrete_index(idx)] = value


class SymND(np.ndarray):
    __array_priority__ = 5

    def __array_ufunc__(self, uf, method, *inputs, **kwargs):
        return array_ufunc(self, uf, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(self, func, types, args, kwargs)

    def __getitem__(self, idx):
        if has_sym_mask(idx):
            idx = concrete_index(idx)
        r = super().__getitem__(idx)
        return r

    def __setitem__(self, idx, value):
        if isinstance(value, np.ndarray) and not is_quantity(value):
            value = raw(value)
        if has_sym_mask(idx):
            return masked_store(self, idx, value)
        self.view(np.ndarray)[idx] = value

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _red(self, uf, axis=None, keepdims=False, **k):
        return wrap(reduce_axis(UF[uf], raw(self), axis, keepdims, identity=uf.identity))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(np.add, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(np.multiply, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.maximum, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.minimum, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return wrap(reduce_axis(_orx, raw(self), axis, keepdims, identity=False))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return wrap(reduce_axis(_andx, raw(self), axis, keepdims, identity=True))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis, keepdims=keepdims) / n

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return sym_argsort(self)

    def argmax(self, axis=None, out=None, **k):
        return sym_arg(self, axis, operator.gt)

    def argmin(self, axis=None, out=None, **k):
        return sym_arg(self, axis, operator.lt)

    def nonzero(self):
        return concrete_index(vec(_bool, 1)(raw(self))).nonzero()

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype) == bool:
            return concrete_index(vec(_bool, 1)(raw(self)))
        if np.dtype(dtype).kind in "iu":
            return np.array([int(v) for v in self.ravel().view(np.ndarray)], dtype=dtype).reshape(self.shape)
        return self.copy()

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return sym_clip(self, a_min, a_max)

    def round(self, decimals=0, out=None):
        return self

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(_bool(self.ravel().view(np.ndarray)[0]))

    def tolist(self):
        return self.view(np.ndarray).tolist()


def sym_lt(a, b):
    return bool(lift(a) < lift(b))


def sym_argsort(a):
    v = list(raw(a))
    idx = []
    for i in range(len(v)):  # stable insertion sort, forks on the comparisons
        j = len(idx)
        while j > 0 and sym_lt(v[i], v[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


def sym_arg(a, axis, op):
    p = raw(a)
    if axis is None:
        p = p.ravel()
    elif p.ndim != 1:
        raise Unsupported("argmax over an axis")
    best = 0
    for i in range(1, len(p)):
        if bool(op(lift(p[i]), lift(p[best]))):
            best = i
    return best


def sym_clip(a, lo, hi):
    def f(x, l, h):
        x = lift(x)
        if l is not None:
            l_ = lift(l)
            # the smallest positive float stands for 0+
            if l_.is_const() and 0 < l_.const() < 1e-300:
                x = ite(T.compare("le", x, T.ZERO), l_, x)
            else:
                x = T.maximum(x, l_)
        if h is not None:
            h_ = lift(h)
            if not (h_.is_const() and h_.const() > 1e300):
                x = T.minimum(x, h_)
            elif x is T.INF:
                x = h_
        return x
    r = vec(f, 3)(raw(a), raw(lo), raw(hi))
    return wrap(r)


# --------------------------------------------------------------------------- #
# array functions
# --------------------------------------------------------------------------- #
AF = {}


def af(npf):
    def d(f):
        AF[npf] = f
        return f
    return d


def _units_of(*xs):
    return [getattr(x, "unit", None) for x in xs]


def _common(xs):
    """strip units: values in the unit of the first quantity; zeros / inf fit all"""
    q = [x for x in xs if is_quantity(x)]
    if not q:
        return list(xs), None
    un = q[0].unit
    vals = []
    for x in xs:
        if is_quantity(x):
            vals.append(x.to_value(un))
        elif arbitrary_unit(x):
            vals.append(x)
        else:
            import astropy.units as u
            vals.append(u.Quantity(x, u.dimensionless_unscaled).to_value(un))
    return vals, un


def arbitrary_unit(x):
    f = to_obj(x).ravel() if not isinstance(x, np.ndarray) else raw(x).ravel()
    for v in f:
        t = lift(v)
        if t is None or not (t is T.NAN or T.is_inf(t) or not t.m):
            return False
    return True


def _requant(r, un):
    if un is None:
        return r
    import astropy.units as u
    if isinstance(r, np.ndarray):
        return u.Quantity(r, un, dtype=object, copy=False) if r.dtype == object else u.Quantity(r, un)
    return u.Quantity(to_obj(r), un, dtype=object)


@af(np.where)
def _where(cond, x=None, y=None):
    if x is None:
        return concrete_index(cond).nonzero() if isinstance(cond, np.ndarray) else np.nonzero(cond)
    (a, b), un = _common([x, y])
    if is_quantity(cond):
        cond = cond.value
    r = vec(_ite, 3)(raw(cond), raw(a), raw(b))
    return _requant(wrap(r), un)


def _ite(c, p, q):
    c = _bool(c)
    bp, bq = T.as_bool(p), T.as_bool(q)
    if bp is not None and bq is not None:
        return T.b_or(T.b_and(c, bp), T.b_and(T.b_not(c), bq))
    return ite(c, lift(p), lift(q))


@af(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    if is_quantity(a):
        un = a.unit
        lo = a_min.to_value(un) if is_quantity(a_min) else a_min
        hi = a_max.to_value(un) if is_quantity(a_max) else a_max
        return _requant(sym_clip(a.value, lo, hi), un)
    return sym_clip(a, a_min, a_max)


@af(np.any)
def _any(a, axis=None, out=None, keepdims=False, **k):
    return wrap(reduce_axis(_orx, to_obj(a), axis, identity=False))


@af(np.all)
def _all(a, axis=None, out=None, keepdims=False, **k):
    return wrap(reduce_axis(_andx, to_obj(a), axis, identity=True))


@af(np.isclose)
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        w, tol = T.absolute(y), atol
        if rtol > 0 and 0 < atol < 1e-9 * rtol * T.interval(w)[0]:
            # an absolute tolerance below the rounding of the relative one
            tol = 0.0
        d, w = x - y, w * rtol + tol
        return T.b_and(T.compare("le", d, w), T.compare("le", -w, d))
    (a, b), un = _common([a, b])
    return wrap(vec(f, 2)(raw(a), raw(b)))


@af(np.allclose)
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return _all(_isclose(a, b, rtol, atol))


@af(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return _all(wrap(vec(_cmp("eq"), 2)(a, b)))


def _join(fn):
    def g(arrays, *a, **k):
        arrays = list(arrays)
        vals, un = _common(arrays)
        return _requant(fn([to_obj(v) for v in vals], *a, **k).view(SymND), un)
    return g


for _f in (np.concatenate, np.stack, np.vstack, np.hstack, np.column_stack):
    AF[_f] = _join(getattr(_f, "_implementation", _f))


def _reduction(method):
    def g(a, axis=None, *r, keepdims=False, **k):
        if is_quantity(a):
            return _requant(getattr(to_obj(a.value).view(SymND), method)(axis=axis), a.unit)
        return getattr(to_obj(a).view(SymND), method)(axis=axis)
    return g


for _f, _m in ((np.sum, "sum"), (np.min, "min"), (np.max, "max"), (np.mean, "mean"), (np.prod, "prod")):
    AF[_f] = _reduction(_m)


@af(np.argsort)
def _argsort(a, *r, **k):
    return sym_argsort(a.value if is_quantity(a) else a)


@af(np.sort)
def _sort(a, *r, **k):
    return a[sym_argsort(a.value if is_quantity(a) else a)]


@af(np.argmax)
def _argmax(a, axis=None, **k):
    return sym_arg(a.value if is_quantity(a) else to_obj(a), axis, operator.gt)


@af(np.argmin)
def _argmin(a, axis=None, **k):
    return sym_arg(a.value if is_quantity(a) else to_obj(a), axis, operator.lt)


@af(np.nonzero)
def _nonzero(a):
    return to_obj(a).view(SymND).nonzero()


@af(np.flatnonzero)
def _flatnonzero(a):
    return to_obj(a).view(SymND).ravel().nonzero()[0]


@af(np.count_nonzero)
def _count_nonzero(a, *r, **k):
    return len(to_obj(a).view(SymND).ravel().nonzero()[0])


@af(np.zeros_like)
def _zeros_like(a, dtype=None, **k):
    return _like(a, 0.0, dtype)


@af(np.ones_like)
def _ones_like(a, dtype=None, **k):
    return _like(a, 1.0, dtype)


@af(np.empty_like)
def _empty_like(a, dtype=None, **k):
    return _like(a, 0.0, dtype)


@af(np.full_like)
def _full_like(a, fill, dtype=None, **k):
    if is_quantity(a):
        return _requant(_like(a.value, fill.to_value(a.unit) if is_quantity(fill) else fill, dtype), a.unit)
    return _like(a, fill, dtype)


def _like(a, v, dtype):
    if dtype is not None and np.dtype(dtype) == bool:
        return np.full(np.shape(a) if not isinstance(a, SYM) else (), bool(v))
    if is_quantity(a):
        return _requant(_like(a.value, v, dtype), a.unit)
    shape = a.shape if isinstance(a, np.ndarray) else np.shape(a) if not isinstance(a, SYM) else ()
    if dtype is not None and np.dtype(dtype) == bool:
        return np.full(shape, bool(v))
    r = np.empty(shape, dtype=object)
    r[...] = v
    return r.view(SymND)


def lin(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = GRID(num)
    (a, b), un = _common([start, stop])
    a, b = to_obj(a), to_obj(b)
    div = (num - 1) if endpoint else num
    a, b = np.broadcast_arrays(a, b)
    out = np.empty((num,) + a.shape, dtype=object)
    f = vec(lambda x, y, i: lift(x) + (lift(y) - lift(x)) * (i / div if div else 0.0), 3)
    for i in range(num):
        v = b if (endpoint and i == num - 1 and num > 1) else f(a, b, i)
        out[i] = v[()] if isinstance(v, np.ndarray) and v.ndim == 0 else v
    r = _requant(out.view(SymND), un)
    return (r, None) if retstep else r


def logs(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    y = lin(start, stop, num, endpoint)
    if is_quantity(y):
        y = y.to_value("")
    return np.power(base, y) if isinstance(y, SymND) else y


def geoms(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    (a, b), un = _common([start, stop])
    y = lin(np.log(to_obj(a).view(SymND)) if not isinstance(a, SYM) else T.ln(a),
            np.log(to_obj(b).view(SymND)) if not isinstance(b, SYM) else T.ln(b), num, endpoint)
    return _requant(np.exp(y), un)


AF[np.linspace] = lin
AF[np.logspace] = logs
AF[np.geomspace] = geoms


@af(np.cumsum)
def _cumsum(a, axis=None, **k):
    v = a.value if is_quantity(a) else to_obj(a)
    r = sym_ufunc(np.add, "accumulate", v, axis=0 if axis is None else axis)
    return _requant(r, getattr(a, "unit", None))


def _times_units(*xs):
    un = None
    for x in xs:
        if is_quantity(x):
            un = x.unit if un is None else un * x.unit
    return [to_obj(x.value if is_quantity(x) else x) for x in xs], un


@af(np.dot)
def _dot(a, b, out=None):
    (a, b), un = _times_units(a, b)
    if a.ndim == 0 or b.ndim == 0:
        r = vec(_mulx, 2)(a, b)
    elif a.ndim > 1 and b.ndim > 2:
        raise Unsupported("dot of arrays with many dimensions")
    else:
        r = matmul(a, b)
    return _requant(wrap(r), un)


@af(np.inner)
def _inner(a, b):
    (a, b), un = _times_units(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return _requant(wrap(vec(_mulx, 2)(a, b)), un)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("inner product of arrays with many dimensions")
    return _requant(wrap(matmul(a, b.T)), un)


@af(np.vdot)
def _vdot(a, b):
    (a, b), un = _times_units(a, b)
    return _requant(wrap(matmul(a.ravel(), b.ravel())), un)


@af(np.select)
def _select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist) or not len(condlist):
        raise ValueError("list of cases must be same length as list of conditions")
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return r


@af(np.isin)
def _isin(element, test_elements, assume_unique=False, invert=False, **k):
    (a, b), _ = _common([element, test_elements])
    vals = list(to_obj(b).ravel())

    def one(x):
        r = FALSE
        for v in vals:
            r = T.b_or(r, _cmp("eq")(x, v))
        return T.b_not(r) if invert else r
    return wrap(vec(one, 1)(to_obj(a)))


@af(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear, constant outside the nodes"""
    if period is not None:
        raise Unsupported("periodic np.interp")
    (x, xp), _ = _common([x, xp])
    un = fp.unit if is_quantity(fp) else None
    if un is not None:
        fp = fp.value
        left, right = [v.to_value(un) if is_quantity(v) else v for v in (left, right)]
    px = [lift(v) for v in to_obj(xp).ravel()]
    pf = [lift(v) for v in to_obj(fp).ravel()]
    if len(px) != len(pf):
        raise ValueError("fp and xp are not of the same length.")
    lo = pf[0] if left is None else lift(left)
    hi = pf[-1] if right is None else lift(right)

    def one(v):
        v = lift(v)
        r = ite(v > px[-1], hi, pf[-1])
        for i in range(len(px) - 2, -1, -1):
            seg = pf[i] + (pf[i + 1] - pf[i]) / (px[i + 1] - px[i]) * (v - px[i])
            r = ite(v < px[i + 1], seg, r)
        return ite(v < px[0], lo, r)
    return _requant(wrap(vec(one, 1)(raw(x))), un)


@af(np.unique)
def _unique(ar, *a, **k):
    if a or k:
        raise Unsupported("np.unique with options")
    un = getattr(ar, "unit", None)
    v = to_obj(ar.value if is_quantity(ar) else ar).ravel()
    v = v[sym_argsort(v)]
    keep = [i for i in range(len(v)) if i == 0 or not bool(_cmp("eq")(v[i], v[i - 1]))]
    return _requant(v[keep].view(SymND), un)


@af(np.apply_along_axis)
def _apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = np.moveaxis(arr, axis, -1)
    rows = [func1d(a[i], *args, **kwargs) for i in np.ndindex(*a.shape[:-1])]
    rows, un = _common(rows)
    rows = [to_obj(r) for r in rows]
    out = np.empty(a.shape[:-1] + rows[0].shape, dtype=object)
    for i, r in zip(np.ndindex(*a.shape[:-1]), rows):
        out[i] = r if r.ndim else r[()]
    if rows[0].ndim:
        out = np.moveaxis(out, list(range(-rows[0].ndim, 0)), list(range(axis % arr.ndim, axis % arr.ndim + rows[0].ndim)))
    return _requant(wrap(out), un)


@af(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    def one(x):
        n = 0
        for e in raw(a):
            c = lift(e) < lift(x) if side == "left" else lift(e) <= lift(x)
            if bool(c):
                n += 1
            else:
                break
        return n
    if isinstance(v, np.ndarray) and v.ndim:
        return np.array([one(x) for x in raw(v).ravel()]).reshape(v.shape)
    return one(v)


@af(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    f = vec(lambda v: T.const(nan) if lift(v) is T.NAN else v, 1)
    return wrap(f(raw(x)))


@af(np.delete)
def _delete(arr, obj, axis=None):
    r = np.delete(raw(arr), obj, axis)
    return r.view(SymND)


def array_function(self, func, types, args, kwargs):
    f = AF.get(func)
    if f is not None:
        return f(*args, **kwargs)
    impl = getattr(func, "_implementation", None)
    if impl is not None and getattr(impl, "__code__", None) is not None:
        return impl(*args, **kwargs)
    # C implementation: only data movement is safe on objects
    a = [raw(x) if isinstance(x, np.ndarray) else ([raw(v) for v in x] if isinstance(x, (list, tuple)) and x and isinstance(x[0], np.ndarray) else x) for x in args]
    if func.__name__ in ("copyto", "putmask", "take", "repeat", "can_cast", "result_type", "shares_memory", "may_share_memory", "min_scalar_type", "empty_like", "concatenate"):
        r = func(*a, **kwargs)
        return r.view(SymND) if isinstance(r, np.ndarray) and r.dtype == object else r
    raise Unsupported("numpy function %s is not encoded" % func.__name__)


# --------------------------------------------------------------------------- #
# grid bounds
# --------------------------------------------------------------------------- #
class _Grid:
    """bound on the sizes of the integration grids: distinct sizes used by the
    code stay distinct so that a wrong size is still visible"""

    def __init__(self):
        self.full = False
        self.reset()

    def reset(self, over=()):
        self.table = {50: 2, 100: 3, 200: 4}
        self.table.update(over)

    def __call__(self, n):
        n = operator.index(n)
        if self.full or n <= 4:
            return n
        if n not in self.table:
            self.table[n] = max(self.table.values()) + 1
        return self.table[n]


GRID = _Grid()


# --------------------------------------------------------------------------- #
# numpy as seen by agnpy
# --------------------------------------------------------------------------- #
def symarray(r):
    if isinstance(r, np.ndarray) and not is_quantity(r) and r.dtype.kind == "f":
        return r.astype(object).view(SymND)
    if isinstance(r, np.ndarray) and not is_quantity(r) and r.dtype == object:
        return r.view(SymND)
    return r


def _contains_list_sym(args):
    return any(isinstance(a, (list, tuple)) and is_sym(a) for a in args)


class IntND(np.ndarray):
    """indices"""

    def __getitem__(self, key):
        if has_sym_mask(key):
            key = concrete_index(key)
        r = super().__getitem__(key)
        return r.view(np.ndarray) if isinstance(r, np.ndarray) else r


class NPProxy:
    def __init__(self):
        self.trapz = np.trapezoid if hasattr(np, "trapezoid") else np.trapz

    def __getattr__(self, name):
        real = getattr(np, name)
        f = getattr(self, "_x_" + name, None) if not name.startswith("_") else None
        if f is not None:
            setattr(self, name, f)
            return f
        if isinstance(real, np.ufunc) or not callable(real) or isinstance(real, type):
            setattr(self, name, real)
            return real

        @functools.wraps(real)
        def g(*args, **kwargs):
            if args and isinstance(args[0], (list, tuple)) and is_sym(args[0]) and name not in ("concatenate", "stack", "vstack", "hstack", "column_stack", "reshape"):
                args = (to_obj(args[0]).view(SymND),) + args[1:]
            if any(isinstance(a, SYM) for a in args) or _contains_list_sym(args):
                if real in AF:
                    return AF[real](*args, **kwargs)
            return real(*args, **kwargs)
        setattr(self, name, g)
        return g


def _creation(name):
    real = getattr(np, name)

    def g(self, *a, **k):
        dt = k.get("dtype", a[1] if len(a) > 1 and name in ("zeros", "ones", "empty") else None)
        if dt is not None and np.dtype(dt).kind in "biu":
            return real(*a, **k)
        if dt is not None:
            k = {x: y for x, y in k.items() if x != "dtype"}
            a = a[:1]
        return symarray(real(*a, **k))
    return g


for _n in ("zeros", "ones", "empty"):
    setattr(NPProxy, "_x_" + _n, _creation(_n))


def _x_full(self, shape, fill, dtype=None, **k):
    if is_quantity(fill):
        r = np.empty(shape, dtype=object)
        r[...] = fill.value
        return _requant(r.view(SymND), fill.unit)
    if isinstance(fill, SYM) or (isinstance(fill, float) and dtype is None):
        r = np.empty(shape, dtype=object)
        r[...] = fill
        return r.view(SymND)
    return symarray(np.full(shape, fill, dtype))


def _x_repeat(self, a, repeats, axis=None):
    if isinstance(a, (np.ndarray,)):
        return np.repeat(a, repeats, axis) if is_quantity(a) else symarray(np.repeat(raw(a) if a.dtype == object else a, repeats, axis))
    if isinstance(a, SYM):
        return _x_full(self, repeats, a)
    return symarray(np.repeat(a, repeats, axis))


def _x_array(self, obj, dtype=None, *a, **k):
    if is_quantity(obj):
        return np.array(obj.value if not isinstance(obj.value, SYM) else to_obj(obj.value), dtype=object).view(SymND) if obj.dtype == object else np.array(obj, dtype, *a, **k)
    if isinstance(obj, (list, tuple)) and any(is_quantity(v) for v in obj):
        import astropy.units as u
        obj = u.Quantity(list(obj)).to_value("")
    if is_sym(obj) or isinstance(obj, SYM):
        if dtype is not None and np.dtype(dtype).kind in "b":
            return to_obj(obj).view(SymND).astype(bool)
        r = to_obj(obj).copy()
        nd = k.get("ndmin", 0)
        while r.ndim < nd:
            r = r[None]
        return r.view(SymND)
    if dtype is not None and np.dtype(dtype).kind == "f":
        dtype = None
        return symarray(np.array(obj, float, *a, **k))
    return symarray(np.array(obj, dtype, *a, **k))


def _x_asarray(self, obj, dtype=None, *a, **k):
    if isinstance(obj, SymND):
        return obj
    return _x_array(self, obj, dtype)


def _x_fromiter(self, it, dtype=None, count=-1, **k):
    v = [x for n, x in enumerate(it) if count < 0 or n < count]
    if dtype is not None and np.dtype(dtype).kind in "biu":
        return np.array(v, dtype)
    return to_obj(v).view(SymND)


def _x_vectorize(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None, **k):
    if signature is not None or excluded or pyfunc is None:
        return np.vectorize(pyfunc, otypes, doc, excluded, cache, signature, **k)

    def g(*args, **kw):
        args = [to_obj(x.to_value("") if is_quantity(x) else x) for x in args]
        b = np.broadcast(*args)
        rows = [pyfunc(*v, **kw) for v in b]
        if not rows:
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        if isinstance(rows[0], tuple):
            return tuple(wrap(to_obj(list(r)).reshape(b.shape)) for r in zip(*rows))
        return wrap(to_obj(rows).reshape(b.shape))
    return functools.update_wrapper(g, pyfunc) if hasattr(pyfunc, "__name__") else g


NPProxy._x_fromiter = _x_fromiter
NPProxy._x_vectorize = _x_vectorize
NPProxy._x_full = _x_full
NPProxy._x_repeat = _x_repeat
NPProxy._x_array = _x_array
NPProxy._x_asarray = _x_asarray
NPProxy._x_asanyarray = _x_asarray
NPProxy._x_arange = lambda self, *a, **k: np.arange(*a, **k).view(IntND) if not any(is_sym(x) for x in a) else np.arange(*a, **k)
NPProxy._x_linspace = lambda self, *a, **k: lin(*a, **k)
NPProxy._x_logspace = lambda self, *a, **k: logs(*a, **k)
NPProxy._x_geomspace = lambda self, *a, **k: geoms(*a, **k)


def _mk_like(f):
    def g(self, a, *r, **k):
        dt = k.get("dtype", r[-1] if len(r) > (f is _full_like) else None)
        if isinstance(a, np.ndarray) and a.dtype.kind in "f" or is_sym(a):
            return f(a, *r, **k)
        if dt is not None and not is_quantity(a) and np.dtype(dt).kind in "fO":
            return f(symarray(np.asarray(a, dtype=float)), *r, **k)
        if f is _full_like:
            # np.full_like keeps the dtype of the model
            return np.full_like(a, *r, **k)
        return getattr(np, {_zeros_like: "zeros_like", _ones_like: "ones_like", _empty_like: "empty_like"}[f])(a, *r, **k)
    return g


NPProxy._x_zeros_like = _mk_like(_zeros_like)
NPProxy._x_ones_like = _mk_like(_ones_like)
NPProxy._x_empty_like = _mk_like(_empty_like)
NPProxy._x_full_like = _mk_like(_full_like)


# --------------------------------------------------------------------------- #
# math.* and float() as seen by agnpy
# --------------------------------------------------------------------------- #
def scalar_of(x):
    """the symbolic number float() would take from x; None if x is concrete"""
    if is_quantity(x):
        if not is_sym(x.value):
            return None
        x = x.to_value("")
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.view(np.ndarray).ravel()[0]
    return x if isinstance(x, SYM) else None


def _math(name, uf):
    real = getattr(math, name)
    fn = UF[uf] if isinstance(uf, np.ufunc) else uf

    def g(*args):
        sc = [scalar_of(a) for a in args]
        if all(v is None for v in sc):
            return real(*[float(a) if is_quantity(a) else a for a in args])
        return fn(*[a if v is None else v for v, a in zip(sc, args)])
    return functools.wraps(real)(g)


def _math_log(x, base=None):
    if scalar_of(x) is None and (base is None or scalar_of(base) is None):
        return math.log(x) if base is None else math.log(x, base)
    r = UF[np.log](scalar_of(x) if scalar_of(x) is not None else x)
    return r if base is None else T.div(r, lift(UF[np.log](base)))


def _math_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    sa, sb = scalar_of(a), scalar_of(b)
    if sa is None and sb is None:
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    a, b = lift(a if sa is None else sa), lift(b if sb is None else sb)
    return T.compare("le", T.absolute(a - b), T.maximum(T.maximum(T.absolute(a), T.absolute(b)) * rel_tol, lift(abs_tol)))


def _math_sum(it):
    v = list(it)
    return math.fsum(v) if not is_sym(v) else functools.reduce(lambda a, b: T.add(lift(a), lift(b)), v)


MATH = {n: _math(n, f) for n, f in {
    "sqrt": np.sqrt, "exp": np.exp, "expm1": np.expm1, "log10": np.log10, "log2": np.log2, "log1p": np.log1p,
    "pow": np.power, "sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos,
    "atan2": np.arctan2, "hypot": np.hypot, "fabs": np.absolute, "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh,
    "radians": np.radians, "degrees": np.degrees, "isnan": np.isnan, "isinf": np.isinf, "isfinite": np.isfinite,
}.items()}
MATH.update(log=_math_log, isclose=_math_isclose, fsum=_math_sum)


class _FloatType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Term))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class Float(float, metaclass=_FloatType):
    """float() of the code under test; as a dtype it is float64"""
    dtype = np.dtype(float)

    def __new__(cls, *a):
        if len(a) == 1:
            v = scalar_of(a[0])
            if v is not None:
                return v if isinstance(v, Term) else lift(v)
        return float(*a)


# --------------------------------------------------------------------------- #
# astropy
# --------------------------------------------------------------------------- #
_installed = False


def install_astropy():
    global _installed
    if _installed:
        return
    _installed = True
    import astropy.units as u
    from astropy.units import quantity as Q
    from astropy.units.quantity_helper import converters as C

    Quantity = u.Quantity
    orig_new = Quantity.__new__

    def __new__(cls, value, unit=None, dtype=np.inexact, copy=True, order=None, subok=False, ndmin=0):
        if dtype in (float, np.float64) and is_sym(value):
            # symbolic numbers stand for double precision
            dtype = object if is_quantity(value) else np.inexact
        if isinstance(value, (list, tuple)) and value and all(isinstance(v, Quantity) for v in value) and any(is_sym(v) for v in value):
            r = _join(np.stack._implementation)(value)
            return r if unit is None else r.to(unit)
        if dtype is np.inexact and not isinstance(value, (Quantity, str)) and is_sym(value):
            dtype = object
            if isinstance(value, SYM) or (isinstance(value, (list, tuple)) and not any(is_quantity(v) for v in value)):
                value = to_obj(value)
            elif isinstance(value, SymND):
                value = value.view(np.ndarray)
            if copy is False:
                copy = None
        elif dtype is object and isinstance(value, SymND):
            value = value.view(np.ndarray)
        if isinstance(value, np.ndarray) and value.dtype == object and value.size == 0 and not isinstance(value, Quantity):
            # nothing in it is symbolic
            value, dtype = np.zeros(value.shape), np.inexact
        return orig_new(cls, value, unit, dtype, copy, order, subok, ndmin)

    Quantity.__new__ = __new__

    orig_uf = Quantity.__array_ufunc__

    def __array_ufunc__(self, function, method, *inputs, **kwargs):
        if not any(is_sym(x) for x in inputs):
            return orig_uf(self, function, method, *inputs, **kwargs)
        inputs = tuple(u.Quantity(x) if isinstance(x, (list, tuple)) else x for x in inputs)
        # symbolic exponents only make sense for dimensionless bases
        converters, unit = C.converters_and_unit(function, method, *inputs)
        out = kwargs.get("out")
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if is_quantity(o):
                kwargs["out"] = (o.view(np.ndarray),)
            out = o
        if method == "reduce" and "initial" in kwargs and unit is not None and is_quantity(kwargs["initial"]):
            kwargs["initial"] = kwargs["initial"].to_value(unit)
        arrays = []
        for i, conv in zip(inputs, converters):
            v = i.value if is_quantity(i) else i
            arrays.append(conv(v) if conv else v)
        r = sym_ufunc(function, method, *arrays, **kwargs)
        if unit is None:
            return r
        if out is not None:
            if is_quantity(out):
                out._set_unit(unit)
            return out
        if not isinstance(r, np.ndarray):
            r = to_obj(r)
        elif r.dtype == object:
            r = r.view(np.ndarray)
        return self._new_view(r, unit, propagate_info=False)

    Quantity.__array_ufunc__ = __array_ufunc__

    orig_af = Quantity.__array_function__

    def __array_function__(self, function, types, args, kwargs):
        def any_sym(xs):
            for x in xs:
                if is_sym(x):
                    return True
                if isinstance(x, (list, tuple)) and any_sym(x):
                    return True
            return False
        if not any_sym(args) and not any_sym(kwargs.values()):
            if function in (np.linspace, np.logspace, np.geomspace) and False:
                return AF[function](*args, **kwargs)
            return orig_af(self, function, types, args, kwargs)
        return array_function(self, function, types, args, kwargs)

    Quantity.__array_function__ = __array_function__

    # the classes of the constants carry their own copies of these methods
    def subclasses(c):
        for k in c.__subclasses__():
            yield k
            yield from subclasses(k)
    from astropy.constants import Constant
    for k in [Constant] + list(subclasses(Constant)):
        for name, m in (("__array_ufunc__", __array_ufunc__), ("__array_function__", __array_function__)):
            if name in vars(k):
                setattr(k, name, m)

    orig_to_value = Quantity.to_value

    def to_value(self, unit=None, equivalencies=[]):
        r = orig_to_value(self, unit, equivalencies)
        if is_quantity(r):
            r = r.view(np.ndarray)
            r = r if r.shape else r[()]
        if isinstance(r, np.ndarray) and r.dtype == object:
            r = r.view(SymND)
        return r

    Quantity.to_value = to_value
    Quantity.value = property(to_value)

    orig_get = Quantity.__getitem__

    def __getitem__(self, key):
        if has_sym_mask(key):
            key = concrete_index(key)
        out = np.ndarray.__getitem__(self, key) if self.dtype == object and self.shape else None
        if out is None:
            return orig_get(self, key)
        if not isinstance(out, np.ndarray):
            out = self._new_view(to_obj(out))
        return out

    Quantity.__getitem__ = __getitem__

    orig_set = Quantity.__setitem__

    def __setitem__(self, i, value):
        if self.dtype != object:
            if has_sym_mask(i):
                i = concrete_index(i)
            return orig_set(self, i, value)
        v = self._to_own_unit(value)
        if isinstance(v, np.ndarray):
            v = raw(v)
        if has_sym_mask(i):
            return masked_store(self.view(np.ndarray), i, v)
        self.view(np.ndarray)[i] = v

    Quantity.__setitem__ = __setitem__

    orig_own = Quantity._to_own_unit

    def _to_own_unit(self, value, check_precision=True, *, unit=None):
        if self.dtype != object and not is_sym(value):
            return orig_own(self, value, check_precision, unit=unit)
        un = self.unit if unit is None else unit
        if is_quantity(value):
            return value.to_value(un)
        if isinstance(value, (list, tuple)) and any(is_quantity(v) for v in value):
            return u.Quantity(value).to_value(un)
        if arbitrary_unit(value):
            return value
        return u.Quantity(value, u.dimensionless_unscaled).to_value(un)

    Quantity._to_own_unit = _to_own_unit

    orig_arb = C.can_have_arbitrary_unit

    def can_have_arbitrary_unit(value):
        if is_sym(value):
            return arbitrary_unit(value)
        return orig_arb(value)

    C.can_have_arbitrary_unit = can_have_arbitrary_unit
    Q.can_have_arbitrary_unit = can_have_arbitrary_unit
    try:
        from astropy.units.quantity_helper import function_helpers as FH
        FH.can_have_arbitrary_unit = can_have_arbitrary_unit
    except Exception:
        pass

    def __format__(self, spec, _o=Quantity.__format__):
        if self.dtype != object:
            return _o(self, spec)
        if self.shape or not isinstance(self.value, (Term, float)):
            return "<sym>"
        unit = self.unit.to_string()
        return format(self.value, spec) + (" " + unit if unit else "")

    Quantity.__format__ = __format__

    for name, meth in (("min", "min"), ("max", "max"), ("sum", "sum"), ("mean", "mean")):
        def mk(name):
            orig = getattr(Quantity, name)

            def f(self, axis=None, *a, **k):
                if self.dtype != object:
                    return orig(self, axis, *a, **k)
                return _requant(getattr(to_obj(self.value).view(SymND), name)(axis=axis), self.unit)
            return f
        setattr(Quantity, name, mk(name))
    for name in ("argmax", "argmin", "argsort"):
        def mk2(name):
            orig = getattr(Quantity, name)

            def f(self, *a, **k):
                if self.dtype != object:
                    return orig(self, *a, **k)
                return getattr(self.value, name)(*a, **k)
            return f
        setattr(Quantity, name, mk2(name))

    def __round(self, decimals=0, out=None, _o=Quantity.round):
        if self.dtype != object:
            return _o(self, decimals, out)

        def one(x):
            x = lift(x)
            return lift(builtins.round(x.const(), decimals)) if x.is_const() else T.uf("round%d" % decimals, x)
        return self._new_view(to_obj(vec(one, 1)(to_obj(self.view(np.ndarray)))))
    Quantity.round = __round

    # unit * Term must build a Quantity
    from astropy.units import core
    orig_cond = core._condition_arg

    def _condition_arg(value):
        if isinstance(value, SYM):
            return value
        return orig_cond(value)

    core._condition_arg = _condition_arg

    # a scalar zero of the code under test may be summed into, in place
    orig_rmul = core.UnitBase.__rmul__

    def __rmul__(self, m):
        if type(m) in (int, float) and m == 0 and sys._getframe(1).f_globals.get("__name__", "").startswith("agnpy"):
            return Quantity(to_obj(lift(0.0)), self)
        return orig_rmul(self, m)

    core.UnitBase.__rmul__ = __rmul__
