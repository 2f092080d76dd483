"""Imports the *real* agnpy of /repo.

symbolic mode: inside the agnpy modules `numpy` is NPProxy (bounded grids,
object arrays), `Distance` and the scipy interpolators are stubs; the source of
agnpy itself is executed as it is.  concrete mode: nothing is replaced
(reduced=True only bounds the sizes of the grids, for the encoder validation).
"""
import builtins
import importlib
import logging
import math
import os
import sys
import types
import warnings

REPO = os.environ.get("AGNPY_REPO", "/repo")
STATE = {"mode": None}


def _preimport(fit=False):
    import numpy, scipy.interpolate, scipy.integrate, scipy.special
    import astropy.units, astropy.constants, astropy.coordinates, astropy.table, astropy.io.fits
    import astropy.cosmology
    import astropy.modeling.models
    if fit:
        import gammapy.modeling.models, gammapy.modeling, gammapy.estimators, gammapy.datasets
        import sherpa.models, sherpa.models.model, sherpa.models.parameter, sherpa.data


def load(mode="symbolic", fit=False):
    """mode: symbolic | concrete | reduced"""
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    _preimport(fit)
    if STATE["mode"] is None:
        STATE["mode"] = mode
        sys.path.insert(0, REPO)
        if mode == "symbolic":
            _install_symbolic()
        elif mode == "reduced":
            _install_reduced()
    import agnpy
    if not os.path.realpath(agnpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("agnpy was not imported from %s" % REPO)
    for m in MODULES:
        importlib.import_module(m)
    if fit:
        importlib.import_module("agnpy.fit")
    if STATE["mode"] == "symbolic":
        from .npsym import Float
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "agnpy" and isinstance(m, types.ModuleType):
                m.__dict__.setdefault("int", Int)
                m.__dict__.setdefault("float", Float)
    return STATE.get("np") or importlib.import_module("numpy")


MODULES = [
    "agnpy.spectra", "agnpy.emission_regions", "agnpy.synchrotron", "agnpy.compton", "agnpy.targets",
    "agnpy.absorption", "agnpy.constraints", "agnpy.radiative_process", "agnpy.time_evolution",
    "agnpy.utils.math", "agnpy.utils.geometry", "agnpy.utils.conversion",
    "agnpy.synchrotron.proton_synchrotron", "agnpy.time_evolution._time_evolution_utils",
]


class _Namespace(types.ModuleType):
    """a module with some names replaced"""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self._real, name)


def _hook_imports(repl):
    orig = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = orig(name, globals, locals, fromlist, level)
        if level == 0 and globals is not None and str(globals.get("__name__", "")).split(".")[0] == "agnpy":
            if fromlist:
                return repl.get(name, m)
            return repl.get(name.split(".")[0], m)
        return m

    builtins.__import__ = imp


def _install_symbolic():
    import numpy as np
    from . import npsym as N
    N.install_astropy()
    proxy = N.NPProxy()
    STATE["np"] = proxy
    import scipy.interpolate as si
    import astropy.coordinates as ac
    _hook_imports({
        "numpy": proxy,
        "math": _Namespace(math, N.MATH),
        "scipy.interpolate": _Namespace(si, {
            "CubicSpline": spline_class("CubicSpline"),
            "PchipInterpolator": spline_class("PchipInterpolator"),
            "RegularGridInterpolator": GridInterp,
        }),
        "astropy.coordinates": _Namespace(ac, {"Distance": Distance}),
    })


def _install_reduced():
    import numpy as np
    from .npsym import GRID

    class P(types.ModuleType):
        def __getattr__(self, name):
            return getattr(np, name)

    p = P("numpy")
    p.linspace = lambda a, b, num=50, *r, **k: np.linspace(a, b, GRID(num), *r, **k)
    p.logspace = lambda a, b, num=50, *r, **k: np.logspace(a, b, GRID(num), *r, **k)
    p.geomspace = lambda a, b, num=50, *r, **k: np.geomspace(a, b, GRID(num), *r, **k)
    STATE["np"] = p
    _hook_imports({"numpy": p})


class _IntType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


class Int(metaclass=_IntType):
    """int() of the code under test; a whole number that depends on symbolic
    values can only be printed"""

    def __new__(cls, *a, **k):
        from . import npsym as N
        if len(a) == 1 and N.is_sym(a[0]):
            v = a[0].to_value("") if hasattr(a[0], "to_value") else a[0]
            if isinstance(v, N.np.ndarray):
                v = v.ravel()[0]
            v = N.lift(v)
            if not v.is_const():
                return object.__new__(cls)
            a = (v.const(),)
        return int(*a, **k)

    def __format__(self, spec):
        return "<sym>"

    def __getattr__(self, name):
        from .npsym import Unsupported
        raise Unsupported("a whole number that depends on symbolic values")


# --------------------------------------------------------------------------- #
# stubs
# --------------------------------------------------------------------------- #
def luminosity_distance(z, cosmology=None):
    import astropy.units as u
    import numpy as np
    from . import terms as T, npsym as N
    name = "dL" if cosmology is None else "dL_%d" % id(cosmology)
    z_ = N.raw(z.value if hasattr(z, "unit") else z)
    if isinstance(z_, np.ndarray):
        v = N.vec(lambda x: T.uf(name, x, positive=True), 1)(z_)
        return u.Quantity(N.to_obj(v), "cm", dtype=object)
    return u.Quantity(N.to_obj(T.uf(name, z_, positive=True)), "cm", dtype=object)


def Distance(value=None, unit=None, z=None, cosmology=None, **k):
    """luminosity distance: an arbitrary positive function of the redshift"""
    if z is None:
        import astropy.coordinates as ac
        return ac.Distance(value, unit, **k)
    return luminosity_distance(z, cosmology)


def spline_class(name):
    class Spline:
        """arbitrary function of the point and of the nodes that passes through
        the nodes"""

        def __init__(self, x, y, *a, nu=0, **k):
            from . import npsym as N
            from .terms import lift
            self.x = [lift(v) for v in N.to_obj(x).ravel()]
            self.y = [lift(v) for v in N.to_obj(y).ravel()]
            self.nu = nu

        def derivative(self, nu=1):
            r = Spline.__new__(Spline)
            r.x, r.y, r.nu = self.x, self.y, self.nu + nu
            return r

        def __call__(self, q, nu=0):
            from . import npsym as N, terms as T
            n = self.nu + nu

            def one(v):
                v = T.lift(v)
                if n == 0:
                    for xi, yi in zip(self.x, self.y):
                        if v is xi:
                            return yi
                return T.uf("%s%d" % (name, n), v, *self.x, *self.y)
            if hasattr(q, "unit"):
                q = q.to_value("")
            r = N.vec(one, 1)(N.raw(q))
            return N.wrap(r)

    Spline.__name__ = name
    return Spline


class GridInterp:
    """multilinear interpolation in the cell of the point (forks on the cell)"""

    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=math.nan):
        import numpy as np
        self.points = [np.asarray(p, dtype=float) for p in points]
        self.values = np.asarray(values, dtype=float)
        self.method, self.bounds_error, self.fill = method, bounds_error, fill_value
        if method != "linear":
            raise TypeError("interpolation method not encoded")
        if self.values.shape != tuple(len(p) for p in self.points):
            raise ValueError("shape mismatch between points and values")

    def __call__(self, xi):
        import numpy as np
        from . import npsym as N, terms as T
        a = N.to_obj(xi)
        out = np.empty(a.shape[:-1], dtype=object)
        for idx in np.ndindex(*a.shape[:-1]):
            out[idx] = self.one([T.lift(v) for v in a[idx]])
        return out.view(N.SymND)

    def one(self, q):
        from . import terms as T
        cells, ws = [], []
        for v, p in zip(q, self.points):
            if bool(v < p[0]) or bool(v > p[-1]):
                if self.bounds_error:
                    raise ValueError("out of bounds")
                return T.lift(self.fill)
            lo, hi = 0, len(p) - 1
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if bool(v < p[mid]):
                    hi = mid
                else:
                    lo = mid
            cells.append(lo)
            ws.append((v - p[lo]) / float(p[lo + 1] - p[lo]))
        r = T.ZERO
        for corner in range(2 ** len(q)):
            w, ix = T.ONE, []
            for d in range(len(q)):
                b = corner >> d & 1
                ix.append(cells[d] + b)
                w = w * (ws[d] if b else 1 - ws[d])
            r = r + w * float(self.values[tuple(ix)])
        return r


def uf_value(name, args):
    """value of a stub at a concrete point, for the witness search"""
    if name.startswith("pos_dL"):
        from astropy.cosmology import Planck18
        try:
            return Planck18.luminosity_distance(args[0]).to_value("cm")
        except Exception:
            return math.nan
    if name.startswith("uf_round"):
        return float(round(args[0], int(name[len("uf_round"):])))
    for s in ("CubicSpline", "PchipInterpolator"):
        if name.startswith("uf_" + s):
            import scipy.interpolate as si
            nu = int(name[len("uf_" + s):])
            n = (len(args) - 1) // 2
            try:
                return float(getattr(si, s)(args[1:1 + n], args[1 + n:])(args[0], nu))
            except Exception:
                return math.nan
    return math.nan
