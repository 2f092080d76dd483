"""Particle distributions: documented formulae, support, normalisation."""
import numpy
import astropy.units as u
from astropy.constants import m_e, m_p
from symx.ctx import case

from agnpy.spectra import (
    PowerLaw, BrokenPowerLaw, LogParabola, ExpCutoffPowerLaw, ExpCutoffBrokenPowerLaw,
    InterpolatedDistribution, EmptyDistribution,
)

CM3 = u.Unit("cm-3")


# ---- parameters and documented shape (k = 1) of every analytical distribution
def params(S, kind):
    gmin = S.real("gamma_min", 1.0, 1e3)
    gmax = S.real("gamma_max", 2e3, 1e8)
    if kind == "PowerLaw":
        return PowerLaw, dict(p=S.real("p", -1.0, 5.0), gamma_min=gmin, gamma_max=gmax)
    if kind == "BrokenPowerLaw":
        return BrokenPowerLaw, dict(p1=S.real("p1", -1.0, 5.0), p2=S.real("p2", -1.0, 5.0),
                                    gamma_b=S.real("gamma_b", 1e1, 1e7), gamma_min=gmin, gamma_max=gmax)
    if kind == "LogParabola":
        return LogParabola, dict(p=S.real("p", -1.0, 5.0), q=S.real("q", -0.5, 0.5),
                                 gamma_0=S.real("gamma_0", 1e1, 1e6), gamma_min=gmin, gamma_max=gmax)
    if kind == "ExpCutoffPowerLaw":
        return ExpCutoffPowerLaw, dict(p=S.real("p", -1.0, 5.0), gamma_c=S.real("gamma_c", 1e4, 1e7),
                                       gamma_min=gmin, gamma_max=gmax)
    return ExpCutoffBrokenPowerLaw, dict(p1=S.real("p1", -1.0, 5.0), p2=S.real("p2", -1.0, 5.0),
                                         gamma_c=S.real("gamma_c", 1e4, 1e7), gamma_b=S.real("gamma_b", 1e1, 1e7),
                                         gamma_min=gmin, gamma_max=gmax)


KINDS = ["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw"]


def shape(S, kind, g, d, low=None):
    """documented shape for gamma inside the support; low: g below the break"""
    np = S.np
    if kind == "PowerLaw":
        return g ** (-d["p"])
    if kind == "LogParabola":
        x = g / d["gamma_0"]
        return x ** (-d["p"] - d["q"] * np.log10(x))
    if kind == "ExpCutoffPowerLaw":
        return g ** (-d["p"]) * np.exp(-g / d["gamma_c"])
    x = g / d["gamma_b"]
    br = np.where(g <= d["gamma_b"], x ** (-d["p1"]), x ** (-d["p2"]))
    return br if kind == "BrokenPowerLaw" else br * np.exp(-g / d["gamma_c"])


def slope(S, kind, g, d):
    """d ln n / d ln gamma of the documented formula"""
    np = S.np
    if kind == "PowerLaw":
        return -d["p"]
    if kind == "LogParabola":
        return -d["p"] - 2 * d["q"] * np.log10(g / d["gamma_0"])
    if kind == "ExpCutoffPowerLaw":
        return -d["p"] - g / d["gamma_c"]
    br = np.where(g <= d["gamma_b"], -d["p1"], -d["p2"])
    return br if kind == "BrokenPowerLaw" else br - g / d["gamma_c"]


def inside(g, d):
    return (d["gamma_min"] <= g) & (g <= d["gamma_max"])


def gammas(S, d, n=3):
    """increasing Lorentz factors; the end points are not within 1e-10 of the
    limits of the support (the code snaps those to the limit)"""
    g = S.reals("g", n, 1.0, 1e9, increasing=True)
    S.assume((g[0] >= d["gamma_min"]) | (g[0] * (1 + 1e-6) < d["gamma_min"]))
    S.assume((g[-1] <= d["gamma_max"]) | (g[-1] > d["gamma_max"] * (1 + 1e-6)))
    return g


def mk_value(kind):
    @case("P01", "value_" + kind, time=60)
    def value(S):
        cls, d = params(S, kind)
        k = S.real("k", 1e-12, 1e8)
        g = gammas(S, d)
        ref = S.np.where(inside(g, d), k * shape(S, kind, g, d), 0.0)
        dist = cls(k=k * CM3, **d)
        S.eq("call", dist(g), ref * CM3, rtol=1e-8)
        S.eq("evaluate", cls.evaluate(g, k * CM3, **d), ref * CM3, rtol=1e-8)
        S.eq("evaluate_from_parameters", dist.evaluate(g, *dist.parameters), ref * CM3, rtol=1e-8)

    @case("P01", "scalar_" + kind, time=60)
    def scalar(S):
        cls, d = params(S, kind)
        k = S.real("k", 1e-12, 1e8)
        g = S.real("g", 1.0, 1e9)
        c = S.real("c", 1e-3, 1e3)
        ref = S.np.where(inside(g, d), k * shape(S, kind, g, d), 0.0)
        dist = cls(k=k * CM3, **d)
        S.eq("call", dist(g), ref * CM3, rtol=1e-8)
        S.eq("linear", cls(k=c * k * CM3, **d)(g), c * dist(g), rtol=1e-8)
        S.le("non_negative", 0.0 * CM3, dist(g))
        # the edges belong to the support
        S.eq("lower_edge", dist(d["gamma_min"]), k * shape(S, kind, d["gamma_min"], d) * CM3, rtol=1e-8)
        S.eq("upper_edge", dist(d["gamma_max"]), k * shape(S, kind, d["gamma_max"], d) * CM3, rtol=1e-8)

    @case("P01", "shapes_" + kind, time=60)
    def shapes(S):
        """tables of Lorentz factors of any shape; the values are those of their elements"""
        cls, d = params(S, kind)
        k = S.real("k", 1e-12, 1e8)
        g = S.reals("g", 4, 1.0, 1e9)
        for x in (g[0], g[3]):
            S.assume((x >= d["gamma_min"]) | (x * (1 + 1e-6) < d["gamma_min"]))
            S.assume((x <= d["gamma_max"]) | (x > d["gamma_max"] * (1 + 1e-6)))
        dist = cls(k=k * CM3, **d)
        form = S.choice("shape", [(2, 2), (1, 4), (4, 1), (1, 1, 4), (0,), ()])
        if form in ((0,), ()):
            x = S.np.reshape(g[:0] if form else g[:1], form)
            v = dist(x)
            S.check("shape", v.shape == form)
            S.eq("value", v, S.np.reshape(S.array([dist(y) .to_value("cm-3") for y in g[:0 if form else 1]]), form) * CM3)
            return
        x = S.np.reshape(g, form)
        v, i = dist(x), dist.SSA_integrand(x)
        S.check("shape", v.shape == form and i.shape == form)
        for j in range(4):
            S.eq("density", S.np.reshape(v, (4,))[j], dist(g[j]), rtol=1e-8)
            S.eq("integrand", S.np.reshape(i, (4,))[j], dist.SSA_integrand(g[j]), rtol=1e-8)

    @case("P02", "ssa_" + kind, time=60)
    def ssa(S):
        cls, d = params(S, kind)
        k = S.real("k", 1e-12, 1e8)
        g = gammas(S, d)
        if "gamma_b" in d:
            # the derivative does not exist at the break itself
            for x in g:
                S.assume((x < d["gamma_b"]) | (x > d["gamma_b"]))
        n = k * shape(S, kind, g, d)
        ref = S.np.where(inside(g, d), n / g * (slope(S, kind, g, d) - 2), 0.0)
        dist = cls(k=k * CM3, **d)
        S.eq("integrand", dist.SSA_integrand(g), ref * CM3, rtol=1e-7)
        S.eq("static", cls.evaluate_SSA_integrand(g, k * CM3, **d), ref * CM3, rtol=1e-7)
        if S.symbolic:
            # the solver side derives the integrand from the code's own density
            from symx import terms as T
            x = T.var("x", 1.0, 1e9)
            S.x.declare("x", 1.0, 1e9, True)
            S.assume(x > d["gamma_min"])
            S.assume(x < d["gamma_max"])
            if "gamma_b" in d:
                S.assume(S.np.logical_not(x == d["gamma_b"]))
            nx = dist(x).value
            der = x ** 2 * T.diff(T.lift(nx) / x ** 2, x)
            S.eq("derivative", dist.SSA_integrand(x).value, der)

    @case("P02", "edges_" + kind, time=60)
    def edges(S):
        """grids that miss the limits by a rounding error still include them"""
        cls, d = params(S, kind)
        k = S.real("k", 1e-12, 1e8)
        a, b = S.real("low_off", 1e-13, 5e-11), S.real("up_off", 1e-13, 5e-11)
        lo, hi = d["gamma_min"], d["gamma_max"]
        dist = cls(k=k * CM3, **d)
        ends = S.array([lo, hi])
        if "gamma_b" in d:
            for x in ends:
                S.assume((x < 0.999 * d["gamma_b"]) | (x > 1.001 * d["gamma_b"]))
        n = k * shape(S, kind, ends, d)
        S.eq("density", dist(S.array([lo * (1 - a), hi * (1 + b)])), n * CM3, rtol=1e-5)
        if kind != "LogParabola":  # its slope is taken at the unrounded point
          S.eq("ssa", dist.SSA_integrand(S.array([lo * (1 - a), hi * (1 + b)])),
             n / ends * (slope(S, kind, ends, d) - 2) * CM3, rtol=1e-5)

    @case("P03", "norm_" + kind, time=90)
    def norm(S):
        cls, d = params(S, kind)
        n = S.real("n_tot", 1e-6, 1e6)
        V = S.real("V", 1e40, 1e50)
        proton = S.choice("particle", ["e", "p"]) == "p"
        mass = m_p if proton else m_e
        mc2 = mass.to("erg", equivalencies=u.mass_energy())
        np = S.np
        gr = np.logspace(np.log10(d["gamma_min"]), np.log10(d["gamma_max"]), 200)
        sh = shape(S, kind, gr, d)
        i0 = np.trapz(sh, gr)
        i1 = np.trapz(sh * gr, gr)
        # quantities of any unit
        alt = S.choice("units", [False, True])
        un = lambda v, cgs, other: (v * u.Unit(cgs)).to(other) if alt else v * u.Unit(cgs)
        a = cls.from_total_density(un(n, "cm-3", "m-3"), mass, **d)
        S.eq("total_density", a.k, n / i0 * CM3)
        b = cls.from_total_energy_density(un(n, "erg cm-3", "eV m-3"), mass, **d)
        S.eq("total_energy_density", b.k, n * u.Unit("erg cm-3") / mc2 / i1)
        e = cls.from_total_energy(un(n * 1e40, "erg", "J"), un(V, "cm3", "pc3"), mass, **d)
        S.eq("total_energy", e.k, n * 1e40 / V * u.Unit("erg cm-3") / mc2 / i1)
        for x in (a, b, e):
            S.check("particle", x.mass is mass and x.particle == ("protons" if proton else "electrons"))
        # the density found again by the object itself
        S.eq("integrate", a.integrate(), n * CM3)

    @case("P03", "moments_" + kind, time=90)
    def moments(S):
        cls, d = params(S, kind)
        k = S.real("k", 1e-12, 1e8)
        dist = cls(k=k * CM3, **d)
        np = S.np
        lo, hi = d["gamma_min"], d["gamma_max"]
        part = S.choice("limits", ["all", "low", "up", "both", "beyond"])
        kw = {}
        if part in ("low", "both"):
            lo = kw["gamma_low"] = S.real("gamma_low", 1e3, 1.5e3)
        if part in ("up", "both"):
            hi = kw["gamma_up"] = S.real("gamma_up", 1.6e3, 2e3)
        if part == "beyond":
            # wider than the support
            lo = kw["gamma_low"] = lo / S.real("wider_low", 1.1, 9.0)
            hi = kw["gamma_up"] = hi * S.real("wider_up", 1.1, 9.0)
        gr = np.logspace(np.log10(lo), np.log10(hi), 200)
        power = S.choice("power", [0, 1, 2, -1, 0.5] if part == "all" else [0, 1] if part == "beyond" else [0, 1, 2])
        dens = shape(S, kind, gr, d)
        if part == "beyond":
            dens = np.where((gr >= d["gamma_min"]) & (gr <= d["gamma_max"]), dens, 0.0)
            for x in gr:
                for e in (d["gamma_min"], d["gamma_max"]):
                    S.assume((x > e * (1 + 1e-6)) | (x < e * (1 - 1e-6)))
        ref = np.trapz(k * dens * gr ** power, gr)
        if part != "beyond":
            S.assume(lo >= d["gamma_min"])
        S.eq("integrate", dist.integrate(gamma_power=power, **kw), ref * CM3)
        # whichever rule the user chose to integrate with
        dist.integrator = lambda y, x, axis=0: 3 * np.sum(y, axis=axis)
        S.eq("integrator", dist.integrate(gamma_power=power, **kw), 3 * np.sum(k * dens * gr ** power) * CM3)

    @case("P03", "gamma1_" + kind, time=60)
    def gamma1(S):
        cls, d = params(S, kind)
        d["gamma_min"] = S.real("gmin1", 0.5, 1.0)
        n = S.real("n_1", 1e-6, 1e6)
        q = n * CM3 if S.choice("units", [True, False]) else (n * CM3).to("m-3")
        a = cls.from_density_at_gamma_1(q, m_e, **d)
        S.eq("density_at_1", a(S.array([1.0, 2.0]))[0], n * CM3, rtol=1e-8)


for _k in KINDS:
    mk_value(_k)


# ------------------------------------------------- tabulated and empty distributions
class LogLog:
    """straight lines in the plane handed to it (exact for tabulated power laws)"""

    def __init__(self, x, y, nu=0):
        self.x, self.y, self.nu = x, y, nu

    def derivative(self):
        return LogLog(self.x, self.y, 1)

    def __call__(self, q):
        slope = (self.y[-1] - self.y[0]) / (self.x[-1] - self.x[0])
        if self.nu:
            return slope + 0 * q
        return self.y[0] + slope * (q - self.x[0])


def table(S):
    """a power law tabulated at three Lorentz factors"""
    k, p = S.real("k", 1e-8, 1e8), S.real("p", 0.5, 5.0)
    x = S.reals("x", 3, 1.0, 1e8, increasing=True)
    S.assume(x[1] > 1.01 * x[0])
    S.assume(x[2] > 1.01 * x[1])
    return k, p, x


@case("P04", "power_law_table", time=60)
def interp(S):
    np = S.np
    k, p, x = table(S)
    f = S.real("norm", 1e-3, 1e3)
    d = InterpolatedDistribution(x, k * x ** (-p) * CM3, norm=f, interpolator=LogLog)
    S.eq("gamma_min", d.gamma_min, x[0])
    S.eq("gamma_max", d.gamma_max, x[2])
    g = S.reals("g", 2, 1.0, 1e9, increasing=True)
    S.assume((g[0] >= x[0]) | (g[0] * (1 + 1e-6) < x[0]))
    S.assume((g[-1] <= x[2]) | (g[-1] > x[2] * (1 + 1e-6)))
    inn = (x[0] <= g) & (g <= x[2])
    n = k * g ** (-p)
    S.eq("density", d(g), np.where(inn, f * n, 0.0) * CM3, rtol=1e-6)
    S.eq("SSA", d.SSA_integrand(g), np.where(inn, -f * n * (p + 2) / g, 0.0) * CM3, rtol=1e-5)
    q = S.real("norm_2", 1e-3, 1e3)
    d.norm = q
    S.eq("rescaled", d(g), np.where(inn, q * n, 0.0) * CM3, rtol=1e-6)
    S.eq("evaluate", d.evaluate(g, *d.parameters), d(g))
    d.norm = 0
    S.eq("switched off", d(g), 0 * n * CM3)


@case("P04", "nodes", time=60)
def nodes(S):
    np = S.np
    x = S.reals("x", 4, 1.0, 1e8, increasing=True)
    for i in range(3):
        S.assume(x[i + 1] > 1.05 * x[i])
    n = S.reals("n", 4, 1e-6, 1e6)
    f = S.real("norm", 1e-3, 1e3)
    d = InterpolatedDistribution(x, n * CM3, norm=f)
    S.eq("through the table", d(x * 1.0), f * n * CM3, rtol=1e-6)
    S.raises("unit", ValueError, lambda: InterpolatedDistribution(x, n * u.Unit("m-3")))
    S.raises("unit", ValueError, lambda: InterpolatedDistribution(x, n * u.Unit("erg cm-3")))


@case("P04", "zeros_in_table", time=60)
def zeros(S):
    np = S.np
    k, p, x = table(S)
    n = k * x ** (-p)
    lead = S.choice("where", ["first", "last"]) == "first"
    extra = S.real("extra", 1e9, 1e10) if not lead else S.real("extra", 0.1, 0.9)
    xs = S.array([extra] + list(x)) if lead else S.array(list(x) + [extra])
    ns = S.array([0.0] + list(n)) if lead else S.array(list(n) + [0.0])
    d = InterpolatedDistribution(xs, ns * CM3, interpolator=LogLog)
    S.eq("gamma_min", d.gamma_min, x[0])
    S.eq("gamma_max", d.gamma_max, x[2])
    S.eq("kept", d(x * 1.0), n * CM3, rtol=1e-6)
    S.eq("removed", d(S.array([extra])), S.array([0.0]) * CM3)


@case("P04", "integer_lorentz_factors", time=40)
def ints(S):
    k, p = S.real("k", 1e-8, 1e8), S.real("p", 0.5, 5.0)
    x = S.array([1.0, 1e4])
    d = InterpolatedDistribution(x, k * x ** (-p) * CM3, interpolator=LogLog)
    gi = numpy.array([10, 100, 100000])
    gf = S.array([10.0, 100.0, 100000.0])
    S.eq("same as floats", d(gi), d(gf))
    pl = PowerLaw(k=k * CM3, p=p, gamma_min=1, gamma_max=1e4)
    S.eq("power law", pl(gi), d(gf), rtol=1e-6)


@case("P04", "integrate", time=40)
def interp_int(S):
    np = S.np
    k, p, x = table(S)
    d = InterpolatedDistribution(x, k * x ** (-p) * CM3, interpolator=LogLog)
    gr = np.logspace(np.log10(x[0]), np.log10(x[2]), 200)
    for power in (0, 1):
        S.eq("moment", d.integrate(gamma_power=power), np.trapz(k * gr ** (power - p), gr) * CM3, rtol=1e-5)


@case("P04", "empty", time=40)
def empty(S):
    g = S.reals("g", 3, 1.0, 1e9)
    d = EmptyDistribution()
    S.eq("density", d(g), 0 * g * CM3)
    S.eq("evaluate", d.evaluate(g, *d.parameters), 0 * g * CM3)
    S.eq("integral", d.integrate(), 0 * CM3)
    S.eq("integral", d.integrate(g[0], 2 * g[0], 1), 0 * CM3)
