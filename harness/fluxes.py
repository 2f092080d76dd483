"""Integral fluxes of any radiative process; constraints on the electron spectrum."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.radiative_process import RadiativeProcess
from agnpy.constraints import SpectralConstraints
from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw
from agnpy.synchrotron import Synchrotron, ProtonSynchrotron
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.targets import RingDustTorus

C = const.c.cgs.value
ME = const.m_e.cgs.value
E = const.e.gauss.value
ST = const.sigma_T.cgs.value
PI = float(numpy.pi)
SED = u.Unit("erg cm-2 s-1")
LU = u.Unit("erg s-1")
HEV = const.h.to_value("eV s")
EV = (1 * u.eV).to_value("erg")


class Any(RadiativeProcess):
    """a process with any SED"""

    def __init__(self, f, unit=SED):
        self.f, self.unit = f, unit

    def sed_flux(self, nu):
        return (self.f(nu.to_value("Hz")) * SED).to(self.unit)


def bump(nu):
    """what the arbitrary SED is in the replays"""
    x = numpy.log10(nu) - 18
    return 1e-10 * numpy.exp(-x ** 2 / 20)


def process(S):
    un = S.choice("sed unit", ["erg cm-2 s-1", "TeV m-2 s-1"])
    f = S.ufn("sed", bump, positive=True)
    return Any(f, un), f


def in_unit(nu, un):
    """the same frequency in another, equivalent, unit"""
    return {"Hz": lambda: nu * u.Hz, "GHz": lambda: nu / 1e9 * u.GHz, "MeV": lambda: nu * (HEV / 1e6) * u.MeV,
            "cm": lambda: C / nu * u.cm}[un]()


@case("P23", "differential", time=60)
def differential(S):
    p, f = process(S)
    nu = 10.0 ** S.reals("log_nu", 2, 8.0, 29.0)
    v = p.diff_energy_flux(nu * u.Hz)
    en = nu * HEV
    S.check("unit", v.unit == u.Unit("eV-1 cm-2 s-1"))
    S.eq("value", v, f(nu) / EV / en ** 2 * u.Unit("eV-1 cm-2 s-1"))
    S.eq("alone", p.diff_energy_flux(nu[1:] * u.Hz)[0], v[1])
    S.eq("order", p.diff_energy_flux(nu[::-1] * u.Hz)[1], v[0])
    S.eq("GHz", p.diff_energy_flux((nu * u.Hz).to("GHz")), v)


def window(S):
    lo, dec = S.real("log_min", 8.0, 20.0), S.real("decades", 0.01, 9.0)
    return 10.0 ** lo, 10.0 ** (lo + dec)


def mk_integrals(n, bound, name):
    @case("P23", name, time=60)
    def integrals(S):
        np = S.np
        S.grid({50: 3, 17: 4})
        p, f = process(S)
        a, b = window(S)
        ua, ub = S.choice("units", [("Hz", "Hz"), ("GHz", "MeV"), ("cm", "GHz"), ("MeV", "MeV")])
        k = {} if n == 50 else {"nu_points": n}
        nu = np.logspace(np.log10(a), np.log10(b), n)
        S.check("points", len(nu) == (bound if S.symbolic else n))
        fx = f(nu)
        w = p.energy_flux_integral(in_unit(a, ua), in_unit(b, ub), **k)
        S.check("unit of the energy flux", w.unit == SED)
        ref = 0.0
        for i in range(len(nu) - 1):
            ref = ref + (fx[i] / nu[i] + fx[i + 1] / nu[i + 1]) / 2 * (nu[i + 1] - nu[i])
        S.eq("energy flux", w, ref * SED, rtol=1e-5)
        v = p.flux_integral(in_unit(a, ua), in_unit(b, ub), **k)
        S.check("unit of the flux", v.unit == u.Unit("cm-2 s-1"))
        ref = 0.0
        for i in range(len(nu) - 1):
            ref = ref + (fx[i] / nu[i] ** 2 + fx[i + 1] / nu[i + 1] ** 2) / 2 * (nu[i + 1] - nu[i]) / (HEV * EV)
        S.eq("flux", v, ref * u.Unit("cm-2 s-1"), rtol=1e-5)
        S.le("positive", 0.0 * SED, w)


mk_integrals(50, 3, "integrals")
mk_integrals(17, 4, "integrals_with_points")


@case("P23", "mean_energy", time=60)
def mean_energy(S):
    """the photons of the window carry energies between its ends"""
    S.grid({50: 3})
    p, f = process(S)
    a, q = 10.0 ** S.real("log_min", 8.0, 20.0), S.real("step", 1.01, 1e4)
    b = a * q * q
    w, v = p.energy_flux_integral(a * u.Hz, b * u.Hz), p.flux_integral(a * u.Hz, b * u.Hz)
    S.le("low", v * (a * HEV * EV * u.erg), w, slack=1e-5)
    S.le("high", w, v * (b * HEV * EV * u.erg), slack=1e-5)


@case("P23", "empty_window", time=60)
def empty(S):
    S.grid({50: 3})
    p, f = process(S)
    a = window(S)[0]
    S.eq("energy flux", p.energy_flux_integral(a * u.Hz, a * u.Hz), 0 * SED)
    S.eq("flux", p.flux_integral(a * u.Hz, a * u.Hz), 0 * u.Unit("cm-2 s-1"))


@case("P23", "linear", time=60)
def linear(S):
    """fluxes of two processes add"""
    S.grid({50: 3})
    f, g, q = S.ufn("sed_1", bump, positive=True), S.ufn("sed_2", lambda nu: bump(nu * 30), positive=True), S.real("q", 1e-3, 1e3)
    a, b = window(S)
    one, two, both = Any(f), Any(g), Any(lambda nu: f(nu) + q * g(nu))
    for m in ("energy_flux_integral", "flux_integral"):
        r = [getattr(p, m)(a * u.Hz, b * u.Hz) for p in (one, two, both)]
        S.eq(m, r[2], r[0] + q * r[1])
    nu = S.array([a, b]) * u.Hz
    r = [p.diff_energy_flux(nu) for p in (one, two, both)]
    S.eq("differential", r[2], r[0] + q * r[1])


class Endless(PowerLaw):
    def __call__(self, gamma):
        return self.k * gamma ** (-self.p)

    def SSA_integrand(self, gamma):
        return self.k * (-self.p - 2) * gamma ** (-self.p - 1)


def blob(S, **k):
    d = dict(z=S.real("z", 1e-3, 5.0), delta=S.real("delta_D", 1.0, 60.0), B=S.real("B", 1e-4, 1e2), R=10.0 ** S.real("log_R", 14.0, 19.0),
             xi=10.0 ** S.real("log_xi", -8.0, 0.0), Gamma=S.real("Gamma", 1.5, 60.0))
    bu, ru = S.choice("units", [("G", "cm"), ("T", "pc"), ("G", "km"), ("mT", "cm")])
    b = Blob(R_b=(d["R"] * u.cm).to(ru), z=d["z"], delta_D=d["delta"], Gamma=d["Gamma"],
             B=d["B"] * {"G": 1.0, "T": 1e-4, "mT": 0.1}[bu] * u.Unit(bu), xi=d["xi"], **k)
    return b, d


def constraints(S, b, **former):
    """the constraints of a region that was another one when they were first asked for"""
    keep = {n: getattr(b, n) for n in ("R_b", "B", "xi", *former)}
    b.R_b, b.B, b.xi = 3e15 * u.cm, 0.7 * u.G, 0.1
    for n, v in former.items():
        setattr(b, n, v)
    k = SpectralConstraints(b)
    t = RingDustTorus(1e45 * LU, 0.5, 1000.0 * u.K)
    for g in (k.gamma_max_larmor, k.gamma_max_ballistic, k.gamma_max_synch, k.gamma_break_synch, k.gamma_max_SSC, k.gamma_break_SSC, k.gamma_max_EC_DT(t), k.gamma_break_EC_DT(t)):
        S.check("a number", S.symbolic or g > 0)
    for n, v in keep.items():
        setattr(b, n, v)
    return k


def other_processes(S):
    n = Endless(k=10.0 ** S.real("log_k", 0.0, 6.0) * u.Unit("cm-3"), p=S.real("p", 2.0, 3.0), gamma_min=10.0, gamma_max=1e5)
    b = Blob(R_b=1e16 * u.cm, z=0.3, delta_D=10.0, Gamma=10.0, B=1.0 * u.G, n_e=n)
    return [Synchrotron(b), SynchrotronSelfCompton(b), ExternalCompton(b, RingDustTorus(1e45 * LU, 0.5, 1000.0 * u.K), 1e18 * u.cm)]


@case("P23", "every_process", time=60)
def every(S):
    """every process integrates its own SED"""
    f = S.ufn("sed", bump, positive=True)
    S.grid({50: 3})
    a, b = window(S)
    ref = Any(f)
    for p in other_processes(S):
        name = type(p).__name__
        p.sed_flux = lambda nu: f(nu.to_value("Hz")) * SED
        for m in ("energy_flux_integral", "flux_integral"):
            S.eq("%s %s" % (name, m), getattr(p, m)(a * u.Hz, b * u.Hz), getattr(ref, m)(a * u.Hz, b * u.Hz))
        nu = S.array([a, b]) * u.Hz
        S.eq("%s differential" % name, p.diff_energy_flux(nu), ref.diff_energy_flux(nu))


# ------------------------------------------------------------------------ constraints
@case("P24", "larmor", time=60)
def larmor(S):
    b, d = blob(S)
    k = constraints(S, b)
    g = k.gamma_max_larmor
    S.check("number", not hasattr(g, "unit"))
    S.eq("documented", g, d["R"] * E * d["B"] / (ME * C ** 2))
    # the Larmor radius of such an electron is the size of the region
    S.eq("radius", g * ME * C ** 2 / (E * d["B"]), d["R"])
    S.eq("ballistic", k.gamma_max_ballistic, d["xi"] * g)
    # acceleration time equals crossing time
    gb = k.gamma_max_ballistic
    S.eq("times", gb * ME * C ** 2 / (E * d["B"]) / (d["xi"] * C), d["R"] / C)
    S.le("order", k.gamma_max_ballistic, g)
    # the constraints follow the region
    q = S.real("q", 1.0, 1e3)
    b.R_b = b.R_b * q
    S.eq("follows", k.gamma_max_larmor, g * q)


@case("P24", "synchrotron", time=60)
def synch(S):
    b, d = blob(S)
    k = constraints(S, b)
    g = k.gamma_max_synch
    S.check("number", not hasattr(g, "unit"))
    UB = d["B"] ** 2 / (8 * PI)
    S.eq("documented", g, S.sqrt(6 * PI * d["xi"] * E / (ST * d["B"])))
    # gains d["xi"] c E / R_L (E / R_L = e B) equal the losses of the synchrotron process
    S.eq("balance", (4 / 3 * ST * C * UB) * g ** 2, d["xi"] * C * E * d["B"])
    S.eq("balance with the process", Synchrotron(b).electron_energy_loss_rate(g), d["xi"] * C * E * d["B"] * LU)
    gb = k.gamma_break_synch
    S.eq("documented break", gb, 6 * PI * ME * C ** 2 / (ST * d["B"] ** 2 * d["R"]))
    # energy over losses is the crossing time
    S.eq("cooling", gb * ME * C ** 2 * u.erg / Synchrotron(b).electron_energy_loss_rate(gb), d["R"] / C * u.s)


class Bright(Blob):
    """a region with any density of synchrotron photons"""
    u_ph_synch = property(lambda self: self._u)


@case("P24", "self_compton", time=60)
def ssc(S):
    b, d = blob(S)
    U = 10.0 ** S.real("log_u", -10.0, 5.0)
    b.__class__, b._u = Bright, (U * u.Unit("erg cm-3")).to(S.choice("unit of u", ["erg cm-3", "J m-3"]))
    k = constraints(S, b, _u=1e-3 * u.Unit("erg cm-3"))
    g = k.gamma_max_SSC
    S.check("number", not hasattr(g, "unit"))
    S.eq("documented", g, S.sqrt(3 * d["xi"] * E * d["B"] / (4 * ST * U)))
    S.eq("balance", 4 / 3 * ST * C * U * g ** 2, d["xi"] * C * E * d["B"])
    gb = k.gamma_break_SSC
    S.eq("documented break", gb, 3 * ME * C ** 2 / (4 * ST * U * d["R"]))
    S.eq("cooling", gb * ME * C ** 2 / (4 / 3 * ST * C * U * gb ** 2), d["R"] / C)


@case("P24", "own_photons", time=60)
def own_photons(S):
    """the photons are those of the region"""
    b, d = blob(S, n_e=Endless(k=10.0 ** S.real("log_k", -10.0, 6.0) * u.Unit("cm-3"), p=S.real("p", 1.0, 5.0), gamma_min=10.0, gamma_max=1e5), gamma_e_size=50)
    S.grid({50: 2})
    k = constraints(S, b, n_e=Endless(k=1e3 * u.Unit("cm-3"), p=2.5, gamma_min=10.0, gamma_max=1e4))
    U = b.u_ph_synch.to_value("erg cm-3")
    S.eq("max", k.gamma_max_SSC, S.sqrt(3 * d["xi"] * E * d["B"] / (4 * ST * U)))
    S.eq("break", k.gamma_break_SSC, 3 * ME * C ** 2 / (4 * ST * U * d["R"]))


@case("P24", "external_compton", time=60)
def ec(S):
    b, d = blob(S)
    k = constraints(S, b)
    t = RingDustTorus(10.0 ** S.real("log_L", 40.0, 48.0) * LU, S.real("xi_dt", 1e-4, 1.0), 1000.0 * u.K, 10.0 ** S.real("log_Rt", 15.0, 20.0) * u.cm)
    r = S.choice("r", ["default", "cm", "pc"])
    if r == "default":
        q, a = 0 * u.cm, ()
    else:
        q = (10.0 ** S.real("log_r", 15.0, 20.0) * u.cm).to(r)
        a = (q,)
    U = t.u(q, b).to_value("erg cm-3")
    g = k.gamma_max_EC_DT(t, *a)
    S.check("number", not hasattr(g, "unit"))
    S.eq("documented", g, S.sqrt(3 * d["xi"] * E * d["B"] / (4 * ST * U)))
    gb = k.gamma_break_EC_DT(t, *a)
    S.eq("documented break", gb, 3 * ME * C ** 2 / (4 * ST * U * d["R"]))
    S.eq("keyword", k.gamma_break_EC_DT(t, r=q), gb)
    S.eq("keyword max", k.gamma_max_EC_DT(dt=t, r=q), g)
