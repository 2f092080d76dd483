"""Synchrotron radiation of electrons and protons."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw, BrokenPowerLaw, LogParabola
from agnpy.synchrotron import Synchrotron, nu_synch_peak
from agnpy.synchrotron import synchrotron as sy
from agnpy.synchrotron.proton_synchrotron import ProtonSynchrotron
from agnpy.utils.math import trapz_loglog, gamma_e_to_integrate

C = const.c.cgs.value
H = const.h.cgs.value
E = const.e.gauss.value
ME = const.m_e.cgs.value
MP = const.m_p.cgs.value
ST = const.sigma_T.cgs.value
BCR = 4.414e13
PI = float(numpy.pi)
CM3 = u.Unit("cm-3")
SED = u.Unit("erg cm-2 s-1")


def weighted(y, x, axis=0):
    """a quadrature rule that is none of the library's"""
    sl = [slice(None)] * numpy.ndim(y)
    sl[axis] = slice(1, None)
    return 2.5 * numpy.sum(y[tuple(sl)], axis=axis) * x[1]


def plain(y, x, axis=0):
    """the least a positive quadrature rule can be"""
    return numpy.sum(y, axis=axis)


def powerlaw(S, tag="e", mass=const.m_e, p_hi=5.0):
    d = dict(k=S.real("k_" + tag, 1e-10, 1e6), p=S.real("p_" + tag, 1.0, p_hi),
             gamma_min=S.real("gmin_" + tag, 1.0, 1e3), gamma_max=S.real("gmax_" + tag, 2e3, 1e8))
    n = PowerLaw(k=d["k"] * CM3, p=d["p"], gamma_min=d["gamma_min"], gamma_max=d["gamma_max"], mass=mass)
    return n, (lambda g: d["k"] * g ** (-d["p"])), d


def setup(S, protons=False, **k):
    d = dict(z=S.real("z", 1e-3, 5.0), delta=S.real("delta_D", 0.5, 60.0), B=S.real("B", 1e-4, 1e3),
             R=10.0 ** S.real("log_R", 14.0, 19.0))
    n_e, f, pars = powerlaw(S)
    kw = {}
    if protons:
        n_p, fp, pp = powerlaw(S, "p", const.m_p)
        kw["n_p"] = n_p
        d["fp"], d["pp"] = fp, pp
    b = Blob(R_b=d["R"] * u.cm, z=d["z"], delta_D=d["delta"], Gamma=S.real("Gamma", 1.05, 60.0), B=d["B"] * u.G, n_e=n_e, **kw, **k)
    d["f"], d["pe"] = f, pars
    d["dl"] = S.dL(d["z"]).to_value("cm")
    return b, d


def frequencies(S, n=2):
    return 10.0 ** S.reals("log_nu", n, 8.0, 27.0)


def Rx(S, x):
    np = S.np
    x13 = x ** (1 / 3)
    return (1.808 * x13 / np.sqrt(1 + 3.4 * x13 ** 2) * (1 + 2.21 * x13 ** 2 + 0.347 * x13 ** 4)
            / (1 + 1.353 * x13 ** 2 + 0.217 * x13 ** 4) * np.exp(-x))


def power(S, B, eps, g, m):
    x = 4 * PI * eps * m ** 2 * C ** 3 / (3 * E * B * H * g ** 2)
    return float(numpy.sqrt(3)) * E ** 3 * B / H * Rx(S, x)


def sed_ref(S, d, nu, gamma, f, m, rule):
    np = S.np
    eps = (1 + d["z"]) * H * nu / (m * C ** 2) / d["delta"]
    V = 4 / 3 * PI * d["R"] ** 3
    y = np.stack([V * f(g) * power(S, d["B"], eps, g, m) for g in gamma])
    return d["delta"] ** 4 / (4 * PI * d["dl"] ** 2) * eps * rule(y, gamma, axis=0)


def tau_ref(S, d, nu, gamma, ssa, rule):
    np = S.np
    eps = (1 + d["z"]) * H * nu / (ME * C ** 2) / d["delta"]
    y = np.stack([ssa(g) * power(S, d["B"], eps, g, ME) for g in gamma])
    lam = H / (ME * C)
    return -2 * d["R"] / (8 * PI * ME * eps ** 2) * (lam / C) ** 3 * rule(y, gamma, axis=0)


def grid(S, d, size):
    np = S.np
    return np.logspace(np.log10(d["gamma_min"]), np.log10(d["gamma_max"]), size)


RULES = {"trapz": lambda S: S.np.trapz, "loglog": lambda S: trapz_loglog, "custom": lambda S: weighted}


# ----------------------------------------------------------------- the integral
def mk_sed(rule):
    @case("P11", "sed_" + rule, time=90)
    def sed(S):
        size = S.choice("size", [100, 200]) if rule != "loglog" else 50
        b, d = setup(S, gamma_e_size=size)
        nu = frequencies(S)
        r = RULES[rule](S)
        s = Synchrotron(b) if rule == "trapz" else Synchrotron(b, integrator=r)
        S.eq("sed", s.sed_flux(nu * u.Hz), sed_ref(S, d, nu, grid(S, d["pe"], size), d["f"], ME, r) * SED)


for _r in RULES:
    mk_sed(_r)


@case("P11", "sed_static", time=90)
def static(S):
    """general parameters, any Lorentz factor grid, magnetic field and size in any unit"""
    b, d = setup(S)
    nu = frequencies(S)
    n_e, pe = b.n_e, d["pe"]
    a = S.real("g_mid", 1.05, 1.9)
    gamma = S.array([pe["gamma_min"], pe["gamma_min"] * a, pe["gamma_max"]])
    bu, fb = S.choice("B_unit", [("G", 1.0), ("T", 1e4)])
    lu = S.choice("length", ["cm", "pc"])
    r = Synchrotron.evaluate_sed_flux(
        nu * u.Hz, d["z"], (d["dl"] * u.cm).to(lu), d["delta"], d["B"] / fb * u.Unit(bu), (d["R"] * u.cm).to(lu),
        PowerLaw, *n_e.parameters, gamma=gamma)
    S.eq("sed", r, sed_ref(S, d, nu, gamma, d["f"], ME, S.np.trapz) * SED)


@case("P11", "sed_default_grid", time=90)
def default_grid(S):
    b, d = setup(S)
    nu = frequencies(S, 1)
    np = S.np
    pe = d["pe"]
    for e in (10.0, 1e9):
        for x in (pe["gamma_min"], pe["gamma_max"]):
            S.assume((x > e * (1 + 1e-6)) | (x < e * (1 - 1e-6)))
    f = lambda g: np.where((pe["gamma_min"] <= g) & (g <= pe["gamma_max"]), d["f"](g), 0.0)
    r = Synchrotron.evaluate_sed_flux(nu * u.Hz, d["z"], b.d_L, d["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters)
    S.eq("sed", r, sed_ref(S, d, nu, np.logspace(1, 9, 200), f, ME, np.trapz) * SED)


@case("P11", "broken_power_law", time=90)
def bpl(S):
    b, d = setup(S, gamma_e_size=100)
    gb = S.real("gamma_b", 1.1e3, 1.9e3)
    p2 = S.real("p2", 1.0, 5.0)
    pe, np = d["pe"], S.np
    b.n_e = BrokenPowerLaw(k=pe["k"] * CM3, p1=pe["p"], p2=p2, gamma_b=gb, gamma_min=pe["gamma_min"], gamma_max=pe["gamma_max"])
    f = lambda g: pe["k"] * np.where(g <= gb, (g / gb) ** (-pe["p"]), (g / gb) ** (-p2))
    nu = frequencies(S)
    S.eq("sed", Synchrotron(b).sed_flux(nu * u.Hz), sed_ref(S, d, nu, grid(S, pe, 100), f, ME, np.trapz) * SED)


@case("P11", "kernel", time=60)
def kernel(S):
    x = S.reals("x", 2, 1e-10, 50.0)
    S.eq("R", sy.R(x), Rx(S, x))
    S.le("R positive", 0.0, sy.R(x))
    B, eps, g = S.real("B", 1e-4, 1e3), S.real("eps", 1e-15, 1e3), S.real("g", 1.0, 1e8)
    from agnpy.utils.conversion import B_to_cgs
    q = B_to_cgs(B * u.G)
    for m, mm in ((const.m_e, ME), (const.m_p, MP)):
        S.eq("x", sy.calc_x(q, eps, g, m), 4 * PI * eps * mm ** 2 * C ** 3 / (3 * E * B * H * g ** 2))
        S.eq("peak", nu_synch_peak(B * u.G, g, m), E * B / (2 * PI * mm * C) * g ** 2 * u.Hz)
        S.eq("power", sy.single_particle_synch_power(q, eps, g, m).cgs.value, power(S, B, eps, g, mm))
    S.eq("peak of electrons", nu_synch_peak(B * u.G, g), nu_synch_peak(B * u.G, g, const.m_e))
    S.eq("epsilon_B", sy.epsilon_B(B * u.G), B / BCR)


@case("P11", "delta_approximation", time=60)
def delta(S):
    b, d = setup(S)
    nu = frequencies(S, 1)
    np = S.np
    pe = d["pe"]
    eps = (1 + d["z"]) * H * nu / (ME * C ** 2) / d["delta"]
    g = np.sqrt(eps * BCR / d["B"])
    S.assume((g >= pe["gamma_min"]) | ((pe["gamma_min"] - g) / g > 1e-6))
    S.assume((g <= pe["gamma_max"]) | ((g - pe["gamma_max"]) / pe["gamma_max"] > 1e-6))
    V, UB = 4 / 3 * PI * d["R"] ** 3, d["B"] ** 2 / (8 * PI)
    n = np.where((g >= pe["gamma_min"]) & (g <= pe["gamma_max"]), d["f"](g), 0.0)
    ref = d["delta"] ** 4 * C * ST * UB / (6 * PI * d["dl"] ** 2) * g ** 3 * V * n
    S.eq("sed", Synchrotron(b).sed_flux_delta_approx(nu * u.Hz), ref * SED)


@case("P11", "energy_loss", time=40)
def loss(S):
    b, d = setup(S)
    g = S.reals("g", 2, 1.0, 1e9)
    S.eq("rate", Synchrotron(b).electron_energy_loss_rate(g), 4 / 3 * ST * C * d["B"] ** 2 / (8 * PI) * g ** 2 * u.Unit("erg s-1"))


@case("P11", "protons", time=90)
def protons(S):
    size = S.choice("size", [100, 200])
    b, d = setup(S, protons=True, gamma_p_size=size)
    nu = frequencies(S)
    gp = grid(S, d["pp"], size)
    S.eq("sed", ProtonSynchrotron(b).sed_flux(nu * u.Hz), sed_ref(S, d, nu, gp, d["fp"], MP, S.np.trapz) * SED)
    S.eq("integrator", ProtonSynchrotron(b, integrator=weighted).sed_flux(nu * u.Hz), sed_ref(S, d, nu, gp, d["fp"], MP, weighted) * SED)
    S.eq("luminosity", ProtonSynchrotron(b).sed_luminosity(nu * u.Hz),
         4 * PI * d["dl"] ** 2 * sed_ref(S, d, nu, gp, d["fp"], MP, S.np.trapz) * u.Unit("erg s-1"))


# -------------------------------------------------------------- scaling relations
def process(S, which, **k):
    b, d = setup(S, protons=which == "protons", gamma_e_size=100, gamma_p_size=100, **k)
    return b, d, (ProtonSynchrotron(b) if which == "protons" else Synchrotron(b, ssa=which == "ssa"))


def mk_scaling(which):
    @case("P12", "scaling_" + which, time=90)
    def scaling(S):
        b, d, s = process(S, which)
        nu = frequencies(S)
        ref = s.sed_flux(nu * u.Hz)
        if which != "ssa":
            S.le("non negative", 0 * SED, type(s)(b, integrator=plain).sed_flux(nu * u.Hz))
        S.eq("luminosity", s.sed_luminosity(nu * u.Hz), 4 * PI * (d["dl"] * u.cm) ** 2 * ref)
        # every frequency on its own, in any order, in any unit
        S.eq("order", s.sed_flux(nu[::-1] * u.Hz)[::-1], ref)
        S.eq("alone", s.sed_flux(nu[1:] * u.Hz)[0], ref[1])
        S.eq("unit", s.sed_flux((nu * u.Hz).to("GHz")), ref)
        # same comoving frequency seen with another Doppler factor and redshift
        d2, z2 = S.real("delta_2", 0.5, 60.0), S.real("z_2", 1e-3, 5.0)
        f = d2 / d["delta"] * (1 + d["z"]) / (1 + z2)
        b2 = Blob(R_b=b.R_b, z=z2, delta_D=d2, Gamma=b.Gamma, B=b.B, n_e=b.n_e, n_p=b._n_p, gamma_e_size=100, gamma_p_size=100)
        s2 = ProtonSynchrotron(b2) if which == "protons" else Synchrotron(b2, ssa=which == "ssa")
        S.eq("boost", s2.sed_flux(f * nu * u.Hz), (d2 / d["delta"]) ** 4 * (d["dl"] * u.cm / S.dL(z2)) ** 2 * ref)
        if which == "ssa":
            return
        # number of particles
        q = S.real("q", 1e-3, 1e3)
        n = b.n_p if which == "protons" else b.n_e
        n.k = n.k * q
        S.eq("linear in the density", s.sed_flux(nu * u.Hz), q * ref)
        b.R_b = b.R_b * q
        S.eq("volume", s.sed_flux(nu * u.Hz), q ** 4 * ref)


for _w in ["electrons", "ssa", "protons"]:
    mk_scaling(_w)


@case("P12", "peak", time=60)
def peak(S):
    b, d, s = process(S, S.choice("particles", ["electrons", "protons"]))
    # frequencies in any order
    nu = S.array(S.choice("order", [[1e12, 1e16, 1e20], [1e20, 1e16, 1e12], [1e16, 1e20, 1e12]])) * u.Hz
    vals = S.array([S.real("sed_%d" % i, 1e-16, 1e-8) for i in range(3)])
    for i in range(3):
        for j in range(i):
            S.assume((vals[i] < vals[j] * 0.99) | (vals[i] > vals[j] * 1.01))
    # the peak of whatever spectrum the process has
    s.sed_flux = lambda x: vals * SED
    m = s.sed_peak_flux(nu)
    S.le("bound", vals * SED, m)
    S.check("attained", (m == vals[0] * SED) | (m == vals[1] * SED) | (m == vals[2] * SED))
    pk = s.sed_peak_nu(nu)
    for i in range(3):
        if bool(m == vals[i] * SED):
            S.eq("position", pk, nu[i])


# ------------------------------------------------------------- self-absorption
@case("P13", "opacity", time=90)
def opacity(S):
    b, d = setup(S, gamma_e_size=100)
    nu = frequencies(S)
    pe = d["pe"]
    ssa = lambda g: -pe["k"] * (pe["p"] + 2) * g ** (-pe["p"] - 1)
    args = (nu * u.Hz, d["z"], b.d_L, d["delta"], b.B, b.R_b, b.n_e) + tuple(b.n_e.parameters)
    for name in ("trapz", "custom"):
        r = RULES[name](S)
        t = Synchrotron.evaluate_tau_ssa(*args, gamma=b.gamma_e, integrator=r)
        S.eq("tau", t, tau_ref(S, d, nu, grid(S, pe, 100), ssa, r))
    S.le("tau non negative", 0.0, Synchrotron.evaluate_tau_ssa(*args, gamma=b.gamma_e, integrator=plain))
    t = Synchrotron.evaluate_tau_ssa(*args, gamma=b.gamma_e)
    # proportional to the path and to the number of electrons
    q = S.real("q", 1e-3, 1e3)
    a2 = list(args)
    a2[5] = q * b.R_b
    S.eq("tau and size", Synchrotron.evaluate_tau_ssa(*a2, gamma=b.gamma_e), q * t)
    a3 = list(args)
    a3[7] = q * a3[7]
    S.eq("tau and density", Synchrotron.evaluate_tau_ssa(*a3, gamma=b.gamma_e), q * t)


@case("P13", "attenuation", time=60)
def attenuation(S):
    np = S.np
    t = S.reals("tau", 2, 1.1e-3, 1e4)
    a = sy.tau_to_attenuation(t)
    S.eq("value", a, 3 / t * (1 / 2 + np.exp(-t) / t - (1 - np.exp(-t)) / t ** 2), rtol=1e-5)
    tiny = S.reals("tiny", 2, 1e-300, 0.9e-3)
    S.eq("thin", sy.tau_to_attenuation(tiny), 1.0 + 0 * tiny)


@case("P13", "attenuation_range", time=60, timeouts=(5000, 10000, 20000))
def attrange(S):
    t = S.real("tau", 0.01, 1e3)
    a = sy.tau_to_attenuation(t)
    # thick: 3 / (2 tau)
    S.le("below the thick limit", a, 3 / (2 * t), slack=1e-6)
    w = S.real("tau_thick", 1.5, 1e3)
    S.le("positive", 0.0, sy.tau_to_attenuation(w), slack=1e-9)


@case("P13", "absorbed_sed", time=90)
def absorbed(S):
    b, d = setup(S, gamma_e_size=100)
    nu = frequencies(S)
    np = S.np
    name = S.choice("rule", ["trapz", "custom"])
    r = RULES[name](S)
    pe = d["pe"]
    raw = Synchrotron(b, ssa=False, integrator=r).sed_flux(nu * u.Hz)
    thick = Synchrotron(b, ssa=True, integrator=r).sed_flux(nu * u.Hz)
    t = Synchrotron.evaluate_tau_ssa(nu * u.Hz, d["z"], b.d_L, d["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters, gamma=b.gamma_e, integrator=r)
    S.eq("attenuated", thick, sy.tau_to_attenuation(t) * raw)
    S.eq("default is unabsorbed", Synchrotron(b, integrator=r).sed_flux(nu * u.Hz), raw)
    S.eq("luminosity", Synchrotron(b, ssa=True, integrator=r).sed_luminosity(nu * u.Hz), 4 * PI * (d["dl"] * u.cm) ** 2 * thick)
    s = Synchrotron(b, integrator=r)
    s.ssa = True
    S.eq("switched on later", s.sed_flux(nu * u.Hz), thick)
