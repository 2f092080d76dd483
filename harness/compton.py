"""Inverse Compton: kernels, synchrotron self-Compton, external Compton."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw
from agnpy.synchrotron import Synchrotron
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.compton import kernels as ck
from agnpy.targets import CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus

C = const.c.cgs.value
H = const.h.cgs.value
G = const.G.cgs.value
ME = const.m_e.cgs.value
ST = const.sigma_T.cgs.value
PI = float(numpy.pi)
CM3 = u.Unit("cm-3")
SED = u.Unit("erg cm-2 s-1")


def plain(y, x, axis=0):
    return numpy.sum(y, axis=axis)


def weighted(y, x, axis=0):
    """a quadrature rule that is none of the library's"""
    sl = [slice(None)] * numpy.ndim(y)
    sl[axis] = slice(1, None)
    return 2.5 * numpy.sum(y[tuple(sl)], axis=axis) * x[1]


# -------------------------------------------------------------------- kernels
def cospsi(S, ms, mu, phi):
    np = S.np
    return mu * ms + np.sqrt(1 - mu ** 2) * np.sqrt(1 - ms ** 2) * np.cos(phi)


def kernel_value(g, es, e, cp):
    """the angle dependent kernel above threshold"""
    y = 1 - es / g
    w = es / (g * (g * e * (1 - cp)) * y)
    return y + 1 / y - 2 * w + w ** 2


def threshold(S, es, e, cp):
    return es / 2 * (1 + S.np.sqrt(1 + 2 / (e * es * (1 - cp))))


def kernel(S, g, es, e, cp):
    return S.np.where(g >= threshold(S, es, e, cp), kernel_value(g, es, e, cp), 0.0)


def iso_value(S, g, e, es):
    ge = 4 * g * e
    q = (es / g) / (ge * (1 - es / g))
    return q, 2 * q * S.np.log(q) + (1 + 2 * q) * (1 - q) + (ge * q) ** 2 / (2 * (1 + ge * q)) * (1 - q)


def angles(S):
    mu, ms, ph = S.real("mu", -0.999, 0.999), S.real("mu_s", -0.999, 0.9999), S.real("phi", 0.0, 2 * PI)
    return mu, ms, ph


@case("P14", "angular_kernel", time=60)
def angular(S):
    g, es, e = S.real("gamma", 1.0, 1e9), S.real("eps_s", 1e-8, 1e8), S.real("eps", 1e-12, 1e2)
    mu, ms, ph = angles(S)
    cp = cospsi(S, ms, mu, ph)
    S.assume(1 - cp > 1e-6)
    gm = ck.get_gamma_min(es, e, ms, mu, ph)
    S.eq("threshold", gm, threshold(S, es, e, cp))
    S.assume((g > gm * (1 + 1e-6)) | (g < gm * (1 - 1e-6)))
    v = ck.compton_kernel(g, es, e, ms, mu, ph)
    if bool(g > gm):
        S.eq("above threshold", v, kernel_value(g, es, e, cp), rtol=1e-5)
    else:
        S.eq("below threshold", v, 0.0)


@case("P14", "angular_kernel_small_angles", time=60)
def small_angles(S):
    """photons and electrons nearly parallel or head-on, seen along the axis"""
    g, es, e = S.real("gamma", 1.0, 1e9), S.real("eps_s", 1e-8, 1e8), S.real("eps", 1e-12, 1e2)
    x = 10.0 ** S.real("log_x", -7.0, -0.5)
    head_on, swap = S.choice("photons", [(False, False), (True, False), (False, True)])
    mu = x - 1 if head_on else 1 - x
    a = (mu, 1.0) if swap else (1.0, mu)
    gm = ck.get_gamma_min(es, e, *a, 0.0)
    S.eq("threshold", gm, threshold(S, es, e, mu))
    S.assume((g > gm * (1 + 1e-6)) | (g < gm * (1 - 1e-6)))
    v = ck.compton_kernel(g, es, e, *a, 0.0)
    if bool(g > gm):
        S.eq("above threshold", v, kernel_value(g, es, e, mu), rtol=1e-5)
    else:
        S.eq("below threshold", v, 0.0)


@case("P14", "angular_kernel_sign", time=60)
def angular_sign(S):
    # the cosine enters only through 1 - cos(psi)
    g, es, e = S.real("gamma", 1.0, 1e9), S.real("eps_s", 1e-8, 1e8), S.real("eps", 1e-12, 1e2)
    mu = S.real("mu", -0.999, 0.999)
    v = ck.compton_kernel(g, es, e, 1.0, mu, 0.0)
    S.le("non negative", 0.0, v)
    gm = ck.get_gamma_min(es, e, 1.0, mu, 0.0)
    S.lt("more energetic than the photon", es, gm)
    # head-on collisions have the lowest threshold
    S.le("head-on", ck.get_gamma_min(es, e, 1.0, -1.0, 0.0), gm)


@case("P14", "angular_kernel_broadcast", time=60)
def angular_arrays(S):
    np = S.np
    g, es = S.reals("gamma", 2, 1e3, 1e9), S.reals("eps_s", 2, 1e-8, 1e2)
    e = S.real("eps", 1e-6, 1e2)
    mu, ms, ph = angles(S)
    cp = cospsi(S, ms, mu, ph)
    S.assume(1 - cp > 1e-3)
    v = ck.compton_kernel(np.reshape(g, (2, 1)), np.reshape(es, (1, 2)), e, ms, mu, ph)
    S.check("shape", v.shape == (2, 2))
    for i in range(2):
        for j in range(2):
            S.eq("element", v[i, j], ck.compton_kernel(g[i], es[j], e, ms, mu, ph))


@case("P14", "isotropic_kernel", time=60)
def isotropic(S):
    g, es, e = S.real("gamma", 1.0, 1e9), S.real("eps_s", 1e-12, 1e8), S.real("eps", 1e-16, 1e2)
    S.assume((es < g * (1 - 1e-6)) | (es > g * (1 + 1e-6)))
    q, f = iso_value(S, g, e, es)
    S.assume(q > 1e-200) if bool(es < g) else None
    edge = 1 / (4 * g ** 2)
    v = ck.isotropic_kernel(g, e, es)
    if bool(es >= g):
        return S.eq("impossible energy", v, 0.0)
    S.assume((q > 1 + 1e-6) | (q < 1 - 1e-6))
    S.assume((q > edge * (1 + 1e-6)) | (q < edge * (1 - 1e-6)))
    if bool((q < 1) & (q > edge)):
        S.eq("inside", v, f, rtol=1e-4, atol=1e-9)
    else:
        S.eq("outside", v, 0.0)


@case("P14", "isotropic_kernel_sign", time=60)
def isotropic_sign(S):
    q, ge = S.real("q", 1e-12, 1.0), S.real("gamma_e", 1e-12, 1e12)
    S.le("non negative", 0.0, ck.F_c(q, ge), slack=1e-6)
    S.eq("value", ck.F_c(q, ge), 2 * q * S.log(q) + (1 + 2 * q) * (1 - q) + 0.5 * (ge * q) ** 2 / (1 + ge * q) * (1 - q), atol=1e-12)
    S.eq("end point", ck.F_c(1.0, ge), 0.0)


# -------------------------------------------------------------- the emission region
def setup(S, **k):
    d = dict(z=S.real("z", 1e-3, 5.0), delta=S.real("delta_D", 1.0, 60.0), B=S.real("B", 1e-4, 1e2),
             R=10.0 ** S.real("log_R", 14.0, 19.0), Gamma=S.real("Gamma", 1.5, 60.0))
    d.update(k=S.real("k_e", 1e-10, 1e6), p=S.real("p_e", 1.0, 5.0),
             gmin=S.real("gmin_e", 1.0, 1e3), gmax=S.real("gmax_e", 2e3, 1e8))
    n_e = PowerLaw(k=d["k"] * CM3, p=d["p"], gamma_min=d["gmin"], gamma_max=d["gmax"])
    b = Blob(R_b=d["R"] * u.cm, z=d["z"], delta_D=d["delta"], Gamma=d["Gamma"], B=d["B"] * u.G, n_e=n_e, **k)
    d["dl"] = S.dL(d["z"]).to_value("cm")
    d["V"] = 4 / 3 * PI * d["R"] ** 3
    d["mu_s"] = (1 - 1 / (d["Gamma"] * d["delta"])) / S.np.sqrt(1 - 1 / d["Gamma"] ** 2)
    return b, d


# ------------------------------------------------------------------ self-Compton
def ssc_ref(S, b, d, nu, gamma, ssa, rule, f=None):
    np = S.np
    eps_f = (1 + d["z"]) * H / (ME * C ** 2) / d["delta"]
    nus = np.logspace(5, 30, 200)
    sed = Synchrotron.evaluate_sed_flux(nus * u.Hz, d["z"], b.d_L, d["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters,
                                        ssa=ssa, integrator=rule, gamma=gamma).to_value(SED)
    eps = eps_f * nus
    es = eps_f * nu
    ph = 9 / 4 * d["dl"] ** 2 * sed / (C * d["R"] ** 2 * d["delta"] ** 4 * eps)
    f = f or (lambda g: d["k"] * g ** (-d["p"]))
    rows = []
    for g in gamma:
        row = []
        for i in range(len(eps)):
            row.append(np.stack([ph[i] / eps[i] ** 2 * d["V"] * f(g) / g ** 2 * ck.isotropic_kernel(g, eps[i], x) for x in es]))
        rows.append(np.stack(row))
    y = np.stack(rows)
    integral = rule(rule(y, gamma, axis=0), eps, axis=0)
    return d["delta"] ** 4 / (4 * PI * d["dl"] ** 2) * 3 / 4 * C * ST * es ** 2 * integral * SED


def mk_ssc(ssa, name, rule):
    @case("P15", "ssc_%s%s" % (name, "_absorbed" if ssa else ""), time=120, witnesses=1)
    def ssc(S):
        b, d = setup(S, gamma_e_size=50)
        nu = 10.0 ** S.reals("log_nu", 1, 10.0, 28.0)
        np = S.np
        r = np.trapz if rule is None else rule
        s = SynchrotronSelfCompton(b, ssa=ssa) if rule is None else SynchrotronSelfCompton(b, ssa=ssa, integrator=r)
        gamma = np.logspace(np.log10(d["gmin"]), np.log10(d["gmax"]), 50)
        S.eq("sed", s.sed_flux(nu * u.Hz), ssc_ref(S, b, d, nu, gamma, ssa, r), rtol=1e-5)


mk_ssc(False, "trapz", None)
mk_ssc(False, "custom", weighted)
mk_ssc(True, "trapz", None)


@case("P15", "ssc_kernel_grid", time=120)
def ssc_scaling(S):
    """luminosity, order, and the photons of the region with its own size"""
    b, d = setup(S, gamma_e_size=50)
    S.grid({200: 3})
    nu = 10.0 ** S.reals("log_nu", 2, 12.0, 28.0)
    s = SynchrotronSelfCompton(b, integrator=weighted)
    ref = s.sed_flux(nu * u.Hz)
    S.eq("luminosity", s.sed_luminosity(nu * u.Hz), 4 * PI * (d["dl"] * u.cm) ** 2 * ref)
    S.eq("order", s.sed_flux(nu[::-1] * u.Hz)[::-1], ref)
    S.eq("alone", s.sed_flux(nu[1:] * u.Hz)[0], ref[1])
    S.eq("unit", s.sed_flux((nu * u.Hz).to("GHz")), ref)
    q = S.real("q", 1e-3, 1e3)
    b.n_e.k = b.n_e.k * q
    S.eq("quadratic in the density", s.sed_flux(nu * u.Hz), q ** 2 * ref)


@case("P15", "ssc_positive", time=120)
def ssc_positive(S):
    b, d = setup(S, gamma_e_size=50)
    nu = 10.0 ** S.reals("log_nu", 1, 12.0, 28.0)
    es = (1 + d["z"]) * H * nu[0] / (ME * C ** 2) / d["delta"]
    s = SynchrotronSelfCompton(b, integrator=plain).sed_flux(nu * u.Hz)
    if bool(es > d["gmax"] * (1 + 1e-6)):
        # no electron can produce these photons
        S.eq("above the most energetic electron", s, numpy.zeros(1) * SED)


class AnySED(SynchrotronSelfCompton):
    """any spectral energy distribution"""

    def sed_flux(self, nu):
        return self.values


@case("P15", "ssc_peak", time=60)
def ssc_peak(S):
    """the peak is the largest value of the SED, and where it is"""
    b, d = setup(S)
    p = AnySED(b)
    v, nu = S.reals("sed", 3, 1e-20, 1e-8), 10.0 ** S.reals("log_nu", 3, 9.0, 28.0)
    for i in range(3):
        for j in range(i):
            S.assume((v[i] > 1.001 * v[j]) | (v[j] > 1.001 * v[i]))
    p.values = v * SED
    top = [i for i in range(3) if all(bool(v[i] >= v[j]) for j in range(3))]
    S.eq("peak", p.sed_peak_flux(nu * u.Hz), v[top[0]] * SED)
    S.eq("frequency", p.sed_peak_nu(nu * u.Hz), nu[top[0]] * u.Hz)


@case("P15", "photon_density", time=60)
def photon_density(S):
    b, d = setup(S)
    e, f = S.real("eps", 1e-12, 1e-2), S.real("sed", 1e-16, 1e-8)
    ref = 9 / 4 * d["dl"] ** 2 * f / (C * d["R"] ** 2 * d["delta"] ** 4 * e)
    S.eq("differential", b.u_ph_synch_diff(e, f * SED), ref * u.Unit("erg cm-3"))


@case("P15", "loss_thomson", time=60)
def loss_thomson(S):
    b, d = setup(S)
    g = S.reals("g", 2, 1.0, 1e9)
    s = SynchrotronSelfCompton(b)
    S.eq("rate", s.electron_energy_loss_rate_thomson(g), 4 / 3 * ST * C * b.u_ph_synch.to_value("erg cm-3") * g ** 2 * u.Unit("erg s-1"))


def f_KN(S, b):
    np = S.np
    return np.where(b < 1e4, 1 / (1 + b) ** 1.5, 9 / (2 * b ** 2) * (np.log(b) - 11 / 6))


@case("P15", "loss_klein_nishina", time=120)
def loss_kn(S):
    np = S.np
    b, d = setup(S)
    g = S.reals("g", 2, 1.0, 1e8)
    S.assume((d["gmin"] < 10 * (1 - 1e-6)) | (d["gmin"] > 10 * (1 + 1e-6)))
    nus = np.logspace(5, 30, 200)
    eps = (1 + d["z"]) * H / (ME * C ** 2) / d["delta"] * nus
    n = len(eps)
    for i in range(n):
        for x in g:
            S.assume((4 * x * eps[i] < 1e4 * (1 - 1e-6)) | (4 * x * eps[i] > 1e4 * (1 + 1e-6)))
    real = Synchrotron.evaluate_sed_flux(nus * u.Hz, d["z"], b.d_L, d["delta"], b.B, b.R_b, b.n_e, *b.n_e.parameters).to_value(SED)
    ph = 9 / 4 * d["dl"] ** 2 * real / (C * d["R"] ** 2 * d["delta"] ** 4 * eps)
    r = SynchrotronSelfCompton(b).electron_energy_loss_rate(g)
    for j in range(2):
        ref = 4 / 3 * ST * C * g[j] ** 2 * np.trapz(f_KN(S, 4 * g[j] * eps) * ph, eps)
        S.eq("rate", r[j], ref * u.Unit("erg s-1"), rtol=1e-5)


# ------------------------------------------------------------- external Compton
# the reference uses the library's own angular kernel, which P14 decides
R_G = G / C ** 2


def mk_target(S, kind, d):
    if kind == "cmb":
        d["zt"] = S.real("z_target", 0.0, 5.0)
        return CMB(d["zt"])
    if kind == "ps":
        d["L"], d["e0"] = 10.0 ** S.real("log_L", 40.0, 48.0), S.real("eps_0", 1e-9, 1e-2)
        return PointSourceBehindJet(d["L"] * u.Unit("erg s-1"), d["e0"])
    d["L"] = 10.0 ** S.real("log_L", 42.0, 48.0)
    if kind == "disk":
        d.update(M=10.0 ** S.real("log_M", 39.5, 43.5), eta=S.real("eta", 0.01, 0.5),
                 Rin=S.real("R_in", 2.0, 20.0), Rout=S.real("R_out", 50.0, 1e4))
        return SSDisk(d["M"] * u.g, d["L"] * u.Unit("erg s-1"), d["eta"], d["Rin"] * (R_G * d["M"]) * u.cm, d["Rout"] * (R_G * d["M"]) * u.cm)
    d["xi"] = S.real("xi", 1e-4, 1.0)
    d["Rt"] = 10.0 ** S.real("log_R_target", 15.0, 20.0)
    if kind == "blr":
        return SphericalShellBLR(d["L"] * u.Unit("erg s-1"), d["xi"], "Lyalpha", d["Rt"] * u.cm)
    d["T"] = S.real("T_dt", 10.0, 3e3)
    return RingDustTorus(d["L"] * u.Unit("erg s-1"), d["xi"], d["T"] * u.K, R_dt=d["Rt"] * u.cm)


class SeenUnder(Blob):
    """a blob with any viewing angle"""

    mu_s = property(lambda self: self.cos_view)


def ec_setup(S, kind, **k):
    np = S.np
    d = dict(z=S.real("z", 1e-3, 5.0), delta=S.real("delta_D", 1.01, 60.0), R=10.0 ** S.real("log_R", 14.0, 19.0),
             mu_s=S.real("mu_s", -0.99, 0.9999), k=S.real("k_e", 1e-10, 1e6), p=S.real("p_e", 1.0, 5.0))
    d.update(gmin=S.real("gmin_e", 1.0, 1e2), gmax=S.real("gmax_e", 1.1e6, 1e8))
    n_e = PowerLaw(k=d["k"] * CM3, p=d["p"], gamma_min=d["gmin"], gamma_max=d["gmax"])
    b = SeenUnder(R_b=d["R"] * u.cm, z=d["z"], delta_D=d["delta"], Gamma=10.0, B=1.0 * u.G, n_e=n_e, gamma_e_size=50, **k)
    b.cos_view = d["mu_s"]
    d["dl"] = S.dL(d["z"]).to_value("cm")
    # where the grid of Lorentz factors meets the ends of the distribution
    for g in ec_gamma(S):
        for x in (d["gmin"], d["gmax"]):
            S.assume((g / d["delta"] > x * (1 + 1e-6)) | (g / d["delta"] < x * (1 - 1e-6)))
    t = mk_target(S, kind, d)
    if kind != "cmb":
        d["r"] = 10.0 ** S.real("log_r", 15.0, 20.5)
    return b, d, t


def ec_gamma(S):
    return S.np.logspace(1, 9, 50)


def density(S, d):
    """number of electrons at a Lorentz factor of the external frame, over its square"""
    V = 4 / 3 * PI * d["R"] ** 3

    def f(g):
        x = g / d["delta"]
        inside = (x >= d["gmin"]) & (x <= d["gmax"])
        return V * S.np.where(inside, d["k"] * x ** (-d["p"]), 0.0) / g ** 2
    return f


def ec_ref(S, kind, d, t, nu, rule, phis, mus, gamma=None, nm=100):
    """the SED as sums over the grids, one elementary term at a time"""
    np = S.np
    es_all = (1 + d["z"]) * H * nu / (ME * C ** 2)
    gamma = ec_gamma(S) if gamma is None else gamma
    ms = d["mu_s"]
    f = density(S, d)
    out = []
    for es in es_all:
        common = ST * es ** 2 * d["delta"] ** 3 / d["dl"] ** 2
        if kind == "ps":
            y = np.stack([f(g) * kern(S, g, es, d["e0"], ms, 1, 0) for g in gamma])
            out.append(3 * d["L"] * common / (2 ** 7 * PI ** 2 * d["r"] ** 2 * d["e0"] ** 2) * rule(y, gamma, axis=0))
            continue
        if kind == "dt":
            x = np.sqrt(d["Rt"] ** 2 + d["r"] ** 2)
            e0 = 2.7 * const.k_B.cgs.value * d["T"] / (ME * C ** 2)
            rows = [[f(g) * kern(S, g, es, e0, ms, d["r"] / x, p) for p in phis] for g in gamma]
            y = np.stack([np.stack(r) for r in rows])
            pre = 3 * d["xi"] * d["L"] * common / (2 ** 8 * PI ** 3 * x ** 2 * e0 ** 2)
            out.append(pre * np.trapz(rule(y, gamma, axis=0), phis, axis=0))
            continue
        if kind == "cmb":
            e0, u0 = t.epsilon_0, t.u_0.to_value("erg cm-3")
            pre = 3 * C * u0 * common / (2 ** 7 * PI ** 2 * e0 ** 2)
            term = lambda g, m, p: f(g) * kern(S, g, es, e0, ms, m, p)
        elif kind == "blr":
            e0 = t.epsilon_line
            pre = 3 * d["xi"] * d["L"] * common / (2 ** 9 * PI ** 3 * e0 ** 2)

            def term(g, m, p):
                x2 = d["Rt"] ** 2 + d["r"] ** 2 - 2 * d["r"] * d["Rt"] * m
                star = mu_star(S, m, d["Rt"], d["r"])
                return f(g) / x2 * kern(S, g, es, e0, ms, star, p)
        elif kind == "disk":
            rt = d["r"] / (R_G * d["M"])
            md = d["L"] / d["eta"] / C ** 2
            mus = np.linspace(1 / np.sqrt(1 + (d["Rout"] / rt) ** 2), 1 / np.sqrt(1 + (d["Rin"] / rt) ** 2), nm)
            M8 = d["M"] / (1e8 * const.M_sun.cgs.value)
            chi = (d["L"] / (1.26e46 * M8) / (M8 * d["eta"])) ** (1 / 4)
            pre = 9 * G * d["M"] * md * common / (2 ** 9 * PI ** 3 * d["r"] ** 3)

            def term(g, m, p):
                Rd = rt * np.sqrt(m ** -2 - 1)
                e0 = 2.7e-4 * chi * Rd ** (-3 / 4)
                return (1 - np.sqrt(d["Rin"] / Rd)) / e0 ** 2 / m / (m ** -2 - 1) ** 1.5 * f(g) * kern(S, g, es, e0, ms, m, p)
        y = np.stack([np.stack([np.stack([term(g, m, p) for p in phis]) for m in mus]) for g in gamma])
        out.append(pre * np.trapz(np.trapz(rule(y, gamma, axis=0), mus, axis=0), phis, axis=0))
    return np.stack(out) * SED


def mu_star(S, m, R, r):
    np = S.np
    x2 = R ** 2 + r ** 2 - 2 * r * R * m
    return np.sqrt(1 - R ** 2 / x2 * (1 - m ** 2)) * np.where(r > m * R, 1.0, -1.0)


REAL_KERNEL = ck.compton_kernel


def any_kernel(S):
    """P14 decides the kernel; here it may be any function of its arguments"""
    from agnpy.compton import external_compton as ec
    S.kern = REAL_KERNEL
    if S.symbolic and getattr(ec, "compton_kernel", None) is not None:
        S.kern = ec.compton_kernel = S.ufn("kernel", REAL_KERNEL)


def kern(S, g, es, e, ms, m, p):
    return S.kern(g, es, e, ms, m, p)


def mk_ec(kind, rule, name):
    @case("P16", "ec_%s_%s" % (kind, name), time=120, witnesses=1)
    def ec(S):
        S.grid({50: 3})
        any_kernel(S)
        b, d, t = ec_setup(S, kind)
        np = S.np
        r = np.trapz if rule is None else rule
        other = S.choice("units", [False, True])
        if other:
            # the same physical situation in other units
            b.R_b = b.R_b.to("pc")
            for name, un in (("L_disk", "W"), ("L_0", "W"), ("M_BH", "kg"), ("R_in", "km"), ("R_out", "pc"), ("R_line", "pc"), ("R_dt", "lyr"),
                             ("u_0", "eV m-3")):
                if hasattr(t, name):
                    setattr(t, name, getattr(t, name).to(un))
        args = (b, t) + (((d["r"] * u.cm).to("lyr" if other else "cm"),) if kind != "cmb" else ())
        p = ExternalCompton(*args) if rule is None else ExternalCompton(*args, integrator=r)
        nu = 10.0 ** S.reals("log_nu", 1, 16.0, 29.0)
        phis, mus = np.linspace(0, 2 * np.pi, 50), np.linspace(-1, 1, 100)
        S.eq("sed", p.sed_flux(nu * u.Hz), ec_ref(S, kind, d, t, nu, r, phis, mus), rtol=1e-5)


for _k in ["cmb", "ps", "disk", "blr", "dt"]:
    mk_ec(_k, None, "trapz")
    mk_ec(_k, weighted, "custom")


def extra(kind, d):
    return () if kind == "cmb" else (d["r"] * u.cm,)


@case("P16", "any_grids", time=100)
def any_grids(S):
    """the general functions, with integration grids of the caller"""
    any_kernel(S)
    np = S.np
    kind = S.choice("target", ["iso", "ps", "blr", "dt"])
    b, d, t = ec_setup(S, "cmb" if kind == "iso" else kind)
    g0 = S.real("g_mid", 1e3, 1e4)
    gamma = S.array([g0, g0 * S.real("g_step", 1.5, 30.0)])
    for g in gamma:
        for x in (d["gmin"], d["gmax"]):
            S.assume((g / d["delta"] > x * (1 + 1e-6)) | (g / d["delta"] < x * (1 - 1e-6)))
    phis = S.reals("phi", 2, 0.0, 2 * PI)
    mus = S.reals("mu", 2, -0.99, 0.99)
    nu = 10.0 ** S.reals("log_nu", 1, 16.0, 29.0)
    common = (nu * u.Hz, d["z"], b.d_L, d["delta"], d["mu_s"], d["R"] * u.cm)
    L = d.get("L", 1.0) * u.Unit("erg s-1")
    pars = tuple(b.n_e.parameters)
    if kind == "iso":
        r = ExternalCompton.evaluate_sed_flux_iso_mono(*common, t.epsilon_0, t.u_0, PowerLaw, *pars, gamma=gamma, mu=mus, phi=phis)
    elif kind == "ps":
        r = ExternalCompton.evaluate_sed_flux_ps_behind_jet(*common, d["e0"], L, (d["r"] * u.cm).to("pc"), PowerLaw, *pars, gamma=gamma)
    elif kind == "blr":
        for m in mus:
            S.assume((d["r"] - m * d["Rt"] > 1e-6 * d["r"]) | (d["r"] - m * d["Rt"] < -1e-6 * d["r"]))
        r = ExternalCompton.evaluate_sed_flux_blr(*common, L, d["xi"], t.epsilon_line, d["Rt"] * u.cm, d["r"] * u.cm, PowerLaw, *pars,
                                                  gamma=gamma, mu=mus, phi=phis)
    else:
        r = ExternalCompton.evaluate_sed_flux_dt(*common, L, d["xi"], t.epsilon_dt, (d["Rt"] * u.cm).to("pc"), d["r"] * u.cm, PowerLaw, *pars,
                                                 gamma=gamma, phi=phis)
    S.eq("sed", r, ec_ref(S, "cmb" if kind == "iso" else kind, d, t, nu, np.trapz, phis, mus, gamma), rtol=1e-4)


def mk_ec_scaling(kind):
    @case("P16", "scaling_" + kind, time=100, witnesses=1)
    def scaling(S):
        S.grid({50: 3, 100: 3})
        any_kernel(S)
        b, d, t = ec_setup(S, kind)
        nu = 10.0 ** S.reals("log_nu", 2, 16.0, 29.0)
        p = ExternalCompton(b, t, *extra(kind, d))
        ref = p.sed_flux(nu * u.Hz)
        S.eq("luminosity", p.sed_luminosity(nu * u.Hz), 4 * PI * (d["dl"] * u.cm) ** 2 * ref)
        S.eq("order", p.sed_flux(nu[::-1] * u.Hz)[::-1], ref)
        S.eq("alone", p.sed_flux(nu[1:] * u.Hz)[0], ref[1])
        S.eq("unit", p.sed_flux((nu * u.Hz).to("GHz")), ref)
        q = S.real("q", 1e-2, 1e2)
        b.n_e.k = b.n_e.k * q
        S.eq("linear in the density", p.sed_flux(nu * u.Hz), q * ref)
        b.n_e.k = b.n_e.k / q
        if kind == "ps":
            t.L_0 = t.L_0 * q
        elif kind in ("blr", "dt"):
            # the reprocessed luminosity is what counts
            t.L_disk, t.xi_line, t.xi_dt = t.L_disk * q * q, d["xi"] / q, d["xi"] / q
        else:
            return
        S.eq("linear in the luminosity", p.sed_flux(nu * u.Hz), q * ref)


for _k in ["cmb", "ps", "disk", "blr", "dt"]:
    mk_ec_scaling(_k)


def mk_user_grids(kind):
    @case("P16", "grids_of_the_user_" + kind, time=100, witnesses=1)
    def user_grids(S):
        """the numbers of angles can be changed at any moment, and so can the distance, the region's angle and redshift"""
        # one of the numbers differs from the default one also in the reduced grids
        change = S.choice("changed", ["mu", "phi"] if kind != "dt" else ["phi"])
        S.grid({50: 2, 100: 2, 20: 4, 30: 3})
        any_kernel(S)
        np = S.np
        b, d, t = ec_setup(S, kind)
        nu = 10.0 ** S.reals("log_nu", 1, 16.0, 29.0)
        p = ExternalCompton(b, t, *extra(kind, d))
        p.sed_flux(nu * u.Hz)
        nm, nphi = (20, 50) if change == "mu" else (100, 30)
        p.set_mu(nm)
        p.set_phi(nphi)
        mus, phis = np.linspace(-1, 1, nm), np.linspace(0, 2 * np.pi, nphi)
        S.eq("sed", p.sed_flux(nu * u.Hz), ec_ref(S, kind, d, t, nu, np.trapz, phis, mus, nm=nm), rtol=1e-4)
        if kind == "cmb":
            return
        # and so can the distance
        r2 = d["r"] * S.real("q", 0.1, 10.0)
        p.r = r2 * u.cm
        S.eq("moved", p.sed_flux(nu * u.Hz), ec_ref(S, kind, dict(d, r=r2), t, nu, np.trapz, phis, mus, nm=nm), rtol=1e-4)


for _k in ("cmb", "disk", "blr", "dt"):
    mk_user_grids(_k)


@case("P16", "later_changes", time=100, witnesses=1, max_paths=240)
def later_changes(S):
    """a process that was used for one source and is then given another one, as a whole or in place"""
    any_kernel(S)
    S.grid({50: 2, 100: 2, 20: 4, 60: 3})
    old = S.choice("old", ["disk", "cmb", "dt"])
    new = S.choice("new", ["blr", "cmb", "disk", "dt", "ps"])
    b, d, t = ec_setup(S, new)
    dist = d.get("r", 1e17) * u.cm
    nu = 10.0 ** S.reals("log_nu", 1, 16.0, 29.0) * u.Hz
    t0 = {"disk": lambda: SSDisk(1e41 * u.g, 1e45 * u.Unit("erg s-1"), 0.1, 1e14 * u.cm, 1e16 * u.cm), "cmb": lambda: CMB(0.5),
          "dt": lambda: RingDustTorus(1e45 * u.Unit("erg s-1"), 0.1, 1e3 * u.K)}[old]()
    b0 = SeenUnder(R_b=1e16 * u.cm, z=0.5, delta_D=20.0, Gamma=10.0, B=1.0 * u.G, n_e=PowerLaw(1e3 * CM3, 2.5, 10.0, 1e6), gamma_e_size=60)
    b0.cos_view = 0.9
    p = ExternalCompton(b0, t0, 1e17 * u.cm)
    p.sed_flux(nu)
    p.target = t
    p.r = dist
    if S.choice("region", ["replaced", "in place"]) == "replaced":
        p.blob = b
    else:
        b0.R_b, b0.z, b0.d_L, b0.delta_D, b0.cos_view, b0.gamma_e_size, b0.n_e = b.R_b, b.z, b.d_L, b.delta_D, b.cos_view, 50, b.n_e
    S.eq("as a new one", p.sed_flux(nu), ExternalCompton(b, t, dist).sed_flux(nu))
