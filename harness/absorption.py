"""Gamma-gamma absorption: cross section, opacities, attenuation, EBL."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.absorption import Absorption, EBL
from agnpy.absorption import targets_absorption as ta
from agnpy.absorption import ebl_absorption as ea
from agnpy.utils import geometry as geo
from agnpy.targets import CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus
from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw
from agnpy.synchrotron import Synchrotron

C = const.c.cgs.value
H = const.h.cgs.value
G = const.G.cgs.value
ME = const.m_e.cgs.value
E = const.e.gauss.value
KB = const.k_B.cgs.value
ST = const.sigma_T.cgs.value
PI = float(numpy.pi)
LU = u.Unit("erg s-1")
SED = u.Unit("erg cm-2 s-1")
REAL_SIGMA = ta.sigma


# --------------------------------------------------------------- the cross section
def sigma_ref(S, s):
    np = S.np
    b = np.sqrt(1 - 1 / s)
    return 3 / 16 * ST * (1 - b ** 2) * ((3 - b ** 4) * np.log((1 + b) / (1 - b)) - 2 * b * (2 - b ** 2))


@case("P19", "cross_section", time=60)
def cross(S):
    hi, lo = S.reals("log_s", 2, 1e-4, 12.0), S.reals("log_low", 2, -40.0, -1e-6)
    s, t = 10.0 ** hi, 10.0 ** lo
    cm2 = u.cm ** 2
    S.eq("above threshold", REAL_SIGMA(s), sigma_ref(S, s) * cm2, rtol=1e-4)
    S.eq("below threshold", REAL_SIGMA(t), numpy.zeros(2) * cm2)
    mixed = S.array([s[0], t[0], s[1]])
    r = REAL_SIGMA(mixed)
    S.eq("elementwise", r[0], REAL_SIGMA(s)[0])
    S.eq("elementwise below", r[1], 0 * cm2)
    S.eq("elementwise, last", r[2], REAL_SIGMA(s)[1])
    # the argument is not changed
    S.eq("argument", mixed, S.array([s[0], t[0], s[1]]))
    # photons that never meet
    parallel = S.array([0.0, s[0], t[0]])
    rp = REAL_SIGMA(parallel)
    S.eq("parallel photons", rp[0], 0 * cm2)
    S.eq("parallel photons beside others", rp[1], REAL_SIGMA(s)[0])
    S.eq("argument with zeros", parallel, S.array([0.0, s[0], t[0]]))
    two = REAL_SIGMA(S.np.reshape(S.array([s[0], t[0], s[1], t[1]]), (2, 2)))
    S.check("shape", two.shape == (2, 2))
    S.eq("table", two[1, 0], r[2])
    S.eq("table below", two[1, 1], 0 * cm2)


@case("P19", "cross_section_sign", time=60)
def cross_sign(S):
    # as a function of the velocity in the centre of mass
    b = S.real("beta_cm", 1e-3, 0.999999)
    s = S.array([1 / (1 - b ** 2)])
    S.le("non negative", 0.0 * u.cm ** 2, REAL_SIGMA(s), slack=1e-6)
    S.le("below the Thomson cross section", REAL_SIGMA(s)[0] * (1 / (1 - b ** 2)), 3 / 16 * ST * 3 * S.log((1 + b) / (1 - b)) * u.cm ** 2)


# ------------------------------------------------------------------- the opacities
def any_sigma(S, positive=False):
    """the cross section may be any function here"""
    S.sig = lambda s: REAL_SIGMA(S.np.atleast_1d(s)).to_value("cm2").reshape(S.np.shape(s))
    if S.symbolic and getattr(ta, "sigma", None) is not None:
        f = S.ufn("sigma", lambda s: float(REAL_SIGMA(numpy.array([s]))[0].to_value("cm2")), positive=positive)
        S.sig = f
        ta.sigma = lambda s: f(s) * u.cm ** 2


def tau_target(S, kind, other=False):
    d = dict(L=10.0 ** S.real("log_L", 40.0, 48.0))
    lu, cu = ("W", "pc") if other else ("erg s-1", "cm")
    L = (d["L"] * LU).to(lu)
    if kind == "ps":
        d["e0"] = S.real("eps_0", 1e-9, 1e-2)
        d["L0"] = d["L"]
        return PointSourceBehindJet(L, d["e0"]), d
    if kind == "disk":
        d.update(M=10.0 ** S.real("log_M", 39.5, 43.5), eta=S.real("eta", 0.01, 0.5), Rin=S.real("R_in", 2.0, 20.0), Rout=S.real("R_out", 50.0, 1e4))
        Rg = d["Rg"] = G * d["M"] / C ** 2
        return SSDisk((d["M"] * u.g).to("kg" if other else "g"), L, d["eta"], (d["Rin"] * Rg * u.cm).to("km" if other else "cm"),
                      (d["Rout"] * Rg * u.cm).to(cu)), d
    d["xi"], d["Rt"] = S.real("xi", 1e-4, 1.0), 10.0 ** S.real("log_R_target", 15.0, 20.0)
    if kind == "blr":
        t = SphericalShellBLR(L, d["xi"], "Lyalpha", (d["Rt"] * u.cm).to(cu))
        d["e0"] = t.epsilon_line
        return t, d
    d["T"] = S.real("T", 10.0, 3e3)
    d["e0"] = 2.7 * KB * d["T"] / (ME * C ** 2)
    return RingDustTorus(L, d["xi"], d["T"] * u.K, (d["Rt"] * u.cm).to(cu)), d


def lead(d, kind):
    m = ME * C ** 3
    if kind == "ps":
        return d["L"] / (4 * PI * d["e0"] * m)
    if kind == "disk":
        return 3 * d["L"] / ((4 * PI) ** 2 * d["eta"] * m * d["Rg"])
    if kind == "blr":
        return d["L"] * d["xi"] / ((4 * PI) ** 2 * d["e0"] * m)
    return d["L"] * d["xi"] / (8 * PI ** 2 * d["e0"] * m)


def cospsi(S, ms, mu, phi):
    np = S.np
    return mu * ms + np.sqrt(1 - mu ** 2) * np.sqrt(1 - ms ** 2) * np.cos(phi)


def tau_ref(S, kind, d, r, z, ms, nu, phis, mus, ls, on_axis, Rs=None):
    """documented integrals; r, lengths in cm; axes: the remaining one, azimuth, distance"""
    np = S.np
    cm = u.cm
    out = []
    L, P = ls[None, :], phis[:, None]

    def g(f, cp, x2, e0=None):
        e0 = d["e0"] if e0 is None else e0
        return (1 - cp) / x2 * S.sig(H * f * (1 + z) / (ME * C ** 2) * e0 * (1 - cp) / 2)
    for f in nu:
        if kind == "ps":
            if on_axis:
                out.append(lead(d, kind) * (1 - ms) * S.sig(d["e0"] * H * f * (1 + z) / (ME * C ** 2) * (1 - ms) / 2) / r)
                continue
            x2 = r * r + ls * ls + 2 * ls * r * ms
            out.append(lead(d, kind) * np.trapz(g(f, cospsi(S, ms, (r + ls * ms) / np.sqrt(x2), 0.0), x2), ls, axis=0))
            continue
        if kind == "dt":
            if on_axis:
                x2 = d["Rt"] ** 2 + L ** 2
                y = g(f, cospsi(S, ms, L / np.sqrt(x2), P), x2)
            else:
                # positions and directions are decided by P09
                x = geo.x_re_ring_mu_s(d["Rt"] * cm, r * cm, P, L * cm, ms)
                ph, mu = geo.phi_mu_re_ring(d["Rt"] * cm, r * cm, P, L * cm, ms)
                y = g(f, geo.cos_psi(ms, plain(mu), plain(ph, "rad")), plain(x, "cm") ** 2)
        elif kind == "blr":
            rows = []
            for m in mus:
                if on_axis:
                    x2 = d["Rt"] ** 2 + L ** 2 - 2 * L * d["Rt"] * m
                    star = np.sqrt(1 - d["Rt"] ** 2 / x2 * (1 - m ** 2)) * np.where(L > m * d["Rt"], 1.0, -1.0)
                    rows.append(g(f, cospsi(S, ms, star, P), x2))
                else:
                    x = geo.x_re_shell_mu_s(d["Rt"] * cm, r * cm, P, m, L * cm, ms)
                    ph, mu = geo.phi_mu_re_shell(d["Rt"] * cm, r * cm, P, m, L * cm, ms)
                    rows.append(g(f, geo.cos_psi(ms, plain(mu), plain(ph, "rad")), plain(x, "cm") ** 2))
                if on_axis:
                    rows[-1] = rows[-1] + np.zeros((len(phis), len(ls)))
            y = np.trapz(np.stack(rows), mus, axis=0)
        else:
            # disk, lengths in gravitational radii
            M8 = d["M"] / (1e8 * const.M_sun.cgs.value)
            chi = (d["L"] / (1.26e46 * M8) / (M8 * d["eta"])) ** (1 / 4)
            rows = []
            for R in Rs:
                e0 = 2.7e-4 * chi * R ** (-3 / 4)
                q = 1 + R ** 2 / L ** 2
                rows.append((1 - (d["Rin"] / R) ** 0.5) / (L ** 2 * R ** 2 * q ** 1.5 * e0) * g(f, cospsi(S, ms, q ** (-1 / 2), P), 1.0, e0))
            y = np.trapz(np.stack(rows), Rs, axis=0)
        y = y + np.zeros((len(phis), len(ls)))
        out.append(lead(d, kind) * np.trapz(np.trapz(y, phis, axis=0), ls, axis=0))
    return np.stack(out)


def plain(q, unit=""):
    return q.to_value(unit) if hasattr(q, "unit") else q


def grids(S, kind, d, r, on_axis, nl=50, nm=100, nphi=50):
    np = S.np
    phis, mus = np.linspace(0, 2 * PI, nphi), np.linspace(-1, 1, nm)
    Rs = None
    if kind == "disk":
        ls = np.logspace(0, 5, nl) * (r / d["Rg"])
        Rs = np.linspace(d["Rin"], d["Rout"], 100)
    elif on_axis:
        ls = np.logspace(0, 5, nl) * r
    else:
        ls = np.logspace(-5, 5, 2 * nl) * r
    return dict(phis=phis, mus=mus, ls=ls, Rs=Rs)


def away(S, kind, d, r, ls, ms, on_axis):
    """no point of the path is close to the shell"""
    if kind != "blr":
        return
    for l in ls:
        x = l if on_axis else S.np.sqrt(r ** 2 + l ** 2 + 2 * l * r * ms)
        S.assume((x > 1.001 * d["Rt"]) | (x < 0.999 * d["Rt"]))


def mk_tau(kind, on_axis):
    @case("P20", "%s_%s" % (kind, "on_axis" if on_axis else "off_axis"), time=100, witnesses=1)
    def tau(S):
        # (the disk is only evaluated along its axis)
        S.grid({50: 3, 100: 2} if on_axis else {50: 3, 100: 2, 200: 2})
        any_sigma(S)
        other = S.choice("units", [False, True])
        t, d = tau_target(S, kind, other)
        r, z = 10.0 ** S.real("log_r", 15.0, 20.0), S.real("z", 0.0, 4.0)
        ms = 1 if on_axis else S.real("mu_s", 0.3, 0.999)
        nu = 10.0 ** S.reals("log_nu", 1, 20.0, 30.0)
        q = (r * u.cm).to("km" if other else "cm")
        a = Absorption(t, q, z) if on_axis else Absorption(t, q, z, ms)
        g = grids(S, kind, d, r, on_axis)
        away(S, kind, d, r, g["ls"], ms, on_axis)
        v = a.tau((nu * u.Hz).to("GHz" if other else "Hz"))
        S.check("number", not hasattr(v, "unit"))
        S.eq("tau", v, tau_ref(S, kind, d, r, z, ms, nu, on_axis=on_axis, **g), rtol=1e-4)


for _k in ("disk", "blr", "dt"):
    mk_tau(_k, True)
for _k in ("ps", "blr", "dt"):
    mk_tau(_k, False)


def mk_general(kind):
    @case("P20", "%s_function" % kind, time=100, witnesses=1)
    def general(S):
        """the functions that do not need an object, for any direction"""
        S.grid({50: 2, 100: 2})
        any_sigma(S)
        t, d = tau_target(S, kind)
        r, z, ms = 10.0 ** S.real("log_r", 15.0, 20.0), S.real("z", 0.0, 4.0), S.real("mu_s", 0.3, 0.999)
        nu = 10.0 ** S.reals("log_nu", 1, 20.0, 30.0)
        phis, mus = S.reals("phi", 2, 0.0, 6.28), S.reals("mu", 2, -0.99, 0.99)
        g = grids(S, kind, d, r, True)
        g.update(phis=phis, mus=mus)
        if kind == "blr":
            away(S, kind, d, r, g["ls"], ms, True)
            for l in g["ls"]:
                for m in mus:
                    S.assume((l > 1.001 * m * d["Rt"]) | (l < 0.999 * m * d["Rt"]))
        q, f = r * u.cm, nu * u.Hz
        if kind == "ps":
            v = Absorption.evaluate_tau_ps_behind_blob(f, z, ms, d["e0"], d["L"] * LU, q)
        elif kind == "disk":
            v = Absorption.evaluate_tau_ss_disk(f, z, ms, t.M_BH, t.L_disk, t.eta, t.R_in, t.R_out, q, R_tilde_size=100, l_tilde_size=50, phi=phis)
        elif kind == "blr":
            v = Absorption.evaluate_tau_blr(f, z, ms, t.L_disk, t.xi_line, t.epsilon_line, t.R_line, q, mu=mus, phi=phis)
        else:
            v = Absorption.evaluate_tau_dt(f, z, ms, t.L_disk, t.xi_dt, t.epsilon_dt, t.R_dt, q, phi=phis)
        S.eq("tau", v, tau_ref(S, kind, d, r, z, ms, nu, on_axis=True, **g), rtol=1e-4)


for _k in ("ps", "disk", "blr", "dt"):
    mk_general(_k)


def mk_grids(kind, on_axis):
    @case("P20", "grids_of_the_user_%s_%s" % (kind, "on_axis" if on_axis else "off_axis"), time=100, witnesses=1)
    def user_grids(S):
        """the numbers of angles and distances can be changed at any moment, and so can the distance, redshift and direction"""
        # one of the numbers differs from the default one also in the reduced grids
        change = S.choice("changed", {"blr": ["mu", "phi", "l"], "disk": ["phi", "l"], "dt": ["phi", "l"], "ps": ["l"]}[kind])
        S.grid({50: 2, 100: 2, 20: 4, 30: 3, 40: 3, 60: 3})
        any_sigma(S)
        t, d = tau_target(S, kind)
        r, z, ms = 10.0 ** S.real("log_r", 15.0, 20.0), S.real("z", 0.0, 4.0), 1 if on_axis else S.real("mu_s", 0.3, 0.999)
        nu = 10.0 ** S.reals("log_nu", 1, 20.0, 30.0)
        r0 = 10.0 ** S.real("log_r0", 15.0, 20.0)
        a = Absorption(t, r0 * u.cm, z / 2, 1 if not on_axis else 0.9)
        new = dict(nl=30 if change == "l" else 50, nm=20 if change == "mu" else 100, nphi=40 if change == "phi" else 50)
        a.set_mu(new["nm"])
        a.set_phi(new["nphi"])
        a.set_l(new["nl"])
        a.r, a.z, a.mu_s = r * u.cm, z, ms
        g = grids(S, kind, d, r, on_axis, **new)
        away(S, kind, d, r, g["ls"], ms, on_axis)
        if kind == "blr":
            for l in g["ls"]:
                for m in g["mus"]:
                    S.assume((l > 1.001 * m * d["Rt"]) | (l < 0.999 * m * d["Rt"]))
        S.eq("tau", a.tau(nu * u.Hz), tau_ref(S, kind, d, r, z, ms, nu, on_axis=on_axis, **g), rtol=1e-4)


for _k, _on in (("blr", True), ("dt", True), ("disk", True), ("dt", False), ("blr", False)):
    mk_grids(_k, _on)


@case("P20", "shell_crossing", time=100, witnesses=1)
def crossing(S):
    """a point of the path on the shell is moved off it"""
    S.grid({50: 3, 100: 2})
    any_sigma(S)
    t, d = tau_target(S, "blr")
    z = S.real("z", 0.0, 4.0)
    nu = 10.0 ** S.reals("log_nu", 1, 20.0, 30.0)
    r = d["Rt"]
    g = grids(S, "blr", d, r, True)
    g["ls"] = S.array([x if i else x * (1 + 1e-4) for i, x in enumerate(g["ls"])])
    v = Absorption(t, r * u.cm, z).tau(nu * u.Hz)
    S.finite("finite", v)
    S.eq("tau", v, tau_ref(S, "blr", d, r, z, 1, nu, on_axis=True, **g), rtol=1e-3)


# --------------------------------------------------------------- what follows from tau
def mk_relations(kind, on_axis):
    @case("P21", "relations_%s_%s" % (kind, "on_axis" if on_axis else "off_axis"), time=100, witnesses=1)
    def rel(S):
        np = S.np
        S.grid({50: 2, 100: 2})
        any_sigma(S)
        t, d = tau_target(S, kind)
        r, z = 10.0 ** S.real("log_r", 15.0, 20.0), S.real("z", 0.0, 4.0)
        ms = 1 if on_axis else S.real("mu_s", 0.3, 0.999)
        nu = 10.0 ** S.reals("log_nu", 2, 20.0, 30.0)
        a = Absorption(t, r=r * u.cm, z=z, mu_s=ms)
        away(S, kind, d, r, grids(S, kind, d, r, on_axis)["ls"], ms, on_axis)
        f = nu * u.Hz
        v = a.tau(f)
        S.eq("order", a.tau(f[::-1])[::-1], v)
        S.eq("alone", a.tau(f[1:])[0], v[1])
        S.eq("unit", a.tau(f.to("MHz")), v)
        S.eq("attenuation", a.absorption(f), np.exp(-v))
        # only the energy in the frame of the source counts
        z2 = S.real("z2", 0.0, 4.0)
        S.eq("redshift", Absorption(t, r=r * u.cm, z=z2, mu_s=ms).tau(f * (1 + z) / (1 + z2)), v, rtol=1e-5)
        q = S.real("q", 1e-2, 1e2)
        if kind == "ps":
            t.L_0 = t.L_0 * q
        elif kind in ("blr", "dt"):
            # the reprocessed luminosity is what counts
            t.L_disk, t.xi_line, t.xi_dt = t.L_disk * q * q, d["xi"] / q, d["xi"] / q
        else:
            return
        S.eq("linear in the luminosity", a.tau(f), q * v)


for _k in ("disk", "blr", "dt"):
    mk_relations(_k, True)
for _k in ("ps", "blr", "dt"):
    mk_relations(_k, False)


class Opacity(Absorption):
    """any opacity"""

    def __init__(self, tau):
        self.value = tau

    def tau(self, nu):
        return self.value


@case("P21", "attenuation", time=60)
def attenuation(S):
    t = S.reals("tau", 2, 1e-8, 300.0)
    nu = numpy.array([1e24, 1e25]) * u.Hz
    q = S.choice("quantity", [False, True])
    a = Opacity(t * u.one if q else t)
    S.eq("point source", a.absorption(nu), S.exp(-t))
    S.eq("homogeneous", a.absorption_homogeneous(nu), (1 - S.exp(-t)) / t, rtol=1e-4, atol=1e-6)
    S.le("point source, at most one", a.absorption(nu), 1.0)
    S.le("point source, not negative", 0.0, a.absorption(nu))
    S.le("homogeneous, at most one", a.absorption_homogeneous(nu), 1.0, slack=1e-6)
    S.le("homogeneous, not negative", 0.0, a.absorption_homogeneous(nu))
    S.le("homogeneous is weaker", a.absorption(nu), a.absorption_homogeneous(nu), slack=1e-6)


@case("P21", "transparent", time=60)
def transparent(S):
    """nothing is absorbed where the opacity vanishes"""
    t = S.real("tau", 0.01, 10.0)
    q = S.choice("quantity", [False, True])
    t2 = S.array([0.0, t])
    a = Opacity(t2 * u.one if q else t2)
    nu = numpy.array([1e24, 1e25]) * u.Hz
    S.eq("point source", a.absorption(nu)[0], 1.0)
    h = a.absorption_homogeneous(nu)
    S.finite("homogeneous", h)
    S.eq("homogeneous", h[0], 1.0)
    S.eq("the others", h[1], (1 - S.exp(-t)) / t)


@case("P21", "behind_the_blob", time=60)
def behind(S):
    """photons from behind cannot be absorbed by those that follow them"""
    t, d = tau_target(S, "ps")
    r, z = 10.0 ** S.real("log_r", 15.0, 20.0), S.real("z", 0.0, 4.0)
    nu = 10.0 ** S.reals("log_nu", 2, 15.0, 30.0)
    a = Absorption(t, r * u.cm, z=z)
    S.eq("opacity", a.tau(nu * u.Hz), numpy.zeros(2))
    S.eq("attenuation", a.absorption(nu * u.Hz), numpy.ones(2))
    S.eq("homogeneous", a.absorption_homogeneous(nu * u.Hz), numpy.ones(2))


@case("P21", "no_distance", time=60)
def no_distance(S):
    """only the blob itself needs no distance"""
    for kind in ("ps", "disk", "blr", "dt"):
        t, d = tau_target(S, kind)
        S.raises(kind, ValueError, lambda: Absorption(t))
        S.raises(kind + ", direction", ValueError, lambda: Absorption(t, z=0.5, mu_s=S.real("mu_s", 0.1, 0.9)))
    b = blob(S)[0]
    S.returns("blob", lambda: Absorption(b))


class Endless(PowerLaw):
    """a power law between any Lorentz factors"""

    def __call__(self, gamma):
        return self.k * gamma ** (-self.p)

    def SSA_integrand(self, gamma):
        return self.k * (-self.p - 2) * gamma ** (-self.p - 1)


def blob(S):
    d = dict(z=S.real("z", 1e-3, 5.0), delta=S.real("delta_D", 1.0, 60.0), B=S.real("B", 1e-4, 1e2), R=10.0 ** S.real("log_R", 14.0, 19.0))
    d.update(k=S.real("k_e", 1e-10, 1e6), p=S.real("p_e", 1.0, 5.0), gmin=S.real("gmin_e", 1.0, 1e3), gmax=S.real("gmax_e", 2e3, 1e8))
    n_e = Endless(k=d["k"] * u.Unit("cm-3"), p=d["p"], gamma_min=d["gmin"], gamma_max=d["gmax"])
    b = Blob(R_b=d["R"] * u.cm, z=d["z"], delta_D=d["delta"], Gamma=10.0, B=d["B"] * u.G, n_e=n_e, gamma_e_size=50)
    d["dl"] = S.dL(d["z"]).to_value("cm")
    return b, d


def any_sed(S, b, d):
    """the synchrotron SED may be any function here (P11 - P13 decide which)"""
    v = [d[k] for k in ("R", "z", "delta", "B", "k", "p", "gmin", "gmax")]

    def real(ssa, nu, R, z, delta, B, k, p, lo, hi):
        n_e = Endless(k=k * u.Unit("cm-3"), p=p, gamma_min=lo, gamma_max=hi)
        c = Blob(R_b=R * u.cm, z=z, delta_D=delta, Gamma=10.0, B=B * u.G, n_e=n_e, gamma_e_size=50)
        return float(Synchrotron(c, ssa=ssa).sed_flux(numpy.array([nu]) * u.Hz)[0].to_value(SED))
    if not S.symbolic or getattr(ta, "Synchrotron", None) is None:
        return lambda nu: Synchrotron(b, ssa=True).sed_flux(nu * u.Hz).to_value(SED)
    f = {ssa: S.ufn("sed_%d" % ssa, lambda *a, ssa=ssa: real(ssa, *a), positive=True) for ssa in (False, True)}

    def sed(ssa, nus):
        return S.array([f[ssa](x, *v) for x in nus])

    class Any:
        def __init__(self, blob, ssa=False, integrator=numpy.trapz):
            S.check("region", blob is b)
            self.ssa = ssa

        def sed_flux(self, nu):
            return sed(self.ssa, nu.to_value("Hz")) * SED
    ta.Synchrotron = Any
    return lambda nus: sed(True, nus)


@case("P20", "own_synchrotron", time=100, witnesses=1)
def own(S):
    """absorption on the synchrotron photons of the region itself"""
    np = S.np
    S.grid({50: 2, 200: 2})
    any_sigma(S)
    b, d = blob(S)
    nu = 10.0 ** S.reals("log_nu", 1, 20.0, 30.0)
    other = S.choice("units", [False, True])
    if other:
        b.R_b, b.B = b.R_b.to("pc"), b.B.to("T")
    nuB = E * d["B"] / (2 * PI * ME * C)
    lo, hi = nuB * d["gmin"] ** 2 / 100, nuB * d["gmax"] ** 2 * 100
    nus = np.logspace(np.log10(lo), np.log10(hi), 200)
    sed = any_sed(S, b, d)(nus * d["delta"] / (1 + d["z"]))
    eps = H * nus / (ME * C ** 2)
    n = 9 / 4 * d["dl"] ** 2 * sed / (C * d["R"] ** 2 * d["delta"] ** 4 * eps ** 2 * ME * C ** 2)
    e1 = H * nu[0] * (1 + d["z"]) / d["delta"] / (ME * C ** 2)
    y = np.stack([n[i] * S.sig(eps[i] * e1 / 2) for i in range(len(nus))])
    ref = 2 * d["R"] * np.trapz(y, eps)
    v = Absorption(b).tau((nu * u.Hz).to("GHz" if other else "Hz"))
    S.eq("tau", v * u.one, S.array([ref]) * u.one, rtol=1e-4)


# ------------------------------------------------------------------------------- EBL
EV = const.h.to_value("keV s")
FILES = {"franceschini_2008": "ebl_franceschini", "franceschini_2017": "ebl_franceschini_2017", "dominguez_2011": "ebl_dominguez11",
         "finke_2010": "frd_abs", "saldana_lopez_2021": "ebl_saldana-lopez_2021"}


class _HDU:
    def __init__(self, d):
        self.data = d


def table(lo, hi, z, v):
    return {"ENERGIES": _HDU({"ENERG_LO": lo, "ENERG_HI": hi}), "SPECTRA": _HDU({"PARAMVAL": z, "INTPSPEC": v})}


def bilinear(v, i, j, t, s):
    """redshift cell i, energy cell j"""
    return (v[i][j] * (1 - t) * (1 - s) + v[i][j + 1] * t * (1 - s) + v[i + 1][j] * (1 - t) * s + v[i + 1][j + 1] * t * s)


def small_table(model):
    lo, hi = numpy.array([1e6, 2e7, 8e8, 9e9]), numpy.array([4e6, 5e7, 9e8, 4e10])
    z = numpy.array([0.0, 0.3, 1.5])
    v = numpy.array([[1.0, 0.99, 0.97, 0.8], [0.95, 0.7, 0.33, 0.12], [0.5, 0.21, 0.05, 0.0]])
    return lo, hi, z, v


@case("P22", "any_table", time=60, max_paths=128)
def any_table(S):
    """interpolation of any table, here a stand-in with unequal sizes"""
    model = S.choice("model", list(FILES)[1:])
    lo, hi, z, v = small_table(model)
    opened = []

    class fits:
        @staticmethod
        def open(name, *a, **k):
            opened.append(str(name))
            return table(lo, hi, z, v)
    keep, ea.fits = ea.fits, fits
    try:
        ebl = EBL(model)
    finally:
        ea.fits = keep
    S.check("own file", len(opened) == 1 and opened[0].replace("\\", "/").endswith("/" + FILES[model] + ".fits.gz"))
    i, j = S.choice("cell", [(0, 0), (1, 2), (0, 1)])
    t, s = S.real("t", 0.001, 0.999), S.real("s", 0.001, 0.999)
    e = numpy.sqrt(lo * hi)
    en = e[j] + t * (e[j + 1] - e[j])
    zz = z[i] + s * (z[i + 1] - z[i])
    nu = S.array([en / EV]) * u.Hz
    ref = bilinear(v, i, j, t, s)
    S.eq("in the table", ebl.absorption(nu, zz), S.array([ref]), rtol=1e-4)
    un = {0: "GHz", 1: "eV", 2: "cm"}[j]
    q = {"GHz": en / EV / 1e9, "eV": en * 1e3, "cm": const.c.to_value("cm/s") * EV / en}[un]
    S.eq("unit of the frequencies", ebl.absorption(S.array([q]) * u.Unit(un), zz), S.array([ref]), rtol=1e-4)
    # nodes
    S.eq("nodes", ebl.absorption(e / EV * (1 + 1e-9) * u.Hz, z[1] + 0 * t)[:-1], v[1][:-1], rtol=1e-4)
    two = ebl.absorption(S.array([e[1] * t + e[2] * (1 - t), en]) / EV * u.Hz, zz)
    S.check("shape", two.shape == (2,))
    S.eq("elementwise", two[1], ref, rtol=1e-4)


@case("P22", "outside", time=60)
def outside(S):
    """nothing is made up outside the table"""
    lo, hi, z, v = small_table(None)

    class fits:
        open = staticmethod(lambda *a, **k: table(lo, hi, z, v))
    keep, ea.fits = ea.fits, fits
    try:
        ebl = EBL("dominguez_2011")
    finally:
        ea.fits = keep
    e = numpy.sqrt(lo * hi)
    f = S.real("factor", 1.01, 1e6)
    inside = S.real("inside", 0.01, 0.99)
    np = S.np
    for label, en, zz in (("high energy", e[-1] * f, 0.5), ("low energy", e[0] / f, 0.5), ("distance", e[1], 1.5 + (f - 1)), ("blueshift", e[1], -f)):
        r = ebl.absorption(S.array([en / EV, (e[1] + inside * (e[2] - e[1])) / EV]) * u.Hz, zz)
        S.check(label, np.isnan(r[0]))
        if "energy" in label:
            S.finite(label + ", the others", r[1])


WINDOWS = {"franceschini_2008": (50, 2001), "franceschini_2017": (500, 3001), "dominguez_2011": (500, 399), "finke_2010": (99, 500), "saldana_lopez_2021": (500, 600)}
_OWN = {}


def own_table(model):
    """the distributed table, read here"""
    if model not in _OWN:
        import os
        from astropy.io import fits
        f = fits.open(os.path.join(os.path.dirname(os.path.dirname(ea.__file__)), "data", "ebl_models", FILES[model] + ".fits.gz"))
        e = f["ENERGIES"].data
        e = numpy.array(numpy.sqrt(e["ENERG_LO"] * e["ENERG_HI"]), float)
        z = numpy.array(f["SPECTRA"].data["PARAMVAL"], float)
        v = numpy.array(f["SPECTRA"].data["INTPSPEC"], float)
        keep = numpy.concatenate([[True], numpy.diff(z) > 1e-6])
        _OWN[model] = e, z[keep], v[keep]
    return _OWN[model]


def mk_model(model):
    @case("P22", model, time=100, max_paths=100)
    def dist(S):
        """the distributed tables; any point of some of their cells"""
        e, z, v = own_table(model)
        ne, nz = WINDOWS[model]
        S.check("size", (len(e), len(z)) == (ne, nz))
        j = S.choice("energy cell", [0, ne // 2, 4 * ne // 5, ne - 2])
        i = S.choice("redshift cell", [0, nz // 7, nz // 2 - 2, nz // 2, nz // 2 + 1, nz - 2])
        t, s = S.real("t", 0.01, 0.99), S.real("s", 0.01, 0.99)
        ebl = EBL(model)
        zz = z[i] + s * (z[i + 1] - z[i])
        en = e[j] + t * (e[j + 1] - e[j])
        r = ebl.absorption(S.array([en / EV]) * u.Hz, zz)
        S.eq("value", r, S.array([bilinear(v, i, j, t, s)]), rtol=2e-3, atol=1e-5)
        S.le("not negative", 0.0, r, slack=1e-6)
        S.le("at most one", r, 1.0, slack=1e-6)


for _m in FILES:
    mk_model(_m)


@case("P22", "models", time=60)
def models(S):
    name = S.choice("name", ["franceschini", "dominguez", "finke", "", "Dominguez_2011", None])
    S.raises("unknown model", ValueError, lambda: EBL(name))
    S.check("default", EBL().model_name == "dominguez_2011")
    S.check("all are there", set(ea.ebl_files_dict) >= set(FILES))
