"""Emission region: kinematics, energy content, freshness of derived quantities."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw, BrokenPowerLaw, ExpCutoffPowerLaw

C = const.c.cgs.value
ME = const.m_e.to("erg", equivalencies=u.mass_energy()).value
MP = const.m_p.to("erg", equivalencies=u.mass_energy()).value
ST = const.sigma_T.cgs.value
CM3 = u.Unit("cm-3")
LEN = {"cm": 1.0, "m": 100.0, "pc": u.pc.to("cm")}
BU = {"G": 1.0, "mG": 1e-3, "T": 1e4}
PI = float(numpy.pi)


def electrons(S, tag="e", n=1):
    gmin = S.real("gmin_" + tag, 1.0, 1e3)
    gmax = S.real("gmax_" + tag, 2e3, 1e8)
    p = S.real("p_" + tag, 1.0, 5.0)
    k = S.real("k_" + tag, 1e-10, 1e6)
    mass = const.m_e if tag.startswith("e") else const.m_p
    return PowerLaw(k=k * CM3, p=p, gamma_min=gmin, gamma_max=gmax, mass=mass), (k, p, gmin, gmax)


def blob(S, protons=False, **k):
    rb = S.real("log_R_b", 14.0, 19.0)
    d = dict(
        R=10.0 ** rb, z=S.real("z", 1e-3, 5.0), delta=S.real("delta_D", 0.5, 60.0),
        Gamma=S.real("Gamma", 1.05, 60.0), B=S.real("B", 1e-4, 1e3),
    )
    ru, bu = S.choice("R_unit", ["cm", "pc"]), S.choice("B_unit", ["G", "T"])
    n_e, pe = electrons(S)
    n_p, pp = electrons(S, "p") if protons else (None, None)
    b = Blob(R_b=d["R"] / LEN[ru] * u.Unit(ru), z=d["z"], delta_D=d["delta"], Gamma=d["Gamma"],
             B=d["B"] / BU[bu] * u.Unit(bu), n_e=n_e, n_p=n_p, **k)
    d["e"], d["p"] = pe, pp
    return b, d


def moment(S, pars, size, power):
    """trapezoidal moment of k gamma^-p on the logarithmic grid of the blob"""
    k, p, gmin, gmax = pars
    np = S.np
    g = np.logspace(np.log10(gmin), np.log10(gmax), size)
    return np.trapz(k * g ** (power - p), g)


# ---------------------------------------------------------------- kinematics
@case("P05", "kinematics", time=60)
def kinematics(S):
    b, d = blob(S)
    np = S.np
    S.eq("R_b", b.R_b, d["R"] * u.cm)
    S.eq("volume", b.V_b, 4 * PI / 3 * d["R"] ** 3 * u.cm ** 3)
    S.eq("t_var", b.t_var, (1 + d["z"]) * d["R"] / C / d["delta"] * u.s)
    beta = np.sqrt(1 - 1 / d["Gamma"] ** 2)
    S.eq("beta", b.Beta, beta)
    S.eq("d_L", b.d_L, S.dL(d["z"]))
    S.eq("mu_s", b.mu_s, (1 - 1 / (d["Gamma"] * d["delta"])) / beta)
    S.eq("B", b.B_cgs.value, d["B"])


@case("P05", "doppler_from_angle", time=60)
def doppler(S):
    b, d = blob(S)
    np = S.np
    G = S.real("Gamma_2", 1.05, 60.0)
    th = S.real("theta", 0.0, 3.1415)
    un = S.choice("angle", ["rad", "deg", "arcmin"])
    b.set_delta_D(G, (th * u.rad).to(un) if un != "rad" else th * u.rad)
    mu = np.cos((th * u.rad).to(un).to("rad").value)
    beta = np.sqrt(1 - 1 / G ** 2)
    S.eq("delta_D", b.delta_D, 1 / (G * (1 - beta * mu)))
    S.eq("Gamma", b.Gamma, G)
    # and back: the angle the blob reports is the one that was asked
    S.eq("mu_s", b.mu_s, mu, atol=1e-9)
    S.eq("d_L unchanged", b.d_L, S.dL(d["z"]))
    S.eq("B unchanged", b.B_cgs.value, d["B"])
    S.eq("t_var", b.t_var, (1 + d["z"]) * d["R"] / C / b.delta_D * u.s)


@case("P05", "angle_to_doppler", time=60)
def back(S):
    b, d = blob(S)
    # physical blobs only
    S.assume(b.mu_s < 1.0)
    S.assume(b.mu_s > -1.0)
    mu = b.mu_s
    S.eq("theta_s", S.np.cos(b.theta_s.to("rad").value), mu, atol=1e-9)
    S.eq("consistent", 1 / (d["Gamma"] * (1 - b.Beta * mu)), d["delta"], rtol=1e-5)


@case("P05", "invalid_doppler", time=30)
def invalid(S):
    d = S.real("delta_bad", -10.0, 0.0)
    S.raises("non positive", ValueError, lambda: Blob(delta_D=d))
    S.raises("quantity", ValueError, lambda: Blob(delta_D=10 * u.cm))
    S.raises("string", ValueError, lambda: Blob(delta_D="10"))


# ---------------------------------------------------------------- energetics
def energetics(S, b, d, se, sp):
    np = S.np
    V = 4 * PI / 3 * d["R"] ** 3
    m0, m1, m2 = (moment(S, d["e"], se, i) for i in range(3))
    UB = d["B"] ** 2 / (8 * PI)
    beta = np.sqrt(1 - 1 / d["Gamma"] ** 2)
    pref = 2 * PI * d["R"] ** 2 * beta * d["Gamma"] ** 2 * C
    erg3 = u.Unit("erg cm-3")
    S.eq("n_e_tot", b.n_e_tot, m0 * CM3)
    S.eq("N_e_tot", b.N_e_tot, V * m0 * u.one)
    S.eq("u_e", b.u_e, ME * m1 * erg3)
    S.eq("W_e", b.W_e, V * ME * m1 * u.erg)
    S.eq("U_B", b.U_B, UB * erg3)
    S.eq("P_jet_B", b.P_jet_B, pref * UB * u.Unit("erg s-1"))
    S.eq("u_ph_synch", b.u_ph_synch, ST * UB * d["R"] * m2 * erg3)
    tot = ME * m1
    if d["p"] is not None:
        q0, q1 = (moment(S, d["p"], sp, i) for i in range(2))
        S.eq("n_p_tot", b.n_p_tot, q0 * CM3)
        S.eq("N_p_tot", b.N_p_tot, V * q0 * u.one)
        S.eq("u_p", b.u_p, MP * q1 * erg3)
        S.eq("W_p", b.W_p, V * MP * q1 * u.erg)
        tot = tot + MP * q1
    S.eq("k_eq", b.k_eq, tot / UB)
    S.eq("P_jet_ke", b.P_jet_ke, pref * tot * u.Unit("erg s-1"))


@case("P06", "electrons", time=90)
def leptonic(S):
    size = S.choice("gamma_e_size", [100, 200])
    b, d = blob(S, gamma_e_size=size)
    energetics(S, b, d, size, None)
    S.raises("no protons", AttributeError, lambda: b.n_p_tot)
    S.raises("no protons", AttributeError, lambda: b.u_p)
    S.raises("no protons", AttributeError, lambda: b.gamma_p)


@case("P06", "electrons_and_protons", time=120)
def hadronic(S):
    b, d = blob(S, protons=True, gamma_e_size=200, gamma_p_size=100)
    energetics(S, b, d, 200, 100)


@case("P06", "grid", time=60, max_paths=300)
def grid(S):
    se, sp = S.choice("sizes", [(200, 100), (100, 200)])
    b, d = blob(S, protons=True, gamma_e_size=se, gamma_p_size=sp)
    np = S.np
    for tag, arr, size, pars in (("e", b.gamma_e, se, d["e"]), ("p", b.gamma_p, sp, d["p"])):
        ref = np.logspace(np.log10(pars[2]), np.log10(pars[3]), size)
        S.eq("gamma_" + tag, arr, ref)


@case("P06", "number", time=60)
def number(S):
    b, d = blob(S, protons=True)
    np = S.np
    V = 4 * PI / 3 * d["R"] ** 3
    which = S.choice("which", ["e", "p"])
    g = S.reals("g", 1, 10.0, 1e5)
    k, p, lo, hi = d[which]
    S.assume(g[0] * (1 - 1e-6) > lo)
    S.assume(g[0] * (1 + 1e-6) < hi)
    f = b.N_e if which == "e" else b.N_p
    S.eq("N value", f(g), V * k * g ** (-p) * u.one, rtol=1e-8)


@case("P06", "linear_in_density", time=60)
def linear(S):
    a, d = blob(S, protons=True)
    f = S.real("factor", 1e-3, 1e3)
    before = [a.n_e_tot, a.u_e, a.W_e, a.u_ph_synch, a.k_eq]
    k, p, lo, hi = d["e"]
    a.n_p = None
    k0, P0, B0 = a.k_eq, a.P_jet_ke, a.P_jet_B
    a.n_e = PowerLaw(k=f * k * CM3, p=p, gamma_min=lo, gamma_max=hi)
    after = [a.n_e_tot, a.u_e, a.W_e, a.u_ph_synch]
    for i, (x, y) in enumerate(zip(before, after)):
        S.eq("scaled[%d]" % i, y, f * x)
    S.eq("k_eq", a.k_eq, f * k0)
    S.eq("P_jet_ke", a.P_jet_ke, f * P0)
    S.eq("P_jet_B", a.P_jet_B, B0)


@case("P06", "synch_photon_density", time=60)
def uph(S):
    b, d = blob(S)
    eps = S.real("eps", 1e-12, 1e4)
    sed = S.real("sed", 1e-30, 1e-5)
    r = b.u_ph_synch_diff(eps, sed * u.Unit("erg cm-2 s-1"))
    dl = S.dL(d["z"]).to_value("cm")
    S.eq("value", r, 3 / 4 * 3 * dl ** 2 * sed / (C * d["R"] ** 2 * d["delta"] ** 4 * eps) * u.Unit("erg cm-3"))


# ----------------------------------------------------------- no stale values
QUANT = ["V_b", "t_var", "Beta", "mu_s", "gamma_e", "gamma_p", "n_e_tot", "n_p_tot", "N_e_tot", "N_p_tot", "u_e", "u_p",
         "W_e", "W_p", "U_B", "k_eq", "P_jet_ke", "P_jet_B", "u_ph_synch", "B_cgs"]


def mk_fresh(step):
    @case("P07", "after_" + step, time=120)
    def fresh(S):
        b, d = blob(S, protons=True)
        # read everything once: a value kept from here would be stale below
        old = [getattr(b, q) for q in QUANT]
        kw = dict(R_b=d["R"] * u.cm, z=d["z"], delta_D=d["delta"], Gamma=d["Gamma"], B=d["B"] * u.G, n_e=b.n_e, n_p=b.n_p)
        if step == "R_b":
            b.R_b = kw["R_b"] = S.real("R_new", 1e14, 1e19) * u.cm
        elif step == "B":
            b.B = kw["B"] = S.real("B_new", 1e-4, 1e3) * u.G
        elif step == "Gamma":
            b.Gamma = kw["Gamma"] = S.real("Gamma_new", 1.05, 60.0)
        elif step == "delta_D":
            b.delta_D = kw["delta_D"] = S.real("delta_new", 0.5, 60.0)
        elif step == "n_e":
            b.n_e = kw["n_e"] = electrons(S, "e2")[0]
        elif step == "n_p":
            b.n_p = kw["n_p"] = electrons(S, "p2")[0]
        elif step == "distribution_parameters":
            x = S.real("p_new", 1.0, 5.0)
            y = S.real("gmax_new", 2e3, 1e8)
            w = S.real("k_new", 1e-10, 1e6)
            for dist in (b.n_e, b.n_p):
                dist.p, dist.gamma_max, dist.k = x, y, w * CM3
            kw["n_e"] = PowerLaw(k=w * CM3, p=x, gamma_min=d["e"][2], gamma_max=y)
            kw["n_p"] = PowerLaw(k=w * CM3, p=x, gamma_min=d["p"][2], gamma_max=y, mass=const.m_p)
        elif step == "sizes":
            b.gamma_e_size, b.gamma_p_size = 100, 100
            kw.update(gamma_e_size=100, gamma_p_size=100)
        new = Blob(**kw)
        for q in QUANT:
            S.eq(q, getattr(b, q), getattr(new, q))


for _s in ["R_b", "B", "Gamma", "delta_D", "n_e", "n_p", "distribution_parameters", "sizes"]:
    mk_fresh(_s)
