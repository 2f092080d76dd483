"""Photon targets: energy densities in both frames, construction, thermal spectra."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.targets import CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus, lines_dictionary
from agnpy.targets import targets as tg
from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw

C = const.c.cgs.value
H = const.h.cgs.value
G = const.G.cgs.value
ME = const.m_e.cgs.value
KB = const.k_B.cgs.value
SB = const.sigma_sb.cgs.value
MSUN = const.M_sun.cgs.value
PI = float(numpy.pi)
MEC2 = ME * C ** 2
UD = u.Unit("erg cm-3")
LU = u.Unit("erg s-1")
SED = u.Unit("erg cm-2 s-1")


# Table 5 of Finke (2016): wavelength [Angstrom], radius and luminosity relative to those of Hbeta
TABLE5 = {
    "Lyepsilon": (937.8, 2.7, 0.24), "Lydelta": (949.74, 2.8, 0.24), "CIII": (977.02, 0.83, 0.6), "NIII": (990.69,
    0.85, 0.6), "Lybeta": (1025.72, 1.2, 1.1), "OVI": (1033.83, 1.2, 1.1), "ArI": (1066.66, 4.5, 0.094),
    "Lyalpha": (1215.67, 0.27, 12), "OI": (1304.35, 4.0, 0.23), "SiII": (1306.82, 4.0, 0.23), "SiIV": (1396.76,
    0.83, 1.0), "OIV]": (1402.06, 0.83, 1.0), "CIV": (1549.06, 0.83, 2.9), "NIV": (1718.55, 3.8, 0.3), "AlII":
    (1721.89, 3.8, 0.3), "CIII]": (1908.73, 0.46, 1.8), "[NeIV]": (2423.83, 5.8, 0.051), "MgII": (2798.75, 0.45,
    1.7), "Hdelta": (4102.89, 3.4, 0.12), "Hgamma": (4341.68, 3.2, 0.3), "HeII": (4687.02, 0.63, 0.016), "Hbeta":
    (4862.68, 1.0, 1.0), "[ClIII]": (5539.43, 4.8, 0.039), "HeI": (5877.29, 0.39, 0.092), "Halpha": (6564.61, 1.3,
    3.6)
}


class Moving:
    """what the targets ask of an emission region"""

    def __init__(self, S, hi=0.9999):
        self.Beta = S.real("beta", 0.1, hi)
        self.Gamma = 1 / S.np.sqrt(1 - self.Beta ** 2)


def boost(b, mu):
    return (b.Gamma * (1 - b.Beta * mu)) ** 2


@case("P17", "cmb", time=40)
def cmb(S):
    z = S.real("z", 0.0, 8.0)
    t, b = CMB(z), Moving(S)
    u0 = 7.5657e-15 * 2.72548 ** 4 * (1 + z) ** 4
    S.eq("energy density", t.u(), u0 * UD)
    S.eq("attribute", t.u_0, u0 * UD)
    S.eq("energy", t.epsilon_0, 2.7 * KB * 2.72548 / MEC2 * (1 + z))
    # isotropic in the frame of the galaxy
    S.eq("comoving", t.u(b), b.Gamma ** 2 * (1 + b.Beta ** 2 / 3) * u0 * UD)


@case("P17", "real_blob", time=60)
def real_blob(S):
    """with an emission region of the library"""
    Gm = S.real("Gamma", 1.1, 100.0)
    z = S.real("z", 1e-3, 4.0)
    n_e = PowerLaw(k=1 * u.Unit("cm-3"), p=2.0, gamma_min=10.0, gamma_max=1e5)
    b = Blob(R_b=1e16 * u.cm, z=z, delta_D=1.1, Gamma=Gm, B=1 * u.G, n_e=n_e)
    b2 = S.np.sqrt(1 - 1 / Gm ** 2)
    t = CMB(z)
    S.eq("cmb", t.u(b), Gm ** 2 * (1 + b2 ** 2 / 3) * t.u())
    L, r = 10.0 ** S.real("log_L", 40.0, 48.0), 10.0 ** S.reals("log_r", 1, 15.0, 21.0)
    ps = PointSourceBehindJet(L * LU, 1e-5)
    S.eq("point source", ps.u(r * u.cm, b), ps.u(r * u.cm) / (Gm * (1 + b2)) ** 2)


def dist(S, n=2, lo=14.0, hi=21.0):
    un = S.choice("r_unit", ["cm", "pc"])
    r = 10.0 ** S.reals("log_r", n, lo, hi)
    return r, (r * u.cm).to(un)


def repaired(S, v, right):
    """a recorded finding is no longer there"""
    return not S.symbolic and bool(numpy.all(abs(v / right - 1) < 1e-4))


def lum(S):
    L = 10.0 ** S.real("log_L", 40.0, 48.0)
    return L, (L * LU).to(S.choice("L_unit", ["erg s-1", "W"]))


@case("P17", "point_source", time=60)
def point(S):
    L, qL = lum(S)
    r, q = dist(S)
    b = Moving(S)
    t = PointSourceBehindJet(qL, S.real("eps_0", 1e-9, 1e-2))
    S.eq("still", t.u(q), L / (4 * PI * C * r ** 2) * UD)
    S.eq("comoving", t.u(q, b), L / (4 * PI * C * r ** 2) * boost(b, 1.0) * UD, rtol=1e-5)
    S.eq("alone", t.u(q[1:], blob=b)[0], t.u(q, b)[1])


@case("P17", "ring", time=60)
def ring(S):
    L, qL = lum(S)
    r, q = dist(S)
    b = Moving(S)
    xi, R = S.real("xi", 1e-4, 1.0), 10.0 ** S.real("log_R", 15.0, 21.0)
    t = RingDustTorus(qL, xi, 1e3 * u.K, R_dt=(R * u.cm).to(S.choice("R_unit", ["cm", "lyr"])))
    x = S.np.sqrt(R ** 2 + r ** 2)
    S.eq("still", t.u(q), xi * L / (4 * PI * C * x ** 2) * UD)
    S.eq("comoving", t.u(q, b), xi * L / (4 * PI * C * x ** 2) * boost(b, r / x) * UD)
    S.eq("alone", t.u(q[1:], b)[0], t.u(q, b)[1])
    S.eq("scalar", t.u(q[0]), t.u(q)[0])


def cos_shell(S, m, R, a):
    """cosine of the zenith of the photons of an element of the shell, without its sign (P09 relates it to the positions)"""
    x2 = R ** 2 + a ** 2 - 2 * a * R * m
    return S.np.sqrt(1 - R ** 2 / x2 * (1 - m ** 2))


def shell(S, beyond):
    np = S.np
    S.grid({50: 3})
    L, qL = lum(S)
    r, q = dist(S)
    xi, R = S.real("xi", 1e-4, 1.0), 10.0 ** S.real("log_R", 15.0, 20.0)
    if beyond is True:
        for x in r:
            S.assume(x > R * 1.001)
    elif beyond is False:
        for x in r:
            S.assume(x < R * 0.999)
    t = SphericalShellBLR(qL, xi, "Lyalpha", (R * u.cm).to(S.choice("R_unit", ["cm", "lyr"])))
    mus = np.linspace(-1, 1, 50)
    x2 = [[R ** 2 + a ** 2 - 2 * a * R * m for a in r] for m in mus]

    def ref(f):
        y = np.stack([S.array([f(m, a, x2[i][j]) / x2[i][j] for j, a in enumerate(r)]) for i, m in enumerate(mus)])
        return xi * L / (8 * PI * C) * np.trapz(y, mus, axis=0) * UD
    return t, r, q, R, ref, L, xi


@case("P17", "shell", time=60)
def shell_still(S):
    t, r, q, R, ref, L, xi = shell(S, None)
    # the photon is not on the shell
    for x in r:
        S.assume((x > 1.001 * R) | (x < 0.999 * R))
    S.eq("still", t.u(q), ref(lambda m, a, x2: 1.0), rtol=1e-5)
    S.eq("alone", t.u(q[1:])[0], t.u(q)[1])


@case("P17", "shell_comoving_beyond", time=90)
def shell_beyond(S):
    t, r, q, R, ref, L, xi = shell(S, True)
    b = Moving(S)
    S.eq("comoving", t.u(q, b), ref(lambda m, a, x2: boost(b, cos_shell(S, m, R, a))), rtol=1e-4)


@case("P17", "shell_comoving_inside", time=90)
def shell_inside(S):
    np = S.np
    t, r, q, R, ref, L, xi = shell(S, False)
    b = Moving(S)
    v = t.u(q, b)
    # photons of the part of the shell ahead of the blob come head on
    right = ref(lambda m, a, x2: boost(b, cos_shell(S, m, R, a) * np.where(a > R * m, 1.0, -1.0)))
    S.eq("photons from ahead", v, right, rtol=1e-4)
    if repaired(S, v, right):
        return
    # the recorded finding: all photons are taken as coming from behind
    S.eq("comoving inside, as recorded", v, ref(lambda m, a, x2: boost(b, cos_shell(S, m, R, a))), rtol=1e-4)


def disk(S, **k):
    np = S.np
    d = dict(M=10.0 ** S.real("log_M", 39.0, 44.0), L=10.0 ** S.real("log_L", 42.0, 48.0), eta=S.real("eta", 0.01, 0.5),
             Rin=S.real("R_in", 2.0, 20.0), Rout=S.real("R_out", 50.0, 1e5))
    d["Rg"] = G * d["M"] / C ** 2
    un = S.choice("units", [("g", "erg s-1", "cm", "cm"), ("kg", "W", "pc", "km")])
    d["un"] = un
    t = SSDisk((d["M"] * u.g).to(un[0]), (d["L"] * LU).to(un[1]), d["eta"], (d["Rin"] * d["Rg"] * u.cm).to(un[2]),
               (d["Rout"] * d["Rg"] * u.cm).to(un[3]))
    return t, d


def disk_ref(S, L, eta, Rg, Rin, Rout, r, f):
    np = S.np
    rt = r / Rg
    mus = np.linspace(1 / np.sqrt(1 + (Rout / rt) ** 2), 1 / np.sqrt(1 + (Rin / rt) ** 2), 100)
    y = []
    for m in mus:
        R = rt * np.sqrt(m ** -2 - 1)
        y.append((1 - np.sqrt(Rin / R)) * f(m) / (m * (m ** -2 - 1) ** 1.5))
    return 3 * L * Rg / (8 * PI * C * eta * r ** 3) * np.trapz(np.stack(y), mus) * UD


@case("P17", "disk_density", time=90)
def disk_u(S):
    np = S.np
    S.grid({100: 3})
    t, d = disk(S)
    un = S.choice("r_unit", ["cm", "pc"])
    # further away the integrand cannot be evaluated in double precision
    r = 10.0 ** S.reals("log_rt", 2, 1.0, 4.0) * d["Rg"]
    q = (r * u.cm).to(un)
    ref = [disk_ref(S, d["L"], d["eta"], d["Rg"], d["Rin"], d["Rout"], x, lambda m: 1.0) for x in r]
    v = t.u(q)
    S.eq("still", v[0], ref[0], rtol=1e-5)
    S.eq("further", v[1], ref[1], rtol=1e-5)
    S.eq("alone", t.u(q[1:])[0], v[1])
    S.eq("scalar", t.u(q[0]), v[0])


@case("P17", "disk_comoving", time=90)
def disk_boost(S):
    """photons from the angle mu are changed by [Gamma (1 - beta mu)]^2"""
    np = S.np
    # the inner edge does not radiate, the other end of the grid is the outer edge
    S.grid({100: 2})
    M, L, eta = 2.4e42, 10.0 ** S.real("log_L", 42.0, 48.0), S.real("eta", 0.01, 0.5)
    Rin = S.real("R_in", 2.0, 20.0)
    Rout, rt = S.choice("geometry", [(200.0, 10.0), (1000.0, 77.0), (5000.0, 12345.0)])
    Rg = G * M / C ** 2
    t = SSDisk(M * u.g, L * LU, eta, Rin * Rg * u.cm, Rout * Rg * u.cm)
    b = Moving(S)
    S.eq("comoving", t.u(rt * Rg * u.cm, b), disk_ref(S, L, eta, Rg, Rin, Rout, rt * Rg, lambda m: dermer(b, m)), rtol=1e-4)


def dermer(b, m):
    mp = (m - b.Beta) / (1 - b.Beta * m)
    return 1 / (b.Gamma ** 6 * (1 - b.Beta * m) ** 2 * (1 + b.Beta * mp) ** 4)


@case("P17", "two_forms", time=60)
def two_forms(S):
    """the form of the transformation used for the disk is that of the other targets"""
    b, m = Moving(S), S.real("mu", -1.0, 1.0)
    S.eq("equal", dermer(b, m), boost(b, m), rtol=1e-4)


# ------------------------------------------------------------------ construction
@case("P18", "disk_attributes", time=60)
def disk_attr(S):
    np = S.np
    t, d = disk(S)
    S.eq("gravitational radius", t.R_g, d["Rg"] * u.cm)
    M8 = d["M"] / (1e8 * MSUN)
    S.eq("mass", t.M_8, M8)
    S.eq("Eddington luminosity", t.L_Edd, 1.26e46 * M8 * LU)
    S.eq("Eddington ratio", t.l_Edd, d["L"] / (1.26e46 * M8))
    S.eq("accretion rate", t.m_dot, d["L"] / (d["eta"] * C ** 2) * u.Unit("g s-1"))
    S.eq("inner radius", t.R_in, d["Rin"] * d["Rg"] * u.cm)
    S.eq("outer radius", t.R_out, d["Rout"] * d["Rg"] * u.cm)
    S.eq("inner radius in R_g", t.R_in_tilde, d["Rin"])
    S.eq("outer radius in R_g", t.R_out_tilde, d["Rout"])


@case("P18", "disk_two_ways", time=60)
def disk_two_ways(S):
    """radii as lengths or in gravitational radii"""
    rin, rout = S.choice("radii", [(S.real("R_in", 2.0, 20.0), S.real("R_out", 50.0, 1e5)), (3, 1000)])
    M, L, eta = 10.0 ** S.real("log_M", 39.0, 44.0), 10.0 ** S.real("log_L", 42.0, 48.0), S.real("eta", 0.01, 0.5)
    Rg = G * M / C ** 2
    a = SSDisk(M * u.g, L * LU, eta, rin, rout, R_g_units=True)
    b = SSDisk(M * u.g, L * LU, eta, rin * Rg * u.cm, rout * Rg * u.cm)
    for n in ("R_in", "R_out", "R_in_tilde", "R_out_tilde", "m_dot", "l_Edd", "R_g"):
        S.eq(n, getattr(a, n), getattr(b, n))
    S.eq("R_in value", a.R_in, rin * Rg * u.cm)
    S.eq("R_out value", a.R_out, rout * Rg * u.cm)
    q = rin * Rg * u.cm
    S.raises("quantity as R_g", TypeError, lambda: SSDisk(M * u.g, L * LU, eta, q, q * 10, R_g_units=True))
    S.raises("one quantity as R_g", TypeError, lambda: SSDisk(M * u.g, L * LU, eta, rin, q * 10, R_g_units=True))
    S.raises("numbers as lengths", TypeError, lambda: SSDisk(M * u.g, L * LU, eta, rin, rout))
    S.raises("one number as length", TypeError, lambda: SSDisk(M * u.g, L * LU, eta, q, rout))


@case("P18", "disk_profile", time=60)
def disk_profile(S):
    np = S.np
    t, d = disk(S)
    x = S.reals("R", 2, 20.1, 1e5)
    rt = 10.0 ** S.real("log_rt", 0.5, 7.0)
    M8 = d["M"] / (1e8 * MSUN)
    chi = (d["L"] / (1.26e46 * M8) / (M8 * d["eta"])) ** 0.25
    e = 2.7e-4 * chi * x ** (-0.75)
    S.eq("energy", t.epsilon(x), e)
    S.eq("energy, static", SSDisk.evaluate_epsilon(d["L"] * LU, d["M"] * u.g, d["eta"], x), e)
    S.eq("flux profile", t.phi_disk(x), 1 - np.sqrt(d["Rin"] / x))
    mu = 1 / np.sqrt(1 + (x / rt) ** 2)
    S.eq("energy seen from above", t.epsilon_mu(mu, rt), e, rtol=1e-5)
    S.eq("profile seen from above", t.phi_disk_mu(mu, rt), 1 - np.sqrt(d["Rin"] / x), rtol=1e-5)
    T4 = 3 * G * d["M"] * (d["L"] / (d["eta"] * C ** 2)) * (1 - np.sqrt(d["Rin"] / x)) / (8 * PI * (x * d["Rg"]) ** 3 * SB)
    S.eq("temperature", t.T(x * d["Rg"] * u.cm) ** 4, T4 * u.K ** 4, rtol=1e-5)
    S.eq("temperature, unit", t.T((x * d["Rg"] * u.cm).to("pc")) ** 4, T4 * u.K ** 4, rtol=1e-5)


@case("P18", "disk_angles", time=60)
def disk_angles(S):
    np = S.np
    S.grid({100: 3, 7: 4})
    rin, rout, rt = S.real("R_in", 2.0, 20.0), S.real("R_out", 50.0, 1e5), 10.0 ** S.real("log_rt", 0.5, 7.0)
    for n in (100, 7):
        m = SSDisk.evaluate_mu_from_r_tilde(rin, rout, rt) if n == 100 else SSDisk.evaluate_mu_from_r_tilde(rin, rout, rt, size=7)
        S.eq("outer edge", m[0] ** 2 * (rt ** 2 + rout ** 2), rt ** 2)
        S.eq("inner edge", m[-1] ** 2 * (rt ** 2 + rin ** 2), rt ** 2)
        S.eq("even", m[1] - m[0], m[-1] - m[-2], atol=1e-12)
        S.check("size", len(m) == len(np.linspace(0, 1, n)))
    S.lt("positive", 0.0, m[0])
    S.lt("increasing", m[0], m[-1])


@case("P18", "lines", time=60)
def lines(S):
    n = S.choice("line", sorted(TABLE5))
    L, xi, R = 10.0 ** S.real("log_L", 40.0, 48.0), S.real("xi", 1e-4, 1.0), 10.0 ** S.real("log_R", 15.0, 20.0)
    t = SphericalShellBLR(L * LU, xi, n, R * u.cm)
    lam, r_ratio, l_ratio = TABLE5[n][0] * u.Angstrom, *TABLE5[n][1:]
    S.eq("radius of the line", xi * lines_dictionary[n]["R_Hbeta_ratio"], xi * r_ratio)
    S.eq("luminosity of the line", xi * lines_dictionary[n]["L_Hbeta_ratio"], xi * l_ratio)
    S.eq("wavelength", t.lambda_line * xi, lam * xi)
    S.eq("energy", t.epsilon_line * xi, xi * H * C / lam.to_value("cm") / MEC2)
    S.eq("luminosity", t.L_disk, L * LU)
    S.eq("fraction", t.xi_line, xi)
    S.eq("radius", t.R_line, R * u.cm)
    S.check("name", t.line == n)
    S.raises("unknown line", NameError, lambda: SphericalShellBLR(L * LU, xi, n + "?", R * u.cm))


@case("P18", "torus", time=60)
def torus(S):
    L, xi, T = 10.0 ** S.real("log_L", 40.0, 48.0), S.real("xi", 1e-4, 1.0), S.real("T", 10.0, 5e3)
    R = 10.0 ** S.real("log_R", 15.0, 21.0)
    un = S.choice("unit", ["erg s-1", "W"])
    t = RingDustTorus((L * LU).to(un), xi, T * u.K)
    S.eq("sublimation radius", t.R_dt, 3.5e18 * (L / 1e45) ** 0.5 * (T / 1e3) ** -2.6 * u.cm)
    S.eq("temperature", t.Theta, KB * T / MEC2)
    S.eq("energy", t.epsilon_dt, 2.7 * KB * T / MEC2)
    t = RingDustTorus(L * LU, xi, T * u.K, R * u.cm)
    S.eq("given radius", t.R_dt, R * u.cm)
    S.eq("luminosity", t.L_disk, L * LU)


# ------------------------------------------------------------------- thermal spectra
def planck(S, nu, T):
    return 2 * H * nu ** 3 / C ** 2 / (S.np.exp(H * nu / (KB * T)) - 1)


@case("P18", "torus_sed", time=60)
def torus_sed(S):
    np = S.np
    L, xi, T = 10.0 ** S.real("log_L", 40.0, 48.0), S.real("xi", 1e-4, 1.0), S.real("T", 100.0, 3e3)
    R, z = 10.0 ** S.real("log_R", 16.0, 20.0), S.real("z", 1e-3, 4.0)
    nu = 10.0 ** S.reals("log_nu", 2, 10.0, 15.0)
    un = S.choice("units", [("erg s-1", "cm"), ("W", "pc")])
    dl = S.dL(z).to_value("cm")
    t = RingDustTorus((L * LU).to(un[0]), xi, T * u.K, (R * u.cm).to(un[1]))
    bb = PI * (R / dl) ** 2 * nu * planck(S, nu * (1 + z), T)
    S.eq("black body", RingDustTorus.evaluate_bb_sed(nu * u.Hz, z, T * u.K, (R * u.cm).to(un[1]), dl * u.cm), bb * SED, rtol=1e-4)
    norm = xi * L / (4 * PI * R ** 2 * SB * T ** 4)
    S.eq("normalised", t.sed_flux(nu * u.Hz, z), norm * bb * SED, rtol=1e-4)
    S.eq("unit of frequency", t.sed_flux((nu * u.Hz).to("GHz"), z), norm * bb * SED, rtol=1e-4)


@case("P18", "torus_redshift", time=60)
def torus_z(S):
    """4 pi d_L^2 times the flux at nu/(1+z) is the same luminosity for every redshift"""
    L, xi, T = 10.0 ** S.real("log_L", 40.0, 48.0), S.real("xi", 1e-4, 1.0), S.real("T", 100.0, 3e3)
    R, z, z2 = 10.0 ** S.real("log_R", 16.0, 20.0), S.real("z", 1e-3, 4.0), S.real("z2", 1e-3, 4.0)
    nu = 10.0 ** S.reals("log_nu", 1, 11.0, 14.0)
    t = RingDustTorus(L * LU, xi, T * u.K, R * u.cm)
    f = lambda z: 4 * PI * S.dL(z) ** 2 * t.sed_flux(nu / (1 + z) * u.Hz, z)
    S.eq("luminosity conserved", f(z), f(z2), rtol=1e-4)
    if repaired(S, f(z), f(z2)):
        return
    # the recorded finding: the integral luminosity is divided by 1+z
    S.eq("redshift dependence, as recorded", (1 + z) * f(z), (1 + z2) * f(z2), rtol=1e-4)


def multi(S, d, nu, z, dl, n=100):
    np = S.np
    R = np.linspace(d["Rin"] * d["Rg"], d["Rout"] * d["Rg"], n)
    rows = []
    for x in R:
        T = (3 * G * d["M"] * d["L"] / (d["eta"] * C ** 2) * (1 - np.sqrt(d["Rin"] * d["Rg"] / x)) / (8 * PI * x ** 3 * SB)) ** 0.25
        rows.append(x * planck(S, nu * (1 + z), T))
    return 2 * PI / dl ** 2 * nu * np.trapz(np.stack(rows), R, axis=0)


@case("P18", "disk_sed", time=90)
def disk_sed(S):
    np = S.np
    S.grid({100: 3})
    t, d = disk(S)
    z, mu_s = S.real("z", 1e-3, 4.0), S.real("mu_s", 0.1, 1.0)
    nu = 10.0 ** S.reals("log_nu", 2, 11.0, 16.0)
    dl = S.dL(z).to_value("cm")
    bb = multi(S, d, nu, z, dl)
    S.eq("multi-temperature black body", SSDisk.evaluate_multi_T_bb_sed(nu * u.Hz, z, t.M_BH, t.m_dot, t.R_in, t.R_out, dl * u.cm, mu_s),
         mu_s * bb * SED, rtol=1e-4)
    S.eq("face on", SSDisk.evaluate_multi_T_bb_sed(nu * u.Hz, z, t.M_BH, t.m_dot, t.R_in, t.R_out, dl * u.cm), bb * SED, rtol=1e-4)


@case("P18", "disk_luminosity", time=120)
def disk_norm(S):
    """the two sides of the disk emit its luminosity"""
    np = S.np
    S.grid({100: 2})
    z, mu_s = S.real("one_plus_z", 1.001, 5.0) - 1, S.real("mu_s", 0.1, 1.0)
    M, L, eta = 10.0 ** S.real("log_M", 39.0, 44.0), 10.0 ** S.real("log_L", 42.0, 48.0), S.real("eta", 0.01, 0.5)
    rin, rout = S.choice("radii", [(6.0, 200.0), (3, 1000)])
    t = SSDisk(M * u.g, L * LU, eta, rin, rout, R_g_units=True)
    dl = S.dL(z)
    nus = numpy.array([1e10, 1e13, 1e15])
    tg.nu_to_integrate = nus * u.Hz
    f = (t.sed_flux(nus * u.Hz, z, mu_s) / (nus * u.Hz))
    S.eq("luminosity", 2 * 4 * PI * dl ** 2 * np.trapz(f, nus * u.Hz), L * LU, rtol=1e-4)
    nu = 10.0 ** S.reals("log_nu", 1, 11.0, 15.5)
    raw = lambda x: SSDisk.evaluate_multi_T_bb_sed(x * u.Hz, z, t.M_BH, t.m_dot, t.R_in, t.R_out, dl, mu_s)
    S.eq("shape", t.sed_flux(nu * u.Hz, z, mu_s) * raw(nus)[1], t.sed_flux(nus * u.Hz, z, mu_s)[1] * raw(nu), rtol=1e-4)
