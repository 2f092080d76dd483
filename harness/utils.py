"""Unit conversions, geometry of the targets, numerical helpers."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.utils import conversion as cv, geometry as geo, math as am

C = const.c.cgs.value
H = const.h.cgs.value
G = const.G.cgs.value
ME = const.m_e.cgs.value
MP = const.m_p.cgs.value
PI = float(numpy.pi)


# ---------------------------------------------------------------- conversions
@case("P08", "nu_to_epsilon_prime", time=40)
def eps(S):
    nu = S.reals("log_nu", 2, 5.0, 30.0)
    z, d = S.real("z", 0.0, 6.0), S.real("delta_D", 0.1, 100.0)
    unit, f = S.choice("unit", [("Hz", 1.0), ("GHz", 1e9)])
    q = 10.0 ** nu / f * u.Unit(unit)
    for m, mm in ((const.m_e, ME), (const.m_p, MP)):
        ref = H * 10.0 ** nu / (mm * C ** 2)
        S.eq("boosted", cv.nu_to_epsilon_prime(q, z, d, m=m), (1 + z) * ref / d)
        S.eq("rest", cv.nu_to_epsilon_prime(q, m=m), ref)
        S.eq("scalar", cv.nu_to_epsilon_prime(q[0], z=z, delta_D=d, m=m), (1 + z) * ref[0] / d)
        back = (cv.nu_to_epsilon_prime(q, m=m) * u.one).to("Hz", equivalencies=cv.epsilon_equivalency(m))
        S.eq("inverse", back, q)
    S.eq("default", cv.nu_to_epsilon_prime(q, z, d), cv.nu_to_epsilon_prime(q, z, d, m=const.m_e))
    S.raises("other mass", ValueError, lambda: cv.nu_to_epsilon_prime(q, z, d, m=2 * const.m_e))


@case("P08", "B_to_cgs", time=30)
def bcgs(S):
    b = S.real("B", 1e-6, 1e5)
    unit, f = S.choice("unit", [("G", 1.0), ("mG", 1e-3), ("T", 1e4), ("uG", 1e-6)])
    r = cv.B_to_cgs(b / f * u.Unit(unit))
    S.eq("value", r.value, b)
    S.eq("energy density", (r ** 2).to("erg cm-3"), b ** 2 * u.Unit("erg cm-3"))


@case("P08", "gravitational_radii", time=30)
def rg(S):
    r, m = S.real("log_r", 12.0, 22.0), S.real("log_M", 5.0, 11.0)
    unit = S.choice("unit", ["cm", "pc"])
    mu = S.choice("mass_unit", ["M_sun", "g"])
    q = (10.0 ** r * u.cm).to(unit)
    ms = const.M_sun.cgs.value
    M = 10.0 ** m * const.M_sun if mu == "M_sun" else 10.0 ** m * ms * u.g
    S.eq("value", cv.to_R_g_units(q, M), 10.0 ** r * C ** 2 / (G * ms * 10.0 ** m))


@case("P08", "constants", time=30)
def consts(S):
    f = S.real("f", 0.5, 2.0)
    S.eq("mec2", f * cv.mec2, f * ME * C ** 2 * u.erg)
    S.eq("mpc2", f * cv.mpc2, f * MP * C ** 2 * u.erg)
    S.eq("lambda_e", f * cv.lambda_c_e, f * H / (ME * C) * u.cm)
    S.eq("lambda_p", f * cv.lambda_c_p, f * H / (MP * C) * u.cm)


# ------------------------------------------------------------------- geometry
def unitv(S, mu, phi):
    s = S.np.sqrt(1 - mu ** 2)
    return s * S.np.cos(phi), s * S.np.sin(phi), mu


@case("P09", "cos_psi", time=60)
def cospsi(S):
    np = S.np
    mu, ms, ph = S.real("mu", -1, 1), S.real("mu_s", -1, 1), S.real("phi", 0, 2 * PI)
    c = geo.cos_psi(ms, mu, ph)
    a, b = unitv(S, mu, ph), unitv(S, ms, 0.0)
    S.eq("scalar product", c, a[0] * b[0] + a[2] * b[2], atol=1e-12)
    S.eq("symmetric", c, geo.cos_psi(mu, ms, ph), atol=1e-12)
    S.eq("aligned", geo.cos_psi(1.0, mu, ph), mu)
    S.eq("anti-aligned", geo.cos_psi(-1.0, mu, ph), -mu)
    S.eq("itself", geo.cos_psi(mu, mu, 0.0), 1.0)
    arr = geo.cos_psi(ms, S.array([mu, 0.25]), ph)
    S.eq("elementwise", arr[0], c, atol=1e-12)


@case("P09", "cos_psi_range", time=60)
def cosrange(S):
    np = S.np
    mu, ms, ph = S.real("mu", -1, 1), S.real("mu_s", -1, 1), S.real("phi", 0, 2 * PI)
    c = geo.cos_psi(ms, mu, ph)
    one = geo.cos_psi(ms, mu, 0.0)
    opp = geo.cos_psi(ms, mu, PI)
    # in azimuth it lies between the values at 0 and pi, which are cosines
    S.le("below", c, one, slack=1e-6)
    S.le("above", opp, c, slack=1e-6)
    s = np.sqrt(1 - mu ** 2) * ms - mu * np.sqrt(1 - ms ** 2)
    S.eq("cosine", one ** 2 + s ** 2, 1.0, atol=1e-9)


def lengths(S):
    un = S.choice("unit", ["cm", "pc"])
    f = u.Unit(un).to("cm")
    R, r = 10.0 ** S.real("log_R", 15.0, 20.0), 10.0 ** S.real("log_r", 14.0, 22.0)
    return R, r, R / f * u.Unit(un), r * u.cm


@case("P09", "on_axis", time=60)
def onaxis(S):
    np = S.np
    R, r, qR, qr = lengths(S)
    mu = S.real("mu", -0.999, 0.999)
    x = geo.x_re_shell(mu, qR, qr)
    # position of the shell element and of the blob
    sx, sz = R * np.sqrt(1 - mu ** 2), R * mu
    S.eq("shell distance", x ** 2, (sx ** 2 + (r - sz) ** 2) * u.cm ** 2, rtol=1e-6)
    S.eq("ring distance", geo.x_re_ring(qR, qr) ** 2, (R ** 2 + r ** 2) * u.cm ** 2)
    S.eq("ring is the equator", geo.x_re_ring(qR, qr), geo.x_re_shell(0.0, qR, qr))
    S.le("shell distance from below", (r - R) ** 2 * u.cm ** 2, x ** 2, slack=1e-6)
    S.le("shell distance from above", x ** 2, (r + R) ** 2 * u.cm ** 2, slack=1e-6)


@case("P09", "mu_star", time=90)
def mustar(S):
    np = S.np
    R, r, qR, qr = lengths(S)
    mu = S.real("mu", -0.999, 0.999)
    x = geo.x_re_shell(mu, qR, qr)
    m = geo.mu_star_shell(mu, qR, qr)
    S.eq("angle", m ** 2 * x ** 2, (r - R * mu) ** 2 * u.cm ** 2, rtol=1e-5, atol=1e-9 * (R * R + r * r) if not S.symbolic else 0)
    S.assume((r > 1.001 * R * mu) | (r < 0.999 * R * mu))
    beyond = bool(r > R * mu)
    if beyond:
        S.le("photons from behind", 0.0 * u.one, m)
    else:
        S.le("photons from ahead", m, 0.0 * u.one)
    am_ = geo.mu_star_shell(S.array([mu, 0.0]), qR, qr)
    S.eq("elementwise", am_[0], m)


def photon(S):
    R, r, qR, qr = lengths(S)
    un = 10.0 ** S.real("log_u", 14.0, 22.0)
    ms = S.real("mu_s", -1.0, 1.0)
    ph = S.real("phi_re", 0.0, 2 * PI)
    return R, r, qR, qr, un, ms, ph


def far(S, *d2):
    """the photon is not at the reprocessing element"""
    pass


@case("P09", "ring_off_axis", time=90)
def ring(S):
    np = S.np
    R, r, qR, qr, x, ms, ph = photon(S)
    ss = np.sqrt(1 - ms ** 2)
    dx, dy, dz = x * ss - R * np.cos(ph), -R * np.sin(ph), r + x * ms
    d = geo.x_re_ring_mu_s(qR, qr, ph, x * u.cm, ms)
    at = 1e-9 * (R * R + r * r + x * x) if not S.symbolic else 0
    S.eq("distance", d ** 2, (dx ** 2 + dy ** 2 + dz ** 2) * u.cm ** 2, rtol=1e-5, atol=at)
    p, m = geo.phi_mu_re_ring(qR, qr, ph, x * u.cm, ms)
    S.eq("zenith", m * d, dz * u.cm, rtol=1e-6)
    # forwards along the axis it is the on-axis distance at the new height
    d1 = geo.x_re_ring_mu_s(qR, qr, ph, x * u.cm, 1.0)
    S.eq("along the axis", d1 ** 2, geo.x_re_ring(qR, qr + x * u.cm) ** 2)
    S.eq("at the start", geo.x_re_ring_mu_s(qR, qr, ph, 0.0 * u.cm, ms) ** 2, geo.x_re_ring(qR, qr) ** 2)


@case("P09", "ring_azimuth", time=90)
def ringphi(S):
    np = S.np
    R, r, qR, qr, x, ms, ph = photon(S)
    ss = np.sqrt(1 - ms ** 2)
    dx, dy = x * ss - R * np.cos(ph), -R * np.sin(ph)
    S.assume(dx ** 2 + dy ** 2 > 1e-6 * R * R)
    p, m = geo.phi_mu_re_ring(qR, qr, ph, x * u.cm, ms)
    p = p.to_value("rad") if hasattr(p, "unit") else p
    rho = np.sqrt(dx ** 2 + dy ** 2)
    S.eq("cos", np.cos(p) * rho, dx, rtol=1e-5, atol=1e-7 * R if not S.symbolic else 0)
    S.eq("sin", np.sin(p) * rho, dy, rtol=1e-5, atol=1e-7 * R if not S.symbolic else 0)


@case("P09", "shell_off_axis", time=90)
def shell(S):
    np = S.np
    R, r, qR, qr, x, ms, ph = photon(S)
    mr = S.real("mu_re", -0.999, 0.999)
    ss, sr = np.sqrt(1 - ms ** 2), np.sqrt(1 - mr ** 2)
    dx, dy, dz = x * ss - R * sr * np.cos(ph), -R * sr * np.sin(ph), r + x * ms - R * mr
    d = geo.x_re_shell_mu_s(qR, qr, ph, mr, x * u.cm, ms)
    at = 1e-9 * (R * R + r * r + x * x) if not S.symbolic else 0
    S.eq("distance", d ** 2, (dx ** 2 + dy ** 2 + dz ** 2) * u.cm ** 2, rtol=1e-5, atol=at)
    p, m = geo.phi_mu_re_shell(qR, qr, ph, mr, x * u.cm, ms)
    S.eq("zenith", m * d, dz * u.cm, rtol=1e-6, atol=at ** 0.5 if at else 0)
    d1 = geo.x_re_shell_mu_s(qR, qr, ph, mr, x * u.cm, 1.0)
    S.eq("along the axis", d1 ** 2, geo.x_re_shell(mr, qR, qr + x * u.cm) ** 2, rtol=1e-5, atol=at)
    S.eq("at the start", geo.x_re_shell_mu_s(qR, qr, ph, mr, 0.0 * u.cm, ms) ** 2, geo.x_re_shell(mr, qR, qr) ** 2, rtol=1e-5, atol=at)
    S.eq("equator is a ring", geo.x_re_shell_mu_s(qR, qr, ph, 0.0, x * u.cm, ms) ** 2,
         geo.x_re_ring_mu_s(qR, qr, ph, x * u.cm, ms) ** 2, rtol=1e-5, atol=at)


@case("P09", "shell_azimuth", time=90)
def shellphi(S):
    np = S.np
    R, r, qR, qr, x, ms, ph = photon(S)
    mr = S.real("mu_re", -0.999, 0.999)
    ss, sr = np.sqrt(1 - ms ** 2), np.sqrt(1 - mr ** 2)
    dx, dy = x * ss - R * sr * np.cos(ph), -R * sr * np.sin(ph)
    S.assume(dx ** 2 + dy ** 2 > 1e-6 * R * R)
    p, m = geo.phi_mu_re_shell(qR, qr, ph, mr, x * u.cm, ms)
    p = p.to_value("rad") if hasattr(p, "unit") else p
    rho = np.sqrt(dx ** 2 + dy ** 2)
    S.eq("cos", np.cos(p) * rho, dx, rtol=1e-5, atol=1e-7 * R if not S.symbolic else 0)
    S.eq("sin", np.sin(p) * rho, dy, rtol=1e-5, atol=1e-7 * R if not S.symbolic else 0)


# -------------------------------------------------------------------- helpers
@case("P10", "axes_reshaper", time=40)
def axes(S):
    a, b, c = S.reals("a", 2, 0.1, 1), S.reals("b", 3, 0.1, 1), S.reals("c", 4, 0.1, 1)
    q = c * u.cm
    x, y, z = am.axes_reshaper(a, b, q)
    S.check("shapes", x.shape == (2, 1, 1) and y.shape == (1, 3, 1) and z.shape == (1, 1, 4))
    p = x * y * z
    S.check("product", p.shape == (2, 3, 4))
    for i in range(2):
        for j in range(3):
            S.eq("outer", p[i, j], a[i] * b[j] * q)
    x, y = am.axes_reshaper(a, b)
    S.check("two", x.shape == (2, 1) and y.shape == (1, 3))


@case("P10", "loglog_power_law", time=60)
def loglog(S):
    """exact for a power law, whatever the grid"""
    np = S.np
    x = S.reals("x", 3, 1.0, 1e8, increasing=True)
    k, p = S.real("k", 1e-8, 1e8), S.real("p", 1.0001, 5.0)
    rng = S.choice("hard", [True, False])
    if not rng:
        p = -p
    S.assume(x[1] > 1.01 * x[0])
    S.assume(x[2] > 1.01 * x[1])
    y = k * x ** (-p)
    ref = k * (x[2] ** (1 - p) - x[0] ** (1 - p)) / (1 - p)
    S.eq("value", am.trapz_loglog(y, x), ref, rtol=1e-5)
    r = am.trapz_loglog(y * u.Unit("cm-3"), x * u.s)
    S.eq("units", r, ref * u.Unit("cm-3 s"), rtol=1e-5)
    two = am.trapz_loglog(np.stack([y, 2 * y]), x, axis=1)
    S.eq("last axis", two, S.array([ref, 2 * ref]), rtol=1e-5)
    first = am.trapz_loglog(np.stack([y, 3 * y], axis=1), x, axis=0)
    S.eq("first axis", first, S.array([ref, 3 * ref]), rtol=1e-5)


@case("P10", "loglog_any", time=60)
def logany(S):
    np = S.np
    x = S.reals("x", 2, 1.0, 1e8, increasing=True)
    S.assume(x[1] > 1.01 * x[0])
    # any pair of positive ordinates, written with the slope between them
    y0 = S.real("y0", 1e-8, 1e8)
    m = S.real("slope_up", -0.9999, 6.0) if S.choice("steep", [False, True]) else S.real("slope_down", -6.0, -1.0001)
    y = S.array([y0, y0 * (x[1] / x[0]) ** m])
    v = am.trapz_loglog(y, x)
    S.eq("value", v, (y[1] * x[1] - y[0] * x[0]) / (m + 1), rtol=1e-4)
    x3 = S.array([x[0], x[1], x[1] * 2])
    y3 = S.array([y[0], y[1], 0.0])
    S.eq("zero in the last bin", am.trapz_loglog(y3, x3), v)
    z = np.where(np.array([True, False]), 0.0, y)
    S.eq("zero at an end", am.trapz_loglog(z, x), 0.0)
    S.eq("zeros", am.trapz_loglog(0 * y, x), 0.0)


@case("P10", "loglog_inverse", time=60)
def loginv(S):
    x = S.reals("x", 3, 1.0, 1e8, increasing=True)
    k = S.real("k", 1e-8, 1e8)
    S.assume(x[1] > 1.01 * x[0])
    S.assume(x[2] > 1.01 * x[1])
    S.eq("value", am.trapz_loglog(k / x, x), k * S.log(x[2] / x[0]), rtol=1e-4)


@case("P10", "power_law_integral", time=60)
def plint(S):
    np = S.np
    k, p = S.real("k", 1e-8, 1e8), S.real("p", 1.0001, 6.0)
    q = S.real("q", -2.0, 0.9999)
    lo, hi = S.real("gmin", 1.0, 1e4), S.real("gmax", 2e4, 1e9)
    for e in (p, q):
        v = am.power_law_integral(k * u.Unit("cm-3"), e, lo, hi)
        S.eq("value", v, k * (lo ** (1 - e) - hi ** (1 - e)) / (e - 1) * u.Unit("cm-3"), rtol=1e-5)
    S.eq("p = 1", am.power_law_integral(k, 1.0, lo, hi), k * S.log(hi / lo))
    mid = S.real("gmid", 1e4, 2e4)
    parts = am.power_law_integral(k, p, lo, mid) + am.power_law_integral(k, p, mid, hi)
    S.eq("additive", am.power_law_integral(k, p, lo, hi), parts, rtol=1e-5)


@case("P10", "clipped_log", time=30)
def cliplog(S):
    np = S.np
    x = S.real("x", 1e-200, 1e200)
    S.eq("value", am.log(x), S.log(x))
    S.finite("zero", am.log(0.0))
    S.eq("zero", am.log(0.0), float(numpy.log(numpy.finfo(float).tiny)))
    a = am.log(S.array([x, 0.0]))
    S.eq("array", a[0], S.log(x))
