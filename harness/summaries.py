"""Printed summaries, read back."""
import contextlib
import io
import re

import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy import spectra as sp
from agnpy.emission_regions import Blob
from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus, lines_dictionary

C = const.c.cgs.value
CM3 = u.Unit("cm-3")
LU = u.Unit("erg s-1")
VALUE = re.compile(r"(<sym#(\d+)\|([^>]*)>|[-+.\w]+)\s*(.*)")


def read(S, text):
    """sections of the summary: title and what is printed under each name"""
    out = []
    for line in text.splitlines():
        line = line.strip()
        if line.startswith("*"):
            out.append((line, {}))
        elif ":" in line:
            name, value = line.lstrip("- ").rsplit(":", 1)
            name = re.split(r"[\s:]", name.strip().replace("dot(m)", "dot_m"))[0]
            S.check("printed once", name not in out[-1][1])
            out[-1][1][name] = value.strip()
    return out


def same(S, sec, name, value):
    """the printed number, to the printed precision"""
    S.check("prints " + name, name in sec)
    if name not in sec:
        return
    m = VALUE.fullmatch(sec[name])
    S.check("number " + name, m is not None)
    if m is None:
        return
    if m.group(2):
        from symx.terms import Term
        x, spec = Term.printed[int(m.group(2))], m.group(3)
        digits = re.fullmatch(r"\.(\d+)[eEf]", spec)
        fixed = spec.endswith("f")
        n = int(digits.group(1)) if digits else 9
    else:
        x, txt = float(m.group(1)), m.group(1).lower()
        fixed = "e" not in txt
        n = len(txt.split("e")[0].partition(".")[2])
    S.check("precision of " + name, n >= 2)
    unit = u.Unit(m.group(4))
    got = x * unit
    v = value if isinstance(value, u.Quantity) else value * u.one
    if v.unit != unit and v.unit.is_equivalent(unit):
        v = v.to(unit)
    S.eq(name, v, got, rtol=1e-9 if fixed else 6e-3, atol=5.1e-3 if fixed else 0.0)


def spectra(S):
    k = 10.0 ** S.real("log_k", -10.0, 5.0) * CM3
    p, g1, g2 = S.real("p", 1.0, 5.0), 10.0 ** S.real("log_g1", 0.0, 1.0), 10.0 ** S.real("log_g2", 5.0, 7.0)
    gb, gc, p2, q = 10.0 ** S.real("log_gb", 2.0, 4.0), 10.0 ** S.real("log_gc", 2.0, 4.0), S.real("p2", 1.0, 5.0), S.real("q", -0.5, 0.5)
    lim = dict(gamma_min=g1, gamma_max=g2)
    return {
        "power": (sp.PowerLaw, dict(k=k, p=p, **lim)),
        "broken": (sp.BrokenPowerLaw, dict(k=k, p1=p, p2=p2, gamma_b=gb, **lim)),
        "parabola": (sp.LogParabola, dict(k=k, p=p, q=q, gamma_0=gb, **lim)),
        "cutoff": (sp.ExpCutoffPowerLaw, dict(k=k, p=p, gamma_c=gc, **lim)),
        "broken_cutoff": (sp.ExpCutoffBrokenPowerLaw, dict(k=k, p1=p, p2=p2, gamma_c=gc, gamma_b=gb, **lim)),
    }


@case("P35", "distributions", time=60)
def distributions(S):
    d = spectra(S)
    cls, k = d[S.choice("kind", sorted(d))]
    name, mass = S.choice("particle", [("electrons", const.m_e), ("protons", const.m_p)])
    n = cls(mass=mass, **k)
    sec, = read(S, str(n))
    S.check("particle", name in sec[0] and ("electrons" in sec[0]) != ("protons" in sec[0]))
    S.check("only the parameters", set(sec[1]) == set(k))
    for x, v in k.items():
        same(S, sec[1], x, v)
    # a parameter that is changed afterwards
    n.k = 3 * k["k"]
    n.gamma_max = 2 * k["gamma_max"]
    sec, = read(S, str(n))
    same(S, sec[1], "k", 3 * k["k"])
    same(S, sec[1], "gamma_max", 2 * k["gamma_max"])


@case("P35", "table", time=60)
def table(S):
    np = S.np
    first = S.choice("zeros", [0, 1])
    g = S.array([10.0 ** S.real("log_g%d" % i, i * 2.0, i * 2.0 + 1) for i in range(4)])
    n = 10.0 ** S.reals("log_n", 4, -10.0, 5.0)
    if first:
        n = np.concatenate([[0.0], n[1:]])
    f = S.real("norm", 0.1, 10.0)
    sec, = read(S, str(sp.InterpolatedDistribution(g, n * CM3, norm=f)))
    same(S, sec[1], "norm", f)
    same(S, sec[1], "gamma_min", g[first])
    same(S, sec[1], "gamma_max", g[3])


@case("P35", "region", time=90)
def region(S):
    np = S.np
    d = spectra(S)
    cls, k = d[S.choice("kind", ["power", "broken_cutoff"])]
    n_e = cls(mass=const.m_e, **k)
    n_p = S.choice("protons", [None, 1]) and sp.PowerLaw(2 * k["k"], 2.5, 3 * k["gamma_min"], 5 * k["gamma_max"], mass=const.m_p)
    R, z = 10.0 ** S.real("log_R", 13.0, 19.0), S.real("z", 1e-3, 4.0)
    G, x = S.real("Gamma", 1.5, 50.0), S.real("x", 0.55, 1.2)
    B, xi = 10.0 ** S.real("log_B", -4.0, 4.0), S.real("xi", 1e-4, 1.0)
    ru, bu = S.choice("units", [(u.cm, u.G), (u.pc, u.T)])
    D = x * G
    b = Blob((R * u.cm).to(ru), z, D, G, B * bu, n_e, n_p, xi)

    def compare(R, D, G, B, z):
        secs = read(S, str(b))
        S.check("sections", len(secs) == (2 if n_p is None else 3))
        m = secs[0][1]
        S.check("complete", set(m) == {"R_b", "t_var", "V_b", "z", "d_L", "delta_D", "Gamma", "Beta", "theta_s", "B", "xi"})
        beta = np.sqrt(1 - 1 / G ** 2)
        same(S, m, "R_b", R * u.cm)
        same(S, m, "t_var", ((1 + z) * R / C / D / 86400.0) * u.d)
        same(S, m, "V_b", 4 / 3 * numpy.pi * R ** 3 * u.Unit("cm3"))
        same(S, m, "z", z)
        same(S, m, "d_L", b.d_L)
        same(S, m, "delta_D", D)
        same(S, m, "Gamma", G)
        same(S, m, "Beta", beta)
        same(S, m, "theta_s", np.arccos((1 - 1 / (G * D)) / beta) * (180 / numpy.pi) * u.deg)
        same(S, m, "B", B * bu)
        same(S, m, "xi", xi)
        S.check("electrons", "electrons" in secs[1][0])
        for q, v in k.items():
            same(S, secs[1][1], q, v)
        if n_p is not None:
            S.check("protons", "protons" in secs[2][0])
            same(S, secs[2][1], "k", 2 * k["k"])
            same(S, secs[2][1], "gamma_max", 5 * k["gamma_max"])

    compare(R, D, G, B, z)
    b.R_b, b.B, b.delta_D = 2 * R * u.cm, 3 * B * bu, 0.9 * D
    compare(2 * R, 0.9 * D, G, 3 * B, z)


@case("P35", "targets", time=60)
def targets(S):
    L, R = 10.0 ** S.real("log_L", 40.0, 48.0), 10.0 ** S.real("log_R", 15.0, 20.0)
    M, eta, xi, T = 10.0 ** S.real("log_M", 38.0, 44.0), S.real("eta", 0.01, 1.0), S.real("xi", 1e-4, 1.0), S.real("T", 10.0, 5e3)
    r1, r2 = S.real("r_in", 2.0, 20.0), S.real("r_out", 50.0, 1e5)
    lu, mu, ru = S.choice("units", [("erg s-1", "g", "cm"), ("W", "kg", "pc")])
    Lq, Rq = (L * LU).to(lu), (R * u.cm).to(ru)
    rg = const.G.cgs.value * M / C ** 2
    d = SSDisk((M * u.g).to(mu), Lq, eta, r1, r2, R_g_units=True)
    (t, m), = read(S, str(d))
    same(S, m, "M_BH", M * u.g)
    same(S, m, "L_disk", L * LU)
    same(S, m, "eta", eta)
    same(S, m, "dot_m", L / (eta * C ** 2) * u.Unit("g s-1"))
    same(S, m, "R_in", r1 * rg * u.cm)
    same(S, m, "R_out", r2 * rg * u.cm)
    line = S.choice("line", ["Lyalpha", "Halpha"])
    (t, m), = read(S, str(SphericalShellBLR(Lq, xi, line, Rq)).replace("line (type of emitted line): " + line + ", ", ""))
    same(S, m, "L_disk", L * LU)
    same(S, m, "xi_line", xi)
    same(S, m, "R_line", R * u.cm)
    S.check("line", (" %s," % line) in str(SphericalShellBLR(Lq, xi, line, Rq)))
    (t, m), = read(S, str(RingDustTorus(Lq, xi, T * u.K, Rq)))
    same(S, m, "L_disk", L * LU)
    same(S, m, "xi_dt", xi)
    same(S, m, "T_dt", T * u.K)
    same(S, m, "R_dt", R * u.cm)
    (t, m), = read(S, str(RingDustTorus(Lq, xi, T * u.K)))
    same(S, m, "R_dt", 3.5e18 * (L / 1e45) ** 0.5 * (T / 1e3) ** -2.6 * u.cm)
    if S.choice("list", ["class", "object"]) == "class":
        show = SphericalShellBLR.print_lines_list
    else:
        show = SphericalShellBLR(Lq, xi, line, Rq).print_lines_list
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        S.returns("prints the lines", show)
    rows = text.getvalue().splitlines()
    S.check("every line", [r.split(":")[0] for r in rows if r.strip()] == list(lines_dictionary))
