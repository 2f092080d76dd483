"""The curves that are drawn, on axes that record what they are given."""
import unittest.mock

import numpy
import astropy.units as u
from symx.ctx import case

from agnpy import spectra as sp
from agnpy.utils import plot as up

SED = u.Unit("erg cm-2 s-1")


class Axes:
    """matplotlib axes as far as the library uses them: curves, scales, labels, legend"""

    def __init__(self):
        self.curves, self.scale, self.texts, self.legends = [], {"x": "linear", "y": "linear"}, {}, 0

    def plot(self, x, y, *style, **k):
        self.curves.append((x, y, style, k))
        return [self]

    def loglog(self, x, y, *style, **k):
        self.scale = {"x": "log", "y": "log"}
        return self.plot(x, y, *style, **k)

    def set_xscale(self, s, **k):
        self.scale["x"] = s

    def set_yscale(self, s, **k):
        self.scale["y"] = s

    def set_xlabel(self, s, **k):
        self.texts["x"] = s

    def set_ylabel(self, s, **k):
        self.texts["y"] = s

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def legend(self, *a, **k):
        self.legends += 1


def drawn(S, ax, x, y, **style):
    """one curve on logarithmic axes, the only one drawn"""
    S.check("one curve", len(ax.curves) == 1)
    cx, cy, args, k = ax.curves[0]
    S.check("shape", numpy.shape(cx) == numpy.shape(x) and numpy.shape(cy) == numpy.shape(y))
    S.eq("abscissae", cx, x)
    S.eq("ordinates", cy, y)
    S.check("style", args == () and k == style)
    S.check("logarithmic", ax.scale == {"x": "log", "y": "log"})
    S.check("labels", bool(ax.texts.get("x")) and bool(ax.texts.get("y")))


def on_axes(S, draw, given):
    """call the function with its own axes, or with those that are current"""
    ax, other = Axes(), Axes()
    with unittest.mock.patch("matplotlib.pyplot.gca", lambda: other if given else ax):
        r = draw(ax=ax) if given else draw()
    S.check("returns the axes", r is ax)
    S.check("no other axes", not other.curves)
    return ax


@case("P34", "sed", time=60)
def sed(S):
    n = S.choice("size", [1, 3])
    nu, f = 10.0 ** S.reals("log_nu", n, 5.0, 30.0) * u.Hz, 10.0 ** S.reals("log_sed", n, -30.0, -5.0) * SED
    style = S.choice("style", [{}, {"color": "k", "ls": "--"}, {"label": "synchrotron"}])
    ax = on_axes(S, lambda **k: up.plot_sed(nu, f, **k, **style), S.choice("axes", [True, False]))
    drawn(S, ax, nu, f, **style)
    S.check("legend", ax.legends == (1 if "label" in style else 0))
    ax2 = up.plot_sed(nu, 2 * f, ax)
    S.check("added to the same axes", ax2 is ax and len(ax.curves) == 2)
    S.eq("second", ax.curves[1][1], 2 * f)
    S.eq("first stays", ax.curves[0][1], f)


def distributions(S):
    k = 10.0 ** S.real("log_k", -10.0, 5.0) * u.Unit("cm-3")
    p, g1, g2 = S.real("p", 1.0, 5.0), 10.0 ** S.real("log_g1", 0.0, 1.0), 10.0 ** S.real("log_g2", 5.0, 7.0)
    gb = 10.0 ** S.real("log_gb", 2.0, 4.0)
    kind = S.choice("kind", ["power", "broken", "parabola", "cutoff", "interpolated"])
    if kind == "power":
        return sp.PowerLaw(k, p, g1, g2)
    if kind == "broken":
        return sp.BrokenPowerLaw(k, p, S.real("p2", 1.0, 5.0), gb, g1, g2)
    if kind == "parabola":
        return sp.LogParabola(k, p, S.real("q", -0.5, 0.5), gb, g1, g2)
    if kind == "cutoff":
        return sp.ExpCutoffPowerLaw(k, p, gb, g1, g2)
    x = S.np.array([10.0, 1e3, 1e5])
    return sp.InterpolatedDistribution(x, 10.0 ** S.reals("log_n", 3, -10.0, 5.0) * u.Unit("cm-3"))


@case("P34", "particles", time=90, max_paths=400)
def particles(S):
    np = S.np
    n_e = distributions(S)
    g = 10.0 ** np.array([S.real("log_gamma_in", 1.1, 1.9), S.real("log_gamma", 0.0, 8.0), 1.5])
    w, style, given = S.choice("power", [(None, {}, True), (0, {"color": "k"}, False), (2, {"label": "n_e"}, True), (2.5, {}, False), (-1, {}, True)])
    k = dict(style) if w is None else {"gamma_power": w, **style}
    ax = on_axes(S, lambda **q: n_e.plot(g, **k, **q), given)
    drawn(S, ax, g, g ** (w or 0) * n_e(g), **style)
    S.check("weighted or not", ("gamma^" in ax.texts["y"]) == bool(w))
    if w:
        S.check("weight", str(w) in ax.texts["y"])


@case("P34", "particles_default_grid", time=60)
def grid(S):
    np = S.np
    S.grid({200: 5})
    k = 10.0 ** S.real("log_k", -10.0, 5.0) * u.Unit("cm-3")
    p = S.real("p", 1.0, 5.0)
    n_e = sp.PowerLaw(k, p, 10.0 ** S.real("log_g1", 0.0, 1.0), 10.0 ** S.real("log_g2", 5.0, 7.0))
    w = S.choice("power", [0, 3])
    ax = on_axes(S, lambda **q: n_e.plot(gamma_power=w, **q), S.choice("axes", [True, False]))
    g = np.logspace(0, 8, 200)
    drawn(S, ax, g, g ** w * n_e(g))
