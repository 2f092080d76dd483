"""Fit models (gammapy and sherpa wrappers): the SED of the source their parameters describe."""
import inspect

import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

from agnpy.emission_regions import Blob
from agnpy.spectra import (PowerLaw, BrokenPowerLaw, LogParabola, ExpCutoffPowerLaw, ExpCutoffBrokenPowerLaw,
                           InterpolatedDistribution)
from agnpy.synchrotron import Synchrotron
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.targets import SSDisk, RingDustTorus, SphericalShellBLR
from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel

NEEDS_FIT = True

C = const.c.cgs.value
H = const.h.cgs.value
KB = const.k_B.cgs.value
ME = const.m_e.cgs.value
HEV = const.h.to_value("eV s")
MC2 = ME * C ** 2
CM3 = u.Unit("cm-3")
SED = u.Unit("erg cm-2 s-1")
FLUX = u.Unit("cm-2 eV-1 s-1")

# the documented parameters of every distribution, in the order of evaluate()
SPECTRA = {
    "PowerLaw": (PowerLaw, ["k", "p"]),
    "BrokenPowerLaw": (BrokenPowerLaw, ["k", "p1", "p2", "gamma_b"]),
    "LogParabola": (LogParabola, ["k", "p", "q", "gamma_0"]),
    "ExpCutoffPowerLaw": (ExpCutoffPowerLaw, ["k", "p", "gamma_c"]),
    "ExpCutoffBrokenPowerLaw": (ExpCutoffBrokenPowerLaw, ["k", "p1", "p2", "gamma_c", "gamma_b"]),
    "InterpolatedDistribution": (InterpolatedDistribution, ["norm"]),
}
BOX = {"log10_k": (-10.0, 6.0), "p": (1.0, 5.0), "p1": (1.0, 5.0), "p2": (1.0, 5.0), "q": (0.01, 1.0), "log10_norm": (-3.0, 3.0),
       "log10_gamma_b": (3.0, 4.5), "log10_gamma_c": (4.6, 6.0), "log10_gamma_0": (2.5, 4.5),
       "log10_gamma_min": (0.1, 1.9), "log10_gamma_max": (6.1, 7.9)}
REGION = {"z": (1e-3, 5.0), "delta_D": (1.1, 90.0), "log10_B": (-3.9, 1.9), "t_var": (20.0, 3e7)}
REGION_EC = dict(REGION, mu_s=(0.5, 0.9999), log10_r=(16.1, 21.9))
DISK = {"log10_L_disk": (42.1, 47.9), "M_BH": (1e38, 1e44), "m_dot": (1e24, 1e29), "R_in": (1e12, 9e15), "R_out": (1e17, 9e18)}
BLR = {"xi_line": (0.01, 0.99), "lambda_line": (910.0, 6900.0), "R_line": (1.1e16, 9e17)}
DT = {"xi_dt": (0.01, 0.99), "T_dt": (110.0, 9e3), "R_dt": (1.1e17, 9e19)}
UNITS = {"t_var": "s", "M_BH": "g", "m_dot": "g s-1", "R_in": "cm", "R_out": "cm", "lambda_line": "Angstrom", "R_line": "cm",
         "T_dt": "K", "R_dt": "cm"}


def logname(n):
    return n if n in ("p", "p1", "p2", "q") else "log10_" + n


def names_of(kind):
    return [logname(n) for n in SPECTRA[kind][1] + ["gamma_min", "gamma_max"]]


def some(kind):
    """an object of the class, its own values being irrelevant"""
    cls = SPECTRA[kind][0]
    if kind == "InterpolatedDistribution":
        return cls(numpy.array([1e1, 1e3, 1e5, 1e7]), numpy.array([1e3, 1e-1, 1e-6, 1e-12]) * CM3)
    return cls()


def draw(S, boxes):
    return {n: S.real(n, lo, hi) for n, (lo, hi) in boxes.items()}


def spectrum_args(kind, d):
    out = []
    for n in SPECTRA[kind][1] + ["gamma_min", "gamma_max"]:
        v = 10.0 ** d["log10_" + n] if "log10_" + n in d else d[n]
        out.append(v * CM3 if n == "k" else v)
    return out


COMPONENTS = [(Synchrotron, "evaluate_sed_flux"), (SynchrotronSelfCompton, "evaluate_sed_flux"), (ExternalCompton, "evaluate_sed_flux_blr"),
              (ExternalCompton, "evaluate_sed_flux_dt"), (SSDisk, "evaluate_multi_T_bb_norm_sed"), (RingDustTorus, "evaluate_bb_norm_sed")]
SIGNATURES = [inspect.signature(getattr(c, n)) for c, n in COMPONENTS]


def opaque_components(S):
    """P11, P15, P16, P18 decide the components; here each may be any (positive)
    function of the frequency and of its parameters"""
    if not S.symbolic:
        return
    for (cls, name), sig in zip(COMPONENTS, SIGNATURES):
        setattr(cls, name, staticmethod(opaque(S, cls.__name__ + name, sig)))


def plain_values(v):
    if isinstance(v, u.Quantity):
        v = v.si.value
    if isinstance(v, numpy.ndarray):
        return [x for x in v.ravel()]
    return [v]


def opaque(S, label, sig):
    def f(nu, *a, **k):
        b = sig.bind(nu, *a, **k)
        b.apply_defaults()
        flat, tag = [], label
        for n, v in list(b.arguments.items())[1:]:
            for x in (v if n == sig_star(sig) else [v]):
                if isinstance(x, (bool, str)) or callable(x) or hasattr(x, "evaluate"):
                    # an option, the integration rule, or the kind of distribution
                    tag += "|%s=%s" % (n, getattr(x, "__name__", x if isinstance(x, (bool, str)) else type(x).__name__))
                else:
                    flat += plain_values(x)
        g = S.ufn(tag, None, positive=True)
        hz = nu.to_value("Hz", equivalencies=u.spectral())
        return S.array([g(x, *flat) for x in hz]) * SED
    return f


def sig_star(sig):
    return next((p.name for p in sig.parameters.values() if p.kind is p.VAR_POSITIONAL), None)


def direct(S, d, nu, n_e, args, ssa, targets):
    """sum of the physical components, as the library computes them from explicit parameters"""
    np = S.np
    B, dl = 10.0 ** d["log10_B"] * u.G, S.dL(d["z"])
    R = C * d["t_var"] * d["delta_D"] / (1 + d["z"]) * u.cm
    base = (nu, d["z"], dl, d["delta_D"])
    out = Synchrotron.evaluate_sed_flux(*base, B, R, n_e, *args, ssa=ssa) \
        + SynchrotronSelfCompton.evaluate_sed_flux(*base, B, R, n_e, *args, ssa=ssa)
    if targets is None:
        return out
    g = np.logspace(1, 9, 300)
    L, r = 10.0 ** d["log10_L_disk"] * u.Unit("erg s-1"), 10.0 ** d["log10_r"] * u.cm
    cm = lambda n: d[n] * u.cm
    out = out + SSDisk.evaluate_multi_T_bb_norm_sed(nu, d["z"], L, d["M_BH"] * u.g, d["m_dot"] * u.Unit("g s-1"), cm("R_in"), cm("R_out"), dl)
    if "blr" in targets:
        e = H * C / (d["lambda_line"] * 1e-8) / MC2
        out = out + ExternalCompton.evaluate_sed_flux_blr(*base, d["mu_s"], R, L, d["xi_line"], e, cm("R_line"), r, n_e, *args, gamma=g)
    if "dt" in targets:
        e = 2.7 * KB * d["T_dt"] / MC2
        out = out + ExternalCompton.evaluate_sed_flux_dt(*base, d["mu_s"], R, L, d["xi_dt"], e, cm("R_dt"), r, n_e, *args, gamma=g)
        out = out + RingDustTorus.evaluate_bb_norm_sed(nu, d["z"], d["xi_dt"] * L, d["T_dt"] * u.K, cm("R_dt"), dl)
    return out


def evaluate(model, backend, d, names, en, shape=None):
    """the SED of the model, at energies in eV, for the given values of its parameters"""
    if backend == "sherpa":
        return model.calc([d[n] for n in names], en)
    kw = {n: d[n] * u.Unit(UNITS.get(n, "")) for n in names}
    x = en * u.eV
    if shape is not None:
        x = x.reshape(shape)
    f = model.evaluate(x, **kw, norm=1 * u.one)
    return f


def mk_ssc(kind, backend):
    @case("P31", "ssc_%s_%s" % (backend, kind), time=100, witnesses=1)
    def ssc(S):
        opaque_components(S)
        ssa = S.choice("ssa", [False, True])
        n_e = some(kind)
        m = SynchrotronSelfComptonModel(n_e, ssa=ssa, backend=backend)
        names = names_of(kind) + list(REGION)
        d = draw(S, {n: BOX.get(n) or REGION[n] for n in names})
        en = 10.0 ** S.reals("log_E", 2, -6.0, 13.0)
        ref = direct(S, d, en / HEV * u.Hz, n_e, spectrum_args(kind, d), ssa, None)
        compare(S, m, backend, d, names, en, ref)


def compare(S, m, backend, d, names, en, ref):
    if backend == "sherpa":
        x = en.copy()
        r = evaluate(m, backend, d, names, x)
        S.check("an SED for these targets", r is not None)
        S.eq("sed", r, ref, unit=SED)
        S.eq("energies untouched", x, en)
    else:
        f = evaluate(m, backend, d, names, en)
        S.check("flux unit", f.unit == FLUX)
        S.eq("flux", f, ref / (en * u.eV) ** 2, unit=FLUX)
        # gammapy asks for energies with extra axes, and keeps them
        g = evaluate(m, backend, d, names, en, (2, 1, 1))
        S.check("shape", g.shape == (2, 1, 1))
        S.eq("flux in a cube", g[:, 0, 0], f)
        # tables (as for the integral over several bins) and single energies
        for shape in ((1, 2), (2, 1)):
            g = evaluate(m, backend, d, names, en, shape)
            S.check("shape", g.shape == shape)
            S.eq("flux in a table", g.reshape(2), f)
        for i in range(2):
            g = evaluate(m, backend, d, names, en[i:i + 1], ())
            S.check("one number", g.shape == ())
            S.eq("flux at one energy", g, f[i])


for _k in SPECTRA:
    for _b in ("sherpa", "gammapy"):
        mk_ssc(_k, _b)


def mk_ec(kind, backend, targets):
    @case("P31", "ec_%s_%s_%s" % ("_".join(targets), backend, kind), time=150, witnesses=1)
    def ec(S):
        opaque_components(S)
        n_e = some(kind)
        ssa = S.choice("ssa", [False, True])
        m = ExternalComptonModel(n_e, list(targets), ssa=ssa, backend=backend)
        boxes = dict(REGION_EC, **DISK)
        for t in ("blr", "dt"):
            if t in targets:
                boxes.update({"blr": BLR, "dt": DT}[t])
        names = names_of(kind) + list(boxes)
        boxes.update({n: BOX[n] for n in names_of(kind)})
        d = draw(S, boxes)
        en = 10.0 ** S.reals("log_E", 2, -3.0, 13.0)
        ref = direct(S, d, en / HEV * u.Hz, n_e, spectrum_args(kind, d), ssa, targets)
        compare(S, m, backend, d, names, en, ref)


for _b in ("sherpa", "gammapy"):
    mk_ec("BrokenPowerLaw", _b, ("blr",))
    mk_ec("PowerLaw", _b, ("dt",))
    mk_ec("LogParabola", _b, ("blr", "dt"))
    mk_ec("PowerLaw", _b, ("dt", "blr"))


# ----------------------------------------------------------------- parameters
def symbolic_parameters(S):
    """the parameters of gammapy and sherpa are numbers: let them be symbolic ones"""
    if not S.symbolic:
        return
    import gammapy.modeling.parameter as gp
    import sherpa.models.parameter as sp
    from symx.npsym import is_sym

    def number(v):
        if not is_sym(v):
            return float(v)
        return v.ravel()[0] if isinstance(v, numpy.ndarray) else v
    gp.float = sp.SherpaFloat = number


def values_of(model, backend):
    if backend == "sherpa":
        return {p.name: p.val for p in model.pars}
    return {p.name: p.value for p in model.parameters}


def source_spectrum(S, kind, prefix=""):
    d = {n: S.real(prefix + n, *BOX[n]) for n in names_of(kind)}
    cls, own = SPECTRA[kind]
    kw = dict(zip(own + ["gamma_min", "gamma_max"], spectrum_args(kind, d)))
    if kind == "InterpolatedDistribution":
        n_e = some(kind)
        for k, v in kw.items():
            setattr(n_e, k, v)
        return d, n_e
    kw["k"] = kw["k"].to(S.choice("density unit", ["cm-3", "m-3"]))
    return d, cls(**kw)


def same_values(S, model, backend, want):
    got = values_of(model, backend)
    for n, v in want.items():
        # logarithms are compared through the quantity they stand for
        if n.startswith("log10_"):
            S.eq(n, 10.0 ** (got[n] - v), 1.0)
        else:
            S.eq(n, got[n], v)


def mk_spectral_parameters(kind, backend):
    @case("P32", "spectrum_%s_%s" % (backend, kind), time=60)
    def spectral(S):
        symbolic_parameters(S)
        d, n_e = source_spectrum(S, kind)
        for scenario, rest in (("ssc", list(REGION)), ("ec", list(REGION_EC) + list(DISK) + list(BLR) + list(DT))):
            if scenario == "ssc":
                m = SynchrotronSelfComptonModel(n_e, backend=backend)
            else:
                m = ExternalComptonModel(n_e, ["blr", "dt"], backend=backend)
            names = list(values_of(m, backend))
            S.check("names of " + scenario, names == names_of(kind) + rest + (["norm"] if backend == "gammapy" else []))
            same_values(S, m, backend, d)
            pars = {p.name: p for p in (m.pars if backend == "sherpa" else m.parameters)}
            S.check("limits of the distribution fixed", pars["log10_gamma_min"].frozen and pars["log10_gamma_max"].frozen)
            S.check("units", all(str(pars[n].units if backend == "sherpa" else pars[n].unit) in (x, x.replace(" ", " / ").replace("-1", ""), str(u.Unit(x)))
                                 for n, x in UNITS.items() if n in pars))
            if backend == "sherpa":
                S.check("parameters of this model", all(p.modelname == m.name and p.fullname == m.name + "." + p.name and getattr(m, p.name) is p for p in m.pars))
            if backend == "gammapy":
                S.check("spectral parameters", [p.name for p in m.spectral_parameters] == names_of(kind))
                region = list(REGION if scenario == "ssc" else REGION_EC)
                S.check("region parameters", [p.name for p in m.emission_region_parameters] == region)
                S.check("they are the ones of the model", all(p is pars[p.name] for p in m.spectral_parameters))
                if scenario == "ec":
                    S.check("target parameters", [p.name for p in m.targets_parameters] == list(DISK) + list(BLR) + list(DT))


for _k in SPECTRA:
    for _b in ("sherpa", "gammapy"):
        mk_spectral_parameters(_k, _b)


class SeenUnder(Blob):
    """a blob whose viewing angle is free (P05 decides how it follows from the velocity)"""
    mu_s = property(lambda self: self.cos_view, lambda self, v: None)


LINES = {"Lyalpha": 1215.67, "Hbeta": 4862.68, "CIV": 1549.06}


def source(S, backend, kind, targets):
    """a source made of physical objects in assorted units, and the parameters that describe it"""
    d, n_e = source_spectrum(S, kind)
    d.update(z=S.real("z", 1e-3, 5.0), delta_D=S.real("delta_D", 1.1, 90.0), log10_B=S.real("log10_B", -3.9, 1.9))
    t_var = S.real("t_var", 20.0, 3e7)
    bu, lu, pu, mu = S.choice("units", [("G", "cm", "erg s-1", "g"), ("mT", "pc", "W", "kg")])
    R = C * t_var * d["delta_D"] / (1 + d["z"])
    b = SeenUnder(R_b=(R * u.cm).to(lu), z=d["z"], delta_D=d["delta_D"], Gamma=5.0, B=(10.0 ** d["log10_B"] * 1e-4 * u.T).to(bu), n_e=n_e)
    d["t_var"] = t_var
    if targets is None:
        return d, n_e, b, None, None, None, None
    d["mu_s"] = b.cos_view = S.real("mu_s", 0.5, 0.9999)
    d["log10_r"] = S.real("log10_r", 16.1, 21.9)
    r = (10.0 ** d["log10_r"] * u.cm).to(lu)
    L = 10.0 ** S.real("log10_L_disk", 45.6, 47.9)
    d["log10_L_disk"] = S.np.log10(L)
    M, rin, rout = 10.0 ** S.real("log_M", 38.0, 44.0), S.real("R_in", 1e12, 9e15), S.real("R_out", 1e17, 9e18)
    eta = S.real("eta", 0.05, 0.4)
    disk = SSDisk((M * u.g).to(mu), (L * u.Unit("erg s-1")).to(pu), eta, (rin * u.cm).to(lu), (rout * u.cm).to(lu))
    d.update(M_BH=M, m_dot=L / (eta * C ** 2), R_in=rin, R_out=rout)
    blr = dt = None
    if "blr" in targets:
        line = S.choice("line", list(LINES))
        d.update(xi_line=S.real("xi_line", 0.01, 0.99), lambda_line=LINES[line], R_line=S.real("R_line", 1.1e16, 9e17))
        blr = SphericalShellBLR((L * u.Unit("erg s-1")).to(pu), d["xi_line"], line, (d["R_line"] * u.cm).to(lu))
    if "dt" in targets:
        d.update(xi_dt=S.real("xi_dt", 0.01, 0.99), T_dt=S.real("T_dt", 110.0, 9e3), R_dt=S.real("R_dt", 1.1e17, 9e19))
        dt = RingDustTorus((L * u.Unit("erg s-1")).to(pu), d["xi_dt"], d["T_dt"] * u.K, R_dt=(d["R_dt"] * u.cm).to(lu))
    return d, n_e, b, r, disk, blr, dt


def mk_from_source(kind, backend, targets):
    @case("P32", "source_%s_%s_%s" % ("ssc" if targets is None else "_".join(targets), backend, kind), time=100)
    def from_source(S):
        symbolic_parameters(S)
        opaque_components(S)
        d, n_e, b, r, disk, blr, dt = source(S, backend, kind, targets)
        ssa = S.choice("ssa", [True, False])

        def new():
            return SynchrotronSelfComptonModel(n_e, ssa=ssa, backend=backend) if targets is None else \
                ExternalComptonModel(n_e, list(targets), ssa=ssa, backend=backend)
        m, other = new(), new()
        before = values_of(other, backend)
        if targets is None:
            m.set_emission_region_parameters_from_blob(b)
        else:
            m.set_emission_region_parameters_from_blob(b, r)
            m.set_targets_parameters_from_targets(disk, blr=blr, dt=dt)
        same_values(S, m, backend, d)
        S.check("other model untouched", all(x is y or x == y for x, y in zip(before.values(), values_of(other, backend).values())))
        # the SED of the model is the one of the source
        en = 10.0 ** S.reals("log_E", 2, -3.0, 13.0)
        ref = direct(S, d, en / HEV * u.Hz, n_e, spectrum_args(kind, d), ssa, targets)
        sed = m(en) if backend == "sherpa" else m(en * u.eV) * (en * u.eV) ** 2
        S.eq("sed", sed, ref, unit=SED)


for _b in ("sherpa", "gammapy"):
    for _k in SPECTRA:
        mk_from_source(_k, _b, None)
    mk_from_source("BrokenPowerLaw", _b, ("blr",))
    mk_from_source("PowerLaw", _b, ("dt",))
    mk_from_source("LogParabola", _b, ("blr", "dt"))
