"""Loading of measured SEDs for the fits."""
import os
import tempfile
import types

import numpy
import astropy.units as u
import astropy.constants as const
from astropy.table import Table
from symx.ctx import case

from agnpy.fit import data as fitdata

NEEDS_FIT = True

SED = u.Unit("erg cm-2 s-1")
DNDE = u.Unit("eV-1 cm-2 s-1")
NAMES = ["MAGIC2", "Fermi", "MAGIC2", "MAGIC"]
ORDER = ["Fermi", "MAGIC", "MAGIC2"]


class SherpaData:
    """sherpa.data.Data1D: two errors added in quadrature, points in the closed range"""

    def __init__(self, name, x, y, staterror=None, syserror=None):
        self.x, self.y, self.staterror, self.syserror = x, y, staterror, syserror
        self.mask = None

    def notice(self, lo, hi):
        self.mask = [bool(v >= lo) and bool(v <= hi) for v in self.x]


class GammapyPoints:
    """gammapy.estimators.FluxPoints: fluxes as multiples (norm) of a reference dnde ~ E^-2"""

    def __init__(self, group):
        e = u.Quantity(group["e_ref"]).to("eV")
        self.energy_ref = e
        ref = (1e-12 * SED / e ** 2).to(DNDE)
        q = lambda n: (u.Quantity(group[n]) / e ** 2).to(DNDE)
        box = lambda v: types.SimpleNamespace(data=v)
        self.dnde_ref = box(ref.value)
        self.dnde = box(q("e2dnde").value)
        self.norm_errn, self.norm_errp = box((q("e2dnde_errn") / ref).to_value("")), box((q("e2dnde_errp") / ref).to_value(""))
        self.geom = types.SimpleNamespace(energy_mask=lambda energy_min=None, energy_max=None: (energy_min, energy_max))

    dnde_errn = property(lambda s: types.SimpleNamespace(data=s.norm_errn.data * s.dnde_ref.data))
    dnde_errp = property(lambda s: types.SimpleNamespace(data=s.norm_errp.data * s.dnde_ref.data))

    @classmethod
    def from_table(cls, table, sed_type=None, format=None, **k):
        if sed_type != "e2dnde" or format != "gadf-sed":
            raise ValueError("the table holds e2dnde")
        return cls(table)


class GammapyDataset:
    def __init__(self, data=None, name=None, **k):
        self.data, self.name = data, name


class Tables:
    """astropy.table.Table whose file is the given table"""
    here = None

    @classmethod
    def read(cls, path, *a, **k):
        return cls.here.copy()


def loaded(S, columns, call):
    """what `call` returns for the path of a file with these columns"""
    t = Table()
    for n, v in columns.items():
        t[n] = v
    if S.symbolic:
        Tables.here = t
        fitdata.Table, fitdata.Data1D = Tables, SherpaData
        fitdata.FluxPoints, fitdata.FluxPointsDataset, fitdata.Datasets = GammapyPoints, GammapyDataset, list
        return call("sed.ecsv")
    t.meta["SED_TYPE"] = "e2dnde"
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "sed.ecsv")
        t.write(f)
        return call(f)


def table(S):
    np = S.np
    # increasing energies, so that those of one instrument are as well
    e = 10.0 ** np.array([S.real("log_E%d" % i, lo, lo + 2.0) for i, lo in enumerate((-5.0, 0.0, 5.0, 9.0))])
    f, en, ep = (10.0 ** S.reals(n, 4, lo, hi) for n, lo, hi in (("log_F", -15.0, -9.0), ("log_errn", -16.0, -10.0), ("log_errp", -16.0, -10.0)))
    eu, fu = S.choice("units of the file", [("eV", "erg cm-2 s-1"), ("TeV", "TeV cm-2 s-1"), ("keV", "W m-2")])
    col = lambda v: (v * SED).to(fu)
    cols = {"e_ref": (e * u.eV).to(eu), "e2dnde": col(f), "e2dnde_errn": col(en), "e2dnde_errp": col(ep), "instrument": list(NAMES)}
    s = {n: S.real("syst_" + n, 0.01, 0.5) for n in set(NAMES)}
    which = S.choice("systematics", [None, "all", "one", "others", "last", "empty"])
    if which is None:
        sd = None
    else:
        sd = {"all": dict(s), "one": {"MAGIC": s["MAGIC"]}, "others": {"Swift": 0.1, "Fermi": s["Fermi"]}, "last": {"MAGIC2": s["MAGIC2"]}, "empty": {}}[which]
    rel = [0.0 if sd is None else sd.get(n, 0.0) for n in NAMES]
    return cols, e, f, en, ep, rel, sd


@case("P33", "sherpa", time=90, witnesses=2)
def sherpa(S):
    np = S.np
    cols, e, f, en, ep, rel, sd = table(S)
    keep = None if sd is None else dict(sd)
    lo, hi = 10.0 ** S.real("log_Emin", -2.5, -0.5), 10.0 ** S.real("log_Emax", 7.5, 8.5)
    un = S.choice("unit of the limits", ["eV", "TeV"])
    d = loaded(S, cols, lambda p: fitdata.load_sherpa_flux_points(p, (lo * u.eV).to(un), (hi * u.eV).to(un), sd))
    ix = [i for n in ORDER for i in range(4) if NAMES[i] == n]
    S.check("number of points", len(d.x) == 4)
    for j, i in enumerate(ix):
        S.eq("energy", d.x[j], e[i])
        S.eq("flux", d.y[j], f[i])
        S.eq("statistical error", d.staterror[j], (en[i] + ep[i]) / 2)
        S.eq("systematic error", d.syserror[j], rel[i] * f[i])
        S.check("range", bool(d.mask[j]) == (i in (1, 2)))
    S.check("dictionary untouched", sd == keep)


EV = (1 * u.eV).to_value("erg")


def dnde(S, p, n):
    """differential flux or error of FluxPoints, in eV-1 cm-2 s-1"""
    return S.np.ravel(getattr(p, n).data) if S.symbolic else getattr(p, n).quantity.ravel().to_value(DNDE)


@case("P33", "gammapy", time=90, witnesses=2)
def gammapy(S):
    np = S.np
    cols, e, f, en, ep, rel, sd = table(S)
    lo, hi = 10.0 ** S.real("log_Emin", -2.5, -0.5) * u.eV, 10.0 ** S.real("log_Emax", 7.5, 8.5) * u.eV
    ds = loaded(S, cols, lambda p: fitdata.load_gammapy_flux_points(p, lo, hi, sd))
    S.check("one dataset per instrument", [d.name for d in ds] == ORDER)
    for d in ds:
        ix = [i for i in range(4) if NAMES[i] == d.name]
        p = d.data
        ev = p.energy_ref.to_value("eV")
        S.check("its points", len(ev) == len(ix))
        value = lambda n: dnde(S, p, n)
        for j, i in enumerate(ix):
            S.eq("energy", ev[j], e[i])
            S.eq("flux", value("dnde")[j] * EV, f[i] / ev[j] ** 2)
            for n, x in (("dnde_errn", en), ("dnde_errp", ep)):
                S.eq(n, (value(n)[j] * EV) ** 2, (x[i] ** 2 + (rel[i] * f[i]) ** 2) / ev[j] ** 4)
        # gammapy decides by the edges of the points' bins
        want = p.geom.energy_mask(energy_min=lo, energy_max=hi)
        if S.symbolic:
            S.check("range", all(bool(abs(x.to_value("eV") / y.to_value("eV") - 1) < 1e-9) for x, y in zip(d.mask_fit, want)))
        else:
            S.check("range", bool(numpy.all(d.mask_fit.data == want.data)))


@case("P33", "errors_twice", time=60)
def twice(S):
    """independent systematic errors add in quadrature, whatever the order"""
    cols, e, f, en, ep, _, _ = table(S)
    p = loaded(S, cols, lambda p: fitdata.load_gammapy_flux_points(p, 1e-5 * u.eV, 1e5 * u.TeV))[2].data
    a, b = S.real("a", 0.01, 0.5), S.real("b", 0.01, 0.5)
    fitdata.add_systematic_errors_gammapy_flux_points(p, a)
    fitdata.add_systematic_errors_gammapy_flux_points(p, b)
    for j, i in enumerate((0, 2)):
        S.eq("flux untouched", dnde(S, p, "dnde")[j] * EV, f[i] / e[i] ** 2)
        for n, x in (("dnde_errn", en), ("dnde_errp", ep)):
            S.eq(n, (dnde(S, p, n)[j] * EV) ** 2, (x[i] ** 2 + (a ** 2 + b ** 2) * f[i] ** 2) / e[i] ** 4)
