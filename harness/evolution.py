"""Time evolution of the electron distribution."""
import numpy
import astropy.units as u
import astropy.constants as const
from symx.ctx import case

import agnpy.time_evolution.time_evolution as te
import agnpy.time_evolution._time_evolution_utils as tu
from agnpy.time_evolution.time_evolution import TimeEvolution
from agnpy.time_evolution.types import FnParams, TimeEvaluationResult
from agnpy.emission_regions import Blob
from agnpy.spectra import PowerLaw, InterpolatedDistribution, EmptyDistribution

C = const.c.cgs.value
ME = const.m_e.cgs.value
MEC2 = ME * C ** 2
CM3 = u.Unit("cm-3")
ERGS = u.Unit("erg s-1")
PERS = u.Unit("s-1")
INJ = u.Unit("s-1 cm-3")


# -------------------------------------------------------------------- rates and mappings
def rate_fn(S, name, unit, log):
    f = S.ufn(name, lambda g, n: 1e-3 * numpy.sin(g * 0.1) + n)

    def fn(args):
        log.append(args)
        n = len(args.densities)
        if n == 0:
            return numpy.zeros(0) * unit
        per = len(args.gamma) // n
        return S.array([f(g, args.densities.to_value("cm-3")[i // per]) for i, g in enumerate(args.gamma)]) * unit
    return f, fn


@case("P25", "recalculated_rates", time=60)
def recalc(S):
    """rates are those of the functions at the bins, for the bins that are asked"""
    both = S.choice("edges", [True, False])
    mask = S.choice("mask", [None, (True, False, True), (False, False, True), (True, True, True), (False, False, False)])
    lo = S.reals("gamma", 3, 1.0, 1e6)
    hi = S.reals("gamma_up", 3, 1.0, 1e6)
    n = S.reals("n", 3, 1e-6, 1e6) * CM3
    w = S.reals("w", 3, 0.0, 1.0)
    groups = S.array([w, 1 - w])
    log = []
    f, F = rate_fn(S, "rate", ERGS, log)
    g, G = rate_fn(S, "rate_2", ERGS, log)
    bins = S.array([lo, hi]) if both else lo
    shape = (2, 3) if both else (3,)
    old = {"a": S.np.reshape(S.reals("old", 3 * (1 + both), -1.0, 1.0), shape) * ERGS, "b": S.np.reshape(S.reals("old_2", 3 * (1 + both), -1.0, 1.0), shape) * ERGS}
    keep = {k: v.copy() for k, v in old.items()}
    m = None if mask is None else numpy.array(mask)
    if m is None:
        r = tu.recalc_new_rates(bins, {"a": F, "b": G}, n, groups)
    else:
        r = tu.recalc_new_rates(bins, {"a": F, "b": G}, n, groups, old, m)
    S.check("labels", list(r) == ["a", "b"])
    on = [True] * 3 if m is None else list(mask)
    for k, h in (("a", f), ("b", g)):
        S.check("shape", r[k].shape == shape)
        for i in range(3):
            for e, edge in enumerate((lo, hi) if both else (lo,)):
                v = r[k][e, i] if both else r[k][i]
                o = keep[k][e, i] if both else keep[k][i]
                S.eq("%s %d %d" % (k, e, i), v, h(edge[i], n.to_value("cm-3")[i]) * ERGS if on[i] else o)
        if m is not None:
            S.eq("previous rates are not changed", old[k], keep[k])
    for a in log if any(on) else ():
        S.eq("densities", a.densities, S.array([x for x, o in zip(n.to_value("cm-3"), on) if o]) * CM3)
        S.eq("groups", a.density_subgroups[1], S.array([x for x, o in zip(1 - w, on) if o]))
        S.check("gammas", len(a.gamma) == sum(on) * (1 + both))


@case("P25", "sums", time=60)
def sums(S):
    """rates add up, in one group or per subgroup, whatever their units"""
    both = S.choice("edges", [True, False])
    shape = (2, 2) if both else (2,)
    n = 2 * (1 + both)
    a, b, c = (S.np.reshape(S.reals(k, n, -1.0, 1.0), shape) for k in "abc")
    rates = {"a": a * ERGS, "b": (b * ERGS).to("W"), "c": (c * ERGS).to("erg h-1")}
    r = tu.sum_change_rates(rates, shape, ERGS)
    S.check("shape", r.shape == (1,) + shape)
    S.eq("all", r[0], (a + b + c) * ERGS)
    S.eq("none", tu.sum_change_rates({}, shape, ERGS)[0], numpy.zeros(shape) * ERGS)
    r = tu.sum_change_rates(rates, shape, ERGS, [["b", "x"], ["y"], ["a", "c", "x"], ["b"]])
    S.check("groups", r.shape == (4,) + shape)
    S.eq("group", r[0], b * ERGS)
    S.eq("empty group", r[1], numpy.zeros(shape) * ERGS)
    S.eq("sum", r[2], (a + c) * ERGS)
    S.eq("shared", r[3], b * ERGS)
    many = {"f%d" % i: ((a if i % 2 else b) + i * c) * ERGS for i in range(12)}
    r = tu.sum_change_rates(many, shape, ERGS, [list(many)[::-1], ["f11"]])
    S.eq("many functions", r[0], (6 * a + 6 * b + 66 * c) * ERGS)
    S.eq("the last function", r[1], (a + 11 * c) * ERGS)
    S.eq("many functions in one group", tu.sum_change_rates(many, shape, ERGS)[0], (6 * a + 6 * b + 66 * c) * ERGS)
    r = tu.sum_change_rates({}, shape, ERGS, [["b"], ["y"]])
    S.eq("groups without rates", r, numpy.zeros((2,) + shape) * ERGS)


MAPS = [[0, 1, 2], [2, 0, 1], [1], [-1, 0, 1, 2], [0, 2, -1], [-1, 1, -1], []]


@case("P25", "mappings", time=60)
def mappings(S):
    m = numpy.array(S.choice("mapping", MAPS), dtype=int)
    v, v2 = S.reals("v", 3, -1.0, 1.0), S.reals("w", 3, -1.0, 1.0)
    t = S.array([v, v2])
    new = S.real("default", -1.0, 1.0)
    keep = v.copy()
    r = tu.remap(m, v, new)
    S.check("size", len(r) == len(m))
    for i, k in enumerate(m):
        S.eq("value", r[i], new if k < 0 else v[k])
    r = tu.remap(m, {"a": t * u.s, "b": v * CM3} if not (m < 0).any() else {"a": t * u.s}, new * u.s)
    for i, k in enumerate(m):
        S.eq("rows", r["a"][:, i], S.array([new, new]) * u.s if k < 0 else t[:, k] * u.s)
        if "b" in r:
            S.eq("densities", r["b"][i], v[k] * CM3)
    S.eq("argument", v, keep)
    if (m < 0).any():
        S.raises("no value for the new one", ValueError, lambda: tu.remap(m, v))
    w = S.reals("share", 3, 0.0, 1.0)
    g = S.array([w, 1 - w])
    r = tu.remap_subgroups_density(m, g)
    for i, k in enumerate(m):
        S.eq("share", r[:, i], numpy.array([1.0, 0.0]) if k < 0 else g[:, k])
    S.eq("shares", g, S.array([w, 1 - w]))
    # one mapping after the other
    for second in ([0], [-1], [-1, 0], [0, -1], list(range(len(m)))):
        if len(m) == 0 and second:
            continue
        second = numpy.array(second, dtype=int)
        r = tu.combine_mapping(m, second)
        a = tu.remap(r, v, new)
        b = tu.remap(second, tu.remap(m, v, new), new)
        S.check("sizes", len(a) == len(b))
        S.eq("one after the other", a, b)
    on = S.choice("mask", [(True, False, True), (False, False, False), (True, True, True)])
    S.check("mask", list(tu.mask_to_mapping(numpy.array(on))) == [i for i in range(3) if on[i]])


@case("P25", "groups_of_duplicates", time=60)
def duplicates(S):
    """consecutive duplicates form one group with the bin they duplicate"""
    d = [S.choice("d%d" % i, [False, True]) for i in range(1, 6)]
    idx = [i + 1 for i, x in enumerate(d) if x]
    ref, cur = [], []
    for i in range(1, 7):
        if i < 6 and d[i - 1]:
            cur = (cur or [i - 1]) + [i]
        elif cur:
            ref.append(cur)
            cur = []
    r = tu.group_duplicates(numpy.array(idx, dtype=int))
    S.check("groups", [[int(x) for x in g] for g in r] == ref)


# ------------------------------------------------------------------------- one step
def energies(S, n=2):
    """bins of energies as the evolution makes them"""
    g = S.reals("gamma", n, 1.0, 1e8)
    return g, S.array([g, g * (1 + tu.bin_size_factor)])


@case("P26", "bins", time=60)
def bins(S):
    m = S.choice("mask", [None, (True, False), (False, False), (True, True)])
    g, up = S.reals("gamma", 2, 1.0, 1e8), S.reals("up", 2, 1.0, 1e8)
    b = S.array([g, up])
    tu.update_bin_ub(b, None if m is None else numpy.array(m))
    S.eq("lower edges", b[0], g)
    for i in range(2):
        S.eq("upper edge", b[1, i], g[i] * (1 + 1e-4) if m is None or m[i] else up[i])
    S.eq("energy", tu.to_erg(b), b * MEC2 * u.erg)
    r = tu.to_densities_grouped(g * CM3, S.array([up, 1 - up]))
    S.eq("grouped", r, S.array([g * up, g * (1 - up)]) * CM3)
    S.eq("one group", tu.to_densities_grouped(g * CM3, None), S.array([g]) * CM3)


@case("P26", "shifted_bins", time=60)
def shifted(S):
    """the particles of a bin stay in it"""
    g, b = energies(S)
    en = tu.to_erg(b)
    w = S.reals("width", 2, 1e-3, 1e3)      # new over old width
    sh = S.reals("shift", 2, -0.5, 1.0)     # relative energy change of the lower edge
    n = S.reals("n", 2, 0.0, 1e8)
    q = S.choice("unit", ["erg", "J"])
    lo = g * (1 + sh)
    up = lo + (b[1] - b[0]) * w
    d = (S.array([lo - b[0], up - b[1]]) * MEC2 * u.erg).to(q)
    r = tu.recalc_gamma_bins_and_density(en, d, n * CM3)
    S.check("number", not hasattr(r.gamma_bins, "unit"))
    S.eq("lower edges", r.gamma_bins[0], lo)
    S.eq("upper edges", r.gamma_bins[1], up, rtol=1e-5)
    S.eq("density", r.densities, n / w * CM3, rtol=1e-5)
    S.eq("particles", r.densities * (up - lo), n * (b[1] - b[0]) * CM3, rtol=1e-5)
    S.le("not negative", 0 * CM3, r.densities)
    S.eq("energies are kept", en, b * MEC2 * u.erg)


@case("P26", "impossible_steps", time=60)
def impossible(S):
    """steps that would make energies or densities negative are refused"""
    g, b = energies(S)
    en = tu.to_erg(b)
    i = S.choice("bin", [0, 1])
    x = S.real("x", 1.01, 1e3)
    d = numpy.zeros((2, 2)) + 0 * b
    how = S.choice("how", ["lower", "upper", "inverted"])
    if how == "lower":
        d[0, i] = -g[i] * x
    elif how == "upper":
        d[1, i] = -b[1, i] * x
    else:
        d[0, i] = (b[1, i] - b[0, i]) * x
    S.raises(how, ValueError, lambda: tu.recalc_gamma_bins_and_density(en, d * MEC2 * u.erg, numpy.ones(2) * CM3))


def region(S, gammas=None, **k):
    n = PowerLaw(k=1e3 * CM3, p=2.0, gamma_min=10.0, gamma_max=1e6)
    return Blob(R_b=1e16 * u.cm, z=0.1, delta_D=10.0, Gamma=10.0, B=1.0 * u.G, n_e=n, gamma_e_size=k.pop("size", 20))


def idle(args):
    return numpy.zeros(len(args.gamma)) * ERGS


def evolution(S, gammas=numpy.array([1e2, 1e3]), fns=None, **k):
    k.setdefault("step_duration", 1 * u.s)
    return TimeEvolution(region(S), 1 * u.s, fns or {"idle": idle}, initial_gamma_array=gammas, **k)


@case("P26", "one_group", time=60)
def one_group(S):
    g, b = energies(S)
    en = tu.to_erg(b)
    w, sh = S.reals("width", 2, 1e-3, 1e3), S.reals("shift", 2, -0.5, 1.0)
    n, inj = S.reals("n", 2, 1e-3, 1e8), S.reals("injected", 2, 0.0, 1e8)
    lo = g * (1 + sh)
    up = lo + (b[1] - b[0]) * w
    d = S.array([S.array([lo - b[0], up - b[1]])]) * MEC2 * u.erg
    t = evolution(S)
    gm, dens, share = t._apply_time_eval(en, n * CM3, S.array([[1.0, 1.0]]), d, S.array([inj]) * CM3)
    S.eq("bins", gm, S.array([lo, up]), rtol=1e-5)
    S.eq("density", dens, (n / w + inj) * CM3, rtol=1e-5)
    S.eq("share", share, numpy.ones((1, 2)))
    # more escapes than there is
    x = S.real("x", 1.01, 1e3)
    S.raises("escape", ValueError, lambda: t._apply_time_eval(en, n * CM3, S.array([[1.0, 1.0]]), d, S.array([-n / w * x]) * CM3))


@case("P26", "subgroups_together", time=60)
def together(S):
    """subgroups that change alike keep their particles apart"""
    g, b = energies(S)
    en = tu.to_erg(b)
    n, share = S.reals("n", 2, 1e-3, 1e8), S.reals("share", 2, 0.01, 0.99)
    w, sh = S.reals("width", 2, 1e-3, 1e3), S.reals("shift", 2, -0.5, 1.0)
    i0, i1 = S.reals("injected_0", 2, 0.0, 1e8), S.reals("injected_1", 2, 0.0, 1e8)
    lo = g * (1 + sh)
    up = lo + (b[1] - b[0]) * w
    one = S.array([lo - b[0], up - b[1]])
    t = evolution(S, subgroups=[["idle"], ["idle"]])
    old = S.array([share, 1 - share])
    keep = old.copy()
    gm, dens, new = t._apply_time_eval(en, n * CM3, old, S.array([one, one]) * MEC2 * u.erg, S.array([i0, i1]) * CM3)
    S.eq("bins", gm, S.array([lo, up]), rtol=1e-5)
    a, c = n * share / w + i0, n * (1 - share) / w + i1
    S.eq("total", dens, (a + c) * CM3, rtol=1e-5)
    S.eq("first group", dens * new[0], a * CM3, rtol=1e-5)
    S.eq("second group", dens * new[1], c * CM3, rtol=1e-5)
    S.eq("shares", new[0] + new[1], numpy.ones(2), rtol=1e-5)
    S.eq("earlier shares", old, keep)


@case("P26", "subgroups_apart", time=60)
def apart(S):
    """subgroups that change differently meet at the energies of the first one"""
    g = S.array([10.0, 1e3, 1e5])
    b = S.array([g, g * (1 + tu.bin_size_factor)])
    en = tu.to_erg(b)
    n, share = S.reals("n", 3, 1e-3, 1e8), S.reals("share", 3, 0.01, 0.99)
    # the second group gains energy by the same factor at all energies
    near = S.choice("close", [False, True])
    f = S.real("factor_close", 1 + 1e-5, 1 + 1e-3) if near else S.real("factor", 1.1, 3.0)
    zero = numpy.zeros((2, 3)) + 0 * b
    t = evolution(S, subgroups=[["idle"], ["idle"]])
    gm, dens, new = t._apply_time_eval(en, n * CM3, S.array([share, 1 - share]), S.array([zero, b * (f - 1)]) * MEC2 * u.erg, numpy.zeros((2, 3)) * CM3)
    S.eq("bins", gm, b)
    two = InterpolatedDistribution(g * f, n * (1 - share) / f * CM3, interpolator=tu.PchipInterpolator)(g)
    S.eq("first group", dens * new[0], n * share * CM3, rtol=1e-5)
    S.eq("second group", dens * new[1], two, rtol=1e-5 if not near else 1e-9)
    S.eq("total", dens, n * share * CM3 + two, rtol=1e-5)
    S.eq("shares", new[0] + new[1], numpy.ones(3), rtol=1e-5)


@case("P26", "no_particles", time=60)
def no_particles(S):
    """shares are kept where there is nothing to share"""
    g, b = energies(S)
    share, n = S.reals("share", 2, 0.01, 0.99), S.real("n", 1e-3, 1e8)
    t = evolution(S, subgroups=[["idle"], ["idle"]])
    z = numpy.zeros((2, 2, 2)) + 0 * S.array([b, b])
    gm, dens, new = t._apply_time_eval(tu.to_erg(b), S.array([n, 0.0]) * CM3, S.array([share, 1 - share]), z * u.erg, numpy.zeros((2, 2)) * CM3)
    S.eq("density", dens, S.array([n, 0.0]) * CM3)
    S.eq("shares", new, S.array([share, 1 - share]), atol=1e-9)


# ---------------------------------------------------------------------- automatic step
KINDS = {"up": (0.01, 10.0), "down": (-10.0, -0.01), "none": None}


def signed(S, name, n, kind):
    return S.reals(name + "_" + kind, n, *KINDS[kind]) if KINDS[kind] else S.array([0.0] * n)


@case("P27", "single_group", time=60, max_paths=80)
def auto_single(S):
    np = S.np
    g, b = energies(S)
    en = tu.to_erg(b)
    n = S.reals("n", 2, 1e-3, 1e8)
    ke, kd, kr, ka = S.choice("kinds", [("up", "up", "none", "none"), ("down", "up", "none", "none"), ("up", "down", "down", "none"), ("down", "down", "up", "up"),
                                        ("none", "none", "down", "down"), ("up", "none", "none", "down"), ("none", "none", "none", "up"), ("down", "none", "down", "up")])
    # relative rates
    e = signed(S, "energy_rate", 2, ke)
    dd = signed(S, "width_rate", 2, kd)
    rate = S.array([e * g, e * g + dd * (b[1] - b[0])]) * MEC2
    rel, ab = signed(S, "rel", 2, kr), signed(S, "abs", 2, ka)
    p = dict(max_energy_change_per_interval=S.real("max_energy", 1e-3, 0.5), max_density_change_per_interval=S.real("max_density", 1e-3, 0.5),
             max_injection_per_interval=S.real("max_injection", 1e-3, 1e3))
    t = evolution(S, step_duration="auto", **p)
    if ka == "down":
        pass
    r = t._calc_max_time_per_bin(en, n * CM3, np.ones((1, 2)), S.array([rate]) * ERGS, S.array([rel]) * PERS, S.array([ab]) * INJ)
    if (ke, kd, kr, ka) == ("none",) * 4:
        return
    T = r.to_value("s")
    thr = p["max_density_change_per_interval"]
    for i in range(2):
        c = []
        if ke != "none" or kd != "none":
            for j in range(2):
                c.append(p["max_energy_change_per_interval"] * b[j, i] * MEC2 / np.abs(rate[j, i]))
        if kd == "up":
            c.append(thr / dd[i])
        if kd == "down":
            c.append(thr / (1 + thr) / -dd[i])
        if kr == "down":
            c.append(-0.5 / rel[i])
        if ka != "none":
            c.append(p["max_injection_per_interval"] / np.abs(ab[i]))
        # the longest step that keeps every change below its limit
        for k, x in enumerate(c):
            S.le("limit %d" % k, T[i], x, slack=1e-5)
        S.check("reached", S.np.min(S.array(c)) <= T[i] * (1 + 1e-5))
        # what that step does
        S.le("energy", np.abs(e[i]) * T[i], p["max_energy_change_per_interval"], slack=1e-5)
        S.le("dilution", 1 + dd[i] * T[i], 1 + thr, slack=1e-5)
        S.le("compression", 1 / (1 + thr), 1 + dd[i] * T[i], slack=1e-5)
        S.le("escape", -0.5, rel[i] * T[i], slack=1e-5)
        S.le("injection", np.abs(ab[i]) * T[i], p["max_injection_per_interval"], slack=1e-5)


@case("P27", "subgroups", time=60, max_paths=80)
def auto_groups(S):
    """every subgroup has to stay within the limits"""
    np = S.np
    g, b = energies(S, 1)
    en = tu.to_erg(b)
    n, share = S.reals("n", 1, 1e-3, 1e8), S.reals("share", 1, 0.01, 0.99)
    e0, e1 = S.reals("rate_0", 1, 0.001, 10.0), S.reals("rate_1", 1, -10.0, -0.001)
    rel, ab = S.reals("rel", 1, -10.0, -0.001), S.reals("abs", 1, -10.0, -0.001)
    m = S.real("max_energy", 1e-3, 0.5)
    order = S.choice("order", [1, -1])
    t = evolution(S, step_duration="auto", max_energy_change_per_interval=m, subgroups=[["idle"], ["idle"]])
    rates = [S.array([e0 * g, e0 * g]), S.array([e1 * g, e1 * g])][::order]
    r = t._calc_max_time_per_bin(en, n * CM3, S.array([share, 1 - share]), S.array(rates) * MEC2 * ERGS, S.array([rel, 0 * rel][::order]) * PERS, S.array([0 * ab, ab][::order]) * INJ)
    T = r.to_value("s")
    c = [m / e0[0], -m / e1[0], -0.5 / rel[0], -1.0 / ab[0]]
    for k, x in enumerate(c):
        S.le("limit %d" % k, T[0], x, slack=1e-5)
    S.check("reached", np.min(S.array(c)) <= T[0] * (1 + 1e-5))
    # a group without particles may be filled
    fill = S.reals("fill", 1, 0.001, 10.0)
    none = numpy.zeros((2, 1)) + 0 * S.array([n])[:1]
    for empty, label in ((S.array([numpy.ones(1), numpy.zeros(1)]), "filled group"), (None, "filled bin")):
        k = order if empty is not None else 1
        T = t._calc_max_time_per_bin(en, (n if empty is not None else 0 * n) * CM3, (S.array([share, 1 - share]) if empty is None else empty[::k]),
                                     S.array(rates) * MEC2 * ERGS, numpy.zeros((2, 1)) * PERS, S.array([0 * fill, fill][::k]) * INJ).to_value("s")
        c = [m / e0[0], -m / e1[0], 1.0 / fill[0]]
        for j, x in enumerate(c):
            S.le(label + " limit %d" % j, T[0], x, slack=1e-5)
        S.check(label + " reached", np.min(S.array(c)) <= T[0] * (1 + 1e-5))
    # nothing can leave where nothing is
    S.raises("empty", ValueError, lambda: t._calc_max_time_per_bin(
        en, n * CM3, S.array([numpy.ones(1), numpy.zeros(1)]), S.array(rates) * MEC2 * ERGS, numpy.zeros((2, 1)) * PERS, S.array([0 * ab, ab]) * INJ))


# ------------------------------------------------------------------ merging of bins
PERMS = [(0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1)]
TIES = [(0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, 0), (1, 0, 1)]


def law(S, name):
    """a distribution that is only known by its values"""
    f = S.ufn(name, lambda g: 1.0 + numpy.sin(numpy.log(g)) ** 2, positive=True)

    def dist(g):
        return S.array([f(x) for x in g]) * CM3 if numpy.ndim(g) else f(g) * CM3
    return f, dist


@case("P28", "sorted", time=60)
def sorted_bins(S):
    """every bin keeps its edges and its particles when the bins are sorted"""
    perm = S.choice("order", PERMS)
    g = S.reals("gamma", 3, 1.0, 1e8)
    up, n = S.reals("up", 3, 1.0, 1e8), S.reals("n", 3, 0.0, 1e8)
    S.assume(g[perm[0]] * 1.001 < g[perm[1]])
    S.assume(g[perm[1]] * 1.001 < g[perm[2]])
    bins = S.array([g, up])
    keep = bins.copy()
    b, d, m = tu.sort_and_merge_duplicates(bins, n * CM3, None)
    S.check("mapping", [int(x) for x in m] == list(perm))
    for i, p in enumerate(perm):
        S.eq("bin %d" % i, b[:, i], S.array([g[p], up[p]]))
        S.eq("density %d" % i, d[i], n[p] * CM3)
    S.eq("argument", bins, keep)


@case("P28", "duplicates", time=60)
def merged(S):
    """bins at the same energy become one"""
    tie = S.choice("ties", TIES)
    x = S.reals("x", 2, 1.0, 1e8)
    S.assume(x[0] * 1.001 < x[1])
    up, n = S.reals("up", 3, 1.0, 1e8), S.reals("n", 3, 1e-3, 1e8)
    f, dist = law(S, "law")
    g = S.array([x[k] for k in tie])
    for name, law_ in (("average", None), ("law", dist)):
        b, d, m = tu.sort_and_merge_duplicates(S.array([g, up]), n * CM3, law_)
        for i, k in enumerate(sorted(set(tie))):
            mine = [j for j in range(3) if tie[j] == k]
            S.eq(name + " energy", b[0, i], x[k])
            S.check(name + " from", int(m[i]) in mine)
            if len(mine) == 1:
                S.eq(name + " density", d[i], n[mine[0]] * CM3)
            else:
                S.eq(name + " upper edge is asked for", b[1, i], 0.0)
                S.eq(name + " merged density", d[i], (sum(n[j] for j in mine) / len(mine) if law_ is None else f(x[k])) * CM3)
        S.check(name + " bins", b.shape == (2, len(set(tie))) and len(d) == len(m) == len(set(tie)))


CLOSE = [(), (1,), (2,), (1, 2), (0, 1, 2, 3), (0,), (3,), (0, 3)]
CLOSE_MANY = [(1, 4), (1, 3), (1, 3, 4), (1, 2, 4), (0, 2, 4, 5), (1, 2, 3, 4)]


def mk_close(name, size, cases):
    @case("P28", name, time=60, max_paths=60)
    def close(S):
        """close bins are merged, except the first and the last one"""
        which = S.choice("close", cases)
        lim = S.real("limit", 1e-4, 0.1)
        m = size - 1
        part = S.reals("part", m, 0.01, 0.999)
        wide = S.reals("wide", m, 1.001, 20.0)
        gap = [lim * (part[i] if i in which else wide[i]) for i in range(m)]
        lg = [S.real("start", 0.5, 3.0)]
        for i in range(m):
            lg.append(lg[-1] + gap[i])
        np = S.np
        g = np.power(10, S.array(lg))
        up, n = S.reals("up", size, 1.0, 1e8), S.reals("n", size, 1e-3, 1e8)
        f, dist = law(S, "law")
        t = evolution(S, merge_bins_closer_than=lim)
        b, d, mp = t._sort_and_merge_bins(S.array([g, up]), n * CM3, dist)
        ref, cur = [], [0]
        for i in range(m):
            if i in which and 0 < i < m - 1:
                cur.append(i + 1)
            else:
                ref.append(cur)
                cur = [i + 1]
        ref.append(cur)
        S.check("bins", b.shape == (2, len(ref)) and len(d) == len(ref))
        S.check("mapping", [int(x) for x in mp] == [r[0] for r in ref])
        for i, r in enumerate(ref):
            if len(r) == 1:
                S.eq("bin", b[:, i], S.array([g[r[0]], up[r[0]]]))
                S.eq("density", d[i], n[r[0]] * CM3)
            else:
                mid = np.power(10, sum(lg[j] for j in r) / len(r))
                S.eq("merged bin", b[0, i], mid, rtol=1e-6)
                S.eq("upper edge is asked for", b[1, i], 0.0)
                S.eq("merged density", d[i], f(b[0, i]) * CM3)
        # no merging
        t = evolution(S, merge_bins_closer_than=None)
        b, d, mp = t._sort_and_merge_bins(S.array([g, up]), n * CM3, dist)
        S.eq("kept", b, S.array([g, up]))
        S.eq("kept densities", d, n * CM3)
        S.check("kept mapping", [int(x) for x in mp] == list(range(size)))


mk_close("close_bins", 5, CLOSE)
mk_close("several_close_bins", 7, CLOSE_MANY)


@case("P28", "bounds", time=60)
def bounds(S):
    """bins outside of the bounds are removed; the others are kept"""
    lo, hi = S.real("lower", 1.0, 1e3), S.real("upper", 1e4, 1e8)
    out = S.choice("outside", [(False, False, False), (True, False, False), (False, False, True), (True, False, True), (False, True, True)])
    below = S.reals("below", 1, 0.1, 0.999)[0] * lo
    above = S.reals("above", 2, 1.001, 10.0) * hi
    ins = S.reals("inside", 3, 0.0, 1.0)
    mids = [lo * 1.001 + (hi * 0.999 - lo * 1.001) * x for x in ins]
    g = S.array([below if out[0] else mids[0], above[0] if out[1] else mids[1], above[1] if out[2] else mids[2]])
    up = S.reals("up", 3, 1.0, 1e9)
    t = evolution(S, gammas=None, gamma_bounds=(lo, hi)) if False else evolution(S)
    t._gamma_bounds = (lo, hi)
    b, m = t._remove_gamma_beyond_bounds(S.array([g, up]))
    want = [i for i in range(3) if not out[i]]
    S.check("mapping", [int(x) for x in m] == want)
    for k, i in enumerate(want):
        S.eq("bin", b[:, k], S.array([g[i], up[i]]))


@case("P28", "new_bins", time=60)
def new_bins(S):
    """empty bins follow where particles leave the bounds"""
    np = S.np
    lo, hi = S.real("lower", 1.0, 1e2), S.real("upper", 1e5, 1e8)
    creep = S.real("creep", 0.05, 0.5)
    far = S.choice("far", [(False, False), (True, False), (False, True), (True, True)])
    d0 = S.real("distance_0", 0.06, 1.0) if far[0] else S.real("near_0", 0.0, 0.9)
    d1 = S.real("distance_1", 0.06, 1.0) if far[1] else S.real("near_1", 0.0, 0.9)
    S.assume(d0 > creep * 1.001 if far[0] else d0 < 0.999)
    S.assume(d1 > creep * 1.001 if far[1] else d1 < 0.999)
    g0 = lo * np.power(10, d0 if far[0] else d0 * creep)
    g1 = hi / np.power(10, d1 if far[1] else d1 * creep)
    up = S.reals("up", 2, 1.0, 1e9)
    sg = S.choice("signs", [(1, -1), (1, 1), (-1, -1), (-1, 1), (0, 0)])
    r = S.reals("rate", 4, 0.1, 10.0)
    rates = S.array([[sg[0] * r[0], sg[1] * r[1]], [r[2], r[3]]]) * ERGS
    t = evolution(S, max_bin_creep_from_bounds=creep)
    t._gamma_bounds = (lo, hi)
    b, m = t._add_boundary_bins(S.array([[g0, g1], up]), rates)
    want = [-1] * (far[0] and sg[0] > 0) + [0, 1] + [-1] * (far[1] and sg[1] < 0)
    S.check("mapping", [int(x) for x in m] == want)
    for i, k in enumerate(want):
        if k >= 0:
            S.eq("bin", b[:, i], S.array([[g0, g1][k], up[k]]))
        else:
            S.eq("new bin", b[0, i], lo if i == 0 else hi / (1 + 1e-4))
            S.eq("upper edge is asked for", b[1, i], 0.0)


@case("P28", "remove_empty", time=60)
def remove_empty(S):
    """only bins without particles are left out"""
    on = S.choice("filled", [(True, True, True), (True, False, True), (False, True, False), (False, False, False)])
    g, n = S.reals("gamma", 3, 1.0, 1e8), S.reals("n", 3, 1e-6, 1e8)
    w, r = S.reals("share", 3, 0.0, 1.0), S.reals("rate", 9, -1.0, 1.0)
    T = S.real("time", 0.0, 1e6)
    n = S.array([x if o else 0.0 for x, o in zip(n, on)])
    src = TimeEvaluationResult(T * u.s, g, n * CM3, S.array([w, 1 - w]), {"a": r[:3] * ERGS, "b": r[6:] * ERGS}, {"c": r[3:6] * PERS}, {})
    res = tu.remove_empty_densities(src)
    idx = [i for i in range(3) if on[i]]
    S.eq("time", res.total_time, T * u.s)
    S.check("sizes", len(res.gamma) == len(res.density) == len(idx) and res.density_subgroups.shape == (2, len(idx)))
    S.check("labels", set(res.en_chg_rates) == {"a", "b"} and set(res.rel_inj_rates) == {"c"} and res.abs_inj_rates == {})
    for k, i in enumerate(idx):
        S.eq("gamma", res.gamma[k], g[i])
        S.eq("density", res.density[k], n[i] * CM3)
        S.eq("shares", res.density_subgroups[:, k], S.array([w[i], 1 - w[i]]))
        S.eq("a", res.en_chg_rates["a"][k], r[i] * ERGS)
        S.eq("b", res.en_chg_rates["b"][k], r[6 + i] * ERGS)
        S.eq("c", res.rel_inj_rates["c"][k], r[3 + i] * PERS)


@case("P28", "new_distribution", time=60)
def new_distribution(S):
    """the region gets the distribution through the bins"""
    perm = S.choice("order", PERMS)
    zero = S.choice("empty", [None, 0, 1, 2])
    x = S.reals("x", 3, 1.0, 1e8)
    S.assume(x[0] * 1.001 < x[1])
    S.assume(x[1] * 1.001 < x[2])
    n = S.reals("n", 3, 1e-3, 1e8)
    n = S.array([0.0 if i == zero else n[i] for i in range(3)])
    g = S.array([x[i] for i in perm])
    blob = region(S)
    d = tu.update_distribution(S.array([g, g * 2]), S.array([n[i] for i in perm]) * CM3, blob)
    S.check("region", blob.n_e is d)
    r = d(x.copy())
    for i in range(3):
        if i != zero or i != 1:     # an empty bin between two others is interpolated
            S.eq("densities", r[i], n[i] * CM3, rtol=1e-6)
    inner = [i for i in range(3) if i != zero]
    S.eq("least energy", blob.n_e.gamma_min, x[inner[0]])
    S.eq("largest energy", blob.n_e.gamma_max, x[inner[-1]])
    S.eq("nothing outside", d(S.array([x[0] * 0.9, x[2] * 1.1])), numpy.zeros(2) * CM3)


@case("P28", "empty_distribution", time=60)
def empty_distribution(S):
    perm = S.choice("order", PERMS)
    x = S.reals("x", 3, 1.0, 1e8)
    S.assume(x[0] * 1.001 < x[1])
    S.assume(x[1] * 1.001 < x[2])
    g = S.array([x[i] for i in perm])
    blob = region(S)
    d = tu.update_distribution(S.array([g, g * 2]), numpy.zeros(3) * CM3, blob)
    S.check("region", blob.n_e is d and isinstance(d, EmptyDistribution))
    S.eq("densities", d(x), numpy.zeros(3) * CM3)
    S.check("energies are numbers", numpy.ndim(d.gamma_min) == 0 and numpy.ndim(d.gamma_max) == 0)
    if numpy.ndim(d.gamma_min) == 0:
        S.eq("least energy", d.gamma_min, x[0])
        S.eq("largest energy", d.gamma_max, x[2])
    # all particles at one energy are no distribution
    y = S.real("y", 1.0, 1e8)
    S.raises("collapsed", tu.DistributionToSinglePointCollapseError,
             lambda: tu.update_distribution(S.array([[y, y], [2 * y, 2 * y]]), S.reals("n", 2, 1e-3, 1.0) * CM3, blob))


# ------------------------------------------------------------------- whole evolution
def given_region(S, g, n):
    return Blob(R_b=1e16 * u.cm, z=0.1, delta_D=10.0, Gamma=10.0, B=1.0 * u.G, gamma_e_size=20,
                n_e=InterpolatedDistribution(g.copy(), n * CM3, interpolator=tu.PchipInterpolator))


def rates(S, per_bin):
    """a function of the edges and of the densities"""
    def fn(args):
        per = len(args.gamma) // max(1, len(args.densities))
        d = args.densities.to_value("cm-3")
        return S.array([per_bin(g, d[i // per]) for i, g in enumerate(args.gamma)])
    return fn


def start(S, n=2):
    box = [(10.0, 100.0), (1e3, 1e4), (1e5, 1e6)]
    g = S.array([S.reals("gamma%d" % i, 1, *box[i])[0] for i in range(n)])
    return g, S.reals("n", n, 1e-3, 1e6)


class Diary(list):
    """what the callback was given, and what it looked like then"""

    def __call__(self, r):
        self.append((r, r.total_time.copy()))


STEPS = {"less": (1e-4, 0.9, 1), "one": None, "two": None, "more": (2.0001, 2.9, 3)}


def total(S, h, kind):
    if kind == "one":
        return h, [h]
    if kind == "two":
        return 2 * h, [h, h]
    lo, hi, k = STEPS[kind]
    x = S.real("steps_" + kind, lo, hi)
    return h * x, [h] * (k - 1) + [h * (x - (k - 1))]


def same(S, label, a, b):
    S.eq(label + " time", a.total_time, b.total_time)
    S.eq(label + " gamma", a.gamma, b.gamma)
    S.eq(label + " density", a.density, b.density)
    S.eq(label + " shares", a.density_subgroups, b.density_subgroups)
    for k in ("en_chg_rates", "rel_inj_rates", "abs_inj_rates"):
        x, y = getattr(a, k), getattr(b, k)
        S.check(label + " " + k, set(x) == set(y))
        for q in set(x) & set(y):
            S.eq(label + " rate", x[q], y[q])


@case("P29", "equal_steps", time=120)
def equal_steps(S):
    g, n = start(S)
    h = S.real("step", 0.1, 10.0)
    kind = S.choice("total", list(STEPS))
    a = S.real("gain", -0.05, 0.5)
    f = S.ufn("escape", lambda x: 1e-3 + 1e-2 * numpy.sin(x) ** 2, positive=True)
    q = S.ufn("source", lambda x: 1.0 + numpy.sin(x) ** 2, positive=True)
    T, steps = total(S, h, kind)
    unit = S.choice("unit", ["s", "h"])
    erg = S.choice("energy", [ERGS, u.Unit("eV s-1")])
    gain = rates(S, lambda x, d: a * x)
    diary = Diary()
    blob = given_region(S, g, n)
    t = TimeEvolution(blob, (T * u.s).to(unit), {"gain": lambda args: (gain(args) * MEC2 * ERGS).to(erg)},
                      {"rel": lambda args: rates(S, lambda x, d: f(d))(args) * PERS},
                      {"abs": lambda args: rates(S, lambda x, d: q(x))(args) * INJ},
                      step_duration=(h * u.s).to(unit), initial_gamma_array=g.copy(), distribution_change_callback=diary)
    r = t.evaluate()
    S.check("steps", len(diary) == len(steps))
    now, el = n, 0
    for (x, then), dt in zip(diary, steps):
        el = el + dt
        now = now / (1 + a * dt) + (now * S.array([f(v) for v in now]) + S.array([q(v) for v in g])) * dt
        g = g * (1 + a * dt)
        S.eq("elapsed", then, el * u.s)
        S.eq("elapsed (afterwards)", x.total_time, el * u.s)
        S.eq("gamma", x.gamma, g)
        S.eq("density", x.density, now * CM3, rtol=1e-5)
        S.eq("shares", x.density_subgroups, numpy.ones((1, 2)))
        S.check("labels", list(x.en_chg_rates) == ["gain"] and list(x.rel_inj_rates) == ["rel"] and list(x.abs_inj_rates) == ["abs"])
        S.eq("energy change rates", x.en_chg_rates["gain"], a * x.gamma * MEC2 * ERGS)
        if list(x.rel_inj_rates) == ["rel"]:
            S.eq("relative rates", x.rel_inj_rates["rel"], S.array([f(v) for v in x.density.to_value("cm-3")]) * PERS)
            S.eq("absolute rates", x.abs_inj_rates["abs"], S.array([q(v) for v in x.gamma]) * INJ)
        g, now = x.gamma, x.density.to_value("cm-3")
    S.eq("total time", r.total_time, T * u.s)
    same(S, "result", r, diary[-1][0])
    S.eq("region", blob.n_e(r.gamma.copy()), r.density, rtol=1e-6)
    S.eq("least energy", blob.n_e.gamma_min, r.gamma[0])
    S.eq("largest energy", blob.n_e.gamma_max, r.gamma[1])


@case("P29", "no_time", time=60)
def no_time(S):
    g, n = start(S)
    diary = Diary()
    blob = given_region(S, g, n)
    old = blob.n_e
    a = S.real("gain", -0.05, 0.5)
    gain = rates(S, lambda x, d: a * x)
    t = TimeEvolution(blob, 0 * u.s, {"gain": lambda args: gain(args) * MEC2 * ERGS}, step_duration=S.choice("step", [1 * u.s, "auto"]),
                      initial_gamma_array=g.copy(), distribution_change_callback=diary)
    r = t.evaluate()
    S.check("no step", len(diary) == 0 and blob.n_e is old)
    S.eq("time", r.total_time, 0 * u.s)
    S.eq("gamma", r.gamma, g)
    S.eq("density", r.density, n * CM3)
    S.eq("rates", r.en_chg_rates["gain"], a * g * MEC2 * ERGS)


@case("P29", "heun", time=120)
def heun(S):
    """the rates are averaged over the step"""
    g, n = start(S)
    h = S.real("step", 0.1, 10.0)
    method = S.choice("method", ["heun", "Heun", "euler"])
    kind = S.choice("total", ["less", "one"])
    c = S.real("loss", 1e-9, 1e-6)
    inj = S.real("injected", 0.0, 10.0)
    T, steps = total(S, h, kind)
    diary = Diary()
    blob = given_region(S, g, n)
    loss = rates(S, lambda x, d: -c * x * x)
    t = TimeEvolution(blob, T * u.s, {"loss": lambda args: loss(args) * MEC2 * ERGS}, None,
                      {"abs": lambda args: rates(S, lambda x, d: inj + 0 * x)(args) * INJ}, step_duration=h * u.s,
                      initial_gamma_array=g.copy(), distribution_change_callback=diary, method=method)
    t.evaluate()
    S.check("steps", len(diary) == len(steps))
    for (x, then), dt in zip(diary, steps):
        b = S.array([g, g * (1 + 1e-4)])
        e = -c * b * b
        if method != "euler":
            p = b + e * dt
            e = (e - c * p * p) / 2
        z = b + e * dt
        now = n * (b[1] - b[0]) / (z[1] - z[0]) + inj * dt
        S.eq("gamma", x.gamma, z[0], rtol=1e-7)
        S.eq("density", x.density, now * CM3, rtol=1e-5)
        g, n = x.gamma, x.density.to_value("cm-3")


@case("P29", "subgroups", time=120)
def evolve_groups(S):
    """the particles of a subgroup change with its own functions only"""
    g, n = start(S)
    h = S.real("step", 0.1, 5.0)
    method = S.choice("method", ["euler", "heun"])
    how = S.choice("initial", ["given", "whole numbers", None])
    share = S.reals("share", 2, 0.1, 0.9) if how == "given" else numpy.array([1.0, 1.0])
    given = S.array([share, 1 - share]) if how == "given" else numpy.array([[1, 1], [0, 0]]) if how else None
    a, esc, src = S.real("gain", 0.01, 0.05), S.real("escape", -0.05, 0.05), S.real("source", 0.0, 10.0)
    kind = S.choice("total", ["one", "two"] if how == "given" and method == "euler" else ["one"])
    T, steps = total(S, h, kind)
    diary = Diary()
    blob = given_region(S, g, n)
    t = TimeEvolution(blob, T * u.s, {"gain": lambda args: rates(S, lambda x, d: a * x)(args) * MEC2 * ERGS},
                      {"esc": lambda args: rates(S, lambda x, d: esc + 0 * x)(args) * PERS},
                      {"src": lambda args: rates(S, lambda x, d: src + 0 * x)(args) * INJ}, step_duration=h * u.s,
                      initial_gamma_array=g.copy(), distribution_change_callback=diary, method=method,
                      subgroups=[["gain", "esc"], ["gain", "src"]], subgroups_initial_density=given)
    r = t.evaluate()
    S.check("steps", len(diary) == len(steps))
    one, two = n * share, n * (1 - share)
    for (x, then), dt in zip(diary, steps):
        k = 1 + a * dt if method == "euler" else 1 + a * dt * (1 + (1 + a * dt)) / 2
        one = one / k + one * esc * dt
        two = two / k + src * dt
        S.eq("gamma", x.gamma, g * k, rtol=1e-7)
        S.eq("density", x.density, (one + two) * CM3, rtol=1e-5)
        S.eq("first group", x.density * x.density_subgroups[0], one * CM3, rtol=1e-5)
        S.eq("second group", x.density * x.density_subgroups[1], two * CM3, rtol=1e-5, atol=1e-12)
        S.eq("shares", x.density_subgroups[0] + x.density_subgroups[1], numpy.ones(2), rtol=1e-7)
        g = x.gamma
        d = x.density.to_value("cm-3")
        one, two = d * x.density_subgroups[0], d * x.density_subgroups[1]
    same(S, "result", r, diary[-1][0])


@case("P29", "automatic_steps", time=120)
def automatic(S):
    """every step is as long as the limits allow"""
    g, n = start(S)
    a = S.real("gain", 0.01, 0.5)
    x = S.real("steps", 2.1, 2.9)
    which = S.choice("limit", ["energy", "density"])
    lim = S.real("energy_limit", 1e-3, 0.1)
    thr = lim * (S.real("more", 1.01, 5.0) if which == "energy" else S.real("less", 0.1, 0.99))
    h = (lim if which == "energy" else thr) / a
    diary = Diary()
    blob = given_region(S, g, n)
    t = TimeEvolution(blob, h * x * u.s, {"gain": lambda args: rates(S, lambda x, d: a * x)(args) * MEC2 * ERGS}, initial_gamma_array=g.copy(),
                      distribution_change_callback=diary, max_energy_change_per_interval=lim, max_density_change_per_interval=thr,
                      optimize_recalculating_slow_rates=S.choice("optimize", [False, True]))
    r = t.evaluate()
    S.check("steps", len(diary) == 3)
    for i, (y, then) in enumerate(diary):
        S.eq("elapsed", then, h * ([1, 2, x][i]) * u.s, rtol=1e-6)
        dt = h * ([1, 1, x - 2][i])
        k = 1 + a * dt
        S.eq("gamma", y.gamma, g * k, rtol=1e-6)
        S.eq("density", y.density, n / k * CM3, rtol=1e-5)
        g, n = y.gamma, y.density.to_value("cm-3")
    S.eq("total time", r.total_time, h * x * u.s)


@case("P29", "slow_bins", time=120)
def slow(S):
    """rates that are kept for slow bins are used no longer than the limits allow"""
    g, n = start(S)
    lim = 0.01
    fast = S.real("fast", 0.1, 1.0)
    ratio = S.choice("ratio", [1.5, 2.0, 2.5, 3.25])
    sg = S.choice("sign", [1, -1])
    slow_ = fast / ratio
    calls = []

    def gain(args):
        v = [(-sg * slow_ if bool(x < 500.0) else -fast) * x for x in args.gamma]
        calls.append([x for x in args.gamma[::2]])
        return S.array(v) * MEC2 * ERGS
    diary = Diary()
    blob = given_region(S, g, n)
    h = lim / fast
    T = 4.2 * h
    t = TimeEvolution(blob, T * u.s, {"gain": gain}, initial_gamma_array=g.copy(), distribution_change_callback=diary,
                      max_energy_change_per_interval=lim, max_density_change_per_interval=0.5)
    t.evaluate()
    times = [0] + [then.to_value("s") for _, then in diary]
    S.check("asked at every step", len(calls) == len(times))
    for b in (0, 1):
        mine = [(i, x) for i, c in enumerate(calls) for x in c if bool(x < 500.0) == (b == 0)]
        rate = [-sg * slow_, -fast][b]
        S.check("asked at the start", mine[0][0] == 0)
        S.eq("start", mine[0][1], g[b])
        for (i, x), (j, y) in zip(mine, mine[1:]):
            S.eq("rates in between", y, x * (1 + rate * (times[j] - times[i])), rtol=1e-6)
            S.le("no more than the limit", abs(ratio_(y, x)), lim, slack=1e-4)
        i, x = mine[-1]
        S.eq("end", diary[-1][0].gamma[b], x * (1 + rate * (times[-1] - times[i])), rtol=1e-6)
    for (y, _), (z, _) in zip([(None, None)] + diary, diary):
        S.eq("density", z.density * z.gamma, n * g * CM3, rtol=1e-5)
    S.eq("total time", diary[-1][1], T * u.s)


def ratio_(y, x):
    return (y - x) / x


@case("P29", "crossing_bins", time=120, max_paths=60)
def crossing(S):
    """bins take their rates, and the time these are valid, along when they change places"""
    g0, gap = S.choice("energies", [(1e3, 0.0117), (2.5e5, 0.012)])
    n = S.array([S.real("thin", 1e-3, 0.1), S.real("dense", 10.0, 1e3)])
    g = numpy.array([g0, g0 * (1 + gap)])
    first_fast = S.choice("fast", ["lower", "upper"]) == "lower"
    ratio = S.choice("ratio", [2.5, 3.25, 1.5])
    optimize = S.choice("optimize", [None, False])
    lim = 0.01
    fast = 0.3
    v = {True: fast, False: -fast / ratio} if first_fast else {True: fast / ratio, False: -fast}

    def lower(d):
        return bool(d < 1.0)
    diary = Diary()
    h = lim / fast
    T = 2.9 * h
    blob = given_region(S, g, n)
    t = TimeEvolution(blob, T * u.s, {"gain": lambda args: rates(S, lambda x, d: v[lower(d)] * x)(args) * MEC2 * ERGS},
                      {"rel": lambda args: rates(S, lambda x, d: 1e-3 * fast * d)(args) * PERS},
                      {"abs": lambda args: rates(S, lambda x, d: (1 if lower(d) else 2) * 1e-7 * fast * x)(args) * INJ},
                      initial_gamma_array=g.copy(), distribution_change_callback=diary, max_energy_change_per_interval=lim,
                      max_density_change_per_interval=0.5, merge_bins_closer_than=None, optimize_recalculating_slow_rates=optimize)
    t.evaluate()
    S.check("steps", len(diary) >= 3)
    S.eq("end", diary[-1][1], T * u.s)
    # the two bins on their own
    gam, den = list(g), list(n)

    def ask(i):
        low = i == 0
        return dict(e=v[low] * gam[i], r=1e-3 * fast * den[i], q=(1 if low else 2) * 1e-7 * fast * gam[i], wide=v[low] * 1e-4 * gam[i], at=gam[i])
    now = [ask(0), ask(1)]
    width = [1e-4 * x for x in gam]
    before = 0.0
    for k, (x, then) in enumerate(diary):
        dt, before = number(then.to_value("s")) - before, number(then.to_value("s"))
        for i in range(2):
            grown = width[i] + now[i]["wide"] * dt
            den[i] = den[i] * width[i] / grown + (now[i]["r"] * den[i] + now[i]["q"]) * dt
            gam[i], width[i] = gam[i] + now[i]["e"] * dt, grown
            S.le("rates are used no longer than the limit allows %d %d" % (k, i), abs(gam[i] / now[i]["at"] - 1), lim, slack=1e-4)
        order = [0, 1] if gam[0] < gam[1] else [1, 0]
        for j, i in enumerate(order):
            S.eq("gamma %d %d" % (k, i), x.gamma[j], gam[i], rtol=1e-6)
            S.eq("density %d %d" % (k, i), x.density[j], den[i] * CM3, rtol=1e-5)
            # the rates are those of now, or those the same bin had
            if optimize is False or abs(number(x.en_chg_rates["gain"][j].to_value(ERGS)) / MEC2 / now[i]["e"] - 1) > 1e-6:
                now[i], width[i] = ask(i), 1e-4 * gam[i]
            S.eq("energy rate %d %d" % (k, i), x.en_chg_rates["gain"][j], now[i]["e"] * MEC2 * ERGS, rtol=1e-5)
            S.eq("relative rate %d %d" % (k, i), x.rel_inj_rates["rel"][j], now[i]["r"] * PERS, rtol=1e-5)
            S.eq("absolute rate %d %d" % (k, i), x.abs_inj_rates["abs"][j], now[i]["q"] * INJ, rtol=1e-5)


def number(x):
    return float(x)


@case("P29", "continued", time=120)
def continued(S):
    """an evolution can be continued by another one"""
    g, n = start(S)
    h = S.real("step", 0.1, 10.0)
    a, src = S.real("gain", 0.01, 0.5), S.real("source", 0.1, 10.0)
    k = S.choice("steps before", [1, 2])
    fns = dict(energy_change_functions={"gain": lambda args: rates(S, lambda x, d: a * x)(args) * MEC2 * ERGS},
               abs_injection_functions={"src": lambda args: rates(S, lambda x, d: src / x)(args) * INJ}, step_duration=h * u.s)
    whole, parts = given_region(S, g, n), given_region(S, g, n)
    r = TimeEvolution(whole, 3 * h * u.s, initial_gamma_array=g.copy(), **fns).evaluate()
    x = TimeEvolution(parts, k * h * u.s, initial_gamma_array=g.copy(), **fns).evaluate()
    y = TimeEvolution(parts, (3 - k) * h * u.s, initial_gamma_array=x.gamma, **fns).evaluate()
    S.eq("gamma", y.gamma, r.gamma)
    S.eq("density", y.density, r.density, rtol=1e-5)
    S.eq("region", parts.n_e(y.gamma.copy()), whole.n_e(r.gamma.copy()), rtol=1e-5)


@case("P29", "bounds", time=120)
def evolve_bounds(S):
    """bins beyond the bounds leave, the others keep their particles"""
    g, n = start(S, 3)
    h = S.real("step", 0.1, 1.0)
    a = S.choice("sign", [1, -1]) * S.real("gain", 0.5, 0.9)
    lo = g[0] * (1 + S.real("low", -0.04, -0.01))
    hi = g[2] * (1 + S.real("high", 0.01, 0.04))
    diary = Diary()
    blob = given_region(S, g, n)
    t = TimeEvolution(blob, h * u.s, {"gain": lambda args: rates(S, lambda x, d: a * x)(args) * MEC2 * ERGS}, initial_gamma_array=g.copy(),
                      distribution_change_callback=diary, step_duration=h * u.s, gamma_bounds=(lo, hi))
    r = t.evaluate()
    k = 1 + a * h
    new = g * k
    keep = [i for i in range(3) if bool(new[i] >= lo) and bool(new[i] <= hi / (1 + 1e-4))]
    added = 0
    if a > 0:
        # the lower bound is left behind
        if bool(S.np.log10(new[keep[0]]) - S.np.log10(lo) >= 0.1):
            added = 1
            S.eq("new bin", r.gamma[0], lo)
            S.eq("empty", r.density[0], 0 * CM3)
            S.eq("rate", r.en_chg_rates["gain"][0], a * lo * MEC2 * ERGS)
    elif bool(S.np.log10(hi) - S.np.log10(new[keep[-1]]) >= 0.1):
        S.eq("new bin", r.gamma[-1], hi / (1 + 1e-4))
        S.eq("empty", r.density[-1], 0 * CM3)
        S.check("one more", len(r.gamma) == len(keep) + 1)
    for j, i in enumerate(keep):
        S.eq("gamma", r.gamma[j + added], new[i])
        S.eq("density", r.density[j + added], n[i] / k * CM3, rtol=1e-5)
        S.eq("rates", r.en_chg_rates["gain"][j + added], a * new[i] * MEC2 * ERGS)
    S.eq("region", blob.n_e(r.gamma.copy())[added:added + len(keep)], r.density[added:added + len(keep)], rtol=1e-6)


# ------------------------------------------------------------------------ set-up
def source(args):
    return numpy.ones(len(args.gamma)) * INJ


def leak(args):
    return -0.1 * numpy.ones(len(args.gamma)) * PERS


def gain_(args):
    return 1e-2 * args.gamma * MEC2 * ERGS


@case("P30", "refused", time=60)
def refused(S):
    """settings that contradict each other are refused"""
    g = numpy.array([1e2, 1e3])
    one = numpy.array([[1.0, 1.0], [0.0, 0.0]])
    sub = [["idle"], ["idle"]]
    bad = {
        "number as step": dict(step_duration=1.0),
        "other word as step": dict(step_duration="fast"),
        "energy and relative": dict(rel_injection_functions={"idle": leak}),
        "energy and absolute": dict(abs_injection_functions={"idle": source}),
        "relative and absolute": dict(rel_injection_functions={"x": leak}, abs_injection_functions={"x": source}),
        "kept rates with given steps": dict(optimize_recalculating_slow_rates=True),
        "kept rates with Heun": dict(step_duration="auto", optimize_recalculating_slow_rates=True, method="heun"),
        "method": dict(method="rk4"),
        "unknown function": dict(subgroups=[["idle"], ["other"]]),
        "shares without subgroups": dict(subgroups_initial_density=one),
        "shares without energies": dict(subgroups=sub, subgroups_initial_density=one, gammas=None),
        "shares for other energies": dict(subgroups=sub, subgroups_initial_density=one[:, :1]),
    }
    for k, d in bad.items():
        d = dict(d)
        gm = d.pop("gammas", g)
        S.raises(k, ValueError, lambda: evolution(S, gammas=gm, **d))
    ok = {
        "Heun": dict(method="HEUN"), "Heun with automatic steps": dict(step_duration="auto", optimize_recalculating_slow_rates=False, method="heun"),
        "kept rates": dict(step_duration="auto", optimize_recalculating_slow_rates=True), "subgroups": dict(subgroups=sub, subgroups_initial_density=one),
        "functions": dict(rel_injection_functions={"x": leak}, abs_injection_functions={"y": source}, subgroups=[["idle", "x"], ["y", "x"]]),
    }
    for k, d in ok.items():
        S.returns(k, lambda: evolution(S, gammas=g, **d))


@case("P30", "energies", time=60)
def check_energies(S):
    """initial energies increase and are within the bounds"""
    g = S.reals("gamma", 3, 1.0, 1e8)
    lo, hi = S.real("lower", 1.0, 1e4), S.real("upper", 1e4, 1e8)
    bounded = S.choice("bounds", [False, True])
    good = bool(g[0] < g[1]) and bool(g[1] < g[2])
    if bounded:
        good = good and bool(g[0] >= lo) and bool(g[2] <= hi)
    f = lambda: evolution(S, gammas=g, gamma_bounds=(lo, hi) if bounded else None)
    if good:
        S.returns("accepted", f)
    else:
        S.raises("refused", ValueError, f)


@case("P30", "shares", time=60)
def check_shares(S):
    """the shares of the subgroups are complete"""
    s = S.reals("share", 2, 0.0, 1.0)
    d = S.choice("missing", [0.0, 1e-3, -1e-3, 0.3])
    i = S.choice("bin", [0, 1])
    rest = 1 - s
    rest = S.array([rest[k] + (d if k == i else 0.0) for k in range(2)])
    f = lambda: evolution(S, subgroups=[["idle"], ["idle"]], subgroups_initial_density=S.array([s, rest]))
    if d == 0.0:
        S.returns("accepted", f)
    else:
        S.raises("refused", ValueError, f)


@case("P30", "default_energies", time=60)
def default_energies(S):
    """without initial energies, those of the region within the bounds are used"""
    S.grid({20: 4})
    lo, hi = S.real("lower", 1.0, 1e3), S.real("upper", 1e4, 1e8)
    bl, bh = S.real("bound_lower", 1.0, 1e3), S.real("bound_upper", 1e4, 1e8)
    bounded = S.choice("bounds", [False, True])
    n = PowerLaw(k=1e3 * CM3, p=2.0, gamma_min=lo, gamma_max=hi)
    blob = Blob(R_b=1e16 * u.cm, z=0.1, delta_D=10.0, Gamma=10.0, B=1.0 * u.G, n_e=n, gamma_e_size=20)
    t = TimeEvolution(blob, 0 * u.s, {"idle": idle}, step_duration=1 * u.s, gamma_bounds=(bl, bh) if bounded else None)
    r = t.evaluate()
    a = S.np.maximum(lo, bl) if bounded else lo
    b = S.np.minimum(hi, bh) if bounded else hi
    m = len(r.gamma)
    S.check("size", m == (4 if S.symbolic else 20))
    for i in range(m):
        S.eq("energies", S.log(r.gamma[i]), S.log(a) + (S.log(b) - S.log(a)) * i / (m - 1), rtol=1e-7, atol=1e-9)
    if not S.symbolic or not bounded:
        S.eq("densities", r.density[1:-1], n(r.gamma.copy())[1:-1])
    S.eq("shares", r.density_subgroups, numpy.ones((1, m)))


@case("P30", "forms", time=60)
def forms(S):
    """functions can be given alone, in a list or with names"""
    g, n = start(S)
    h = S.real("step", 0.1, 1.0)
    a, b, q = S.real("gain", 0.01, 0.5), S.real("loss", -0.4, -0.01), S.real("source", 0.1, 10.0)
    f = lambda args: rates(S, lambda x, d: a * x)(args) * MEC2 * ERGS
    f2 = lambda args: rates(S, lambda x, d: b * x)(args) * MEC2 * ERGS
    s = lambda args: rates(S, lambda x, d: q + 0 * x)(args) * INJ
    l = lambda args: rates(S, lambda x, d: -0.1 + 0 * x)(args) * PERS
    how = S.choice("form", ["alone", "list", "tuple", "names"])
    form = {"alone": lambda x, k: x, "list": lambda x, k: [x], "tuple": lambda x, k: (x,), "names": lambda x, k: {k: x}}[how]
    en = {"alone": f, "list": [f, f2], "tuple": (f, f2), "names": {"f": f, "f2": f2}}[how]
    blob = given_region(S, g, n)
    r = TimeEvolution(blob, h * u.s, en, form(l, "l"), form(s, "s"), step_duration=h * u.s, initial_gamma_array=g.copy()).evaluate()
    k = 1 + (a if how == "alone" else a + b) * h
    S.eq("gamma", r.gamma, g * k)
    S.eq("density", r.density, (n / k + (-0.1 * n + q) * h) * CM3, rtol=1e-5)
    S.check("rates", (len(r.en_chg_rates), len(r.rel_inj_rates), len(r.abs_inj_rates)) == (1 if how == "alone" else 2, 1, 1))
    if how == "names":
        S.check("names", (list(r.en_chg_rates), list(r.rel_inj_rates), list(r.abs_inj_rates)) == (["f", "f2"], ["l"], ["s"]))


@case("P30", "whole_numbers", time=60)
def whole_numbers(S):
    """whole numbers are energies like all others"""
    n = S.reals("n", 2, 1e-3, 1e6)
    g = numpy.array([100, 2000])
    a, h = S.real("gain", 0.01, 0.5), S.real("step", 0.1, 1.0)
    blob = given_region(S, g.astype(float) + 0 * n, n)
    r = TimeEvolution(blob, h * u.s, {"gain": lambda args: rates(S, lambda x, d: a * x)(args) * MEC2 * ERGS}, step_duration=h * u.s,
                      initial_gamma_array=g, gamma_bounds=(1, 100000)).evaluate()
    keep = [i for i in range(len(r.gamma)) if not (i == 0 and len(r.gamma) == 3)]
    k = 1 + a * h
    S.eq("gamma", r.gamma[keep], g * k)
    S.eq("density", r.density[keep], n / k * CM3, rtol=1e-5)


@case("P30", "first_group", time=60)
def first_group(S):
    """without initial shares, all particles are in the first subgroup"""
    g, n = start(S)
    seen = []

    def spy(args):
        seen.append(args)
        return rates(S, lambda x, d: 0 * x)(args) * ERGS
    blob = given_region(S, g, n)
    r = TimeEvolution(blob, 0 * u.s, {"idle": spy}, step_duration=1 * u.s, initial_gamma_array=g.copy(), subgroups=[["idle"], ["idle"], []]).evaluate()
    S.eq("shares", r.density_subgroups, numpy.array([[1.0, 1.0], [0.0, 0.0], [0.0, 0.0]]))
    S.eq("function", seen[0].density_subgroups, r.density_subgroups)
    S.eq("edges", seen[0].gamma, S.array([g[0], g[0] * (1 + 1e-4), g[1], g[1] * (1 + 1e-4)]))
    S.eq("densities", seen[0].densities, n * CM3)


@case("P30", "losses", time=60)
def losses(S):
    """ready-made functions for losses and acceleration"""
    g = S.reals("gamma", 2, 1.0, 1e8)
    t = S.real("t_acc", 1.0, 1e8)
    p = FnParams(g, numpy.ones(2) * CM3, numpy.ones((1, 2)))
    f = S.ufn("rate", lambda x: x * 1e-10, positive=True)

    class Process:
        def electron_energy_loss_rate(self, gamma):
            return S.array([f(x) for x in gamma]) * ERGS

        def electron_energy_loss_rate_thomson(self, gamma):
            return S.array([2 * f(x) for x in gamma]) * ERGS
    want = S.array([f(x) for x in g])
    S.eq("synchrotron", te.synchrotron_loss(Process())(p), -want * ERGS)
    S.eq("ssc", te.ssc_loss(Process())(p), -want * ERGS)
    S.eq("thomson", te.ssc_thomson_limit_loss(Process())(p), -2 * want * ERGS)
    S.eq("acceleration", te.fermi_acceleration(t * u.s)(p), g * MEC2 / t * ERGS)
    S.eq("acceleration time in other units", te.fermi_acceleration((t * u.s).to("d"))(p), g * MEC2 / t * ERGS)
