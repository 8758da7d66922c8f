"""P24 initial distributions: densities, samplers, generated populations and populations read from files."""
import math
import os
import warnings

import numpy as np
from scipy import integrate

from core import *

from posydon.popsyn import IMFs, distributions as D
from posydon.popsyn import independent_sample as IS
from posydon.popsyn.Moes_distributions import Moe_17_PsandQs
from posydon.popsyn.sample_from_file import get_kick_samples_from_file, get_samples_from_file
from posydon.utils.common_functions import histogram_sampler, inverse_sampler, read_histogram_from_file, rejection_sampler

N = 3000
KS = 3.2  # P(sup sqrt(n) D > 3.2) = 2 exp(-2*3.2^2) ~ 2.5e-9


def quiet():
    warnings.simplefilter("ignore")


def ks(sample, cdf, what):
    s = np.sort(np.asarray(sample, float))
    n = len(s)
    F = cdf(s)
    i = np.arange(1, n + 1) / n
    d = max(np.max(np.abs(i - F)), np.max(np.abs(i - 1 / n - F)))
    check(d * math.sqrt(n) < KS, f"{what}: {n} samples do not follow the density: KS distance {d:.4f}")


def powint(a, b, s):
    """int_a^b x^s dx"""
    return math.log(b / a) if abs(s + 1) < 1e-12 else (b ** (s + 1) - a ** (s + 1)) / (s + 1)


def powcdf(lo, hi, s):
    if abs(s + 1) < 1e-12:
        return lambda x: np.log(x / lo) / math.log(hi / lo)
    return lambda x: (x ** (s + 1) - lo ** (s + 1)) / (hi ** (s + 1) - lo ** (s + 1))


def brokencdf(shape, lo, hi, breaks):
    """Numerical CDF of a (vectorised) density on a fine log grid including the breaks."""
    g = np.unique(np.concatenate([np.geomspace(lo, hi, 40001), [b for b in breaks if lo < b < hi]]))
    y = shape(g)
    # Simpson in log space on each cell
    mid = np.sqrt(g[1:] * g[:-1])
    c = np.concatenate([[0], np.cumsum((y[1:] * g[1:] + 4 * shape(mid) * mid + y[:-1] * g[:-1]) / 6 * np.log(g[1:] / g[:-1]))])
    return lambda x: np.interp(x, g, c / c[-1]), lambda x: shape(x) / c[-1]


def kroupa01(a, b):
    def f(m):
        m = np.asarray(m, float)
        c1 = b[0] ** (a[1] - a[0])
        c2 = c1 * b[1] ** (a[2] - a[1])
        return np.where(m < b[0], m ** -a[0], np.where(m < b[1], c1 * m ** -a[1], c2 * m ** -a[2]))
    return f


def chabrier(mc, sg, al, mb):
    def ln(m):
        return np.exp(-(np.log10(m / mc)) ** 2 / (2 * sg ** 2)) / m
    return lambda m: np.where(m < mb, ln(np.asarray(m, float)), ln(mb) * (np.asarray(m, float) / mb) ** -al)


def make(c):
    """-> (object, lo, hi, cdf(x), density(x) per the stated measure, 'x' or 'log', extra args)"""
    k = c["kind"]
    if k in ("flatq", "powq", "thermal", "uniform"):
        lo, hi = c["lo"], c["hi"]
        s = {"flatq": 0.0, "powq": c["slope"], "thermal": 1.0, "uniform": 0.0}[k]
        o = {"flatq": lambda: D.FlatMassRatio(q_min=lo, q_max=hi), "powq": lambda: D.PowerLawMassRatio(alpha=s, q_min=lo, q_max=hi),
             "thermal": lambda: D.ThermalEccentricity(e_min=lo, e_max=hi), "uniform": lambda: D.UniformEccentricity(e_min=lo, e_max=hi)}[k]()
        return o, lo, hi, powcdf(lo, hi, s), lambda x: x ** s / powint(lo, hi, s), "x"
    if k == "sana":
        lo, hi, m1 = c["pmin"], c["pmin"] * c["span"], c["m1"]
        o = D.Sana12Period(p_min=lo, p_max=hi)
        a, b = math.log10(lo), math.log10(hi)
        if m1 <= 15:
            shape = lambda l: np.ones_like(l)
            prim = lambda l: l - a
        else:
            shape = lambda l: np.maximum(l, 0.15) ** -0.55
            k0 = lambda l: np.where(l < 0.15, (l - 0.15) * 0.15 ** -0.55, (np.maximum(l, 0.15) ** 0.45 - 0.15 ** 0.45) / 0.45)
            prim = lambda l: k0(np.asarray(l, float)) - k0(np.asarray(a))
        tot = float(prim(b))
        return o, lo, hi, lambda x: prim(np.log10(x)) / tot, lambda x: shape(np.log10(x)) / tot, "log"
    if k == "powp":
        lo, hi, s = c["pmin"], c["pmin"] * c["span"], c["slope"]
        o = D.PowerLawPeriod(slope=s, p_min=lo, p_max=hi)
        # density per log10 P is P^s, i.e. per P it is P^(s-1)
        return o, lo, hi, powcdf(lo, hi, s - 1), lambda x: x ** s * math.log(10) / powint(lo, hi, s - 1), "log"
    if k == "loguni":
        lo, hi = c["pmin"], c["pmin"] * c["span"]
        return D.LogUniform(min=lo, max=hi), lo, hi, powcdf(lo, hi, -1), lambda x: 1 / (x * math.log(hi / lo)), "x"
    if k == "lognorm":
        lo, hi, mu, sg = c["pmin"], c["pmin"] * c["span"], c["mu"], c["sg"]
        o = D.LogNormalSeparation(mean=mu, sigma=sg, min=lo, max=hi)
        f = lambda x: np.exp(-(np.log10(x) - mu) ** 2 / (2 * sg ** 2)) / x
        cdf, pdf = brokencdf(f, lo, hi, [10 ** mu])
        return o, lo, hi, cdf, pdf, "x"
    lo, hi = c["mmin"], c["mmin"] * c["mspan"]
    if k == "salpeter":
        return IMFs.Salpeter(alpha=c["alpha"], m_min=lo, m_max=hi), lo, hi, powcdf(lo, hi, -c["alpha"]), lambda x: x ** -c["alpha"] / powint(lo, hi, -c["alpha"]), "x"
    if k == "kroupa93":
        return IMFs.Kroupa1993(alpha=c["alpha"], m_min=lo, m_max=hi), lo, hi, powcdf(lo, hi, -c["alpha"]), lambda x: x ** -c["alpha"] / powint(lo, hi, -c["alpha"]), "x"
    if k == "kroupa01":
        b = (0.08, 0.5)
        cdf, pdf = brokencdf(kroupa01((0.3, 1.3, 2.3), b), lo, hi, b)
        return IMFs.Kroupa2001(m_min=lo, m_max=hi), lo, hi, cdf, pdf, "x"
    if k == "chabrier":
        cdf, pdf = brokencdf(chabrier(0.22, 0.57, 2.3, 1.0), lo, hi, [1.0, 0.22])
        return IMFs.Chabrier2003(m_min=lo, m_max=hi), lo, hi, cdf, pdf, "x"
    raise AssertionError(k)


KINDS = ["flatq", "powq", "thermal", "uniform", "sana", "powp", "loguni", "lognorm", "salpeter", "kroupa93", "kroupa01", "chabrier"]


@st.composite
def dist_case(draw):
    lo = draw(st.sampled_from([0.05, 0.01, 0.3]) | u(0.01, 0.95))
    return dict(kind=draw(one(KINDS)), lo=lo, hi=draw(st.sampled_from([1.0]) | u(lo + 0.02, 1.0)), slope=draw(one([0.0, -0.55, -1.0]) | u(-1.0, 2.0)),
                pmin=draw(one([0.35, 1.4, 1.0, 0.75]) | lu(0.1, 100)), span=draw(lu(20, 1e5)), m1=draw(one([15.0, 15.001, 7.0, 40.0, 120.0]) | u(1, 150)),
                mu=draw(u(-0.5, 4)), sg=draw(u(0.2, 1.5)), mmin=draw(one([0.01, 7.0, 0.08, 0.5, 1.0]) | lu(0.01, 20)), mspan=draw(lu(1.5, 1e3)),
                alpha=draw(one([2.35, 2.7, 1.0001]) | u(1.2, 3.5)), seed=draw(seeds()))


@sub("P24", "distributions", dist_case(), quick=240, thorough=4000)
def distributions(c):
    quiet()
    c = dict(c)
    if c["kind"] == "lognorm":  # keep appreciable probability inside the limits (the density is renormalised there)
        c["mu"] = math.log10(c["pmin"]) + (c["mu"] + 0.5) / 4.5 * math.log10(c["span"])
    nontrivial(True, c["kind"])
    o, lo, hi, cdf, ref, meas = make(c)
    args = (c["m1"],) if c["kind"] == "sana" else ()
    rng = np.random.default_rng(c["seed"])
    x = np.unique(np.concatenate([rng.uniform(lo, hi, 40), np.exp(rng.uniform(math.log(lo), math.log(hi), 40))]))
    x = x[(x > lo) & (x < hi)]
    got = o.pdf(x, *args)
    check(np.shape(got) == x.shape, f"{c['kind']}: pdf of an array has shape {np.shape(got)}")
    exp = ref(x)
    if c["kind"] == "loguni":
        # see the known finding: the returned density is ln(10) times too large; its shape is judged here, its normalisation there
        if got[0] > 1.5 * exp[0]:
            exp = exp * math.log(10)
    check(np.all(np.abs(got - exp) <= 2e-4 * np.abs(exp)), f"{c['kind']}: density {got[:3]} differs from the normalised law {exp[:3]} at {x[:3]}")
    one_by_one = np.array([float(np.asarray(o.pdf(np.array([v]), *args))[0]) for v in x[:5]])
    check(np.array_equal(one_by_one, got[:5]), f"{c['kind']}: the density depends on the company of the value")
    out = np.array([lo * 0.5, lo * (1 - 1e-6), hi * (1 + 1e-6), hi * 2])
    check(np.all(o.pdf(out, *args) == 0), f"{c['kind']}: non-zero density outside of the limits: {o.pdf(out, *args)}")
    kw = {"m1": c["m1"]} if c["kind"] == "sana" else {}
    s = np.asarray(o.rvs(size=N, rng=np.random.default_rng(c["seed"]), **kw))
    check(s.shape == (N,), f"{c['kind']}: {s.shape} samples instead of {N}")
    check(np.all((s >= lo * (1 - 1e-12)) & (s <= hi * (1 + 1e-12))), f"{c['kind']}: samples outside of the limits [{lo}, {hi}]: {s.min()} .. {s.max()}")
    ks(s, cdf, f"{c['kind']}")
    s2 = np.asarray(o.rvs(size=N, rng=np.random.default_rng(c["seed"]), **kw))
    check(np.array_equal(s, s2), f"{c['kind']}: the same generator state gives another sample")


@sub("P24", "mixed_masses", fixed(pmin=one([0.35, 1.4]) | lu(0.1, 10), span=lu(50, 1e4), n=st.integers(1, 400), seed=seeds()), quick=60, thorough=1000)
def mixed_masses(c):
    """Each binary's period follows the law of its own primary mass."""
    quiet()
    rng = np.random.default_rng(c["seed"])
    m1 = rng.choice([3.0, 15.0, 15.5, 60.0], N)
    o = D.Sana12Period(p_min=c["pmin"], p_max=c["pmin"] * c["span"])
    p = o.rvs(size=N, m1=m1, rng=rng)
    for m in (3.0, 15.0, 15.5, 60.0):
        r = make(dict(kind="sana", pmin=c["pmin"], span=c["span"], m1=m))
        ks(p[m1 == m], r[3], f"periods of {m} Msun primaries in a mixed population")
        check(np.allclose(o.pdf(p, m1)[m1 == m], r[4](p[m1 == m]), rtol=2e-4), f"density of the periods of {m} Msun primaries in a mixed population")
    nontrivial(True, "mixed")


BAD = [("FlatMassRatio", dict(q_min=-0.1, q_max=1)), ("FlatMassRatio", dict(q_min=0.1, q_max=1.1)), ("FlatMassRatio", dict(q_min=0.5, q_max=0.5)), ("FlatMassRatio", dict(q_min=0.6, q_max=0.5)),
       ("PowerLawMassRatio", dict(alpha=-1.5, q_min=0.0, q_max=1)), ("PowerLawMassRatio", dict(alpha=0.5, q_min=0.9, q_max=0.2)),
       ("Sana12Period", dict(p_min=0.0, p_max=10)), ("Sana12Period", dict(p_min=-1.0, p_max=10)), ("Sana12Period", dict(p_min=10, p_max=10)), ("PowerLawPeriod", dict(p_min=0, p_max=10)),
       ("PowerLawPeriod", dict(p_min=100, p_max=10)), ("LogUniform", dict(min=0, max=5)), ("LogUniform", dict(min=10, max=5)), ("ThermalEccentricity", dict(e_min=-0.1, e_max=1)),
       ("ThermalEccentricity", dict(e_min=0.1, e_max=1.2)), ("ThermalEccentricity", dict(e_min=0.5, e_max=0.4)), ("UniformEccentricity", dict(e_min=0.5, e_max=0.5)),
       ("UniformEccentricity", dict(e_min=-1e-3, e_max=0.5)), ("LogNormalSeparation", dict(mean=1, sigma=0, min=5, max=10)), ("LogNormalSeparation", dict(mean=1, sigma=1, min=-5, max=10)),
       ("LogNormalSeparation", dict(mean=1, sigma=1, min=50, max=10)), ("Salpeter", dict(m_min=10, m_max=5)), ("Kroupa1993", dict(m_min=5, m_max=5)), ("Kroupa2001", dict(m_min=10, m_max=5)),
       ("Chabrier2003", dict(m_min=10, m_max=5))]


@sub("P24", "refused", [dict(i=i) for i in range(len(BAD))], quick=60, thorough=60)
def refused(c):
    n, kw = BAD[c["i"]]
    nontrivial(True, n)
    try:
        getattr(D, n, None) and getattr(D, n)(**kw) or getattr(IMFs, n)(**kw)
    except ValueError:
        return
    check(False, f"{n}({kw}) was accepted")


@st.composite
def pop_case(draw):
    mmin = draw(one([7.0, 0.5, 2.0]) | lu(0.3, 20))
    return dict(scheme=draw(one(["Salpeter", "Kroupa1993", "Kroupa2001"])), mmin=mmin, mspan=draw(lu(1.5, 50)), m2min=draw(u(0.02, 1.0)), m2max=draw(one([1.0, 120.0]) | u(0.2, 1.2)),
                sec=draw(one(["flat_mass_ratio", "flat_mass_ratio", "q=1"])), orb=draw(one(["period", "separation"])), sep=draw(one(["log_uniform", "log_normal"])),
                ecc=draw(one(["thermal", "uniform", "zero"])), fb=draw(one([0.0, 1.0, 0.7, "moe"]) | u(0, 1)), pmin=draw(one([0.35, 0.75]) | lu(0.2, 50)), pspan=draw(lu(20, 1e4)),
                n=draw(one([1, 2, 500, 1500])), seed=draw(seeds()))


def kwargs_of(c):
    hi = c["mmin"] * c["mspan"]
    m2max = max(c["m2max"] * hi if c["m2max"] <= 1.2 else c["m2max"], c["mmin"] * 1.01)
    kw = dict(number_of_binaries=c["n"], primary_mass_scheme=c["scheme"], primary_mass_min=c["mmin"], primary_mass_max=hi, secondary_mass_scheme=c["sec"],
              secondary_mass_min=c["mmin"] * c["m2min"] * 0.999, secondary_mass_max=m2max, orbital_scheme=c["orb"], eccentricity_scheme=c["ecc"])
    if c["fb"] == "moe":
        kw.update(binary_fraction_scheme="Moe+17-massdependent")
    else:
        kw.update(binary_fraction_scheme="const", binary_fraction_const=c["fb"])
    if c["orb"] == "period":
        kw.update(orbital_period_scheme="Sana+12_period_extended", orbital_period_min=c["pmin"], orbital_period_max=c["pmin"] * c["pspan"])
    else:
        kw.update(orbital_separation_scheme=c["sep"], orbital_separation_min=c["pmin"] * 20, orbital_separation_max=c["pmin"] * 20 * c["pspan"])
        if c["sep"] == "log_normal":
            kw.update(log_orbital_separation_mean=math.log10(c["pmin"] * 20) + 0.4 * math.log10(c["pspan"]), log_orbital_separation_sigma=0.7)
    return kw


def moe_fraction(m):
    return np.select([m > 16, m > 9, m > 5, m > 2], [0.94, 0.84, 0.76, 0.59], 0.4)


def binomial_ok(k, p):
    """k: 0/1 outcomes with probabilities p (arrays): 6.5 sigma, and impossible outcomes never."""
    if np.any(k[p == 0]) or not np.all(k[p == 1]):
        return False
    v = np.sum(p * (1 - p))
    return abs(k.sum() - p.sum()) <= 6.5 * math.sqrt(v) + 3


@sub("P24", "population", pop_case(), quick=120, thorough=2000)
def population(c):
    quiet()
    kw = kwargs_of(c)
    before = {k: v for k, v in kw.items()}
    orb, ecc, m1, m2 = IS.generate_independent_samples(RNG=np.random.default_rng(c["seed"]), **kw)
    check(kw == before, "the settings were changed by the sampling")
    n = c["n"]
    for a, nm in ((orb, "orbits"), (ecc, "eccentricities"), (m1, "primary masses"), (m2, "secondary masses")):
        check(np.shape(a) == (n,), f"{np.shape(a)} {nm} for {n} binaries")
    single = np.isnan(m2)
    check(np.array_equal(single, np.isnan(orb)) and np.array_equal(single, np.isnan(ecc)), "orbit, eccentricity and companion are not missing together")
    check(np.all(np.isfinite(m1)), "a primary without a mass")
    lo, hi = kw["primary_mass_min"], kw["primary_mass_max"]
    check(np.all((m1 >= lo * (1 - 1e-9)) & (m1 <= hi * (1 + 1e-9))), f"primary masses outside of [{lo}, {hi}]")
    b = ~single
    if c["sec"] == "q=1":
        check(np.array_equal(m1[b], m2[b]), "unequal masses of twins")
    else:
        check(np.all((m2[b] >= kw["secondary_mass_min"] * (1 - 1e-9)) & (m2[b] <= np.minimum(m1[b], kw["secondary_mass_max"]) * (1 + 1e-9))),
              f"secondary masses outside of [{kw['secondary_mass_min']}, min(m1, {kw['secondary_mass_max']})]")
    a, z = (kw["orbital_period_min"], kw["orbital_period_max"]) if c["orb"] == "period" else (kw["orbital_separation_min"], kw["orbital_separation_max"])
    check(np.all((orb[b] >= a * (1 - 1e-9)) & (orb[b] <= z * (1 + 1e-9))), f"orbits outside of [{a}, {z}]")
    check(np.all((ecc[b] >= 0) & (ecc[b] <= 1)), "eccentricities outside of [0, 1]")
    p = moe_fraction(m1) if c["fb"] == "moe" else np.full(n, float(c["fb"]))
    check(binomial_ok(b, p), f"{b.sum()} of {n} are binaries, expected {p.sum():.1f}")
    if n >= 500:
        r = make(dict(kind={"Salpeter": "salpeter", "Kroupa1993": "kroupa93", "Kroupa2001": "kroupa01"}[c["scheme"]], alpha={"Salpeter": 2.35}.get(c["scheme"], 2.7), mmin=lo, mspan=c["mspan"]))
        ks(m1, r[3], "primary masses of the population")
        if b.sum() > 100:
            if c["sec"] == "flat_mass_ratio":
                q0, q1 = kw["secondary_mass_min"] / m1[b], np.minimum(kw["secondary_mass_max"] / m1[b], 1)
                ks((m2[b] / m1[b] - q0) / (q1 - q0), lambda x: x, "mass ratios of the population")
            if c["ecc"] != "zero":
                ks(ecc[b], (lambda x: x * x) if c["ecc"] == "thermal" else (lambda x: x), "eccentricities of the population")
            else:
                check(np.all(ecc[b] == 0), "circular orbits requested")
            if c["orb"] == "period":
                for sel, m in ((m1 <= 15, 10.0), (m1 > 15, 20.0)):
                    if (sel & b).sum() > 50:
                        ks(orb[sel & b], make(dict(kind="sana", pmin=a, span=c["pspan"], m1=m))[3], "periods of the population")
            elif c["sep"] == "log_uniform":
                ks(orb[b], powcdf(a, z, -1), "separations of the population")
            else:
                ks(orb[b], make(dict(kind="lognorm", pmin=a, span=c["pspan"], mu=kw["log_orbital_separation_mean"], sg=0.7))[3], "separations of the population")
        nontrivial(b.any() or c["fb"] == 0.0, f"{c['orb']},{c['ecc']},{c['sec']}")
    again = IS.generate_independent_samples(RNG=np.random.default_rng(c["seed"]), **kw)
    check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip((orb, ecc, m1, m2), again)), "the same random state gives another population")


@sub("P24", "binary_fraction", fixed(m=st.lists(lu(0.08, 150) | st.tuples(one([2.0, 5.0, 9.0, 16.0]), one([0.97, 0.999, 1.0, 1.001, 1.03])).map(lambda t: t[0] * t[1]), min_size=1, max_size=12),
                                     scheme=one(["const", "Moe+17-massdependent"]), f=u(0, 1), scalar=st.booleans()), quick=200, thorough=2000)
def binary_fraction(c):
    """The share of binaries at given primary masses: the constant, or the steps of Moe & Di Stefano."""
    m = c["m"][0] if c["scalar"] else np.array(c["m"])
    keep = np.array(m)
    f = IS.generate_binary_fraction(m1=m, binary_fraction_scheme=c["scheme"], binary_fraction_const=c["f"])
    want = moe_fraction(np.atleast_1d(keep)) if c["scheme"] != "const" else np.full(np.size(keep), c["f"])
    check(np.allclose(np.broadcast_to(np.asarray(f, float).ravel(), want.shape), want, rtol=1e-12), f"binary fraction {f} instead of {want} for primaries of {c['m']}")
    check(np.array_equal(keep, m), "the masses were changed")
    nontrivial(c["scheme"] != "const")


class MoeModel:
    """Moe & Di Stefano (2017) on the given grid, from the published piecewise laws."""

    def __init__(self, m, logP, q, e):
        L = np.log10

        def nc(x, f):  # composite five-point Newton-Cotes as in IDL's INT_TABULATED
            tot = 0.0
            for i in range(0, len(x), 4):
                xx, ff = x[i:i + 5], f[i:i + 5]
                if len(xx) > 1:
                    tot += (xx[-1] - xx[0]) / (len(xx) - 1) * np.dot(integrate.newton_cotes(len(xx) - 1)[0], ff)
            return tot
        lm = L(m)
        self.logP, self.q, self.e = logP, q, e
        self.cq, self.ce = np.zeros((len(logP), len(q))), np.zeros((len(logP), len(e)))
        comp = np.zeros(len(logP))
        twin = np.where(q >= 0.95, 1.0, 0.0)
        twin /= nc(q, twin)
        big = q >= 0.3
        knots = L(np.array([1.2, 3.5, 6.0]))
        f1, f27, f55 = 0.02 + 0.04 * lm + 0.07 * lm ** 2, 0.039 + 0.07 * lm + 0.01 * lm ** 2, 0.078 - 0.05 * lm + 0.04 * lm ** 2
        for j, p in enumerate(logP):
            large = np.interp(lm, knots, [-0.5 - 0.3 * max(0.0, p - 5), np.interp(p, [1, 4.5, 6.5], [-0.5, -1.2, -2.0]), np.interp(p, [1, 2, 4], [-0.5, -1.4, -2.0])])
            small = np.interp(lm, knots, [0.3, np.interp(p, [2.5, 5.5], [0.2, -0.7]) - 0.2 * max(0.0, p - 5.5), np.interp(p, [1, 3, 5.6], [0.1, -0.2, -1.5])])
            ltw = 1.5 if m >= 6.5 else 8 - m
            ft = (0.3 - 0.15 * lm) * (1 if p <= 1 else 0.0 if p >= ltw else 1 - (p - 1) / (ltw - 1))
            f = q ** large
            f = f / nc(q[big], f[big]) * (1 - ft) + twin * ft
            f[~big] = f[big][0] * (q[~big] / 0.3) ** small
            c = np.cumsum(f) - f[0]
            self.cq[j] = c / c[-1]
            pe = max(p, 0.7)
            eta = np.interp(lm, L(np.array([3.0, 7.0])), [0.6 - 0.7 / (pe - 0.5), 0.9 - 0.2 / (pe - 0.5)])
            if 10 ** p <= 2:
                g = e ** -3.2
            else:
                g = e ** eta
                emax = 1 - (10 ** p / 2) ** (-2 / 3)
                t = (e >= 0.8 * emax) & (e <= emax)
                last = g[max(np.flatnonzero(t)[0] - 1, 0)] if t.any() else 0.0
                g = np.where(t, last * (emax - e) / (0.2 * emax), np.where(e >= emax, 0.0, g))
            c = np.cumsum(g) - g[0]
            self.ce[j] = c / c[-1] if c[-1] > 0 else 1.0
            fp = f55 * math.exp(-0.3 * (p - 5.5)) if p > 5.5 else np.interp(p, [1.0, 2.0, 3.4, 5.5], [f1, f27 - 0.018 * 0.7, f27 + 0.018 * 0.7, f55])
            inner = 1.0 if p <= 1.5 else max(0.0, 1 - 0.11 * (p - 1.5) ** 1.43 * (m / 10) ** 0.56)
            comp[j] = fp * nc(q, f) * inner
        c = np.cumsum(comp) - comp[0]
        self.fraction = nc(logP, comp)
        self.cP = c / c[-1]


@sub("P24", "moe_model", fixed(nm=one([2, 5, 9]), node=st.integers(0, 8), np_=st.integers(6, 60), nq=one([31, 46, 91]), ne=one([60, 200]), lim=one([(1.412, 1e8), (1.0, 1e9), (3.0, 1e5), (0.4, 3000.0), (2.02, 1e6), (2.0003, 1e7)]),
                               low=one([None, None, 0.12, 0.3, 0.6]), allb=st.booleans(), seed=seeds()), quick=40, thorough=600)
def moe_model(c):
    """Samples of the Moe & Di Stefano model: binary fraction, periods, and mass ratios and eccentricities given the period."""
    quiet()
    lo, hi = c["lim"]
    gen = lambda: Moe_17_PsandQs(n_M1=c["nm"], n_logP=c["np_"], n_q=c["nq"], n_e=c["ne"], orbital_period_min=lo, orbital_period_max=hi, RNG=np.random.default_rng(c["seed"]))
    masses = 10 ** np.linspace(math.log10(0.8), math.log10(40.0), c["nm"])
    node = float(masses[c["node"] % c["nm"]])
    m = c["low"] or node
    if c["low"]:
        node = 0.8
    logP = np.linspace(math.log10(lo), math.log10(hi), c["np_"])
    R = MoeModel(node, logP, np.linspace(0.1, 1, c["nq"]), 0.0001 + np.linspace(0, 0.99, c["ne"]))
    frac = R.fraction * (np.interp(math.log10(m), [math.log10(0.08), math.log10(0.8)], [0, 1]) if c["low"] else 1)
    qmin = 0.08 / m if c["low"] else 0.0
    g = gen()

    def invert(u, cum, x):
        return np.interp(u, cum, x)

    def cums(j):
        cq = R.cq[j]
        if c["low"]:
            cq = cq - np.interp(qmin, R.q, cq)
            cq = np.where(R.q <= qmin, 0.0, cq / cq[-1])
        return cq, R.ce[j]
    n = 60
    m2, P, e, Z = g(np.full(n, m), M_min=0.08, all_binaries=c["allb"])
    b = np.isfinite(m2)
    check(np.array_equal(b, np.isfinite(P)) and np.array_equal(b, np.isfinite(e)), "Moe+17: orbit and companion are not missing together")
    check(b.all() or not c["allb"], "Moe+17: single stars although all are to be binaries")
    check(np.all((Z >= 0.02 * 10 ** -2.3 * 0.999) & (Z <= 0.02 * 10 ** 0.176 * 1.001)), "Moe+17: metallicities")
    # exact: a random number each for the period (or single), eccentricity, mass ratio, metallicity
    r = np.random.default_rng(c["seed"])
    exact = True
    for k in range(n):
        v = r.random()
        if v < (1.0 if c["allb"] else frac):
            x = invert(v / (1.0 if c["allb"] else frac), R.cP, logP)
            j = int(np.argmin(np.abs(x - logP)))
            d = np.sort(np.abs(x - logP))
            if d[1] - d[0] < 1e-9:
                r.random(3)
                continue
            cq, ce = cums(j)
            we, wq = invert(r.random(), ce, R.e), invert(r.random(), cq, R.q)
            exact = exact and b[k] and close(math.log10(P[k]) if b[k] else 0, x, 1e-6, 1e-6) and close(e[k], we, 1e-6, 1e-6) and close(m2[k], m * wq, 1e-6, 1e-6)
        else:
            exact = exact and not b[k]
        r.random()
        if not exact:
            break
    label("exact" if exact else "statistical")
    nontrivial(b.any(), "low" if c["low"] else "node")
    if exact:
        return
    # other order of the random numbers: compare the distributions
    n = 30000
    m2, P, e, Z = gen()(np.full(n, m), M_min=0.08, all_binaries=c["allb"])
    b = np.isfinite(m2)
    check(binomial_ok(b, np.full(n, min(1.0, 1.0 if c["allb"] else frac))), f"Moe+17: {b.sum()} of {n} are binaries, expected a fraction of {1.0 if c['allb'] else frac:.4f} (m1={m})")
    top = min(1.0, 1 / frac) if not c["allb"] else 1.0
    ks(np.log10(P[b]), lambda x: np.minimum(np.interp(x, logP, R.cP), top) / top, f"Moe+17 periods (m1={m})")
    j = np.argmin(np.abs(np.log10(P[b])[:, None] - logP[None, :]), axis=1)
    # probability integral transform given the period
    for name, val, grid, which in (("eccentricities", e[b], R.e, 1), ("mass ratios", m2[b] / m, R.q, 0)):
        U = np.array([np.interp(x, grid, cums(i)[which]) if cums(i)[which][0] < 1 else np.nan for x, i in zip(val, j)])
        use = np.isfinite(U)
        for what, sel in (("", use), (", short", use & (j < len(logP) // 3)), (", long", use & (j >= 2 * len(logP) // 3))):
            if sel.sum() > 300:
                ks(U[sel], lambda x: x, f"Moe+17 {name} given the period{what} (m1={m})")


_MOE = {}


@sub("P24", "moe", st.lists(fixed(lim=one([(1.0, 3.0), (1.412, 1e8), (0.5, 1e4)]), ecc=one(["Moe+17-PsandQs", "thermal", "zero", None]), which=one(["q", "p", "e"]), n=one([1, 200, 300]),
                                  mmin=one([0.1, 0.5, 1.0, 7.0]), seed=seeds()), min_size=2, max_size=4), quick=8, thorough=60)
def moe(calls):
    """Sequences of calls: each one gives what a fresh process would give for its settings."""
    quiet()
    for c in calls:
        kw = dict(number_of_binaries=c["n"], primary_mass_scheme="Kroupa2001", primary_mass_min=c["mmin"], primary_mass_max=120.0, orbital_scheme="period", orbital_period_min=c["lim"][0],
                  orbital_period_max=c["lim"][1], n_M1=9, n_logP=25, n_q=31, n_e=40, secondary_mass_scheme="Moe+17-PsandQs", orbital_period_scheme="Moe+17-PsandQs")
        if c["ecc"]:
            kw["eccentricity_scheme"] = c["ecc"]
        P, e, m1, m2 = IS.generate_independent_samples(RNG=np.random.default_rng(c["seed"]), **kw)
        single = np.isnan(m2)
        check(np.array_equal(single, np.isnan(P)) and np.array_equal(single, np.isnan(e)), "Moe+17: orbit, eccentricity and companion are not missing together")
        b = ~single
        check(np.all((P[b] >= c["lim"][0] * (1 - 1e-9)) & (P[b] <= c["lim"][1] * (1 + 1e-9))), f"Moe+17: periods outside of {c['lim']}: {P[b]}")
        check(np.all((m2[b] <= m1[b] * (1 + 1e-9)) & (m2[b] >= 0.1 * m1[b] * (1 - 1e-9))), "Moe+17: mass ratios outside of [0.1, 1]")
        check(np.all((e[b] >= 0) & (e[b] <= 1)), "Moe+17: eccentricities outside of [0, 1]")
        if c["ecc"] in ("zero", None):
            check(np.all(e[b] == 0), "Moe+17: circular orbits requested")
        nontrivial(b.any() and single.any(), f"moe ecc={c['ecc']}")
        # reference: the primary masses, then a fresh Moe generator continuing with the same random state
        rng = np.random.default_rng(c["seed"])
        ref1 = IS.generate_primary_masses(RNG=rng, **kw)
        g = Moe_17_PsandQs(RNG=rng, **kw)
        ref2, refP, refe, _ = g(ref1, M_min=c["mmin"], M_max=120.0, all_binaries=False)
        check(np.array_equal(m1, ref1), "Moe+17: primary masses")
        check(np.allclose(m2, ref2, rtol=1e-9, equal_nan=True) and np.allclose(P, refP, rtol=1e-9, equal_nan=True), "Moe+17: the sample depends on earlier calls")
        if c["ecc"] == "Moe+17-PsandQs":
            check(np.allclose(e, refe, rtol=1e-9, equal_nan=True), "Moe+17: the eccentricities depend on earlier calls")


@sub("P24", "samplers", fixed(kind=one(["inverse", "rejection", "rejection_pdf", "hist", "file"]), n=st.integers(2, 12), seed=seeds()), quick=120, thorough=2000)
def samplers(c):
    quiet()
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    x = np.cumsum(rng.uniform(0.1, 2, n + 1)) + rng.uniform(-5, 5)
    nontrivial(True, c["kind"])
    if c["kind"] in ("hist", "file"):
        y = np.where(rng.random(n) < 0.25, 0.0, rng.integers(1, 50, n).astype(float))
        y[rng.integers(n)] = 3.0
        if c["kind"] == "file":
            with scratch() as d:
                f = os.path.join(d, "h.csv")
                with open(f, "w") as fh:
                    fh.write("# comment\n\n" + ", ".join(repr(float(v)) for v in x) + "\n\n# more, 1, 2\n" + ",".join(repr(float(v)) for v in y) + "\n")
                xe, ye = read_histogram_from_file(f)
                check(np.array_equal(xe, x) and np.array_equal(ye, y), "histogram read from a file")
        s = histogram_sampler(x, y, size=N, rng=rng)
        cum = np.concatenate([[0], np.cumsum(y)]) / y.sum()
        cdf = lambda v: np.interp(v, x, cum)
    else:
        y = rng.uniform(0.05, 1, n + 1)
        if rng.random() < 0.4:
            y[rng.integers(n + 1)] = 0.0
        k = rng.integers(n)
        if rng.random() < 0.5 and y[k] > 0:
            y[k + 1] = y[k]
        area = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])

        def cdf(v):
            i = np.clip(np.searchsorted(x, v, side="right") - 1, 0, n - 1)
            h = v - x[i]
            return (area[i] + y[i] * h + 0.5 * (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * h * h) / area[-1]
        if c["kind"] == "inverse":
            s = inverse_sampler(x, y, size=N, rng=rng)
        elif c["kind"] == "rejection":
            p = rng.permutation(n + 1) if rng.random() < 0.5 else np.arange(n + 1)
            s = rejection_sampler(x=x[p], y=y[p], size=N, rng=rng)
        else:
            s = rejection_sampler(size=N, x_lim=[x[0], x[-1]], pdf=lambda v: np.interp(v, x, y), rng=rng)
    check(np.shape(s) == (N,), f"{c['kind']}: {np.shape(s)} samples instead of {N}")
    check(np.all((s >= x[0] - 1e-9) & (s <= x[-1] + 1e-9)), f"{c['kind']}: samples outside of [{x[0]}, {x[-1]}]")
    ks(s, cdf, c["kind"])


NAMES = {"m1": ["S1_mass", "primary_mass", "mass_1", "m_1", "M1"], "m2": ["s2_mass", "Secondary_Mass", "mass_2", "M_2", "m2"], "P": ["orbital_period", "Period", "P_orb", "porb", "P"],
         "a": ["orbital_separation", "SEPARATION", "semi-major_axis", "semi_major_axis", "A"], "e": ["eccentricity", "Ecc", "e"]}
KICKS = [[["s{}_natal_kick_velocity", "S{}_natal_kick_array_0", "w_{}", "W{}"], ["s{}_natal_kick_azimuthal_angle", "s{}_natal_kick_array_1", "phi_{}", "Phi{}"],
          ["S{}_natal_kick_polar_angle", "s{}_natal_kick_array_2", "theta_{}", "theta{}"], ["s{}_natal_kick_mean_anomaly", "s{}_natal_kick_array_3", "Mean_anomaly_{}", "mean_anomaly{}"]]]


@sub("P24", "files", fixed(rows=st.integers(1, 9), index=st.integers(0, 25), n=st.integers(0, 20), orb=one(["period", "separation"]), drop=st.lists(one(["m1", "m2", "P", "a", "e"]), max_size=2),
                           kdrop=st.lists(st.integers(0, 7), max_size=6), seed=seeds()), quick=150, thorough=2000)
def files(c):
    """Row i of the population is row i (cyclically) of the file, under any accepted column name and order."""
    quiet()
    rng = np.random.default_rng(c["seed"])
    import pandas as pd
    n = c["rows"]
    cols, data = {}, {}
    for k in NAMES:
        if k in c["drop"]:
            continue
        v = {"m1": rng.uniform(10, 100, n), "m2": rng.uniform(0.5, 9, n), "P": 10 ** rng.uniform(-1, 4, n), "a": 10 ** rng.uniform(1, 5, n), "e": rng.uniform(0, 1, n)}[k]
        data[k] = v
        cols[str(rng.choice(NAMES[k]))] = v
    kd = {}
    for s in (1, 2):
        for j in range(4):
            if (s - 1) * 4 + j in c["kdrop"]:
                continue
            v = rng.uniform(0, 6, n)
            kd[(s, j)] = v
            cols[str(rng.choice(KICKS[0][j])).format(s)] = v
    cols["unrelated"] = np.arange(n)
    df = pd.DataFrame({k: cols[k] for k in rng.permutation(list(cols))})
    with scratch() as d:
        f = os.path.join(d, "s.csv")
        df.to_csv(f, index=False, float_format="%.17g")
        kw = dict(read_samples_from_file=f, index=c["index"], RNG=np.random.default_rng(1))
        if c["n"]:
            kw["number_of_binaries"] = c["n"]
        orb, ecc, m1, m2 = get_samples_from_file(orbital_scheme=c["orb"], **kw)
        k1, k2 = get_kick_samples_from_file(**kw)
    idx = (np.arange(c["n"]) + c["index"]) % n if c["n"] else np.arange(n)
    label("wraps", c["index"] + c["n"] > n)
    nontrivial(len(idx) > 1)
    for got, k in ((orb, "P" if c["orb"] == "period" else "a"), (ecc, "e"), (m1, "m1"), (m2, "m2")):
        check(len(got) == len(idx), f"{len(got)} values of {k}, expected {len(idx)}")
        if k in data:
            check(np.allclose(np.asarray(got, float), data[k][idx], rtol=1e-12), f"{k} read from the file: {got} instead of {data[k][idx]}")
        else:
            check(np.all(np.isfinite(np.asarray(got, float))), f"missing {k} are drawn at random")
    for s, k in ((1, k1), (2, k2)):
        check(np.shape(k) == (len(idx), 4), f"shape of the kicks {np.shape(k)}")
        for j in range(4):
            for r, i in enumerate(idx):
                e = kd[(s, j)][i] if (s, j) in kd else None
                check((k[r][j] is None) if e is None else close(float(k[r][j]), float(e), 1e-12), f"kick {j} of star {s} in row {r}: {k[r][j]} instead of {e}")


@known("P24", "loguniform-pdf")
def loguniform_pdf():
    """LogUniform.pdf integrates to ln(10) instead of 1 (fixed by a unit test)."""
    d = D.LogUniform(min=5.0, max=1e5)
    t = np.linspace(math.log(5.0), math.log(1e5), 20001)[1:-1]
    I = float(np.trapezoid(d.pdf(np.exp(t)) * np.exp(t), t)) if hasattr(np, "trapezoid") else float(np.trapz(d.pdf(np.exp(t)) * np.exp(t), t))
    return abs(I - math.log(10)) < 1e-2
