"""P25 reweighting: densities, mean masses and weights of a simulated population."""
import math
import warnings

import numpy as np

from core import *
import phys
from props import p24_sampling as S

import pandas as pd
from posydon.popsyn import independent_sample as IS
from posydon.popsyn.norm_pop import calculate_model_weights, get_mean_mass, get_pdf

IMF = {"Salpeter": ("salpeter", 2.35), "Kroupa1993": ("kroupa93", 2.7), "Kroupa2001": ("kroupa01", None), "Chabrier2003": ("chabrier", None)}


@st.composite
def params(draw, sampled=False):
    mmin = draw(one([7.0, 0.5, 5.0]) | lu(0.1, 20))
    mmax = mmin * draw(lu(1.5, 100))
    m2min = mmin * draw(u(0.02, 0.95))
    # the code requires secondary_mass_min/primary_mass_min <= min(secondary_mass_max/primary_mass_max, 1)
    lo = max(m2min / mmin, mmin / mmax) * 1.02
    m2max = mmax * draw(one([1.0, 1.5]) | u(min(lo, 1.0), 1.2))
    d = dict(primary_mass_scheme=draw(one(["Salpeter", "Kroupa1993", "Kroupa2001"] + ([] if sampled else ["Chabrier2003"]))), primary_mass_min=mmin, primary_mass_max=mmax,
             secondary_mass_min=m2min, secondary_mass_max=m2max, binary_fraction_scheme="const", binary_fraction_const=draw(one([1.0, 0.0, 0.7, 0.5]) | u(0.01, 0.99)))
    sec = "flat_m2" if sampled else draw(one(["flat_m2", "flat_m2", "flat_q", "pow_q"]))
    d["secondary_mass_scheme"] = "power_law_mass_ratio" if sec == "pow_q" else "flat_mass_ratio"
    if sec != "flat_m2":
        d["q_min"] = draw(one([0.05, 0.0]) | u(0.01, 0.5)) if sec == "flat_q" else draw(u(0.01, 0.5))
        d["q_max"] = draw(one([1.0]) | u(0.55, 1.0))
        if sec == "pow_q":
            d["mass_ratio_slope"] = draw(u(-0.9, 2.0))
    pmin, span = draw(one([0.35, 0.75, 1.4]) | lu(0.2, 20)), draw(lu(30, 1e4))
    orb = draw(one(["sana", "sep"] if sampled else ["sana", "sana", "pow", "sep"]))
    if orb == "sep":
        d.update(orbital_scheme="separation", orbital_separation_scheme="log_uniform", orbital_separation_min=pmin * 15, orbital_separation_max=pmin * 15 * span)
    else:
        d.update(orbital_scheme="period", orbital_period_scheme="Sana+12_period_extended" if orb == "sana" else "power_law", orbital_period_min=pmin, orbital_period_max=pmin * span)
        if orb == "pow":
            d["power_law_slope"] = draw(one([-0.55]) | u(-1, 0.5))
    return d


def kepler_a(P, m1, m2):
    return (phys.G * (m1 + m2) * phys.MSUN * (P * phys.DAY) ** 2 / (4 * math.pi ** 2)) ** (1 / 3) / phys.RSUN


def kepler_P(a, m1, m2):
    return 2 * math.pi * np.sqrt((a * phys.RSUN) ** 3 / (phys.G * (m1 + m2) * phys.MSUN)) / phys.DAY


def q_limits(p, m):
    if "q_min" in p:
        return np.full_like(m, p["q_min"]), np.full_like(m, p["q_max"])
    return p["secondary_mass_min"] / m, np.minimum(p["secondary_mass_max"] / m, 1.0)


def imf(p):
    k, al = IMF[p["primary_mass_scheme"]]
    r = S.make(dict(kind=k, alpha=al, mmin=p["primary_mass_min"], mspan=p["primary_mass_max"] / p["primary_mass_min"]))
    return lambda m: np.where((m >= p["primary_mass_min"]) & (m <= p["primary_mass_max"]), r[4](m), 0.0)


def qdens(p, q, m):
    a, b = q_limits(p, m)
    s = p.get("mass_ratio_slope", 0.0)
    tot = (b ** (s + 1) - a ** (s + 1)) / (s + 1)
    return np.where((q > a) & (q <= b), np.where(q > 0, q, 1.0) ** s / tot, 0.0)


def pdens(p, P, m, q):
    if p["orbital_scheme"] == "separation":
        a = kepler_a(P, m, q * m)
        lo, hi = p["orbital_separation_min"], p["orbital_separation_max"]
        return np.where((a >= lo) & (a <= hi), 2 / 3 / math.log10(hi / lo), 0.0)
    lo, hi = p["orbital_period_min"], p["orbital_period_max"]
    ins = (P >= lo) & (P <= hi)
    if p["orbital_period_scheme"] == "power_law":
        return np.where(ins, S.make(dict(kind="powp", pmin=lo, span=hi / lo, slope=p["power_law_slope"]))[4](P), 0.0)
    f = [S.make(dict(kind="sana", pmin=lo, span=hi / lo, m1=x))[4] for x in (10.0, 20.0)]
    return np.where(ins, np.where(m <= 15, f[0](P), f[1](P)), 0.0)


def density(p, m, q, P, binary):
    fb = p["binary_fraction_const"]
    return np.where(binary, fb * imf(p)(m) * qdens(p, q, m) * pdens(p, P, m, q), (1 - fb) * imf(p)(m))


def mean_mass(p):
    m = np.geomspace(p["primary_mass_min"], p["primary_mass_max"], 4001)
    for b in (0.08, 0.5, 1.0, p["secondary_mass_max"]):
        if m[0] < b < m[-1]:
            m = np.append(m, b)
    m = np.unique(m)
    mid = np.sqrt(m[1:] * m[:-1])

    def f(x):
        a, b = q_limits(p, x)
        s = p.get("mass_ratio_slope", 0.0)
        qm = (b ** (s + 2) - a ** (s + 2)) / (s + 2) / ((b ** (s + 1) - a ** (s + 1)) / (s + 1))
        return x * (1 + p["binary_fraction_const"] * qm) * imf(p)(x) * x
    return float(np.sum((f(m[1:]) + 4 * f(mid) + f(m[:-1])) / 6 * np.log(m[1:] / m[:-1])))


def systems(ps, n, rng):
    """Random systems around (and partly outside of) the ranges of the parameter sets."""
    p = ps[int(rng.integers(len(ps)))]
    m = np.exp(rng.uniform(math.log(p["primary_mass_min"] * 0.9), math.log(p["primary_mass_max"] * 1.1), n))
    m2 = m * np.clip(rng.uniform(0.0, 1.03, n), 1e-3, None)
    if p["orbital_scheme"] == "period":
        P = np.exp(rng.uniform(math.log(p["orbital_period_min"] * 0.7), math.log(p["orbital_period_max"] * 1.4), n))
    else:
        a = np.exp(rng.uniform(math.log(p["orbital_separation_min"] * 0.7), math.log(p["orbital_separation_max"] * 1.4), n))
        P = kepler_P(a, m, m2)
    return m, m2, P, rng.random(n) < 0.7


def off_edge(p, m, q, P):
    """Systems whose densities are not decided by rounding at a limit."""
    a, b = q_limits(p, m)
    e = 1e-6
    ok = (abs(q / a - 1) > e) if np.all(a > 0) else np.full(len(m), True)
    ok &= (abs(q / b - 1) > e) & (abs(m / 15 - 1) > e)
    if p["orbital_scheme"] == "separation":
        x = kepler_a(P, m, q * m)
        ok &= (abs(x / p["orbital_separation_min"] - 1) > 1e-3) & (abs(x / p["orbital_separation_max"] - 1) > 1e-3)
    return ok


@sub("P25", "density", fixed(p=params(), seed=seeds()), quick=80, thorough=1500)
def dens(c):
    warnings.simplefilter("ignore")
    p, rng = c["p"], np.random.default_rng(c["seed"])
    m, m2, P, b = systems([p], 60, rng)
    q = m2 / m
    exp = density(p, m, q, P, b)
    got = get_pdf(dict(p))(m, q, P, b)
    ok = off_edge(p, m, q, P)
    nontrivial(np.count_nonzero(exp[ok] > 0) > 5, p["orbital_scheme"] + "," + p["secondary_mass_scheme"])
    check(np.all(np.abs(got - exp)[ok] <= 3e-4 * np.abs(exp)[ok]), f"density of the population differs from the product of the laws by up to a factor "
          f"{np.nanmax(np.where(ok & (exp > 0), got / np.where(exp > 0, exp, 1), np.nan))} at {[(float(x), float(y), float(z), bool(w)) for x, y, z, w in zip(m, q, P, b)][int(np.argmax(np.where(ok, np.abs(got - exp), 0)))]}")


@sub("P25", "mean_mass", fixed(p=params()), quick=50, thorough=800)
def mean(c):
    warnings.simplefilter("ignore")
    p = dict(c["p"])
    got, exp = float(get_mean_mass(p)), mean_mass(p)
    check(p == c["p"], "the parameters were changed")
    check_close(got, exp, "mean mass of a system", rtol=5e-4)
    nontrivial(p["binary_fraction_const"] > 0, f"fb={'1' if p['binary_fraction_const'] == 1 else '0' if p['binary_fraction_const'] == 0 else 'mixed'}")


def table(m, m2, P, b, index):
    return pd.DataFrame({"S1_mass_i": m, "S2_mass_i": np.where(b, m2, np.nan), "orbital_period_i": np.where(b, P, np.nan),
                         "state_i": np.where(b, "detached", "initially_single_star")}, index=index)


@sub("P25", "weights", fixed(sim=params(), pop=params(), same=one([True, False, False]), M=lu(1, 1e9), seed=seeds()), quick=50, thorough=800)
def weights(c):
    warnings.simplefilter("ignore")
    sim, pop = c["sim"], (c["sim"] if c["same"] else c["pop"])
    rng = np.random.default_rng(c["seed"])
    m, m2, P, b = systems([sim, pop], 60, rng)
    q = m2 / m
    fs, fp = sim["binary_fraction_const"], pop["binary_fraction_const"]
    t = table(m, m2, P, b, rng.permutation(1000)[:60])
    before = t.copy()
    if (fs == 1 and fp == 0) or (fs == 0 and fp == 1):
        try:
            calculate_model_weights(t, c["M"], sim, pop)
        except ValueError:
            nontrivial(True, "nothing simulated of what is requested")
            return
        check(False, f"a population with binary fraction {fp} was made from one with {fs}")
    w = calculate_model_weights(t, c["M"], sim, pop)
    check(t.equals(before), "the population data was changed")
    w = np.asarray(w, float)
    check(w.shape == (60,) and np.all(np.isfinite(w)) and np.all(w >= 0), f"weights must be finite and not negative, one per system: {w}")
    ds, dp = density(sim, m, q, P, b), density(pop, m, q, P, b)
    ok = off_edge(sim, m, q, P) & off_edge(pop, m, q, P)
    exp = np.where((ds > 0), dp / np.where(ds > 0, ds, 1), 0.0) * mean_mass(sim) / mean_mass(pop) / c["M"]
    bad = ok & (np.abs(w - exp) > 3e-3 * np.abs(exp))
    check(not bad.any(), f"weight {w[bad][:3]} instead of {exp[bad][:3]} for m1={m[bad][:3]}, q={q[bad][:3]}, P={P[bad][:3]}, binary={b[bad][:3]}")
    if c["same"]:
        inside = ok & (ds > 0)
        check(np.allclose(w[inside], 1 / c["M"], rtol=1e-9), f"the same population is weighted {w[inside][:3]} instead of 1/M_sim = {1 / c['M']}")
    nontrivial(np.count_nonzero(exp) > 3, "same" if c["same"] else "reweighted")


@sub("P25", "totals", fixed(sim=params(sampled=True), imf=one(["Salpeter", "Kroupa1993", "Kroupa2001"]), sub=st.tuples(u(0, 0.4), u(0.6, 1.0)), fb=u(0.05, 0.95), pfb=u(0, 1), pop_orb=one(["sana", "pow", "same"]),
                            seed=seeds()), quick=25, thorough=300)
def totals(c):
    """Monte Carlo: the weights of a generated simulation add up to the number of systems per unit mass of the requested population."""
    warnings.simplefilter("ignore")
    sim = dict(c["sim"], binary_fraction_const=c["fb"])
    pop = dict(sim, primary_mass_scheme=c["imf"], binary_fraction_const=c["pfb"])
    # narrower ranges than simulated
    lo, hi = sim["primary_mass_min"], sim["primary_mass_max"]
    pop["primary_mass_min"], pop["primary_mass_max"] = (float(lo * (hi / lo) ** s) for s in c["sub"])
    if max(pop["secondary_mass_min"] / pop["primary_mass_min"], 0) > min(pop["secondary_mass_max"] / pop["primary_mass_max"], 1):
        return
    if sim["orbital_scheme"] == "period" and c["pop_orb"] != "same":
        a, b = sim["orbital_period_min"], sim["orbital_period_max"]
        pop["orbital_period_min"], pop["orbital_period_max"] = float(a * (b / a) ** 0.1), float(a * (b / a) ** 0.9)
        if c["pop_orb"] == "pow":
            pop.update(orbital_period_scheme="power_law", power_law_slope=-0.1)
        if pop["orbital_period_max"] < 2 or sim["orbital_period_max"] < 2:
            return
    n = 6000
    orb, ecc, m1, m2 = IS.generate_independent_samples(number_of_binaries=n, eccentricity_scheme="zero", RNG=np.random.default_rng(c["seed"]), **sim)
    b = ~np.isnan(m2)
    P = orb if sim["orbital_scheme"] == "period" else kepler_P(orb, m1, np.where(b, m2, 1.0))
    tot = m1 + np.where(b, m2, 0.0)
    # M_sim of the expected (not the accidental) sample
    M = n * mean_mass(sim)
    w = np.asarray(calculate_model_weights(table(m1, m2, P, b, np.arange(n)), M, sim, pop), float)
    for x, exp, what in ((w, 1 / mean_mass(pop), "number of systems per unit mass"), (w * tot, 1.0, "mass per unit mass"), (w * b, c["pfb"] / mean_mass(pop), "number of binaries per unit mass")):
        s = x.sum()
        err = math.sqrt(n) * x.std()
        # heavy-tailed weights converge slowly: only judge where the sum is dominated by many systems
        if x.max() > 0.02 * s:
            label("too few systems carry the sum")
            continue
        nontrivial(True, what)
        check(abs(s - exp) <= 6.5 * err + 2e-3 * exp, f"{what}: the weights add up to {s} +- {err}, expected {exp}")
