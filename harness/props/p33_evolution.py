"""P33 complete evolution of binaries with the shipped settings on a synthetic library of stellar models."""
import functools
import math
import shutil

from core import *
from core import check as _check

import numpy as np

import e2e
import phys
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils.common_functions import orbital_separation_from_period
from posydon.utils.posydonerror import POSYDONError

PID = "P33"
CO = ("WD", "NS", "BH")
FULL = 1.38e10
GRIDSTEPS = ("step_HMS_HMS", "step_CO_HMS_RLO", "step_CO_HeMS", "step_CO_HeMS_RLO")
PAIRS = {}
for a_ in ("CC", "oRLO", "oCE", "oDoubleCE", "oMerging", "RLO", "Match"):
    PAIRS[a_ + "1"], PAIRS[a_ + "2"] = a_ + "2", a_ + "1"


MAIN = ["state", "event", "time", "separation", "orbital_period", "eccentricity", "S1_state", "S2_state", "S1_mass", "S2_mass",
       "S1_he_core_mass", "S2_he_core_mass", "S1_spin", "S2_spin", "S1_log_R", "S2_log_R"]


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw)


@functools.lru_cache(maxsize=None)        # grids stay open: closing one of several handles of a file is not safe in HDF5
def props(lib, alpha, max_time=FULL):
    return e2e.properties(e2e.library(lib), FULL if max_time == "short" else max_time, step_CE=dict(common_envelope_efficiency=alpha))


def make(c, pr, swap=False, kicks=None):
    k = kicks or c["kicks"]
    s = [SingleStar(mass=m, state="H-rich_Core_H_burning", metallicity=1.0, natal_kick_array=None if k is None else list(kk))
         for m, kk in ((c["m1"], k[0]), (c["m1"] * c["q"], k[1]))]
    if swap:
        s.reverse()
    return BinaryStar(star_1=s[0], star_2=s[1], state="detached", event="ZAMS", time=c.get("t0", 0.0), orbital_period=c["P"],
                      separation=orbital_separation_from_period(c["P"], c["m1"], c["m1"] * c["q"]), eccentricity=0.0, properties=pr)


def evolve(b):
    """None, or the class of the error the binary failed with."""
    try:
        b.evolve()
    except POSYDONError as e:
        return type(e).__name__
    except ValueError as e:
        # overflow in the last moments of a star has no successor in the flow chart
        if b.event in ("oRLO1", "oRLO2") and "C_depleted" in (b.star_1, b.star_2)[int(b.event[-1]) - 1].state:
            label("overflow at the end of life")
            return type(e).__name__
        raise
    return None


def rows(b, swap=False):
    """History as a list of dictionaries (mirrored if the stars were exchanged)."""
    n = len(b.state_history)
    s = (b.star_1, b.star_2) if not swap else (b.star_2, b.star_1)
    out = []
    for i in range(n):
        r = {}
        for k in BINARYPROPERTIES:
            v = getattr(b, k + "_history")[i]
            if swap and k in ("state", "event"):
                v = PAIRS.get(v, v)
            if swap and k in ("rl_relative_overflow_1", "rl_relative_overflow_2"):
                v = getattr(b, k[:-1] + ("2" if k[-1] == "1" else "1") + "_history")[i]
            r[k] = v
        for j in (0, 1):
            for k in STARPROPERTIES:
                if k != "profile":
                    r["S%d_%s" % (j + 1, k)] = getattr(s[j], k + "_history")[i]
        out.append(r)
    return out


def equal(x, y, rtol):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return (x is None and y is None) or x == y
    if isinstance(x, (list, tuple, np.ndarray)):
        return len(x) == len(y) and all(equal(a, b, rtol) for a, b in zip(x, y))
    x, y = float(x), float(y)
    return x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= rtol * max(abs(x), abs(y), 0.1 if rtol > 1e-4 else 0.0)


def compare(a, b, what, keys=None, rtol=0.0):
    check(len(a) == len(b), what + ": number of rows", first=[r["event"] for r in a], second=[r["event"] for r in b])
    for i, (x, y) in enumerate(zip(a, b)):
        for k in keys or x:
            if k in ("S1_lg_mdot", "S2_lg_mdot") and x[k[:3] + "state"] in CO:
                continue                            # accretion rate at a random orbital phase
            check(equal(x[k], y[k], rtol), "%s: row %d, %s" % (what, i, k), first=x[k], second=y[k], events=[r["event"] for r in a])


kick = st.tuples(lu(3, 1500), u(0, 6.28), u(0, 3.14), u(0, 6.28)).map(list)
base = dict(lib=st.integers(0, 1), m1=lu(6, 60), q=u(0.2, 0.99), P=lu(2, 5000), kicks=st.tuples(kick, kick).map(list), alpha=one([1.0, 5.0]))


def trivial(b):
    names = [s for s in b.step_names if s]
    for s in names:
        label(s)
    label("end " + str(b.event) + " " + str(b.state))
    nontrivial(len(set(names)) >= 4, "at least three different steps")
    return names


@sub(PID, "history", fixed(**base, maxt=one([FULL, FULL, 1e7, 3e6])), quick=120, thorough=3000)
def history(c):
    """Invariants of every row of the history of a binary."""
    pr = props(c["lib"], c["alpha"], c["maxt"])
    b = make(c, pr)
    err = evolve(b)
    trivial(b)
    h = rows(b)
    ev = [r["event"] for r in h]
    check(ev[0] == "ZAMS" and h[0]["time"] == 0, "first row is the birth")
    check(err is not None or ev[-1] == "END", "end of the evolution", err=err, event=b.event, state=b.state)
    check("END" not in ev[:-1], "rows after the end")
    names = list(b.step_names) + [None] * (len(h) - len(b.step_names))
    check(err or len(b.step_names) == len(b.step_times) == len(h), "hook columns as long as the history", names=len(b.step_names), rows=len(h))
    for i, r in enumerate(h):
        check(r["time"] <= c["maxt"] * (1 + 1e-12), "time beyond the end of the simulation", row=i, time=r["time"])
        m = r["S1_mass"], r["S2_mass"]
        for j in (0, 1):
            s = r["S%d_state" % (j + 1)]
            check((m[j] == 0) if s == "massless_remnant" else m[j] > 0, "mass", row=i, star=j + 1, mass=m[j], state=s)
            check(r["S%d_metallicity" % (j + 1)] == 1.0 or s == "massless_remnant" or s in CO, "metallicity", row=i)
            if s not in CO and s != "massless_remnant" and i > 0:
                hc, cc = r["S%d_he_core_mass" % (j + 1)], r["S%d_co_core_mass" % (j + 1)]
                if hc is not None and np.isfinite(hc):
                    check(hc <= m[j] * (1 + 1e-2) + 1e-9, "helium core heavier than the star", row=i, star=j + 1, core=hc, mass=m[j], steps=b.step_names)
        e, P, a = r["eccentricity"], r["orbital_period"], r["separation"]
        if r["state"] in ("detached", "RLO1", "RLO2", "contact") and min(m) > 0 and i > 0:
            check(0 <= e < 1, "eccentricity of a bound orbit", row=i, e=e)
            if names[i] not in (None,) + GRIDSTEPS and ev[i] != "END" and "redirect" not in str(ev[i]):
                Pk = phys.kepler_P(a, *m)
                if True:
                    check(equal(P, Pk, 2e-2), "period and separation of a bound orbit", row=i, P=P, kepler=Pk, step=names[i])
        if r["state"] == "disrupted" and i > 0:
            check(all(h[k]["state"] == "disrupted" for k in range(i, len(h))), "a disrupted binary stays disrupted", row=i)
        if i:
            p = h[i - 1]
            check(r["time"] >= p["time"], "time runs backwards", row=i)
            for j in ("S1_", "S2_"):
                if p[j + "state"] in CO:
                    grid = names[i] in GRIDSTEPS or (names[i] is None and i > 1)     # masses (and thereby kinds) of the nearest model
                    check(r[j + "state"] in CO[0 if grid else CO.index(p[j + "state"]):] + ("massless_remnant",), "a remnant comes back to life", row=i, before=p[j + "state"], after=r[j + "state"])
                    if r[j + "state"] in CO and names[i] in ("step_SN", "step_CE", "step_detached", "step_disrupted", "step_end"):
                        check(equal(r[j + "mass"], p[j + "mass"], 1e-12), "mass of a remnant without accretion", row=i, before=p[j + "mass"], after=r[j + "mass"])
                if p[j + "state"] == "massless_remnant":
                    check(r[j + "state"] == "massless_remnant", "a massless remnant comes back", row=i)
            n = ("CC1", "CC2").index(p["event"]) + 1 if p["event"] in ("CC1", "CC2") else None
            if n and names[i] == "step_SN":
                check(r["S%d_state" % n] in CO + ("massless_remnant",), "a collapsing star leaves a remnant", row=i, state=r["S%d_state" % n])
                check(r["time"] == p["time"], "a collapse takes no time", row=i)
                check(r["S%d_mass" % (3 - n)] == p["S%d_mass" % (3 - n)], "a collapse does not change the mass of the companion", row=i)
                check(r["S%d_mass" % n] <= p["S%d_mass" % n] * (1 + 1e-9), "a remnant is not heavier than its star", row=i, before=p["S%d_mass" % n], after=r["S%d_mass" % n])


@sub(PID, "mirror", fixed(**base), quick=72, thorough=2000)
def mirror(c):
    """The names of the stars do not matter."""
    pr = props(c["lib"], c["alpha"])
    a, b = make(c, pr), make(c, pr, swap=True)
    ea, eb = evolve(a), evolve(b)
    trivial(a)
    check(ea == eb, "outcome after exchanging the stars", first=ea, second=eb)
    # the tolerance of the integration of the detached orbit
    compare(rows(a), rows(b, True), "exchanged stars", MAIN, 5e-3)


@sub(PID, "alone", fixed(**base, others=st.lists(fixed(m1=lu(6, 60), q=u(0.2, 0.99), P=lu(2, 5000), kicks=st.tuples(kick, kick).map(list)), min_size=1, max_size=2)),
     quick=40, thorough=1500)
def alone(c):
    """The history of a binary does not depend on what was evolved before with the same steps."""
    pr = props(c["lib"], c["alpha"])
    with scratch() as d:
        shutil.copytree(e2e.library(c["lib"]), d + "/lib")
        fresh = e2e.properties(d + "/lib", FULL, step_CE=dict(common_envelope_efficiency=c["alpha"]))
        a = make(c, fresh)
        ea = evolve(a)
        fresh.close()
    trivial(a)
    a.properties = pr
    for o in c["others"]:
        evolve(make(o, pr))
    b = make(c, pr)
    eb = evolve(b)
    check(ea == eb, "outcome after other binaries", first=ea, second=eb)
    compare(rows(a), rows(b), "after other binaries")
    check(a.step_names == b.step_names, "steps after other binaries", first=a.step_names, second=b.step_names)
    if ea is None:
        x, y = a.to_oneline_df(), b.to_oneline_df()
        check(list(x.columns) == list(y.columns), "oneline columns")
        for k in x:
            if "time" not in k and "lg_mdot" not in k:
                check(same(x[k].iloc[0], y[k].iloc[0]) or (x[k].isna().iloc[0] and y[k].isna().iloc[0]), "oneline " + k, first=x[k].iloc[0], second=y[k].iloc[0])
    a.restore()
    ec = evolve(a)
    check(ea == ec, "outcome of the repeated evolution", first=ea, second=ec)
    compare(rows(a), rows(b), "repeated after restore")


@sub(PID, "kicks", fixed(**base, other=st.tuples(kick, kick).map(list), fast=u(2e4, 5e4)), quick=40, thorough=1500)
def kicks(c):
    """Natal kicks act from the collapse on; stars of a binary that is torn apart do not know each other any more."""
    pr = props(c["lib"], c["alpha"])
    a, b = make(c, pr), make(c, pr, kicks=c["other"])
    ea, eb = evolve(a), evolve(b)
    trivial(a)
    ha, hb = rows(a), rows(b)
    n = next((i for i, s in enumerate(a.step_names[:len(ha)]) if s == "step_SN"), None)
    if n is None:
        check(ea == eb, "outcome without a collapse", first=ea, second=eb)
        compare(ha, hb, "without a collapse")
        return
    compare(ha[:n], hb[:n], "before the first collapse")
    keys = [k for k in ha[n] if k[:2] in ("S1", "S2") and "kick" not in k and "spin_orbit" not in k]
    compare(ha[n:n + 1], hb[n:n + 1], "remnant of the first collapse", keys)
    first = 1 if ha[n - 1]["event"] == "CC1" else 2
    runs = []
    for kk in (c["kicks"][first - 1], c["other"][first - 1]):
        k = [list(x) for x in c["kicks"]]
        k[first - 1] = [c["fast"]] + list(kk[1:])
        x = make(c, pr, kicks=k)
        e = evolve(x)
        runs.append((e, rows(x), x))
    if all(len(h) > n and h[n]["state"] == "disrupted" for _, h, _ in runs):
        label("torn apart by any kick")
        (e1, h1, x1), (e2, h2, _) = runs
        check(e1 == e2, "outcome after disruption", first=e1, second=e2)
        compare(h1[n:], h2[n:], "after disruption", ["state", "event", "time", "S%d_mass" % (3 - first), "S%d_state" % (3 - first), "S%d_mass" % first], 1e-9)


@sub(PID, "time_limit", fixed(**base, f=u(0.02, 1.1)), quick=40, thorough=1500)
def time_limit(c):
    """A shorter simulation is the beginning of the longer one."""
    a = make(c, props(c["lib"], c["alpha"]))
    ea = evolve(a)
    trivial(a)
    ha = rows(a)
    tend = max(r["time"] for r in ha if r["event"] not in ("END", "maxtime"))
    lim = min(max(tend * c["f"], 1e4), FULL)
    pr = props(c["lib"], c["alpha"], "short")
    pr.max_simulation_time = lim
    b = make(c, pr)
    eb = evolve(b)
    hb = rows(b)
    na = list(a.step_names[:len(ha)]) + [None] * (len(ha) - len(a.step_names))
    k = 1
    while k < len(ha) and ha[k]["time"] < lim * (1 - 1e-9) and k < len(hb) and not (ha[k]["event"] in ("END", "maxtime")):
        k += 1
    while k > 1 and na[k - 1] is not None and k < len(na) and na[k] is None:     # redirect rows belong to the step after them
        k -= 1
    label("cut", lim < tend)
    compare(ha[:k], hb[:k], "common part up to row %d" % k, [k_ for k_ in MAIN if "spin" not in k_], 1e-3)
    for r in hb:
        check(r["time"] <= lim * (1 + 1e-12), "time beyond the limit", time=r["time"], limit=lim)
    if lim < tend * (1 - 1e-6) and eb is None:
        check(equal(hb[-1]["time"], lim, 1e-9), "a binary that lives on is followed until the limit", time=hb[-1]["time"], limit=lim, events=[r["event"] for r in hb],
              steps=b.step_names, full=[(r["event"], r["time"]) for r in ha])
