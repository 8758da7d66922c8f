"""P12 double compact objects: gravitational-wave inspiral to contact or maximum time."""
import math

import numpy as np

from core import *
import phys
import synth

from posydon.binary_evol.DT.double_CO import DoubleCO
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils import common_functions as cf

PROPS = {}


def props(T):
    if T not in PROPS:
        PROPS[T] = SimulationProperties(flow=({}, {}), max_simulation_time=T)
    return PROPS[T]


def c0(a, e):
    return a * (1 - e * e) * e ** (-12.0 / 19.0) * (1 + 121.0 / 304.0 * e * e) ** (-870.0 / 2299.0)


def at_separation(a0, e0, a):
    """Eccentricity when the separation has shrunk to a (bisection on the Peters invariant)."""
    if e0 == 0:
        return 0.0
    k = c0(a0, e0)
    lo, hi = 1e-300, e0
    for _ in range(300):
        mid = math.exp(0.5 * (math.log(lo) + math.log(hi)))
        # c0 = k with e=mid gives a separation; larger e, larger a
        if k / c0(1.0, mid) > a:
            hi = mid
        else:
            lo = mid
    return hi


def T(m1, m2, a, e):
    return phys.peters_time_myr(m1, m2, a, 0.0 if e < 1e-12 else e) * 1e6


co = fixed(s=one(["WD", "NS", "BH", "BH"]), x=u(0, 1))
case = fixed(a=co, b=co, f=u(0, 1), logt=u(-4, 3), e=one([0.0, 0.0]) | u(0, 0.98) | u(0.9, 0.99), t0=lu(1e5, 1e10), Tmax=one([1.38e10, 1.38e10, 2e10, 3e10]),
             hist=one([None, None, ["n", 1], ["n", 3], ["n", 7], ["dt", 0.4], ["dt", 0.9], ["dt", 2.4], ["dt", 2.7], ["dt", 4.0]]), vs=st.booleans())


def mass(c):
    return {"WD": 0.3 + 1.05 * c["x"], "NS": 1.15 + 1.3 * c["x"], "BH": 2.6 * 40 ** c["x"]}[c["s"]]


@sub("P12", "inspiral", case, quick=1200, thorough=30000)
def inspiral(c):
    """Final and intermediate orbits of the double compact-object step against the Peters invariants.  The separation is
    chosen so that the inspiral time is 10^logt of the time left.  Non-trivial: contact is reached, or the orbit shrinks by
    more than 1 per cent."""
    m1, m2 = mass(c["a"]), mass(c["b"])
    ac = cf.CO_radius(m1, c["a"]["s"]) + cf.CO_radius(m2, c["b"]["s"])
    left = c["Tmax"] - c["t0"]
    # separation for the wanted inspiral time
    a0 = (left * 10 ** c["logt"] / T(m1, m2, 1.0, c["e"])) ** 0.25
    if a0 < 1.5 * ac:
        return
    e0 = c["e"]
    b = BinaryStar(star_1=SingleStar(mass=m1, state=c["a"]["s"], metallicity=1.0, spin=0.1), star_2=SingleStar(mass=m2, state=c["b"]["s"], metallicity=1.0, spin=0.7),
                   state="detached", event=None, time=c["t0"], separation=a0, eccentricity=e0)
    b.star_1.state, b.star_2.state = c["a"]["s"], c["b"]["s"]
    vs = [10.0, -20.0, 5.0] if c["vs"] else None
    b.V_sys = vs
    b.V_sys_history = [vs]
    b.properties = props(c["Tmax"])
    b.get_next_step_name = lambda: "step_dco"
    ec = at_separation(a0, e0, ac)
    Ttot = T(m1, m2, a0, e0)
    tc = Ttot - T(m1, m2, ac, ec)
    kw = {}
    if c["hist"]:
        if c["hist"][0] == "n":
            kw["n_o_steps_history"] = c["hist"][1]
        else:
            kw["dt"] = min(tc, left) / c["hist"][1]
    if abs(tc - left) < 1e-5 * left:
        return
    n0 = len(b.time_history)
    step = DoubleCO(track_matcher=synth.matcher(), **kw)
    step(b)
    check(b.star_1.mass == m1 and b.star_2.mass == m2 and b.star_1.state == c["a"]["s"] and b.star_2.state == c["b"]["s"],
          "a compact object changed during the inspiral")
    check(b.star_1.spin == 0.1 and b.star_2.spin == 0.7, "spins changed")
    check(same(b.V_sys, vs), "systemic velocity changed")
    if tc < left:
        nontrivial(True, "contact")
        check(b.state == "contact" and b.event == "CO_contact", lambda: f"merges after {tc:.3g} of {left:.3g} yr but ends as {b.state}/{b.event}")
        check(abs(b.time - (c["t0"] + tc)) <= 1e-5 * tc + 1e-8 * c["t0"], lambda: f"contact after {b.time - c['t0']} yr, Peters {tc}")
        check_close(b.separation, ac, "separation at contact", 1e-6)
        check(b.eccentricity == 0.0, "eccentricity at contact")
    else:
        label("maximum time")
        check(b.state == "detached" and b.event == "maxtime", lambda: f"needs {tc:.3g} of {left:.3g} yr but ends as {b.state}/{b.event}")
        check(b.time == c["Tmax"], lambda: f"stopped at {b.time} instead of {c['Tmax']}")
        rem = T(m1, m2, b.separation, b.eccentricity)
        check(abs(rem - (Ttot - left)) <= 2e-5 * Ttot, lambda: f"remaining inspiral time {rem}, expected {Ttot - left}")
        if e0 > 0:
            check_close(c0(b.separation, b.eccentricity), c0(a0, e0), "Peters invariant a(e)", 1e-5)
        else:
            check(b.eccentricity < 1e-100, "a circular orbit became eccentric")
        nontrivial(b.separation < 0.99 * a0, "shrunk")
    check(abs(b.orbital_period / phys.kepler_P(b.separation, m1, m2) - 1) < 1e-3, "period and separation disagree")
    # recorded intermediate rows
    th, sh, eh, ph = b.time_history[n0:], b.separation_history[n0:], b.eccentricity_history[n0:], b.orbital_period_history[n0:]
    if c["hist"]:
        label("history", len(th) > 0)
        prev = c["t0"]
        for t, s, e, p in zip(th, sh, eh, ph):
            check(prev <= t <= b.time * (1 + 1e-12) and (t > prev or b.time - c["t0"] < 1e-9 * b.time), "history times do not advance")
            prev = t
            if s < 1.001 * ac:
                continue
            check(s <= a0 * (1 + 1e-9) and 0 <= e <= e0 + 1e-9, "the orbit expands or becomes more eccentric")
            check(abs(T(m1, m2, s, e) + (t - c["t0"]) - Ttot) <= 2e-5 * Ttot + 1e-8 * c["t0"], "intermediate orbit off the inspiral track")
            check(abs(p / phys.kepler_P(s, m1, m2) - 1) < 1e-3, "intermediate period")
        if c["hist"][0] == "n":
            want = c["hist"][1] - 1
            check(len(th) == want, lambda: f"{len(th)} intermediate entries for n_o_steps_history={c['hist'][1]}")
        else:
            want = math.ceil(c["hist"][1] * (1 - 1e-4)) - 1
            check(len(th) == want or c["hist"][1] == 4.0 and abs(len(th) - want) <= 1, lambda: f"{len(th)} intermediate entries, expected {want}")
            check(all(abs(t - c["t0"] - (i + 1) * kw["dt"]) <= 1e-9 * b.time for i, t in enumerate(th)), "history entries are not dt apart")
        for k in ("mass", "state", "spin"):
            for o in (b.star_1, b.star_2):
                h = getattr(o, k + "_history")
                check(len(h) == len(b.time_history) and all(same(v, getattr(o, k)) for v in h[n0:]), lambda: f"history of {k}: {h}")
    else:
        check(len(th) == 0, "intermediate entries without being asked for")
