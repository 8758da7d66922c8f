"""P05 classification of stellar states and mass-transfer cases; swapping the stars."""
import math

import numpy as np

from core import *

from posydon.utils import common_functions as cf
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar

ab = one([0.0, 0.005, 0.01, 0.0100001, 0.011, 0.3, 0.7, 0.98, 1e-12]) | u(0, 1)
lgl = one([-99.0, -10.0, -9.99, -11.0, 0.0, 3.0]) | u(-12, 6)
star_fields = dict(surface_h1=ab, center_h1=ab, center_he4=ab, center_c12=ab, log_LH=lgl, log_LHe=lgl,
                   log_Lnuc=lgl)
LOG003 = math.log10(1.0 - 0.97)


def state_oracle(s):
    if s["surface_h1"] > 0.01:
        rich = "H-rich"
    elif s["center_h1"] - s["surface_h1"] > 2e-10:
        rich = "accreted_He"
    elif s["center_h1"] - s["surface_h1"] < 1e-11:
        rich = "stripped_He"
    else:
        rich = None
    bH = s["log_LH"] > -10 and s["log_LH"] - s["log_Lnuc"] > LOG003
    bHe = s["log_LHe"] > -10 and s["log_LHe"] - s["log_Lnuc"] > LOG003
    H, He, C = (s[k] > 0.01 for k in ("center_h1", "center_he4", "center_c12"))
    if H:
        burn = "Core_H_burning" if bH else "non_burning"
    elif He:
        burn = "Core_He_burning" if bHe else "Shell_H_burning" if bH else "non_burning"
    else:
        burn = "Core_He_depleted" if C else "Core_C_depleted"
    return rich, burn


@sub("P05", "star_state", fixed(**star_fields, m=lu(0.1, 100)), quick=3000, thorough=60000)
def star_state(s):
    """Inferred stellar state against the documented abundance/luminosity thresholds; scalar, history and
    star-object entry points agree.  Non-trivial: all."""
    f = {k: s[k] for k in star_fields}
    got = cf.infer_star_state(star_mass=s["m"], **f)
    rich, burn = state_oracle(s)
    check(got.endswith(burn) and (rich is None or got == f"{rich}_{burn}"),
          lambda: f"state {got}, expected {rich}_{burn}")
    star = SingleStar(mass=s["m"], state="H-rich_Core_H_burning")
    for k, v in f.items():
        setattr(star, k, v)
    check(cf.check_state_of_star(star, star_CO=False) == got, "star-object state differs")
    star.append_state()
    for k in f:
        setattr(star, k, 0.5)
    check(cf.check_state_of_star(star, i=-1, star_CO=False) == got, "history state differs")
    check(cf.check_state_of_star(star, i=1, star_CO=False) == got, "history state differs")
    star.append_state()
    arr = cf.check_state_of_star_history_array(star, N=2, star_CO=False)
    check(arr[0] == got and len(arr) == 2, "history array of states differs")
    nontrivial(label=got)


@sub("P05", "co_state", fixed(m=one([0.0, -1.0, None, 1.1, 1.46, 2.5, 1.0999, 2.5001]) | lu(0.05, 60),
                              he=one([None, 0.0, 0.2, float("nan")]), st=one(["WD", "NS", "BH"])),
     quick=800, thorough=10000)
def co_state(c):
    """Compact objects: WD/NS/BH by the mass limits and leftover composition.  Non-trivial: positive
    mass."""
    m, he = c["m"], c["he"]
    got = cf.infer_star_state(star_mass=m, center_he4=he, star_CO=True)
    has = he is not None and he == he and he > 0
    if m is None or m <= 0:
        want = "massless_remnant"
    elif m <= 1.46 and (has or m < 1.1):
        want = "WD"
    elif m <= 2.5:
        want = "NS"
    else:
        want = "BH"
    check(got == want, lambda: f"CO of {m} Msun (he4={he}): {got}, expected {want}")
    if m is not None and m > 0:
        nontrivial(label=want)
        s = SingleStar(mass=m, state=c["st"])
        w2 = "WD" if m < 1.1 else "NS" if m <= 2.5 else "BH"
        check(s.state == w2 and s.state_history == [w2],
              lambda: f"star of {m} Msun constructed as {c['st']} has state {s.state}, expected {w2}")


RL = one([None, 0.0, -0.1, 0.05, 1e-9]) | u(-1, 0.5)
MDOT = one([None, -99.0, -10.0, -9.999, -5.0]) | u(-14, -1)
DON = ["H-rich_Core_H_burning", "H-rich_Core_He_burning", "H-rich_Shell_H_burning",
       "H-rich_Core_He_depleted", "H-rich_Core_C_depleted", "H-rich_non_burning",
       "stripped_He_Core_He_burning", "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted",
       "stripped_He_non_burning", "accreted_He_Core_H_burning", "accreted_He_Core_He_burning", "NS",
       "BH", "WD", "massless_remnant"]


def case_oracle(rl, md, state, dom):
    if rl is None or md is None:
        return 0
    if rl <= 0 and (md <= -10 or not dom):
        return 0
    if "non_burning" in state:
        return 8
    t = {"H-rich_Core_H_burning": 1, "H-rich_Core_He_burning": 2, "H-rich_Shell_H_burning": 2,
         "H-rich_Core_He_depleted": 3, "H-rich_Core_C_depleted": 3, "stripped_He_Core_He_burning": 4,
         "stripped_He_Core_He_depleted": 5, "stripped_He_Core_C_depleted": 5}
    return t.get(state, 9)


NAMES = {1: "A", 2: "B", 3: "C", 4: "BA", 5: "BB", 6: "BC", 8: "nonburning"}


def binary_oracle(c):
    rl1, rl2, md, s1, s2 = c["rl1"], c["rl2"], c["md"], c["s1"], c["s2"]
    ic = c["ic"]
    if ic == "not_converged":
        return [None, None, "None"]
    if ic == "initial_MT":
        return ["initial_RLOF", None, "None"]
    if rl1 is not None and rl2 is not None:
        dom1 = rl1 >= rl2
    else:
        dom1 = not (rl2 is not None)
    c1, c2 = case_oracle(rl1, md, s1, dom1), case_oracle(rl2, md, s2, not dom1)
    r1, r2 = c1 in NAMES, c2 in NAMES
    event = None
    if r1 and r2:
        state, case = "contact", "None"
        if ic == "unstable_MT":
            k = "1" if rl1 >= rl2 else "2"
            comp = s2 if k == "1" else s1
            dbl = comp not in ("H-rich_Core_H_burning", "stripped_He_Core_He_burning", "WD", "NS", "BH")
            return [state, ("oDoubleCE" if dbl else "oCE") + k, "None"]
    elif c1 == 0 and c2 == 0:
        state, case = "detached", "None"
    elif r1:
        state, case = "RLO1", "case_" + NAMES[c1] + "1"
        if ic == "unstable_MT":
            return [state, "oCE1", case]
    elif r2:
        state, case = "RLO2", "case_" + NAMES[c2] + "2"
        if ic == "unstable_MT":
            return [state, "oCE2", case]
    else:
        state, case = "undefined", "None"
    dep = lambda s, g: "C_depleted" in s or "He_depleted" in s or (g is not None and g >= 10.0)
    if dep(s1, c["g1"]):
        event = "CC1"
    elif dep(s2, c["g2"]):
        event = "CC2"
    return [state, event, case]


def mk(c, swap=False):
    a, b = ("2", "1") if swap else ("1", "2")
    bi = BinaryStar(star_1=SingleStar(mass=10.0), star_2=SingleStar(mass=5.0), state="detached",
                    event="ZAMS", time=0.0, orbital_period=10.0)
    bi.star_1.state, bi.star_2.state = c["s" + a], c["s" + b]
    bi.star_1.center_gamma, bi.star_2.center_gamma = c["g" + a], c["g" + b]
    bi.rl_relative_overflow_1, bi.rl_relative_overflow_2 = c["rl" + a], c["rl" + b]
    bi.lg_mtransfer_rate = c["md"]
    return bi


SW = {"RLO1": "RLO2", "RLO2": "RLO1", "CC1": "CC2", "CC2": "CC1", "oCE1": "oCE2", "oCE2": "oCE1",
      "oDoubleCE1": "oDoubleCE2", "oDoubleCE2": "oDoubleCE1"}


@sub("P05", "binary_state",
     fixed(rl1=RL, rl2=RL, md=MDOT, s1=one(DON), s2=one(DON), g1=one([None, 1.0, 10.0, 20.0]),
           g2=one([None, 1.0, 10.0, 20.0]),
           ic=one([None, None, "unstable_MT", "stable_MT", "no_MT", "initial_MT", "not_converged"])),
     quick=3000, thorough=60000)
def binary_state(c):
    """Binary state / event / mass-transfer case: documented rule table, history entry points agree, and
    relabelling the stars relabels the answer.  Non-trivial: mass transfer or collapse present."""
    bi = mk(c)
    got = cf.get_binary_state_and_event_and_mt_case(bi, interpolation_class=c["ic"])
    want = binary_oracle(c)
    check(list(got) == want, lambda: f"got {got}, expected {want}")
    both = all("depleted" in c[s] or (c[g] is not None and c[g] >= 10) for s, g in (("s1", "g1"), ("s2", "g2")))
    tie = c["rl1"] == c["rl2"] or (c["rl1"] is None and c["rl2"] is None)
    if not both and not tie:
        sw = cf.get_binary_state_and_event_and_mt_case(mk(c, True), interpolation_class=c["ic"])
        case = want[2]
        if case.startswith("case_"):
            case = case[:-1] + ("2" if case.endswith("1") else "1")
        w2 = [SW.get(want[0], want[0]), SW.get(want[1], want[1]), case]
        check(list(sw) == w2, lambda: f"relabelled stars: got {sw}, expected {w2}")
        label("swapped")
    bi.append_state()
    bi.rl_relative_overflow_1 = bi.rl_relative_overflow_2 = bi.lg_mtransfer_rate = None
    if c["ic"] is None:
        h = cf.get_binary_state_and_event_and_mt_case(bi, i=-1)
        check(list(h) == want, lambda: f"history entry classified {h}, expected {want}")
        a1, a2, a3 = cf.get_binary_state_and_event_and_mt_case_array(bi, N=1)
        check([a1[0], a2[0], a3[0]] == want, "array of classifications differs")
    nontrivial(want[0] not in ("detached", None) or want[1] is not None, want[0])


mt = st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 8, 9, 11, 12, 13, 14, 15, 18]), max_size=12)


@sub("P05", "cumulative", fixed(cases=mt, shift=st.booleans()), quick=1500, thorough=30000)
def cumulative(c):
    """Cumulative mass-transfer flag: removes repetitions and no-RLO phases, keeps order and donors,
    and with shifting never goes back to an earlier case of the same donor.
    Non-trivial: >=2 RLO cases."""
    cases = list(c["cases"])
    before = list(cases)
    got = cf.cumulative_mass_transfer_flag(cases, shift_cases=c["shift"])
    check(cases == before, "input list modified")
    cur = list(cases)
    if c["shift"]:
        lo = {0: 0, 1: 10}
        out = []
        for m in cur:
            d = 0 if m <= 9 else 1
            v = max(m, lo[d])
            lo[d] = max(lo[d], m)
            out.append(v)
        cur = out
    if not cur:
        want = "?"
    else:
        und = 9 in cur
        rest = [m for m in cur if m != 9]
        parts = []
        txt = "?" if und else ""
        nz = [m for m in rest if m != 0]
        if rest and not nz:
            txt += "no_RLO"
        prev = None
        for m in nz:
            if m != prev:
                parts.append((NAMES.get(m) + "1") if m in NAMES else (NAMES[m - 10] + "2") if m - 10 in NAMES
                             else {10: "no_RLO2", 19: "undetermined_MT2"}[m])
                prev = m
        if parts:
            txt += "case_" + "/".join(parts)
        want = txt
    check(got == want, lambda: f"{cases} -> {got!r}, expected {want!r}")
    nontrivial(sum(m not in (0, 9) for m in cases) >= 2)


HIST_E = ["ZAMS", "CC1", "CC2", "oRLO1", "oRLO2", "oCE1", "oCE2", None, "maxtime"]
HIST_S = ["detached", "RLO1", "RLO2", "contact", "disrupted"]


@sub("P05", "flip", fixed(m1=lu(1, 100), m2=lu(1, 100), rows=st.lists(st.tuples(
    one(HIST_S), one(HIST_E), u(-1, 1), u(-1, 1), lu(1, 1e6), lu(1, 1e6)).map(list), min_size=1, max_size=6)),
     quick=600, thorough=10000)
def flip(c):
    """Swapping the two stars relabels current values and histories consistently and twice is the
    identity.  Non-trivial: a star-labelled state or event occurs in the history."""
    b = BinaryStar(star_1=SingleStar(mass=c["m1"]), star_2=SingleStar(mass=c["m2"]), state="detached",
                   event="ZAMS", time=0.0, orbital_period=10.0)
    for s, e, r1, r2, t1, t2 in c["rows"]:
        b.state, b.event = s, e
        b.rl_relative_overflow_1, b.rl_relative_overflow_2 = r1, r2
        b.t_sync_rad_1, b.t_sync_rad_2, b.t_sync_conv_1, b.t_sync_conv_2 = t1, t2, 2 * t1, 3 * t2
        b.star_1.mass *= 0.9
        b.append_state()
    keys = ["state", "event", "rl_relative_overflow_1", "rl_relative_overflow_2", "t_sync_rad_1",
            "t_sync_rad_2", "t_sync_conv_1", "t_sync_conv_2", "separation", "time"]
    snap = lambda: {**{k: getattr(b, k) for k in keys}, **{k + "h": list(getattr(b, k + "_history")) for k in keys},
                    "m1": list(b.star_1.mass_history), "m2": list(b.star_2.mass_history),
                    "M1": b.star_1.mass, "M2": b.star_2.mass}
    sw = {**SW, "oRLO1": "oRLO2", "oRLO2": "oRLO1"}
    other = lambda k: k.replace("_1", "_#").replace("_2", "_1").replace("_#", "_2")
    a = snap()
    cf.flip_stars(b)
    f = snap()
    for k in keys:
        src = other(k)
        rel = (lambda v: sw.get(v, v)) if k in ("state", "event") else (lambda v: v)
        check(same(f[k], rel(a[src])), lambda: f"after swap {k}={f[k]!r}, expected {rel(a[src])!r}")
        check(same(f[k + "h"], [rel(v) for v in a[src + "h"]]), lambda: f"after swap history of {k} wrong: {f[k + 'h']}")
    check(f["m1"] == a["m2"] and f["m2"] == a["m1"] and f["M1"] == a["M2"], "stars not swapped")
    cf.flip_stars(b)
    check(same(snap(), a), "swapping twice is not the identity")
    nontrivial(any(r[0] in sw or r[1] in sw for r in c["rows"]))
