"""P14 the detached step and its isolated variants on analytic single-star tracks."""
import math
import warnings

import numpy as np
from scipy.interpolate import PchipInterpolator

from core import *
import phys
import synth

from posydon.binary_evol.DT.step_detached import detached_step
from posydon.binary_evol.DT.step_isolated import IsolatedStep
from posydon.binary_evol.DT.step_disrupted import DisruptedStep
from posydon.binary_evol.DT.step_initially_single import InitiallySingleStep
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.track_match import TrackMatcher
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils import common_functions as cf
from posydon.utils.posydonerror import FlowError, ClassificationError, POSYDONError
from posydon.utils.key_library import DEFAULT_FINAL_KEYS, DEFAULT_PROFILE_KEYS
from posydon.binary_evol.flow_chart import STAR_STATES_H_RICH_EVOLVABLE, STAR_STATES_HE_RICH_EVOLVABLE
import posydon.utils.constants as const

START = {"H": "H-rich_Core_H_burning", "He": "stripped_He_Core_He_burning"}
_props = {}


def props(T, rlo=True):
    if (T, rlo) not in _props:
        p = SimulationProperties(flow=({}, {}), max_simulation_time=T)
        p.all_step_names = ["step_HMS_HMS_RLO"] if rlo else []
        _props[T, rlo] = p
    return _props[T, rlo]


def make(c):
    """Star of a case at the start of its track (or a compact object)."""
    k = c["k"]
    if k in START:
        kw, _ = synth.star_at(c["m"], c["g"], he=k == "He")
        J = c["w"] * kw["total_moment_of_inertia"]
        crit = math.sqrt(phys.G * kw["mass"] * phys.MSUN / (10 ** kw["log_R"] * phys.RSUN) ** 3)
        kw.update(state=START[k], log_total_angular_momentum=math.log10(J) if J > 0 else None, surf_avg_omega=c["w"], surf_avg_omega_div_omega_crit=c["w"] / crit)
        return SingleStar(**kw)
    return SingleStar(mass=c["m"], state=k, metallicity=1.0, spin=0.3, log_R=-6.0)


def state_of(c, s=None):
    if s is not None and c["k"] in START and c["g"] > 0:
        return cf.check_state_of_star(s, star_CO=False)
    return START.get(c["k"], c["k"])


class Located(TrackMatcher):
    """Matcher for stars of known initial mass and age."""

    def at(self, where):
        self.where = where
        return self

    def match_to_single_star(self, star):
        return self.where[[s for s in self.where if s is star][0]]


class Places:
    """(initial mass, age) by star object."""

    def __init__(self, pairs):
        self.pairs = pairs

    def __iter__(self):
        return iter([s for s, _ in self.pairs])

    def __getitem__(self, star):
        return [x for s, x in self.pairs if s is star][0]


def matcher(c, b):
    """The shipped matcher for stars at zero age, otherwise one that knows where on its track each star is."""
    if c["ev"] == "ZAMS":
        return synth.matcher()
    m = Located(grid_Hrich=synth.SynthGrid(False), grid_strippedHe=synth.SynthGrid(True), metallicity=1.0, matching_method="minimize")
    return m.at(Places([(s, (x["m"], x["g"] * synth.track(x["m"], x["k"] == "He")["age"][-1])) for s, x in ((b.star_1, c["a"]), (b.star_2, c["b"])) if x["k"] in START]))


class Track:
    """The track a star of the case follows, as monotone cubic interpolants of the grid's own points."""

    def __init__(self, c):
        self.co = c["k"] not in START
        self.m0 = c["m"]
        if not self.co:
            self.d = dict(synth.track(c["m"], c["k"] == "He"))
            self.d["age"] = self.d["age"] - c["g"] * self.d["age"][-1]      # counted from the start of the step
            self.end = self.d["age"][-1]
            self.f = {k: PchipInterpolator(self.d["age"], v) for k, v in (("mass", self.d["mass"]), ("R", 10 ** self.d["log_R"]), ("I", self.d["inertia"]))}
        else:
            self.end = math.inf

    def mass(self, t):
        return self.m0 if self.co else self.f["mass"](t)

    def R(self, t):
        return 0.0 if self.co else self.f["R"](t)

    def near(self, key, t, v, tol=1e-7):
        """v lies between the two track points around t."""
        x, y = self.d["age"], self.d[key]
        i = int(np.clip(np.searchsorted(x, t) - 1, 0, len(x) - 2))
        lo, hi = sorted((y[i], y[i + 1]))
        pad = tol * max(abs(lo), abs(hi), 1e-30)
        if abs(t - x[i]) < 1e-6 * x[-1] and i > 0:
            lo, hi = min(lo, y[i - 1]), max(hi, y[i - 1])
        if abs(t - x[i + 1]) < 1e-6 * x[-1] and i + 2 < len(x):
            lo, hi = min(lo, y[i + 2]), max(hi, y[i + 2])
        return lo - pad <= v <= hi + pad


star = fixed(k=one(["H", "H", "H", "He", "NS", "BH", "WD"]), m=lu(0.9, 70), w=one([0.0]) | lu(1e-8, 3e-5), g=one([0.0]) | u(0.01, 0.97))
real = fixed(k=one(["H", "H", "He"]), m=lu(0.9, 70), w=one([0.0]) | lu(1e-8, 3e-5), g=one([0.0]) | u(0.01, 0.97))


def comass(c):
    c = dict(c)
    if c["k"] == "NS":
        c["m"] = 1.2 + 1.2 * math.log(c["m"] / 0.9) / 4.4
    elif c["k"] == "WD":
        c["m"] = 0.4 + 0.7 * math.log(c["m"] / 0.9) / 4.4
    elif c["k"] == "BH":
        c["m"] += 3
    return c


def build(c, flip=False):
    A, B = c["a"], c["b"]
    if flip:
        A, B = B, A
    b = BinaryStar(star_1=make(A), star_2=make(B), state="detached", event=c["ev"], time=c["t0"], separation=c["sep"], eccentricity=c["e"])
    b.star_1.state, b.star_2.state = state_of(A, b.star_1), state_of(B, b.star_2)
    b.V_sys, b.V_sys_history = [1.0, 2.0, 3.0], [[1.0, 2.0, 3.0]]
    b.get_next_step_name = lambda: "step_detached"
    b.properties = props(c["Tmax"], c["hms"])
    return b


def zero_age(c, x):
    return dict(x, g=0.0) if c["ev"] == "ZAMS" else x


def prepare(c):
    """Both stars start their tracks at the binary's current time; the orbit is sized relative to the largest radius so that
    overflow happens about half of the time."""
    c = dict(c)
    c["a"], c["b"] = zero_age(c, comass(c["a"])), zero_age(c, comass(c["b"]))
    if c["swap"]:
        c["a"], c["b"] = c["b"], c["a"]
    tr = [Track(c["a"]), Track(c["b"])]
    big = max(10 ** t.d["log_R"].max() for t in tr if not t.co)
    small = max(10 ** t.d["log_R"].min() for t in tr if not t.co)
    c["sep"] = (small * 4) * (big / small * 3) ** c["f"] / (1 - c["e"])
    end = min(t.end for t in tr)
    if c["tm"] is not None:
        c["Tmax"] = c["t0"] + c["tm"] * end
    return c, tr


FINALS = {k: 0.01 * (1 + i) for i, k in enumerate(DEFAULT_FINAL_KEYS)}


def lobes(tr, t, a, e):
    m1, m2 = float(tr[0].mass(t)), float(tr[1].mass(t))
    return [float(tr[0].R(t)) / (phys.eggleton(m1 / m2) * a * (1 - e)), float(tr[1].R(t)) / (phys.eggleton(m2 / m1) * a * (1 - e))]


def run(step, b):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            step(b)
        except (FlowError, ClassificationError) as ex:
            return ex
        except POSYDONError as ex:
            return ex
    return None


def common(c, tr, b, n0, before):
    """What every completed detached step must satisfy."""
    for i, (s, t, cs) in enumerate(((b.star_1, tr[0], c["a"]), (b.star_2, tr[1], c["b"]))):
        age = b.time - c["t0"]
        if t.co:
            check(s.mass == cs["m"] and s.state == cs["k"] and s.spin == 0.3, lambda: f"compact object changed: {s.mass}, {s.state}, {s.spin}")
            continue
        final = b.event == f"CC{i + 1}" 
        if b.event in ("CC1", "CC2") and not final and tr[0].end == tr[1].end:
            continue        # twins: the other star may or may not be given its final values in the same step
        for k in ("mass", "log_R", "center_he4", "center_h1", "he_core_mass", "co_core_mass", "surface_h1", "log_L", "surface_he4", "center_c12"):
            v = getattr(s, k)
            if final and k in FINALS:
                check_close(v, FINALS[k] + cs["m"], f"final value {k} at collapse", 1e-12)
                continue
            check(t.near(k, age, v), lambda: f"star_{i + 1}.{k}={v} is not the track value at age {age:.4g} of {t.end:.4g}")
        if final:
            for k, v in FINALS.items():
                check_close(getattr(s, k), v + cs["m"], f"final value {k} at collapse", 1e-12)
            check(s.profile is not None and np.allclose(s.profile["omega"], s.surf_avg_omega) and
                  all(np.allclose(s.profile[k], (list(s.profile.dtype.names).index(k) + 1) * np.linspace(1, 0.03, 30) * cs["m"]) for k in DEFAULT_PROFILE_KEYS if k != "omega"),
                  "profile at collapse")
        elif s.state is not None:
            check(s.state == cf.check_state_of_star(s, star_CO=False), lambda: f"state {s.state} does not match the star's own properties")
        # rotation bookkeeping
        J = s.surf_avg_omega * s.total_moment_of_inertia
        if J > 0:
            check_close(10.0 ** s.log_total_angular_momentum, J, "angular momentum and rotation rate", 1e-6)
            check_close(s.spin, phys.C * J / (phys.G * (s.mass * phys.MSUN) ** 2), "dimensionless spin", 1e-2)
            mm, RR = float(t.mass(age)), float(t.R(age))
            check_close(s.surf_avg_omega_div_omega_crit, s.surf_avg_omega / math.sqrt(phys.G * mm * phys.MSUN / (RR * phys.RSUN) ** 3), "critical rotation", 1e-2)
    m1, m2 = float(tr[0].mass(b.time - c["t0"])), float(tr[1].mass(b.time - c["t0"]))
    check(abs(b.orbital_period / phys.kepler_P(b.separation, m1, m2) - 1) < 2e-3, "period and separation disagree")
    check(c["t0"] < b.time <= c["Tmax"] * (1 + 1e-12), lambda: f"time {b.time} outside ({c['t0']}, {c['Tmax']}]")


case = fixed(a=real, b=star, swap=st.booleans(), f=u(-0.15, 1), e=one([0.0]) | u(0, 0.8), t0=one([0.0]) | lu(1e4, 1e9), tm=one([None, None, None]) | u(0.05, 1.5), Tmax=one([1e11]), ev=one(["ZAMS", "redirect_from_CO_HMS_RLO", None]),
             hms=one([True, True, True, False]), am=st.booleans(), hist=one([None, 1, 8, 25]), wind=one([True, True, False]), spin=one([True, True, False]))


def verify_end(c, tr, b, ex, ratio_before, tol):
    """Event at the end, given the fraction of the Roche lobe filled just before (before circularisation)."""
    age = b.time - c["t0"]
    end = min(t.end for t in tr)
    kinds = [c["a"]["k"], c["b"]["k"]]
    over = [r / 0.95 for r in ratio_before]
    if b.state in ("RLO1", "RLO2") or isinstance(ex, (FlowError, ClassificationError)):
        if ex is None:
            i = int(b.state[-1]) - 1
            check(b.event == "o" + b.state, f"{b.state} with event {b.event}")
            check(b.eccentricity == 0, "still eccentric at Roche-lobe overflow")
        else:
            i = int(np.argmax(over))
            check(b.state == "ERR", lambda: f"refused overflow left state {b.state}")
        check(abs(over[i] - 1) < tol, lambda: f"overflow of star_{i + 1} at {over[i]:.4f} of 0.95 lobe radii")
        check(over[1 - i] < 1 + tol, "the other star overflows too")
        states = {b.star_1.state, b.star_2.state}
        H, He = set(STAR_STATES_H_RICH_EVOLVABLE), set(STAR_STATES_HE_RICH_EVOLVABLE)
        refused = not c["hms"] and all(x in H | He for x in states) and any(x in H for x in states)
        check((ex is not None) == refused, lambda: f"overflow between {states} with{'' if c['hms'] else 'out'} a grid for it: {ex!r}")
        return "overflow"
    check(all(o < 1 + tol for o in over), lambda: f"ends as {b.event} although Roche lobes are filled to {over} of 0.95")
    if b.event in ("CC1", "CC2"):
        i = int(b.event[-1]) - 1
        check(abs(age - tr[i].end) <= 1e-9 * b.time + 1e-9 * tr[i].end and tr[i].end <= end * (1 + 1e-9), lambda: f"{b.event} at age {age}, tracks end at {[t.end for t in tr]}")
        check(b.state == "detached", f"state {b.state} at collapse")
        return "collapse"
    check(b.event == "maxtime" and b.state == "detached" and b.time == c["Tmax"], lambda: f"ends as {b.state}/{b.event} at {b.time}, maximum {c['Tmax']}")
    check(age <= end * (1 + 1e-9), "passed the end of a track")
    return "maxtime"


def initially_over(c, tr):
    return [x / 0.95 for x in lobes(tr, 0.0, c["sep"], c["e"])]


def check_history(c, tr, b, n0, analytic):
    """Intermediate entries: advancing times, track values, states and orbit of that time, aligned in every column."""
    n = c["hist"]
    k = len(b.time_history) - n0
    check(k == (n - 1 if n else 0), lambda: f"{k} intermediate entries for n_o_steps_history={n}")
    for s, t, cs in ((b.star_1, tr[0], c["a"]), (b.star_2, tr[1], c["b"])):
        for key in ("mass", "log_R", "state", "center_he4", "surf_avg_omega", "lg_mdot", "metallicity"):
            check(len(getattr(s, key + "_history")) == len(b.time_history), lambda: f"{key}_history has {len(getattr(s, key + '_history'))} entries, time_history {len(b.time_history)}")
    prev = c["t0"]
    for i in range(n0, len(b.time_history)):
        t = b.time_history[i]
        check(prev < t < b.time, "history times do not advance")
        prev = t
        r = lobes(tr, t - c["t0"], b.separation_history[i], b.eccentricity_history[i])
        check(all(x / 0.95 < 1.01 for x in r), lambda: f"a star overflowed ({r}) before the step ended")
        for s, tt, nm, x in ((b.star_1, tr[0], "rl_relative_overflow_1", r[0]), (b.star_2, tr[1], "rl_relative_overflow_2", r[1])):
            check_close(getattr(b, nm + "_history")[i], x - 1, nm, 1e-3, 1e-3)
            if tt.co:
                check(s.mass_history[i] == s.mass and s.state_history[i] == s.state, "compact object changes in the history")
                if c["e"] == 0:         # otherwise at a random place of the orbit
                    donor = b.star_2 if s is b.star_1 else b.star_1
                    with np.errstate(all="ignore"):
                        want = np.log10(cf.bondi_hoyle(b, s, donor, idx=i, wind_disk_criteria=True, scheme="Kudritzki+2000")).item()
                    label("wind accretion in the history", np.isfinite(want))
                    check(same(s.lg_mdot_history[i], want) or abs(s.lg_mdot_history[i] - want) < 1e-6, lambda: f"wind accretion of entry {i}: {s.lg_mdot_history[i]} instead of {want}")
                continue
            for key in ("mass", "log_R", "center_he4", "he_core_mass"):
                v = getattr(s, key + "_history")[i]
                check(tt.near(key, t - c["t0"], v), lambda: f"history of {key}: {v} at age {t - c['t0']}")
            want = cf.check_state_of_star(s, i=i, star_CO=False)
            check(s.state_history[i] == want, lambda: f"state in the history {s.state_history[i]}, its own properties say {want}")
        check(b.event_history[i] == c["ev"] and b.state_history[i] == "detached", "labels of intermediate entries")


@sub("P14", "winds_only", case, quick=500, thorough=8000)
def winds_only(c):
    """Only winds and spin (either may be off): the orbit is a(M1+M2)=const (or constant) with constant e, so event, time, orbit and spins have closed forms.
    Non-trivial: the step ends in overflow or in collapse."""
    c, tr = prepare(c)
    b = build(c)
    n0 = len(b.time_history)
    label("stars at different ages", c["a"]["g"] != c["b"]["g"])
    step = detached_step(track_matcher=matcher(c, b), do_tides=False, do_gravitational_radiation=False, do_magnetic_braking=False,
                         do_wind_loss=c["wind"], do_stellar_evolution_and_spin_from_winds=c["spin"], RLO_orbit_at_orbit_with_same_am=c["am"], n_o_steps_history=c["hist"])
    over0 = initially_over(c, tr)
    if any(abs(o - 1) < 0.01 for o in over0):
        return
    ex = run(step, b)
    if max(over0) >= 1:
        label("initial overflow")
        check(b.state == "initial_RLOF" and ex is None and b.time == c["t0"], lambda: f"overflowing at the start but {b.state}")
        return
    if type(ex) is POSYDONError:
        # documented only for two stars that end their lives at the same moment with different masses
        check(tr[0].end == tr[1].end and c["a"]["m"] != c["b"]["m"], lambda: f"refused: {ex!r}")
        return
    age = b.time - c["t0"]
    M = [float(t.mass(age)) for t in tr]
    M0 = [float(t.mass(0.0)) for t in tr]
    a = c["sep"] * (sum(M0) / sum(M) if c["wind"] else 1)
    how = verify_end(c, tr, b, ex, lobes(tr, age, a, c["e"]), 0.01)
    nontrivial(how in ("overflow", "collapse"), how)
    label("compact companion", any(t.co for t in tr))
    label("history", bool(c["hist"]))
    if ex is not None:
        return
    shrink = 1.0
    if how == "overflow":
        shrink = (1 - c["e"] ** 2) if c["am"] else (1 - c["e"])
    else:
        check_close(b.eccentricity, c["e"], "eccentricity", 1e-9, 1e-9)
    check_close(b.separation, a * shrink, "final separation", 3e-3)
    for s, t, cs in ((b.star_1, tr[0], c["a"]), (b.star_2, tr[1], c["b"])):
        if not t.co and cs["w"] > 1e-7:
            I0, I1 = float(t.f["I"](0.0)), s.total_moment_of_inertia
            want = cs["w"] if not c["spin"] else cs["w"] * I0 / I1 * (float(t.mass(age)) / float(t.mass(0.0))) ** (2 / 3 / 0.07)
            # the derivative of the inertia is interpolated; allow for that and the solver tolerance
            check_close(s.surf_avg_omega, want, "spin after winds and expansion", 0.15, 1e-10)
    common(c, tr, b, n0, None)
    check_history(c, tr, b, n0, True)


full = fixed(a=real, b=star, swap=st.booleans(), f=u(-0.15, 1), e=one([0.0]) | u(0, 0.8), t0=one([0.0]) | lu(1e4, 1e9), tm=one([None, None, None]) | u(0.05, 1.5), Tmax=one([1e11]), ev=one(["ZAMS", "redirect_from_CO_HMS_RLO", None]),
             hms=one([True, True, True, False]), am=st.booleans(), hist=one([None, 8, 25]), flip=one([False, False, True]), mb=one(["RVJ83", "M15", "G18", "CARB"]))


@sub("P14", "all_physics", full, quick=160, thorough=3000)
def all_physics(c):
    """All processes on: end conditions, track values, recorded history, and invariance under exchange of the two labels.
    Non-trivial: the step ends in overflow or in collapse."""
    c, tr = prepare(c)
    b = build(c)
    n0 = len(b.time_history)
    kw = dict(track_matcher=matcher(c, b), RLO_orbit_at_orbit_with_same_am=c["am"], magnetic_braking_mode=c["mb"])
    step = detached_step(n_o_steps_history=c["hist"], **kw)
    over0 = initially_over(c, tr)
    if any(abs(o - 1) < 0.01 for o in over0):
        return
    ex = run(step, b)
    if max(over0) >= 1:
        check(b.state == "initial_RLOF" and ex is None, lambda: f"overflowing at the start but {b.state}")
        return
    if type(ex) is POSYDONError:
        # documented only for two stars that end their lives at the same moment with different masses
        check(tr[0].end == tr[1].end and c["a"]["m"] != c["b"]["m"], lambda: f"refused: {ex!r}")
        return
    if ex is None:
        age = b.time - c["t0"]
        if b.state in ("RLO1", "RLO2"):
            e1 = None   # eccentricity before circularisation is not reported; a circular orbit tells the same
            r = lobes(tr, age, b.separation, 0.0)
            i = int(b.state[-1]) - 1
            if c["e"] == 0:
                check(abs(r[i] / 0.95 - 1) < 0.02, lambda: f"overflow at {r[i]} lobe radii")
            check(b.event == "o" + b.state and b.eccentricity == 0, "overflow labels")
            check(r[i] <= 0.97, "the circularised orbit is smaller than the orbit at overflow")
            how = "overflow"
        else:
            how = verify_end(c, tr, b, ex, lobes(tr, age, b.separation, b.eccentricity), 0.02)
            check(0 <= b.eccentricity < 1, "eccentricity out of range")
        nontrivial(how in ("overflow", "collapse"), how)
        common(c, tr, b, n0, None)
        check_history(c, tr, b, n0, False)
    if c["flip"] and (tr[0].end != tr[1].end):
        label("exchanged")
        b2 = build(c, flip=True)
        kw["track_matcher"] = matcher(dict(c, a=c["b"], b=c["a"]), b2)
        ex2 = run(detached_step(**kw), b2)
        check(type(ex) is type(ex2), lambda: f"exchanging the stars: {ex!r} / {ex2!r}")
        sw = {"RLO1": "RLO2", "RLO2": "RLO1", "oRLO1": "oRLO2", "oRLO2": "oRLO1", "CC1": "CC2", "CC2": "CC1"}
        check(sw.get(b.state, b.state) == b2.state and sw.get(b.event, b.event) == b2.event, lambda: f"exchanging the stars: {b.state}/{b.event} becomes {b2.state}/{b2.event}")
        if ex is None:
            check_close(b2.time, b.time, "end time after exchange", 2e-3)
            check_close(b2.separation, b.separation, "separation after exchange", 3e-2)
            check_close(b2.star_2.mass, b.star_1.mass, "mass after exchange", 1e-2)


single = fixed(a=real, b=star, swap=st.booleans(), kind=one(["disrupted", "merged", "initially_single_star", "disrupted"]), t0=one([0.0]) | lu(1e4, 1e9),
               tm=one([None, None]) | u(0.05, 1.5), step=one(["isolated", "disrupted", "single"]), hist=one([None, 6]), ev=one(["ZAMS", None]))


@sub("P14", "isolated", single, quick=160, thorough=3000)
def isolated(c):
    """Disrupted, merged and initially single stars: they follow their own track, keep no orbit, and the companion is not
    touched.  Non-trivial: the star reaches the end of its track."""
    c = dict(c)
    c["a"], c["b"] = zero_age(c, comass(c["a"])), zero_age(c, comass(c["b"]))
    alone = c["kind"] in ("merged", "initially_single_star")
    A = SingleStar(mass=0.0, state="massless_remnant", metallicity=1.0) if alone else make(c["b"])
    S = make(c["a"])
    tr = Track(c["a"])
    other = None if alone else Track(c["b"])
    end = tr.end if other is None else min(tr.end, other.end)
    Tmax = 1e11 if c["tm"] is None else c["t0"] + c["tm"] * end
    b = BinaryStar(star_1=S if c["swap"] else A, star_2=A if c["swap"] else S, state=c["kind"], event=c["ev"], time=c["t0"], separation=None if not alone else np.nan,
                   eccentricity=np.nan, orbital_period=np.nan)
    me, he = (b.star_1, b.star_2) if c["swap"] else (b.star_2, b.star_1)
    me.state, he.state = state_of(c["a"], me), "massless_remnant" if alone else state_of(c["b"], he)
    b.V_sys, b.V_sys_history = [1.0, 2.0, 3.0], [[1.0, 2.0, 3.0]]
    b.get_next_step_name = lambda: "x"
    b.properties = props(Tmax)
    cls = {"isolated": IsolatedStep, "disrupted": DisruptedStep, "single": InitiallySingleStep}[c["step"]]
    place = dict(c, a=c["a"] if c["swap"] else dict(c["b"], k="BH") if alone else c["b"], b=(dict(c["b"], k="BH") if alone else c["b"]) if c["swap"] else c["a"])
    step = cls(track_matcher=matcher(place, b), n_o_steps_history=c["hist"])
    if c["step"] == "single" and c["kind"] != "initially_single_star":
        try:
            step(b)
        except AttributeError:
            return
        check(False, "the initially-single step accepted a binary that is not initially single")
    ex = run(step, b)
    if ex is not None:
        check(type(ex) is POSYDONError and other is not None and tr.end == other.end and c["a"]["m"] != c["b"]["m"], lambda: f"refused: {ex!r}")
        return
    check(all(np.isnan(getattr(b, k)) for k in ("separation", "orbital_period", "eccentricity")), "an isolated star has an orbit")
    age = b.time - c["t0"]
    idx = 1 if c["swap"] else 2
    if Tmax - c["t0"] < end * (1 - 1e-9):
        check(b.event == "maxtime" and b.time == Tmax, lambda: f"{b.event} at {b.time}, maximum {Tmax}")
    elif Tmax - c["t0"] > end * (1 + 1e-9):
        nontrivial(True, "end of life")
        mine = tr.end == end
        tie = other is not None and tr.end == other.end
        check((b.event == f"CC{idx if mine else 3 - idx}" or tie and b.event in ("CC1", "CC2")) and abs(age - end) <= 1e-9 * (b.time + end), lambda: f"{b.event} at age {age}, tracks end at {tr.end}, {other and other.end}")
    check(b.state == c["kind"], lambda: f"state {c['kind']} became {b.state}")
    for s, t, cs in ((me, tr, c["a"]), (he, other, c["b"])):
        if t is None:
            check(s.state == "massless_remnant" and not (s.mass is not None and s.mass > 0), "the massless companion changed")
        elif t.co:
            check(s.mass == cs["m"] and s.state == cs["k"], "the compact companion changed")
        else:
            final = b.event == f"CC{1 if s is b.star_1 else 2}"
            if b.event in ("CC1", "CC2") and not final and other is not None and tr.end == other.end:
                continue
            for k in ("mass", "log_R", "center_he4", "he_core_mass"):
                v = getattr(s, k)
                if final and k in FINALS:
                    check_close(v, FINALS[k] + cs["m"], f"final value {k}", 1e-12)
                else:
                    check(t.near(k, age, v), lambda: f"{k}={v} is not the track value at age {age:.4g}")
    if c["hist"]:
        th = b.time_history[1:]
        check(len(th) == c["hist"] - 1 and all(x < y for x, y in zip([c["t0"]] + th, th + [b.time])), "history times")
        for i, t in enumerate(th):
            check(tr.near("mass", t - c["t0"], me.mass_history[1 + i]), "history mass")
