"""P16 MESA binary grid steps: nearest run, takeover of its results, maximum time, dispatch and label exchange."""
import math
import os
import pickle
import warnings

import numpy as np
import pandas as pd

from core import *
import phys
import synth

from posydon.binary_evol.MESA import step_mesa as SM
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.grids.SN_MODELS import SN_MODELS
from posydon.interpolation.interpolation import psyTrackInterp
from posydon.utils import common_functions as cf
from posydon.utils.posydonerror import FlowError, GridError

STEP = {"HMS_HMS": SM.MS_MS_step, "HMS_HMS_RLO": SM.HMS_HMS_RLO_step, "CO_HMS_RLO": SM.CO_HMS_RLO_step, "CO_HeMS": SM.CO_HeMS_step, "CO_HeMS_RLO": SM.CO_HeMS_RLO_step}
MODELS = list(SN_MODELS)[:2]
SNKEYS = ["f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"]
BMAP = {"separation": "binary_separation", "orbital_period": "period_days", "rl_relative_overflow_1": "rl_relative_overflow_1", "rl_relative_overflow_2": "rl_relative_overflow_2",
        "lg_mtransfer_rate": "lg_mtransfer_rate", **{k: k for k in synth.BH_EXTRA}}
SMAP = {"lg_mdot": "lg_mstar_dot", "lg_system_mdot": "lg_system_mdot", "lg_wind_mdot": "lg_wind_mdot"}
SKIP = ("state", "metallicity", "profile", "mass", "avg_c_in_c_core") + tuple(SMAP)
SKEYS = [k for k in STARPROPERTIES if k not in SKIP]


class FakeIF:
    """Stands for a trained interpolator in the pickled list the step loads."""
    interp_in_q = True

    def __init__(self, fv, classes):
        self.fv, self.classes = fv, classes

    def evaluate(self, binary, sanitization_verbose=False):
        return dict(self.fv), dict(self.classes)


def make(c, d, kind=None, classes=None, mask=()):
    """Grid file in d; returns the runs."""
    rng = np.random.default_rng(c["g"])
    runs = synth.binary_runs(kind or c["kind"], c["n"], rng, classes=classes)
    for r in runs:
        for j in (1, 2):
            t = r["tables"].get(f"history{j}")
            if t is not None:
                miss = [{"spin": "spin_parameter"}.get(k, k) for k in SKEYS]
                miss = [k for k in miss if k not in t.dtype.names]
                new = {k: t[k] for k in t.dtype.names}
                new.update({k: rng.uniform(0.1, 1, len(t)) for k in miss})
                r["tables"][f"history{j}"] = synth.rec(new)
    runs[0]["cls"] = runs[0]["final"]["interpolation_class"] = "no_MT" if classes is None else classes[0]
    for i in mask:
        if 0 < i < len(runs):
            runs[i]["final"]["interpolation_class"] = runs[i]["cls"] = "not_converged"
    synth.write_grid(os.path.join(d, "1e+00_Zsun.h5"), runs, sn={m: [{k: (v + j if k.endswith("_mass") else v) for k, v in r["sn"].items()} for r in runs] for j, m in enumerate(MODELS)})
    return runs


def nearest(runs, m1, m2, P, in_q):
    """Valid runs in order of distance."""
    def X(a, b, p):
        return np.array([math.log10(a), b / a if in_q else math.log10(b), math.log10(p)])
    x = X(m1, m2, P)
    out = [(float(np.linalg.norm(X(*[r["initial"][k] for k in ("star_1_mass", "star_2_mass", "period_days")]) - x)), i) for i, r in enumerate(runs) if r["cls"] != "not_converged"]
    return sorted(out)


nn_s = fixed(kind=one(list(STEP)), g=seeds(), n=st.integers(2, 12), m1=lu(1, 80), m2=lu(0.3, 60), P=lu(0.1, 5000), mask=st.lists(st.integers(1, 11), max_size=4), q=st.booleans(), at=one([False, False, True]), i=st.integers(0, 11))


class Obj:
    pass


@sub("P16", "nearest", nn_s, quick=100, thorough=2500)
def nearest_run(c):
    """The run returned for any binary is a valid run of minimal distance (log masses and period, linear mass ratio), with its
    differences and flags.  Non-trivial: some runs are excluded or the binary is not a grid point."""
    with scratch() as d:
        runs = make(c, d, mask=c["mask"])
        it = psyTrackInterp(os.path.join(d, "1e+00_Zsun.h5"), interp_in_q=c["q"])
        try:
            it.train()
            m1, m2, P = c["m1"], c["m2"], c["P"]
            if c["at"]:
                m1, m2, P = [runs[c["i"] % len(runs)]["initial"][k] for k in ("star_1_mass", "star_2_mass", "period_days")]
            b = Obj()
            b.star_1, b.star_2, b.orbital_period = Obj(), Obj(), P
            b.star_1.mass, b.star_2.mass = m1, m2
            run, dist, flags = it.evaluate(b)
            want = nearest(runs, m1, m2, P, c["q"])
            nontrivial(not c["at"] or len(want) < len(runs), "excluded" if len(want) < len(runs) else "all valid")
            got = [i for i, r in enumerate(runs) if r["initial"]["star_1_mass"] == float(run.initial_values["star_1_mass"])]
            check(len(got) == 1 and got[0] in [i for x, i in want if x <= want[0][0] + 1e-9], lambda: f"run {got} is not the nearest valid one {want[0]}")
            r = runs[got[0]]
            for a, k, v in zip(dist, ("star_1_mass", "star_2_mass", "period_days"), (m1, m2, P)):
                check_close(a, v - r["initial"][k], f"difference in {k}", 1e-9, 1e-12)
            check([str(f) for f in flags] == [r["final"][k] for k in ("interpolation_class", "termination_flag_2", "mt_history")], lambda: f"flags {flags}")
            check(np.array_equal(run.binary_history["age"], r["tables"]["binary_history"]["age"]), "tables of another run")
            if c["n"] % 3 == 0:
                it.save(os.path.join(d, "trained.pkl"))
                again = psyTrackInterp(os.path.join(d, "1e+00_Zsun.h5"), interp_in_q=not c["q"])
                try:
                    again.load(os.path.join(d, "trained.pkl"))
                    run2, dist2, flags2 = again.evaluate(b)
                    check(float(run2.initial_values["star_1_mass"]) == float(run.initial_values["star_1_mass"]) and np.array_equal(dist, dist2), "a saved and loaded look-up gives another run")
                finally:
                    again.close()
                label("saved and loaded")
        finally:
            it.close()


def mirror_name(s):
    if not isinstance(s, str):
        return s
    return {"RLO1": "RLO2", "RLO2": "RLO1", "CC1": "CC2", "CC2": "CC1", "oRLO1": "oRLO2", "oRLO2": "oRLO1", "oCE1": "oCE2", "oCE2": "oCE1", "oDoubleCE1": "oDoubleCE2",
            "oDoubleCE2": "oDoubleCE1"}.get(s, s)


def mirror_case(s):
    if isinstance(s, str) and s.startswith("case_"):
        return s[:-1] + {"1": "2", "2": "1"}[s[-1]]
    return s


DONOR = {"HMS_HMS": ["H-rich_Core_H_burning"], "HMS_HMS_RLO": ["H-rich_Core_H_burning", "H-rich_Shell_H_burning", "H-rich_Core_He_burning"],
         "CO_HMS_RLO": ["H-rich_Core_H_burning", "H-rich_Core_He_burning", "H-rich_Core_He_depleted"], "CO_HeMS": ["stripped_He_Core_He_burning", "stripped_He_Core_He_depleted"]}
DONOR["CO_HeMS_RLO"] = DONOR["CO_HeMS"]


def binary(kind, m1, m2, P, e, t, flip, state1=None, spin=0.1, tmax=1.4e10, nh=1, event="default", state2=None, seed=0, vsys=(1.0, -2.0, 3.0)):
    """Binary entering the grid step of `kind`; star 1 (of the grid) is the star or donor.  flip: stored as star 2."""
    rng = np.random.default_rng(seed)
    he, co = "HeMS" in kind, kind.startswith("CO")
    k1, _ = synth.star_at(m1, 0.05, he=he)
    k1.update(mass=m1, he_core_mass=m1 if he else 0.0)
    s1 = SingleStar(**k1)
    st1 = state1 or DONOR[kind][0]
    if co:
        s2 = SingleStar(mass=m2, state="BH" if m2 > 2.5 else "NS", metallicity=1.0, spin=spin)
        st2 = state2 or ("BH" if m2 > 2.5 else "NS")
    else:
        k2, _ = synth.star_at(m2, 0.05)
        k2.update(mass=m2)
        s2 = SingleStar(**k2)
        st2 = state2 or "H-rich_Core_H_burning"
    if event == "default":
        event = {"HMS_HMS": "ZAMS", "CO_HeMS": None}.get(kind, "oRLO2" if flip else "oRLO1")
    state = {"HMS_HMS": "detached", "CO_HeMS": "detached"}.get(kind, "RLO2" if flip else "RLO1")
    prop = SimulationProperties(flow=({}, {}), max_simulation_time=tmax)
    stars = dict(star_1=s2, star_2=s1) if flip else dict(star_1=s1, star_2=s2)
    b = BinaryStar(**stars, state=state, event=event, time=t, orbital_period=P, separation=phys.kepler_a(P, m1, m2), eccentricity=e, V_sys=list(vsys))
    a, o = (b.star_2, b.star_1) if flip else (b.star_1, b.star_2)
    a.state, o.state = st1, st2
    o.spin = spin
    for x in (a, o):
        x.state_history = [x.state]
        x.spin_history = [x.spin]
    b.properties = prop
    for _ in range(nh - 1):
        b.append_state()
    return b


def steps(c, d, **kw):
    return STEP[c["kind"]](metallicity=1.0, grid_path=d, **kw)


step_s = fixed(kind=one(["HMS_HMS", "HMS_HMS", "HMS_HMS_RLO", "CO_HMS_RLO", "CO_HeMS", "CO_HeMS_RLO"]), g=seeds(), n=st.integers(3, 7), i=st.integers(0, 6), j=u(0.97, 1.03), flip=st.booleans(), t=one([0.0]) | lu(1e4, 1e8),
               cut=one([None, None, 1.0]) | u(0.0, 1.0), track=one([False, False, True]), save=one([True, True, True, False]), spin=u(0, 0.9), nh=st.integers(1, 3), snk=st.integers(0, 8))


def run_expect(r, kind, b0, x=None):
    """Expected values (grid labels) at the end of the run, or at x=(i, w) between rows i and i+1."""
    bh = r["tables"]["binary_history"]

    def at(col):
        if x is None:
            return float(col[-1])
        return float(col[x[0]] + x[1] * (col[x[0] + 1] - col[x[0]]))
    B = {k: at(bh[v]) for k, v in BMAP.items()}
    S = []
    for j in (1, 2):
        h = r["tables"].get(f"history{j}")
        s = {"mass": at(bh[f"star_{j}_mass"])}
        if h is not None:
            s.update({k: at(h[{"spin": "spin_parameter"}.get(k, k)]) for k in SKEYS})
            s.update({k: at(bh[f"{v}_{j}"]) for k, v in SMAP.items()})
        S.append(s)
    return B, S


def classify(s, co):
    o = SingleStar(**{k: v for k, v in s.items() if k in STARPROPERTIES}, metallicity=1.0)
    return cf.check_state_of_star(o, star_CO=co)


def classify_binary(B, S, states, cls):
    o = Obj()
    for k in ("lg_mtransfer_rate", "rl_relative_overflow_1", "rl_relative_overflow_2"):
        setattr(o, k, B[k])
    for j in (0, 1):
        s = Obj()
        s.state, s.center_gamma = states[j], S[j].get("center_gamma")
        setattr(o, f"star_{j + 1}", s)
    return cf.get_binary_state_and_event_and_mt_case(o, cls)


@sub("P16", "step", step_s, quick=240, thorough=6000)
def step(c):
    """One step of any MESA grid with the nearest run: result, history, maximum time and exchanged labels.
    Non-trivial: the stars are stored in the opposite order, or the step is cut by the maximum time."""
    with scratch() as d:
        runs = make(c, d)
        in_q = c["kind"].startswith("HMS")
        s = steps(c, d, track_interpolation=c["track"], save_initial_conditions=c["save"])
        try:
            r = runs[c["i"] % len(runs)]
            m1, m2, P = r["initial"]["star_1_mass"], r["initial"]["star_2_mass"] * (c["j"] if not in_q else min(c["j"], 1 / 0.99)), r["initial"]["period_days"] * c["j"]
            ok = [q for q in runs if all(np.isfinite(v) for v in q["initial"].values())]
            lim = {k: (min(q["initial"][k] for q in ok), max(q["initial"][k] for q in ok)) for k in ("star_1_mass", "star_2_mass", "period_days")}
            P = min(max(P, lim["period_days"][0]), lim["period_days"][1])
            if c["kind"] == "HMS_HMS_RLO":
                m2 = r["initial"]["star_2_mass"]
            elif not in_q:
                m2 = min(max(m2, lim["star_2_mass"][0]), lim["star_2_mass"][1])
            flip = c["flip"] and c["kind"] != "HMS_HMS_RLO"
            want = nearest(runs, m1, m2, P, in_q)
            if len(want) > 1 and want[1][0] - want[0][0] < 1e-9:
                return
            r = runs[want[0][1]]
            bh = r["tables"]["binary_history"]
            T = float(bh["age"][-1])
            tmax, x = 1e12, None
            if c["cut"] is not None:
                tmax = c["t"] + bh["age"][0] + c["cut"] * (T - bh["age"][0])
                if tmax < c["t"] + T and r["cls"] not in ("initial_MT",):
                    i = int(np.where(c["t"] + bh["age"] <= tmax)[0][-1])
                    x = (i, (tmax - c["t"] - bh["age"][i]) / (bh["age"][i + 1] - bh["age"][i]))
            b = binary(c["kind"], m1, m2, P, 0.0, c["t"], flip, spin=c["spin"], tmax=tmax, nh=c["nh"])
            star0 = [b.star_2, b.star_1] if flip else [b.star_1, b.star_2]
            met, V = [q.metallicity for q in star0], list(b.V_sys)
            n0 = len(b.time_history)
            mass0 = [q.mass for q in star0]
            s(b)
        finally:
            s._psyTrackInterp.close()
        nontrivial(flip, "exchanged labels")
        nontrivial(x is not None, "maximum time")
        label(c["kind"])
        label(r["cls"])
        G = [b.star_2, b.star_1] if flip else [b.star_1, b.star_2]
        mir = mirror_name if flip else (lambda v: v)
        if r["cls"] == "initial_MT":
            check(b.state == "initial_RLOF" and b.time == c["t"] and [q.mass for q in G] == mass0, lambda: f"initial overflow: {b.state}")
            return
        B, S = run_expect(r, c["kind"], b, x)
        CO = [False, r["co"]]
        # times
        if x is None:
            check_close(b.time, c["t"] + T, "time", 1e-12)
        else:
            check(b.time == tmax, "time at the maximum time")
        for k, v in B.items():
            k2 = k if not flip else k.replace("_1", "_x").replace("_2", "_1").replace("_x", "_2")
            check_close(getattr(b, k2), v, f"binary {k2}", 1e-9, 1e-12)
        check(b.eccentricity == 0.0 and same(list(b.V_sys), V), "eccentricity or systemic velocity changed")
        for a, k, v in zip(b.nearest_neighbour_distance, ("star_1_mass", "star_2_mass", "period_days"), (m1, m2, P)):
            check_close(a, v - r["initial"][k], f"nearest-neighbour distance {k}", 1e-9, 1e-9)
        states = []
        for j, q in enumerate(G):
            check(q.metallicity == met[j], "metallicity changed")
            for k, v in S[j].items():
                check_close(getattr(q, k), v, f"star {j + 1} {k}", 1e-9, 1e-9)
            if CO[j]:
                kind = "BH" if S[j]["mass"] > 2.5 else "NS"
                sp = [cf.spin_stable_mass_transfer(c["spin"], bh["star_2_mass"][0], m) for m in bh["star_2_mass"]]
                sp = sp[-1] if x is None else sp[x[0]] + x[1] * (sp[x[0] + 1] - sp[x[0]])
                check_close(q.spin, sp, "spin of the compact object", 1e-9, 1e-12)
                if x is None:
                    check_close(10 ** q.log_R, cf.CO_radius(S[j]["mass"], kind), "radius of the compact object", 1e-9)
                edd = float(cf.eddington_limit(b, idx=-1)[0])
                low = min(10 ** bh["lg_mstar_dot_2"][-1], edd)
                check(math.isfinite(q.lg_mdot) and (x is not None or low * (1 - 1e-9) <= 10 ** q.lg_mdot <= edd * (1 + 1e-9)), lambda: f"accretion rate {q.lg_mdot}, Eddington {math.log10(edd)}")
                states.append(kind)
            else:
                if x is None:
                    check(q.profile is not None and np.array_equal(q.profile["mass"], r["tables"][f"final_profile{j + 1}"]["mass"]), "final profile")
                    for k in synth.POST:
                        check(same(float(getattr(q, k)), r["final"][f"S{j + 1}_{k}"]), lambda: f"{k}: {getattr(q, k)}")
                    if r["cls"] != "unstable_MT":
                        for mi, m in enumerate(MODELS):
                            got = getattr(q, m)
                            if r["sn"][f"S{j + 1}_CO_type"] == "None":
                                check(got is None, "collapse values without a remnant type")
                            else:
                                check(str(got["state"]) == r["sn"][f"S{j + 1}_CO_type"] and str(got["SN_type"]) == r["sn"][f"S{j + 1}_SN_type"], lambda: f"collapse values {got}")
                                for k in SNKEYS:
                                    check_close(got[k], r["sn"][f"S{j + 1}_{k}"] + (mi if k == "mass" else 0), f"collapse {m} {k}", 1e-12)
                        check(getattr(q, list(SN_MODELS)[-1]) is None, "values of a collapse model the grid does not have")
                states.append(classify(S[j], False))
            check(q.state == states[j], lambda: f"state of star {j + 1}: {q.state}, its properties say {states[j]}")
        bs, be, case = classify_binary(B, S, states, r["cls"] if x is None else None)
        if x is not None or b.time == tmax:
            be = "maxtime"
        else:
            be = mir(be)
        check(b.state == mir(bs) and b.event == be, lambda: f"state {b.state}, event {b.event}, expected {mir(bs)}, {be}")
        check(b.mass_transfer_case == (mirror_case(case) if flip else case), lambda: f"mass transfer case {b.mass_transfer_case}, expected {case} ({'exchanged' if flip else 'direct'})")
        if x is None or True:
            check(str(getattr(b, "interp_class_" + c["kind"])) == r["cls"] and str(getattr(b, "mt_history_" + c["kind"])) == r["final"]["mt_history"], "interpolation class of the grid")
        # histories
        lens = {len(getattr(b, k + "_history")) for k in BINARYPROPERTIES} | {len(getattr(q, k + "_history")) for q in G for k in STARPROPERTIES}
        check(len(lens) == 1, lambda: f"history columns of different length: { {k: len(getattr(b, k + '_history')) for k in BINARYPROPERTIES} } { {k: len(getattr(q, k + '_history')) for q in G for k in STARPROPERTIES} }")
        rows = [0] if c["save"] else []
        if c["track"]:
            rows += list(range(len(bh) - 1)) if x is None else list(range(x[0] + 1))
        n = lens.pop()
        check(n == n0 + len(rows), lambda: f"{n - n0} history entries, expected {len(rows)}")
        for a, i in enumerate(rows):
            k = n0 + a
            check_close(b.time_history[k], c["t"] + bh["age"][i], "time in the history", 1e-12)
            check_close(b.separation_history[k], bh["binary_separation"][i], "separation in the history", 1e-9)
            rl = b.rl_relative_overflow_2_history[k] if flip else b.rl_relative_overflow_1_history[k]
            check_close(rl, bh["rl_relative_overflow_1"][i], "overflow in the history", 1e-9)
            Bi, Si = run_expect(r, c["kind"], b, (i, 0.0)) if i < len(bh) - 1 else run_expect(r, c["kind"], b)
            sti = []
            for j, q in enumerate(G):
                check_close(q.mass_history[k], bh[f"star_{j + 1}_mass"][i], "mass in the history", 1e-9)
                if CO[j]:
                    sti.append("BH" if bh["star_2_mass"][i] > 2.5 else "NS")
                    check(q.state_history[k] == sti[-1], "state of the compact object in the history")
                    edd = float(cf.eddington_limit(b, idx=k)[0])
                    check(10 ** float(q.lg_mdot_history[k]) <= edd * (1 + 1e-9), lambda: f"recorded accretion rate {q.lg_mdot_history[k]} above the Eddington limit {math.log10(edd)}")
                else:
                    check_close(q.log_L_history[k], r["tables"][f"history{j + 1}"]["log_L"][i], "luminosity in the history", 1e-9)
                    check_close(q.lg_mdot_history[k], bh[f"lg_mstar_dot_{j + 1}"][i], "mass change rate in the history", 1e-9)
                    sti.append(classify(Si[j], False))
                    check(q.state_history[k] == sti[-1], lambda: f"state in the history: {q.state_history[k]}, expected {sti[-1]}")
            if not (a == 0 and c["save"]):
                w = classify_binary(Bi, Si, sti, None)
                check(b.state_history[k] == mir(w[0]) and b.event_history[k] == mir(w[1]), lambda: f"recorded state {b.state_history[k]} {b.event_history[k]}, expected {w}")
        label("history rows", len(rows) > 1)


if_s = fixed(kind=one(["HMS_HMS", "HMS_HMS", "CO_HMS_RLO", "CO_HeMS", "CO_HeMS_RLO"]), g=seeds(), n=st.integers(2, 4), i=st.integers(0, 3), j=st.integers(0, 3), flip=st.booleans(), t=one([0.0]) | lu(1e4, 1e8), cut=one([False, False, True]), spin=u(0, 0.9), over=u(0.05, 0.9))


@sub("P16", "interpolated", if_s, quick=80, thorough=2000)
def interpolated(c):
    """The initial-final interpolation mode: whatever the interpolator returns is taken over; beyond the maximum time the nearest
    run is followed instead.  Non-trivial: exchanged labels or maximum time."""
    with scratch() as d:
        runs = make(c, d, classes=["no_MT", "stable_MT", "unstable_MT", "initial_MT"])
        r, src = runs[c["i"] % len(runs)], runs[c["j"] % len(runs)]
        fv = {k: v for k, v in src["final"].items() if not isinstance(v, str)}
        for j in (1, 2):
            h = src["tables"].get(f"history{j}")
            if h is not None:
                fv.update({f"S{j}_{k}": float(h[k][-1]) for k in h.dtype.names})
        cls = {k: v for k, v in src["final"].items() if isinstance(v, str)}
        for mi, m in enumerate(SN_MODELS):
            for j in (1, 2):
                for k, v in src["sn"].items():
                    if k.startswith(f"S{j}_"):
                        q = f"S{j}_{m}_{k[3:]}"
                        if isinstance(v, str):
                            cls[q] = v
                        else:
                            fv[q] = v + (mi if k.endswith("_mass") else 0)
        with open(os.path.join(d, "x.pkl"), "wb") as f:
            pickle.dump([FakeIF(fv, cls)], f)
        T = fv["age"]
        m1, m2, P = (r["initial"][k] for k in ("star_1_mass", "star_2_mass", "period_days"))
        tmax = 1e12
        if c["cut"] and src["cls"] != "initial_MT" and r["cls"] != "initial_MT":
            tr = r["tables"]["binary_history"]["age"]
            tmax = c["t"] + min(T, float(tr[-1])) * c["over"]
            if tmax < c["t"] + float(tr[0]):
                return
        s = steps(c, d, interpolation_method="linear3c_kNN", interpolation_path=d, interpolation_filename="x.pkl")
        try:
            b = binary(c["kind"], m1, m2, P, 0.0, c["t"], c["flip"], spin=c["spin"], tmax=tmax)
            n0 = len(b.time_history)
            V = list(b.V_sys)
            s(b)
        finally:
            s._psyTrackInterp.close()
        flip = c["flip"]
        G = [b.star_2, b.star_1] if flip else [b.star_1, b.star_2]
        mir = mirror_name if flip else (lambda v: v)
        nontrivial(flip, "exchanged labels")
        nontrivial(tmax < 1e12, "maximum time")
        label(src["cls"])
        if tmax < 1e12:
            bh = r["tables"]["binary_history"]
            i = int(np.where(c["t"] + bh["age"] <= tmax)[0][-1])
            B, S = run_expect(r, c["kind"], b, (i, (tmax - c["t"] - bh["age"][i]) / (bh["age"][i + 1] - bh["age"][i])))
            check(b.time == tmax and b.event == "maxtime", lambda: f"{b.time} {b.event}")
            check_close(b.separation, B["separation"], "separation at the maximum time", 1e-9)
            for j, q in enumerate(G):
                check_close(q.mass, S[j]["mass"], "mass at the maximum time", 1e-9)
            return
        if src["cls"] == "initial_MT":
            check(b.state == "initial_RLOF", lambda: f"initial overflow: {b.state}")
            return
        check_close(b.time, c["t"] + T, "time", 1e-12)
        for k, v in BMAP.items():
            k2 = k if not flip else k.replace("_1", "_x").replace("_2", "_1").replace("_x", "_2")
            check_close(getattr(b, k2), fv[v], f"binary {k2}", 1e-12)
        check(b.eccentricity == 0.0 and same(list(b.V_sys), V) and len(b.time_history) == n0, "eccentricity, systemic velocity or history")
        states, S = [], []
        for j, q in enumerate(G):
            s_ = {"mass": fv[f"star_{j + 1}_mass"]}
            check_close(q.mass, s_["mass"], f"mass of star {j + 1}", 1e-12)
            if j == 1 and r["co"]:
                kind = "BH" if s_["mass"] > 2.5 else "NS"
                check_close(q.spin, cf.spin_stable_mass_transfer(c["spin"], m2, s_["mass"]), "spin of the compact object", 1e-9, 1e-12)
                check_close(10 ** q.log_R, cf.CO_radius(s_["mass"], kind), "radius of the compact object", 1e-9)
                edd = float(cf.eddington_limit(b, idx=-1)[0])
                check(min(10 ** fv["lg_mstar_dot_2"], edd) * (1 - 1e-9) <= 10 ** q.lg_mdot <= edd * (1 + 1e-9), "accretion rate")
                states.append(kind)
            else:
                for k in SKEYS:
                    s_[k] = fv[f"S{j + 1}_" + {"spin": "spin_parameter"}.get(k, k)]
                    check_close(getattr(q, k), s_[k], f"star {j + 1} {k}", 1e-12)
                for k, v in SMAP.items():
                    check_close(getattr(q, k), fv[f"{v}_{j + 1}"], f"star {j + 1} {k}", 1e-12)
                for k in synth.POST:
                    if src["cls"] == "unstable_MT" and "He_depletion" in k:
                        check(getattr(q, k) is None, f"{k} after unstable mass transfer")
                    else:
                        check(same(getattr(q, k), fv[f"S{j + 1}_{k}"]), k)
                if src["cls"] != "unstable_MT":
                    for mi, m in enumerate(SN_MODELS):
                        got = getattr(q, m)
                        if src["sn"][f"S{j + 1}_CO_type"] == "None":
                            check(got is None, "collapse values without a remnant type")
                        else:
                            check(got["state"] == src["sn"][f"S{j + 1}_CO_type"] and got["SN_type"] == src["sn"][f"S{j + 1}_SN_type"], "collapse type")
                            for k in SNKEYS:
                                check_close(got[k], src["sn"][f"S{j + 1}_{k}"] + (mi if k == "mass" else 0), f"collapse {m} {k}", 1e-12)
                states.append(classify(s_, False))
            S.append(s_)
            check(q.state == states[j], lambda: f"state of star {j + 1}: {q.state}, expected {states[j]}")
        w = classify_binary({k: fv[BMAP[k]] for k in ("lg_mtransfer_rate", "rl_relative_overflow_1", "rl_relative_overflow_2")}, S, states, src["cls"])
        check(b.state == mir(w[0]) and b.event == mir(w[1]) and b.mass_transfer_case == (mirror_case(w[2]) if flip else w[2]), lambda: f"{b.state} {b.event} {b.mass_transfer_case}, expected {w} ({'exchanged' if flip else 'direct'})")
        check(str(getattr(b, "interp_class_" + c["kind"])) == src["cls"], "interpolation class")


disp_s = fixed(kind=one(["HMS_HMS", "HMS_HMS", "HMS_HMS_RLO", "CO_HMS_RLO", "CO_HeMS", "CO_HeMS_RLO"]), g=seeds(), n=st.integers(2, 5), m1=u(0.01, 0.99) | u(0.01, 0.99) | u(-0.3, 1.3), m2=u(0.01, 0.99) | u(0.01, 0.99) | u(-0.3, 1.3), P=u(0.01, 0.99) | u(-0.3, 1.3), e=one([0.0, 0.3]), flip=st.booleans(),
               what=one(["in", "in", "in", "in", "C", "state", "event"]))


@sub("P16", "dispatch", disp_s, quick=200, thorough=5000)
def dispatch(c):
    """Which binaries a grid step evolves, redirects to the detached step, or refuses, in both label orders.
    Non-trivial: outside the grid in some dimension or exchanged labels."""
    kind = c["kind"]
    with scratch() as d:
        runs = make(c, d, classes=["no_MT"])
        I = {k: np.array([r["initial"][k] for r in runs]) for k in ("star_1_mass", "star_2_mass", "period_days")}

        def pick(v, a):
            lo, hi = math.log10(a.min()), math.log10(a.max())
            return float(10 ** (lo + (hi - lo) * v)) if hi - lo > 0.02 else float(a[0] * 10 ** (0 if 0 <= v <= 1 else v * 0.3))
        m1, m2, P = pick(c["m1"], I["star_1_mass"]), pick(c["m2"], I["star_2_mass"]), pick(c["P"], I["period_days"])
        if not kind.startswith("CO"):
            m2 = m1 * pick(c["m2"], I["star_2_mass"] / I["star_1_mass"])
        flip = c["flip"] and kind != "HMS_HMS_RLO"
        if kind == "HMS_HMS_RLO" and m2 > I["star_2_mass"].max():
            return
        if kind == "HMS_HMS" and m2 > m1:
            m1, m2 = m2, m1
        tiny = 1e-9

        def inside(v, a):
            return None if min(abs(v / a.min() - 1), abs(v / a.max() - 1)) < tiny else a.min() <= v <= a.max()
        ins = [inside(m1, I["star_1_mass"]), inside(m2, I["star_2_mass"]), inside(P, I["period_days"])]
        if kind == "HMS_HMS":
            ins[1] = m2 / m1 >= 0.05 and m2 >= 0.5
        if kind == "HMS_HMS_RLO":
            q = I["star_2_mass"] / I["star_1_mass"]
            ins[1] = q.min() <= m2 / m1 <= q.max() and m2 >= I["star_2_mass"].min()
            if min(abs(m2 / m1 / q.min() - 1), abs(m2 / m1 / q.max() - 1)) < tiny:
                return
        if None in ins:
            return
        kw = {}
        if c["what"] == "C" and kind not in ("HMS_HMS",):
            kw["state1"] = "stripped_He_Core_C_depleted" if "HeMS" in kind else "H-rich_Core_C_depleted"
        if c["what"] == "state":
            kw["state1"] = "massless_remnant"
        if c["what"] == "event":
            kw["event"] = "oCE1"
        b = binary(kind, m1, m2, P, c["e"], 0.0, flip, tmax=1e12, **kw)
        m0 = (b.star_1.mass, b.star_2.mass, b.time)
        s = STEP[kind](metallicity=1.0, grid_path=d)
        err = None
        try:
            s(b)
        except (FlowError, GridError) as ex:
            err = ex
        finally:
            s._psyTrackInterp.close()
        nontrivial(flip or not all(ins), "exchanged" if flip else "outside")
        un = (b.star_1.mass, b.star_2.mass, b.time) == m0
        if c["what"] in ("state", "event"):
            check(isinstance(err, FlowError) and b.state == "ERR", lambda: f"unsupported {c['what']}: {err!r} {b.state}")
        elif "state1" in kw:
            check(err is None and b.event == ("CC2" if flip else "CC1") and un, lambda: f"a star about to collapse: {b.event} {err!r}")
        elif kind == "HMS_HMS" and not ins[2]:
            check(err is None and b.event == "redirect_from_ZAMS" and un, lambda: f"period outside the grid: {b.event} {err!r}")
        elif not ins[2]:
            check(err is None and b.state == "detached" and b.event == "redirect_from_" + kind and un, lambda: f"period outside the grid: {b.state} {b.event} {err!r}")
        elif not (ins[0] and ins[1]):
            label("mass outside")
            check(isinstance(err, GridError) and b.state == "ERR", lambda: f"mass outside the grid: {b.state} {b.event} {err!r} (m1={m1}, m2={m2})")
        elif c["e"] > 0 and kind != "HMS_HMS":
            label("eccentric")
            check(err is None and b.state == "detached" and b.event == "redirect_from_" + kind and un, lambda: f"eccentric orbit: {b.state} {b.event} {err!r}")
        else:
            label("evolved")
            check(err is None and b.time > 0, lambda: f"binary inside the grid not evolved: {b.state} {b.event} {err!r} (m1={m1}, m2={m2})")
