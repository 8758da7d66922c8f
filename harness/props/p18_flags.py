"""P18 termination flags, interpolation classes and the initial-overflow boundary."""
import gzip
import math
import os
from types import SimpleNamespace

import numpy as np

from core import *

from posydon.grids.termination_flags import (get_flag_from_MESA_output, get_mass_transfer_flag, get_flags_from_MESA_run, check_state_from_history,
                                             infer_interpolation_class, get_detected_initial_RLO, get_nearest_known_initial_RLO)

NOISE = ["", " step 1 log_Tmax 8.1", "   termination code: max_age", "save LOGS1/profile8.data", "Terminated early", "terminate: x", "min_timestep_limit dt=1e-12",
         "Reached TPAGB", "binary_step", "xtermination code: nope"]
CODES = ["Primary has depleted central carbon", "max_age", "gamma_center_limit", "overflow from L2 (R_L2) surface for q(=Macc/Mdon)<1, donor is star 1",
         "Terminate because of overflowing initial model", "logQ_min_limit", "Reached maximum mass transfer rate: 1d-1", "offcenter neon ignition for primary", "Reached TPAGB: x", "a: b: c"]
line = st.one_of(fixed(k=st.just("noise"), i=st.integers(0, len(NOISE) - 1)), fixed(k=st.just("noise"), i=st.integers(0, len(NOISE) - 1)),
                 fixed(k=one(["code", "term"]), i=st.integers(0, len(CODES) - 1)), fixed(k=st.just("mts"), i=st.integers(0, 1)), fixed(k=st.just("agb"), i=st.just(0)))
logc = fixed(lines=st.lists(line, max_size=8), gz=st.booleans(), missing=one([0] * 9 + [1, 2]), pad=st.booleans(), bad=st.booleans())


@sub("P18", "mesa-output", logc, quick=500, thorough=5000)
def s_out(c):
    txt, kinds = [], []
    for l in c["lines"]:
        if l["k"] == "noise":
            txt.append(NOISE[l["i"]]), kinds.append(None)
        elif l["k"] == "mts":
            txt.append(["termination code: min_timestep_limit", "Terminate: min_timestep_limit"][l["i"]]), kinds.append(("mts", "min_timestep_limit"))
        elif l["k"] == "agb":
            txt.append("stopping: Reached TPAGB and min_timestep_limit"), kinds.append(("agb", "Reached TPAGB"))
        else:
            t = CODES[l["i"]]
            txt.append(("termination code: " if l["k"] == "code" else "Terminate: ") + t + ("   " if c["pad"] else "")), kinds.append(("code", t))
    # the last decisive line wins; a time-step failure only if nothing else is known
    want = next((k[1] for k in reversed(kinds) if k and k[0] in ("code", "agb")), None)
    if want is None:
        want = "min_timestep_limit" if any(k and k[0] == "mts" for k in kinds) else "reach cluster timelimit"
    with scratch() as d:
        p = os.path.join(d, "out.txt" + (".gz" if c["gz"] else ""))
        data = "\n".join(txt).encode() + (b"\n\xff\xfe garbage" if c["bad"] else b"\n")
        if c["missing"]:
            check(get_flag_from_MESA_output(None if c["missing"] == 1 else p) == "reach cluster timelimit", "missing log")
            return
        (gzip.open if c["gz"] else open)(p, "wb").write(data) if not c["gz"] else None
        if c["gz"]:
            with gzip.open(p, "wb") as f:
                f.write(data)
        got = get_flag_from_MESA_output(p)
    check(got == want, lambda: f"flag {got!r}, log says {want!r}: {txt}")
    nontrivial(sum(k is not None for k in kinds) >= 2)


# -------------------------------------------------- mass-transfer history
# row templates of known state (surface_h1, center_h1, center_he4, center_c12, log_LH, log_LHe, log_Lnuc) -> MT case
STATES = {"A": ((0.7, 0.5, 0.3, 0.0, 3.0, -20.0, 3.0), 1, "H-rich_Core_H_burning"),
          "Bs": ((0.7, 0.0, 0.98, 0.0, 3.0, -20.0, 3.0), 2, "H-rich_Shell_H_burning"),
          "Bc": ((0.7, 0.0, 0.5, 0.3, 2.0, 4.0, 4.0), 2, "H-rich_Core_He_burning"),
          "C": ((0.7, 0.0, 0.0, 0.3, 2.0, 4.0, 4.0), 3, "H-rich_Core_He_depleted"),
          "BA": ((0.0, 0.0, 0.5, 0.3, -20.0, 4.0, 4.0), 4, "stripped_He_Core_He_burning"),
          "BB": ((0.0, 0.0, 0.0, 0.3, -20.0, 4.0, 4.0), 5, "stripped_He_Core_He_depleted"),
          "BC": ((0.0, 0.0, 0.0, 0.0, -20.0, 4.0, 4.0), 5, "stripped_He_Core_C_depleted"),
          "n": ((0.7, 0.7, 0.29, 0.0, -20.0, -20.0, -20.0), 8, "H-rich_non_burning")}
COL = ["surface_h1", "center_h1", "center_he4", "center_c12", "log_LH", "log_LHe", "log_Lnuc"]
CASE = {1: "A", 2: "B", 3: "C", 4: "BA", 5: "BB", 8: "nonburning"}
mtrow = fixed(o=one(["none", "none", "1", "2", "1", "2", "r1", "r2"]), s1=one(list(STATES)), s2=one(list(STATES)), edge=st.booleans())
ERR = ["logQ_min_limit", "min_timestep_limit", "reach cluster timelimit"]
STABLE = ["Primary has depleted central carbon", "Secondary has depleted central carbon", "Primary got stopped before central carbon depletion", "Secondary got stopped before central carbon depletion",
          "Primary enters pair-instability regime", "Secondary enters pair-instability regime", "Primary enters pulsational pair-instability regime", "Secondary enters pulsational pair-instability regime",
          "envelope_mass_limit", "gamma_center_limit", "max_age"]
UNST = ["overflow from L2 (D_L2) distance for q(=Macc/Mdon)>1, donor is star 1", "overflow from L2 (R_L2) surface for q(=Macc/Mdon)<1, donor is star 2",
        "overflow from L2 (R_L2) surface for q(=Macc/Mdon)<1, donor is star 1", "overflow from L2 (R_L2) surface for q(=Macc/Mdon)>1, donor is star 1",
        "overflow from L2 (D_L2) distance for q(=Macc/Mdon)<1, donor is star 1", "overflow from L2 (R_L2) surface for q(=Macc/Mdon)>1, donor is star 2",
        "Reached maximum mass transfer rate: 1d-1", "Reached maximum mass transfer rate: Exceeded photon trapping radius", "Both stars fill their Roche Lobe and at least one of them is off MS",
        "Terminate due to L2 overflow during case A", "Both stars fill their Roche Lobe and t_kh > t_acc", "overflow from L2, t_kh > t_acc and w > w_crit_lim, donor is star 1",
        "overflow from L2, t_kh > t_acc and w > w_crit_lim, donor is star 2"]
INIT = ["forced_initial_RLO", "Terminate because of overflowing initial model"]
mtc = fixed(rows=st.lists(mtrow, min_size=1, max_size=8), quiet=st.booleans(), contact=one([0] * 8 + [1]), start=st.booleans(), flag=one(ERR + STABLE[:4] + UNST[:3] + INIT + [None, None, "max_age", "something else"]),
            co2=one([False, False, True]), com=u(0.8, 20), via=one(["direct", "run", "run-new"]))


def history(rows, key):
    h = np.zeros(len(rows), dtype=[(x, "f8") for x in COL] + [("id", "f8")])
    for i, r in enumerate(rows):
        for k, v in zip(COL, STATES[r[key]][0]):
            h[k][i] = v
    return h


@sub("P18", "mass-transfer-flag", mtc, quick=1500, thorough=20000)
def s_mt(c):
    rows = [dict(r) for r in c["rows"]]
    if c["quiet"]:
        rows[0]["o"] = "none"
    n = len(rows)
    bh = np.zeros(n, dtype=[(k, "f8") for k in ("rl_relative_overflow_1", "rl_relative_overflow_2", "lg_mtransfer_rate", "star_1_mass", "star_2_mass")])
    bh["star_1_mass"] = 10.0
    bh["star_2_mass"] = c["com"]
    for i, r in enumerate(rows):
        r1, r2, lg = -0.5, -0.6, -99.0
        if r["edge"]:
            lg = -10.0            # exactly at the threshold: not transferring
        if r["o"] == "1":
            r1 = 0.05
        elif r["o"] == "2":
            r2 = 0.05
        elif r["o"] == "r1":
            r1, r2, lg = (-0.01, -0.02, -4.0)
        elif r["o"] == "r2":
            r1, r2, lg = (-0.02, -0.01, -4.0)
        bh["rl_relative_overflow_1"][i], bh["rl_relative_overflow_2"][i], bh["lg_mtransfer_rate"][i] = r1, r2, lg
    contact = False
    if c["contact"]:
        bh["rl_relative_overflow_1"][-1] = bh["rl_relative_overflow_2"][-1] = 0.1
        contact = True
    h1 = history(rows, "s1")
    h2 = None if c["co2"] else history(rows, "s2")
    f = c["flag"]
    # the rule
    if f in ERR:
        want = "None"
    elif f in INIT:
        want = "initial_RLOF"
    elif contact:
        want = "contact_during_MS"
    else:
        seq = []
        floor = {1: 0, 2: 0}
        undet = False
        for i, r in enumerate(rows):
            if r["o"] == "none":
                continue
            d = 1 if r["o"] in ("1", "r1") else 2
            if i == 0 and not c["start"]:
                seq = "initial"
                break
            if d == 2 and c["co2"]:
                k = 9
            else:
                k = STATES[r["s1" if d == 1 else "s2"]][1]
            k = max(k, floor[d])
            floor[d] = k
            seq.append((k, d))
        if seq == "initial":
            want = "initial_RLOF"
        elif not seq:
            want = "no_RLOF"
        else:
            red = []
            for x in seq:
                if not red or red[-1] != x:
                    red.append(x)
            want = "case_" + "/".join((CASE[k] if k != 9 else "undetermined_MT") + str(d) for k, d in red)
    if c["via"] == "direct":
        got = get_mass_transfer_flag(bh, h1, h2, start_at_RLO=c["start"], mesa_flag=f)
    else:
        with scratch() as d:
            p = os.path.join(d, "out.txt")
            with open(p, "w") as fh:
                fh.write("x\ntermination code: " + (f or "nothing special") + "\n" if c["via"] == "run" else "termination code: logQ_min_limit\n")
            out = get_flags_from_MESA_run(p, binary_history=bh, history1=h1, history2=h2, start_at_RLO=c["start"], newTF1="" if c["via"] == "run" else (f or "nothing special"))
        check(out[0] == (f or "nothing special"), lambda: f"flag 1 {out[0]!r}")
        got = out[1]
        s2 = ("WD" if c["com"] <= 1.46 and False else None) if c["co2"] else STATES[rows[-1]["s2"]][2]
        check(out[2] == STATES[rows[-1]["s1"]][2], lambda: f"final state of star 1 {out[2]!r}")
        if c["co2"]:
            check(out[3] in ("WD", "NS", "BH") and out[3] == ("BH" if c["com"] > 2.5 else out[3]), lambda: f"final state of the compact object {out[3]!r}")
        else:
            check(out[3] == s2, lambda: f"final state of star 2 {out[3]!r}")
        cl = infer_interpolation_class(out[0], out[1])
        check(cl == klass(out[0], out[1]), lambda: f"class {cl!r} for {out[:2]}")
    check(got == want, lambda: f"mass-transfer flag {got!r}, expected {want!r}")
    nontrivial(want.count("/") >= 1, "several phases")
    label("initial", want == "initial_RLOF")
    label("reverse", "1" in want and "2" in want and "case" in want)


def klass(t1, t2):
    if t1 in INIT or t2 == "initial_RLOF":
        return "initial_MT"
    if t1 in ERR:
        return "not_converged"
    if t2 == "no_RLOF":
        return "no_MT"
    if t1 in STABLE:
        return "stable_reverse_MT" if t2.startswith(("case", "?case")) and any(x.endswith("1") for x in t2.split("/")) and any(x.endswith("2") for x in t2.split("/")) else "stable_MT"
    return "unstable_MT" if t1 in UNST else "unknown"


@sub("P18", "interpolation-class", fixed(t1=one(ERR + STABLE + UNST + INIT + ["", "whatever"]),
                                         t2=one(["no_RLOF", "initial_RLOF", "None", "contact_during_MS", "case_A1", "case_A2", "case_A1/B1", "case_A1/B2", "case_B2/BB2/A1", "?case_C1", "case_A2/B2"])), quick=600, thorough=2000)
def s_cl(c):
    got = infer_interpolation_class(c["t1"], c["t2"])
    check(got == klass(c["t1"], c["t2"]), lambda: f"class {got!r} for {c}")
    nontrivial()


# -------------------------------------------------- initial-overflow boundary
pt = fixed(i=st.integers(0, 5), j=st.integers(0, 5), p=lu(0.1, 100), o=one([True, True, False]))


@sub("P18", "initial-overflow-boundary", fixed(pts=st.lists(pt, min_size=1, max_size=60), q=st.tuples(lu(1, 100), lu(0.3, 100)), eps=one([0.0, 1e-7, 9e-6]), seed=seeds()), quick=300, thorough=4000)
def s_bound(c):
    rng = np.random.default_rng(c["seed"])
    pts = list(c["pts"])
    if c["seed"] % 2:      # enough points to define a boundary
        pts += [dict(i=i, j=j, p=float(10 ** rng.uniform(-1, 1.5)), o=True) for i in range(6) for j in range(6) if rng.random() < 0.8]
    m1 = [1.0, 2.0, 5.0, 10.0, 30.0, 80.0]
    m2 = [0.5, 1.5, 4.0, 8.0, 20.0, 60.0]
    n = len(pts)
    iv = np.zeros(n, dtype=[("star_1_mass", "f8"), ("star_2_mass", "f8"), ("period_days", "f8")])
    fv = np.zeros(n, dtype=[(f"termination_flag_{k}", "U70") for k in (1, 2, 3, 4)])
    best = {}
    for k, p in enumerate(pts):
        iv[k] = (m1[p["i"]] + c["eps"] * rng.random(), m2[p["j"]] + c["eps"] * rng.random(), p["p"])
        fv[k] = ("Terminate because of overflowing initial model" if p["o"] else "max_age", "x", f"s{k}", f"t{k}")
        if p["o"]:
            key = (p["i"], p["j"])
            if key not in best or best[key][0] < p["p"]:
                best[key] = (p["p"], f"s{k}", f"t{k}")
    det = get_detected_initial_RLO(SimpleNamespace(initial_values=iv, final_values=fv))
    check(len(det) == len(best), lambda: f"{len(det)} boundary points, {len(best)} mass combinations overflow")
    for d in det:
        key = (min(range(6), key=lambda i: abs(m1[i] - d["star_1_mass"])), min(range(6), key=lambda j: abs(m2[j] - d["star_2_mass"])))
        w = best[key]
        check((d["period_days"], d["termination_flag_3"], d["termination_flag_4"]) == w, lambda: f"boundary at {key}: {d}, expected {w}")
    q1, q2 = c["q"]
    near = get_nearest_known_initial_RLO(q1, q2, det)
    if len(best) < 20:
        check(near["period_days"] == 0.0, "boundary applied with too few points")
    else:
        dm = min((q1 - d["star_1_mass"]) ** 2 + (q2 - d["star_2_mass"]) ** 2 for d in det)
        got = (q1 - near["star_1_mass"]) ** 2 + (q2 - near["star_2_mass"]) ** 2
        check(got <= dm * (1 + 1e-12), "not the nearest boundary point")
        check(any(near is d or near == d for d in det), "not a detected point")
        nontrivial()
