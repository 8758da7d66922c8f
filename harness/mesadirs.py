"""Generated MESA run directories (posydon layout) and the tables a PSyGrid should hold for them."""
import gzip
import math
import os

import numpy as np

# state templates: surface_h1, center_h1, center_he4, center_c12, log_LH, log_LHe, log_Lnuc
STATES = {"H": (0.7, 0.5, 0.3, 0.0, 3.0, -20.0, 3.0), "S": (0.7, 0.0, 0.98, 0.0, 3.0, -20.0, 3.0), "He": (0.7, 0.0, 0.5, 0.3, 2.0, 4.0, 4.0),
          "d": (0.7, 0.0, 0.0, 0.3, 2.0, 4.0, 4.0), "c": (0.7, 0.0, 0.0, 0.0, 2.0, 4.0, 4.0)}
SEVEN = ["surface_h1", "center_h1", "center_he4", "center_c12", "log_LH", "log_LHe", "log_Lnuc"]
STAR_SMALL = tuple(SEVEN) + ("he_core_mass", "co_core_mass", "avg_c_in_c_core", "log_R")
BH_SMALL = ("model_number", "age", "star_1_mass", "star_2_mass", "period_days", "binary_separation", "lg_mtransfer_rate", "rl_relative_overflow_1", "rl_relative_overflow_2")
PROF_SMALL = ("mass", "radius", "logRho")
G_CGS, MSUN, RSUN = 6.67428e-8, 1.9892e33, 6.9598e10


def write(path, cols, rows, header, gz=False, cut=None):
    """MESA data file; returns the rows as a reader should see them.  cut: keep only that many columns of the last row."""
    def f(v):
        return str(int(v)) if isinstance(v, (int, np.integer)) else "%.10E" % v if v == v else "NaN"
    L = ["   ".join(str(i + 1) for i in range(len(header))), "   ".join(header), "   ".join(f(v) for v in header.values()), "",
         "   ".join(str(i + 1) for i in range(len(cols))), "   ".join(cols)]
    seen = []
    for i, r in enumerate(rows):
        t = [f(v) for v in r]
        if cut is not None and i == len(rows) - 1:
            L.append("   ".join(t[:cut]))
        else:
            L.append("   ".join(t))
            seen.append(tuple(float(x) for x in t))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = "\n".join(L) + "\n"
    if gz:
        with gzip.open(path + ".gz", "wt") as fh:
            fh.write(data)
    else:
        with open(path, "w") as fh:
            fh.write(data)
    return np.array(seen, dtype=[(k, "f8") for k in cols])


def log_history(rng, n, restarts, m0=1):
    """(log rows, surviving rows) as (model, age, uid)."""
    branch, log, uid = [], [], 0
    m, t = m0, float(rng.uniform(0.5, 5)) * 1e3
    def adv(k):
        nonlocal m, t, uid
        for _ in range(k):
            row = (m, t, uid)
            branch.append(row), log.append(row)
            m += 1
            t += float(rng.uniform(0.1, 3)) * 1e3
            uid += 1
    adv(n)
    for _ in range(restarts):
        k = int(rng.integers(1, len(branch) + 1)) if len(branch) > 1 else 1
        del branch[k:]
        m, t = branch[-1][0] + 1, branch[-1][1] + float(rng.uniform(0.1, 3)) * 1e3
        adv(int(rng.integers(1, n + 1)))
    return log, branch


def dirname(spec, i):
    if spec["single"]:
        return f"initial_mass_{spec['m1']}_initial_z_{spec['Z']}_grid_index_{i}"
    return f"Zbase_{spec['Z']}_m1_{spec['m1']}_m2_{spec['m2']}_initial_z_{spec['Z']}_initial_period_in_days_{spec['P']}_grid_index_{i}"


def make_run(base, i, spec, star_cols, bh_cols, prof_cols, extra=()):
    """Write one run; spec: m1 m2 P Z single co2 seed restarts n rlo(first overflowing row index or None) by(1,2,'rate') dep1 dep2 (rows of He depletion or None), cdep(bool),
    no(set of missing files) gz cut code.  Returns dict(path, raw={}, uids={}, header...)."""
    rng = np.random.default_rng(spec["seed"])
    d = os.path.join(base, dirname(spec, i))
    os.makedirs(d, exist_ok=True)
    log, branch = log_history(rng, spec["n"], spec["restarts"])
    no, gz = spec["no"], spec["gz"]
    models = [r[0] for r in log]
    first = branch[0][0]
    pos = {r[2]: None for r in log}
    ordm = {r[0]: k for k, r in enumerate(branch)}      # model number -> index on the surviving branch (models are consecutive)
    out = dict(path=d, log=log, branch=branch, tables={}, spec=spec)

    def phase(model, dep):
        k = model - first
        if dep is None:
            return "H" if k < 2 else "S" if k < 4 else "He"
        return "H" if k < dep - 1 else "He" if k < dep else ("c" if spec["cdep"] and k > dep else "d")

    def rlo(model):
        return spec["rlo"] is not None and model - first >= spec["rlo"]
    if not spec["single"]:
        cols = ["model_number", "age"] + [c for c in bh_cols if c not in ("model_number", "age")] + list(extra)
        rows = []
        for (m, t, uid) in log:
            v = {"model_number": m, "age": t, "star_1_mass": spec["m1"] * (1 - 0.01 * (m - first)), "star_2_mass": spec["m2"] * (1 + 0.002 * uid), "period_days": spec["P"] * (1 + 0.03 * uid),
                 "binary_separation": 10.0 + uid, "lg_mtransfer_rate": -4.0 if rlo(m) and spec["by"] == "rate" else -99.0,
                 "rl_relative_overflow_1": 0.05 if rlo(m) and spec["by"] == 1 else -0.3, "rl_relative_overflow_2": 0.05 if rlo(m) and spec["by"] == 2 else -0.4}
            rows.append([v[c] if c in v else float(rng.normal()) for c in cols])
        hdr = {"version_number": 11701, "initial_don_mass": spec["m1"] * 1.0000001, "initial_acc_mass": spec["m2"] * 1.0000002, "initial_period_days": spec["P"] * 1.0000003}
        out["bh_header"] = {k: float("%.10E" % v) for k, v in hdr.items()}
        if "bh" not in no:
            cut = None if "bh" != spec["cut"] else 4
            out["tables"]["binary_history"] = write(os.path.join(d, "binary_history.data"), cols, rows, hdr, gz, cut)
    for s in (1, 2):
        if s == 2 and (spec["single"] or spec["co2"]):
            continue
        dep = spec["dep1" if s == 1 else "dep2"]
        cols = ["model_number", "star_age", "star_mass"] + [c for c in star_cols if c not in ("model_number", "star_age", "star_mass")] + list(extra)
        rows = []
        for (m, t, uid) in log:
            v = {"model_number": m, "star_age": t, "star_mass": spec["m1"] * (1 - 0.01 * (m - first))}
            v.update(zip(SEVEN, STATES[phase(m, dep)]))
            v.update(he_core_mass=0.1 * (m - first) + 0.01 * uid, co_core_mass=0.12 * (m - first), avg_c_in_c_core=0.3 + 1e-3 * uid + 0.1 * s, log_R=0.5 + 0.02 * uid,
                     he_core_radius=0.2 + 0.01 * uid, co_core_radius=0.1 + 0.02 * uid)
            rows.append([v[c] if c in v else float(rng.normal()) for c in cols])
        hdr = {"version_number": 11701, "initial_m": spec["m1"] * 1.0000001 if s == 1 else spec["m2"], "initial_Z": spec["Z"], "initial_Y": 0.25 + spec["Z"]}
        out[f"h{s}_header"] = {k: float("%.10E" % v) for k, v in hdr.items()}
        if f"h{s}" not in no:
            cut = None if f"h{s}" != spec["cut"] else 4
            out["tables"][f"history{s}"] = write(os.path.join(d, f"LOGS{s}", "history.data"), cols, rows, hdr, gz, cut)
        if f"p{s}" not in no:
            mm = np.sort(rng.uniform(0, spec["m1"], 6))[::-1]
            pr = [[{"mass": a, "radius": a ** 0.5}.get(c, float(rng.normal())) for c in prof_cols] for a in mm]
            out["tables"][f"final_profile{s}"] = write(os.path.join(d, f"LOGS{s}", "final_profile.data"), list(prof_cols), pr, {"version_number": 11701, "star_mass": 1.0}, gz)
    name = "out_star1_formation_step0.txt" if spec["single"] else "out.txt"
    text = "starting\n" + ("" if spec["code"] is None else f"termination code: {spec['code']}\n") + "done\n"
    if gz:
        with gzip.open(os.path.join(d, name + ".gz"), "wt") as f:
            f.write(text)
    else:
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    out["out"] = os.path.join(d, name + (".gz" if gz else ""))
    with open(os.path.join(d, "inlist_grid_points"), "w") as f:
        if spec["single"]:
            f.write(f"&controls\n initial_mass = {spec['m1']}d0\n/\n")
        else:
            f.write(f"&binary_controls\n m1 = {spec['m1']}d0\n m2 = {spec['m2']}d0\n initial_period_in_days = {spec['P'] / 10}d1\n/\n")
    return out


def separation(P, m1, m2):
    return (G_CGS * (m1 + m2) * MSUN * (P * 86400.0) ** 2 / (4 * math.pi ** 2)) ** (1 / 3) / RSUN


def surviving(run, names):
    """The tables after removal of abandoned branches, restricted to the models all of them hold."""
    tabs = {k: run["tables"].get(k) for k in names}
    keep = None
    for t in tabs.values():
        if t is not None:
            uids = [u for (_m, _t, u) in run["branch"] if u < len(t)]
            ms = {run["log"][u][0] for u in uids}
            keep = ms if keep is None else keep & ms
    out = {}
    for k, t in tabs.items():
        out[k] = None if t is None else t[[u for (m, _t, u) in run["branch"] if u < len(t) and m in keep]]
    return out
