"""P20 a PSyGrid holds exactly what the MESA runs produced."""
import math
import os

import numpy as np

from core import *
import mesadirs as md

from posydon.grids import psygrid as pg
from posydon.grids.psygrid import PSyGrid
from posydon.grids.termination_flags import get_flags_from_MESA_run, infer_interpolation_class, get_flag_from_MESA_output, check_state_from_history

CODES = ["Primary has depleted central carbon", "max_age", None, "logQ_min_limit", "overflow from L2 (R_L2) surface for q(=Macc/Mdon)<1, donor is star 1", "Terminate because of overflowing initial model", "envelope_mass_limit"]
run = fixed(m1=one([3.0, 7.5, 12.0, 40.0, 100.0, 150.0]), q=one([0.2, 0.5, 0.9]), P=one([0.7, 5.0, 40.0, 900.0]), n=st.integers(1, 9), restarts=one([0, 0, 1, 2]), co2=one([False, False, True]),
            rlo=one([None, None, 0, 1, 3, 5]), by=one([1, 2, "rate"]), dep1=one([None, None, 2, 4, 6]), dep2=one([None, None, None, 3, 5]), cdep=st.booleans(),
            no=one([[]] * 8 + [["bh"], ["p1"], ["p1", "p2"], ["h1"], ["h2"]]), gz=st.booleans(), cut=one([None] * 5 + ["bh", "h1", "h2"]), code=one(CODES), seed=seeds())
grid = fixed(runs=st.lists(run, min_size=1, max_size=4), Z=one([0.0142, 0.00142, 0.000142]), cols=one(["tuple"] * 5 + ["minimum", "all", "list"]), start=st.booleans(), stop=st.booleans(), hefix=st.booleans(),
             slim=one([False] * 9 + [True]), ds=one([None, None, 0.05]), comp=one(["gzip9", "gzip", "lzf", None, ""]), single=one([False, False, True]), accept=st.booleans(), maxn=one([None] * 7 + [1, 2]), two=st.booleans())


def spec_of(c, r, i):
    return dict(m1=r["m1"], m2=round(r["m1"] * r["q"], 3), P=r["P"], Z=c["Z"], single=c["single"], co2=r["co2"], seed=r["seed"], restarts=r["restarts"], n=r["n"], rlo=r["rlo"], by=r["by"], dep1=r["dep1"],
                dep2=r["dep2"], cdep=r["cdep"], no=r["no"], gz=r["gz"], cut=r["cut"] if r["restarts"] == 0 else None, code=r["code"])


def columns(c):
    if c["cols"] == "tuple":
        sc = md.STAR_SMALL if not c["single"] else ("model_number", "star_age", "star_mass") + md.STAR_SMALL
        return dict(b=md.BH_SMALL, s=sc, p=md.PROF_SMALL, fb=md.BH_SMALL, fs=md.STAR_SMALL, fp=md.PROF_SMALL + ("junk",))
    s = list(pg.DEFAULT_SINGLE_HISTORY_COLS) if c["single"] else list(pg.DEFAULT_STAR_HISTORY_COLS)
    return dict(b=list(pg.DEFAULT_BINARY_HISTORY_COLS), s=s, p=list(pg.DEFAULT_PROFILE_COLS), fb=pg.DEFAULT_BINARY_HISTORY_COLS, fs=pg.DEFAULT_STAR_HISTORY_COLS, fp=list(pg.DEFAULT_PROFILE_COLS) + ["junk"])


def setup(c, d, idx0=0):
    """Write the runs; returns the expected run dicts by path (later duplicates of the same grid point replace earlier ones)."""
    cc = columns(c)
    exp, point = {}, {}
    bases = [os.path.join(d, "g0"), os.path.join(d, "g1")] if c["two"] else [os.path.join(d, "g0")]
    for b in bases:
        os.makedirs(b)
    groups = [[], []]
    for i, r in enumerate(c["runs"]):
        groups[i % len(bases)].append((i, r))
    used = set()
    for gi, b in enumerate(bases):
        for i, r in groups[gi]:
            s = spec_of(c, r, i)
            key = (s["m1"], None if c["single"] else s["m2"], None if c["single"] else s["P"])
            if (gi, key) in used:
                continue            # the same grid point twice in one folder: which one wins is not defined
            used.add((gi, key))
            run = md.make_run(b, i, s, cc["fs"], cc["fb"], cc["fp"], extra=("spare",))
            if key in point:
                del exp[point[key]]
            point[key] = run["path"]
            exp[run["path"]] = run
    return (bases if c["two"] else bases[0]), exp


def sel(t, cols, all_=False):
    if t is None:
        return None
    names = list(t.dtype.names) if all_ else [n for n in t.dtype.names if n in cols]
    out = np.zeros(len(t), dtype=[(n, "f8") for n in names])
    for n in names:
        out[n] = t[n]
    return out


def expected(c, run):
    """(reason to leave out | None, tables, initial, final, flags)"""
    s = run["spec"]
    cc = columns(c)
    alls = c["cols"] == "all"
    plus = ["spare"] if c["cols"] == "list" else []
    T = md.surviving(run, ["history1"] if c["single"] else ["binary_history", "history1", "history2"])
    bh, h1, h2 = T.get("binary_history"), T.get("history1"), T.get("history2")
    if c["single"] and h1 is None:
        return "no history", None
    if not c["single"] and bh is None:
        return "no binary history", None
    if (len(h1) if c["single"] else len(bh)) == 0:
        return "scrubbed", None
    bh = sel(bh, list(cc["b"]) + plus, alls)
    h1 = sel(h1, list(cc["s"]) + plus, alls)
    h2 = sel(h2, list(cc["s"]) + plus, alls)
    if c["hefix"]:
        for h in (h1, h2):
            if h is not None:
                h["he_core_mass"] = np.maximum(h["he_core_mass"], h["co_core_mass"])
                if "co_core_radius" in h.dtype.names and "he_core_radius" in h.dtype.names:
                    h["he_core_radius"] = np.maximum(h["he_core_radius"], h["co_core_radius"])
    fin = {}
    for k, h in (("S1_", h1), ("S2_", h2)):
        i = None
        if h is not None:
            i = next((j for j in range(len(h)) if h["center_he4"][j] < 0.01 and h["center_c12"][j] >= 0.01 and h["center_h1"][j] < 0.01), None)
        for col in ("avg_c_in_c_core", "co_core_mass"):
            fin[k + col + "_at_He_depletion"] = math.nan if i is None else float(h[col][i])
    new = ""
    n = len(h1) if c["single"] else len(bh)
    if c["stop"] and (not c["single"]) and bh["star_1_mass"][0] >= 100 and h1 is not None and h2 is not None:
        first = {}
        for nm, h in (("Primary", h1), ("Secondary", h2)):
            if h["center_he4"][-1] < 0.01 and h["center_c12"][-1] < 0.1:
                first[nm] = next(j for j in range(n) if h["center_he4"][j] < 0.01 and h["center_c12"][j] < 0.1)
        if first:
            who = min(first, key=lambda w: (first[w], w))
            i = first[who]
            end = i + 1 if i + 2 <= n else i
            bh, h1, h2 = bh[:end], h1[:end], h2[:end]
            new = f"{who} got stopped before central carbon depletion"
            if end == 0:
                return "out of scope", None
    if c["start"] and not c["single"]:
        hit = (bh["rl_relative_overflow_1"] >= 0) | (bh["rl_relative_overflow_2"] >= 0) | (bh["lg_mtransfer_rate"] >= -10)
        if not hit.any():
            return "no RLO", None
        k = int(np.argmax(hit))
        bh = bh[k:].copy()
        h1 = None if h1 is None else h1[k:].copy()
        h2 = None if h2 is None else h2[k:].copy()
        a0 = bh["age"][0]
        bh["age"] -= a0
        for h in (h1, h2):
            if h is not None and "star_age" in h.dtype.names:
                h["star_age"] -= a0
    p1, p2 = run["tables"].get("final_profile1"), run["tables"].get("final_profile2")
    if c["single"] and p1 is None and not c["accept"]:
        return "no profile", None
    p1, p2 = sel(p1, list(cc["p"]) + ([] if c["cols"] != "list" else ["junk"]), alls), sel(p2, list(cc["p"]) + ([] if c["cols"] != "list" else ["junk"]), alls)
    ini = {}
    for pre, t in (("", bh), ("S1_", h1), ("S2_", h2)):
        if t is not None:
            for col in t.dtype.names:
                ini[pre + col] = t[col][0]
                fin[pre + col] = t[col][-1]
    if not c["single"] and not c["start"]:
        H = run["bh_header"]
        ini.update(star_1_mass=H["initial_don_mass"], star_2_mass=H["initial_acc_mass"], period_days=H["initial_period_days"])
        ini["binary_separation"] = md.separation(ini["period_days"], ini["star_1_mass"], ini["star_2_mass"])
    if c["single"]:
        if not c["start"]:
            ini["S1_star_mass"] = run["h1_header"]["initial_m"]
    hd = run.get("h1_header") if h1 is not None else run.get("h2_header") if h2 is not None else None
    if hd is None:
        ini.update(X=math.nan, Y=math.nan, Z=s["Z"])
    else:
        ini.update(Z=hd["initial_Z"], Y=hd["initial_Y"], X=1 - hd["initial_Z"] - hd["initial_Y"])
    if c["single"]:
        flags = {"termination_flag_1": get_flag_from_MESA_output(run["out"]), "termination_flag_3": check_state_from_history(h1, None)}
    else:
        f = get_flags_from_MESA_run(run["out"], binary_history=bh, history1=h1, history2=h2, start_at_RLO=c["start"], newTF1=new)
        flags = {f"termination_flag_{k + 1}": v for k, v in enumerate(f)}
        flags["interpolation_class"] = infer_interpolation_class(*f[:2])
        check(new == "" or flags["termination_flag_1"] == new, "oracle")
    return None, dict(tables=dict(binary_history=bh, history1=h1, history2=h2, final_profile1=p1, final_profile2=p2), initial=ini, final=fin, flags=flags)


def settings(c):
    cc = columns(c)
    k = dict(binary=not c["single"], start_at_RLO=c["start"], stop_before_carbon_depletion=c["stop"], He_core_fix=c["hefix"], compression=c["comp"], history_DS_error=c["ds"], profile_DS_error=c["ds"],
             accept_missing_profile=c["accept"], max_number_of_runs=c["maxn"], description="abc")
    if c["cols"] == "tuple":
        k.update(binary_history_saved_columns=cc["b"], star1_history_saved_columns=cc["s"], star2_history_saved_columns=cc["s"], star1_profile_saved_columns=cc["p"], star2_profile_saved_columns=cc["p"])
    elif c["cols"] == "list":
        k.update(binary_history_saved_columns=["spare"], star1_history_saved_columns=["spare"], star2_history_saved_columns=["spare"], star1_profile_saved_columns=["junk"], star2_profile_saved_columns=["junk"])
    elif c["cols"] == "all":
        k.update({x: "all" for x in ("binary_history_saved_columns", "star1_history_saved_columns", "star2_history_saved_columns", "star1_profile_saved_columns", "star2_profile_saved_columns")})
    return k


def create(path, out, slim, kw):
    g = PSyGrid()
    g.create(path, out, slim=slim, warn="suppress", **kw)
    return g


def decode(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def table_same(a, b, what):
    if b is None:
        check(a is None, f"{what}: exists, but the run has none")
        return
    check(a is not None, f"{what}: missing")
    check(set(a.dtype.names) == set(b.dtype.names), lambda: f"{what}: columns {a.dtype.names} instead of {b.dtype.names}")
    check(len(a) == len(b), lambda: f"{what}: {len(a)} rows instead of {len(b)}")
    for n in b.dtype.names:
        check(np.allclose(a[n], b[n], rtol=1e-12, atol=1e-9, equal_nan=True), lambda: f"{what}: column {n} is {a[n]}, the run has {b[n]}")


def subset(a, b, what):
    """a: downsampled version of b."""
    if b is None or a is None:
        table_same(a, b, what)
        return
    k = "model_number" if "model_number" in b.dtype.names else "mass" if "mass" in b.dtype.names else b.dtype.names[-1]
    pos = []
    for i in range(len(a)):
        j = [x for x in range(len(b)) if all(close(a[n][i], b[n][x], 1e-12, 1e-12) for n in b.dtype.names)]
        check(j, f"{what}: a stored row is not a row of the run")
        pos.append(j[0])
    check(pos[0] == 0 and pos[-1] == len(b) - 1 and all(p < q for p, q in zip(pos, pos[1:])), f"{what}: downsampled rows {pos} of {len(b)}")


def judge(c, g, want, slim=False, ds=None):
    """want: {path: expected dict}; g: loaded grid."""
    dirs = [decode(x) for x in g.MESA_dirs]
    check(len(set(dirs)) == len(dirs), "a run appears twice")
    check(set(dirs) == set(want), lambda: f"runs in the grid {sorted(os.path.basename(x) for x in dirs)}, expected {sorted(os.path.basename(x) for x in want)}")
    check(len(g.initial_values) == len(g.final_values) == len(dirs), "value tables are not one row per run")
    check(len(g) == (0 if slim else len(dirs)), "number of runs")
    for i, p in enumerate(dirs):
        w = want[p]
        if not slim:
            for k, t in w["tables"].items():
                a = getattr(g[i], k)
                (table_same if ds is None else subset)(a, t, f"run {i} {k}")
        for nm, arr, ref in (("initial", g.initial_values, w["initial"]), ("final", g.final_values, {**w["final"], **w["flags"]})):
            for col in arr.dtype.names:
                got = arr[col][i]
                if isinstance(ref.get(col), str):
                    check(decode(got) == ref[col], lambda: f"run {i} {nm} {col}: {got!r} instead of {ref[col]!r}")
                else:
                    check(close(got, ref.get(col, math.nan), 1e-9, 1e-9), lambda: f"run {i} ({os.path.basename(p)}) {nm} {col}: {got!r} instead of {ref.get(col, math.nan)!r}")
            for col in ref:
                check(col in arr.dtype.names or (isinstance(ref[col], float) and ref[col] != ref[col]), f"{nm} values lack {col}")


@sub("P20", "create", grid, quick=120, thorough=1500)
def s_create(c):
    with scratch() as d:
        paths, exp = setup(c, d)
        want, skip, scope = {}, {}, True
        for p, r in exp.items():
            why, w = expected(c, r)
            if why == "out of scope":
                scope = False
            if why:
                skip[p] = why
            else:
                want[p] = w
        if not scope:
            return
        out = os.path.join(d, "sub", "grid.h5")
        any_hist = any(("binary_history" in r["tables"] or "history1" in r["tables"] or "history2" in r["tables"]) for r in exp.values())
        kw = settings(c)
        if not any_hist:
            try:
                create(paths, out, c["slim"], kw).close()
            except FileNotFoundError:
                return
            check(False, "a grid was made from runs without any history")
        if not c["single"] and not any("binary_history" in r["tables"] for r in exp.values()):
            return
        g = create(paths, out, c["slim"], kw)
        if c["maxn"] is not None and c["maxn"] < len(exp):
            dirs = [decode(x) for x in g.MESA_dirs]
            check(len(dirs) <= c["maxn"] and set(dirs) <= set(want), "maximum number of runs")
            want = {k: want[k] for k in dirs}
            label("max runs")
        nontrivial(len(want) >= 2 and bool(skip or any(r["spec"]["restarts"] for r in exp.values())), "several runs")
        label("skipped", bool(skip))
        label("restart", any(exp[p]["spec"]["restarts"] for p in want))
        label("single", c["single"])
        if not want:
            check(len(g.MESA_dirs) == 0, "runs that should be left out are in the grid")
            return
        # columns exist only if some run (in reading order) offers the table
        judge(c, g, want, c["slim"], c["ds"])
        check(all(g.config[k] == v or same(list(g.config[k]), list(v)) for k, v in kw.items()), "settings are not stored with the grid")
        g.close()
        lazy, eager = PSyGrid(out, lazy=True), PSyGrid(out, lazy=False)
        for g2, nm in ((lazy, "lazily"), (eager, "eagerly")):
            judge(c, g2, want, c["slim"], c["ds"])
        check(eager == eager and lazy.__eq__(eager, verbose=False), "lazily and eagerly loaded grids differ")
        df = eager.get_pandas_initial_final()
        check(len(df) == len(want), "data frame length")
        for i, p in enumerate([decode(x) for x in eager.MESA_dirs]):
            for k, v in want[p]["initial"].items():
                if "initial_" + k in df:
                    check(close(df["initial_" + k].iloc[i], v, 1e-9, 1e-9), f"data frame initial_{k}")
            for k, v in want[p]["flags"].items():
                check(decode(df["final_" + k].iloc[i]) == v, f"data frame final_{k}")
        if not c["slim"]:
            check(len([r for r in _iterate(eager)]) == len(want), "iteration does not visit every run once")
            for k in (-1, len(eager)):
                try:
                    eager[k]
                except IndexError:
                    continue
                check(False, f"run index {k} accepted")
        lazy.close(), eager.close()
        try:
            PSyGrid().create(paths, out, overwrite=False, warn="suppress", **kw)
        except FileExistsError:
            pass
        else:
            check(False, "an existing grid was overwritten without being asked to")
        again = PSyGrid(out)
        judge(c, again, want, c["slim"], c["ds"])
        again.close()


def _iterate(g):
    it = iter(g)
    while True:
        try:
            yield next(it)
        except StopIteration:
            return


bnd = fixed(seed=seeds(), start=st.booleans(), nm=st.integers(3, 6), extra=st.integers(5, 25), Z=one([0.0142, 0.00142]), frac=u(0.6, 1.0))


@sub("P20", "initial-overflow", bnd, quick=8, thorough=80)
def s_bnd(b):
    rng = np.random.default_rng(b["seed"])
    c = dict(runs=[], Z=b["Z"], cols="tuple", start=b["start"], stop=False, hefix=True, slim=False, ds=None, comp="lzf", single=False, accept=False, maxn=None, two=False)
    masses = [(round(float(10 ** rng.uniform(0.5, 1.9)), 4), round(float(10 ** rng.uniform(0, 1.2)), 4)) for _ in range(b["nm"] * 6)]
    base = dict(single=False, co2=False, restarts=0, rlo=0 if b["start"] else None, by=1, dep1=None, dep2=None, cdep=False, no=[], gz=False, cut=None, Z=b["Z"])
    runs, i = [], 0
    OVER = "Terminate because of overflowing initial model"
    with scratch() as d:
        g0 = os.path.join(d, "g")
        os.makedirs(g0)
        bound = {}
        def add(m, P, **kw):
            nonlocal i
            s = dict(base, m1=m[0], m2=m[1], P=P, n=int(rng.integers(1, 3)), seed=int(rng.integers(1 << 20)), code="max_age")
            s.update(kw)
            r = md.make_run(g0, i, s, md.STAR_SMALL, md.BH_SMALL, md.PROF_SMALL)
            runs.append(r)
            i += 1
            return r
        for m in masses:
            if rng.random() < b["frac"]:
                for P in sorted(set(np.round(10 ** rng.uniform(-0.5, 1, int(rng.integers(1, 3))), 3))):
                    bound[m] = max(bound.get(m, 0), float(P))
                    add(m, float(P), code=OVER)
        seen = {(r["spec"]["m1"], r["spec"]["m2"], r["spec"]["P"]) for r in runs}
        for _ in range(b["extra"]):
            m = masses[int(rng.integers(len(masses)))]
            P = round(float(10 ** rng.uniform(-1, 1.5)), 3)
            if (*m, P) in seen:
                continue
            seen.add((*m, P))
            add(m, P, no=["bh"] if rng.random() < 0.4 else [], rlo=None if rng.random() < 0.5 else 0)
        det = [(m, P, next(r for r in runs if r["spec"]["code"] == OVER and (r["spec"]["m1"], r["spec"]["m2"]) == m and r["spec"]["P"] == P)) for m, P in bound.items()]
        want, empty = {}, set()
        for r in runs:
            s = r["spec"]
            why, w = expected(c, r)
            applies = len(det) >= 20 and s["code"] != OVER
            if applies:
                near = min(det, key=lambda x: (x[0][0] - s["m1"]) ** 2 + (x[0][1] - s["m2"]) ** 2)
                forced = s["P"] < near[1] * (1 if b["start"] else 1.0000003)
            else:
                forced = False
            if why == "no RLO" and not forced:
                w = dict(tables={k: None for k in ("binary_history", "history1", "history2", "final_profile1", "final_profile2")}, initial=dict(Z=b["Z"], star_1_mass=s["m1"], star_2_mass=s["m2"], period_days=s["P"]),
                         final={}, flags={k: "ignored_no_RLO" for k in ("termination_flag_1", "termination_flag_2", "termination_flag_3", "termination_flag_4", "interpolation_class")})
                why = None
            if forced:
                if why:
                    w = dict(tables={k: None for k in ("binary_history", "history1", "history2", "final_profile1", "final_profile2")}, initial=dict(Z=b["Z"]), final={}, flags={})
                wn = expected(c, near[2])[1]
                w["initial"].update(star_1_mass=s["m1"], star_2_mass=s["m2"], period_days=s["P"])
                w["flags"].update(termination_flag_1="forced_initial_RLO", termination_flag_2="forced_initial_RLO", interpolation_class="initial_MT",
                                  termination_flag_3=wn["flags"]["termination_flag_3"], termination_flag_4=wn["flags"]["termination_flag_4"])
                label("forced, no data", bool(why))
                nontrivial(True, "forced")
                why = None
            if why is None:
                want[r["path"]] = w
        kw = settings(c)
        kw["initial_RLO_fix"] = True
        g = create(g0, os.path.join(d, "grid.h5"), False, kw)
        judge(c, g, want)
        g.close()
        label("boundary", len(det) >= 20)
