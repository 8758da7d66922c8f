"""P21 joining, extending and re-loading grids loses and mixes nothing."""
import math
import os

import numpy as np

from core import *
import synth

from posydon.grids.psygrid import PSyGrid, join_grids

OVER = "Terminate because of overflowing initial model"
rn = fixed(p=st.integers(0, 11), flag=one(["max_age", "max_age", "logQ_min_limit", OVER, "ignored_no_RLO", "forced_initial_RLO"]), tabs=st.tuples(*[st.booleans()] * 5), rows=st.integers(1, 4), seed=seeds())
gr = st.lists(rn, min_size=1, max_size=6)
jn = fixed(grids=st.lists(gr, min_size=1, max_size=3), fix=one([False, False, True]), many=st.booleans(), start=st.booleans(), comp=one(["gzip9", "lzf", "gzip", None]), strs=st.lists(one(["mt_history", "S1_state", "S1_CO_type", "S1_SN_type"]), unique=True, max_size=3),
           bad=one([None] * 8 + ["config", "initial", "final", "format"]), path=one(["rel", "sub", "zbase"]), seed=seeds(), lz=st.booleans())
TABS = ["binary_history", "history1", "history2", "final_profile1", "final_profile2"]


def params(p, jit=0):
    m1, m2, P = [3.0, 5.0, 8.0][p % 3], [1.0, 2.0][(p // 3) % 2], [0.8, 20.0][p // 6]
    return m1, m2, P


def mkrun(r, gi, i, c, par=None):
    rng = np.random.default_rng(r["seed"])
    m1, m2, P = par or params(r["p"])
    tables = {}
    for k, on in zip(TABS, r["tabs"]):
        if on:
            t = np.zeros(r["rows"], dtype=[("age", "f8"), ("x", "f8")])
            t["age"] = np.arange(r["rows"])
            t["x"] = rng.random(r["rows"])
            tables[k] = t
    final = dict(star_1_mass=float(rng.random()), S1_log_R=float(rng.random()) if rng.random() > 0.2 else math.nan)
    for k in c["strs"]:
        final[k] = f"str{int(rng.integers(1000))}"
    for k in (1, 2, 3, 4):
        final[f"termination_flag_{k}"] = r["flag"] if k < 3 else f"st{gi}_{i}_{k}"
    final["interpolation_class"] = "cls" + str(i)
    ini = dict(star_1_mass=m1, star_2_mass=m2, period_days=P, Z=0.0142)
    dn = f"Zbase_0.0142_m1_{m1}_m2_{m2}_initial_z_0.0142_initial_period_in_days_{P}_grid_index_{i}"
    pre = {"rel": "", "sub": f"/data/grid{gi}/", "zbase": "/a/new_Z_x/"}[c["path"]]
    return dict(tables=tables, initial=ini, final=final, dir=pre + dn), (m1, m2, P)


def val(x):
    return x.decode() if isinstance(x, bytes) else str(x) if isinstance(x, str) else float(x)


def run_equal(g, i, r, what, over={}):
    for k in TABS:
        t = getattr(g[i], k)
        w = r["tables"].get(k)
        check((t is None) == (w is None), lambda: f"{what}: table {k} {'missing' if t is None else 'appeared'}")
        if w is not None:
            check(t.dtype.names == w.dtype.names and all(np.array_equal(t[n], w[n]) for n in w.dtype.names), f"{what}: table {k} changed")
    for nm, arr in (("initial", g.initial_values), ("final", g.final_values)):
        ref = dict(r[nm], **(over if nm == "final" else {}))
        check(set(arr.dtype.names) == set(ref), lambda: f"{what}: columns of {nm} values {arr.dtype.names}")
        for k, v in ref.items():
            check(same(val(arr[k][i]), v), lambda: f"{what}: {nm} {k} is {arr[k][i]!r}, expected {v!r}")


@sub("P21", "join", jn, quick=400, thorough=2500)
def s_join(c):
    rng = np.random.default_rng(c["seed"])
    with scratch() as d:
        paths, point, allruns = [], {}, []
        for gi, gl in enumerate(c["grids"]):
            runs, seen = [], set()
            for i, r in enumerate(gl):
                run, par = mkrun(r, gi, i, c)
                if par in seen:
                    continue
                seen.add(par)
                runs.append(run)
            if c["many"] and c["fix"]:
                for j in range(26):
                    par = (20.0 + j, 3.0 + gi + (j % 2) * 10, round(float(10 ** rng.uniform(-0.3, 1)), 3))
                    rr = dict(p=0, flag=OVER if rng.random() < 0.85 else "max_age", tabs=(True, False, False, False, False), rows=2, seed=int(rng.integers(1 << 20)))
                    run, par = mkrun(rr, gi, 100 + j, c, par)
                    if par not in seen:
                        seen.add(par)
                        runs.append(run)
            for run in runs:
                par = (run["initial"]["star_1_mass"], run["initial"]["star_2_mass"], run["initial"]["period_days"])
                if run["final"]["termination_flag_1"] == "ignored_no_RLO":
                    point.pop(par, None)
                else:
                    point[par] = run
                allruns.append(run)
            p = os.path.join(d, f"g{gi}.h5")
            kw = dict(initial_RLO_fix=c["fix"], start_at_RLO=c["start"])
            if c["bad"] == "config" and gi == 1:
                kw["start_at_RLO"] = not c["start"]
            if c["bad"] == "format" and gi == 0:
                kw["format"] = "text"
            rs = runs
            if gi == 1 and c["bad"] == "initial":
                rs = [dict(r, initial=dict(r["initial"], extra=1.0)) for r in runs]
            if gi == 1 and c["bad"] == "final":
                rs = [dict(r, final=dict(extra=1.0, **r["final"])) for r in runs]
            synth.write_grid(p, rs, **kw)
            paths.append(p)
        out = os.path.join(d, "joined.h5")
        bad = c["bad"] == "format" or (c["bad"] and len(paths) > 1)
        before = [open(p, "rb").read() for p in paths]
        if not point and not bad:
            return
        try:
            join_grids(paths, out, compression=c["comp"], description="hello", verbose=False)
        except (ValueError, TypeError) as e:
            check(bad, f"grids could not be joined: {e!r}")
            check(not os.path.exists(out), "a refused join left a file")
            return
        check(not bad, f"inconsistent grids ({c['bad']}) were joined")
        check(before == [open(p, "rb").read() for p in paths], "an input grid was changed")
        # initial-overflow boundary from all grids together
        det = {}
        for r in allruns:
            if r["final"]["termination_flag_1"] == OVER:
                k = (r["initial"]["star_1_mass"], r["initial"]["star_2_mass"])
                if k not in det or det[k]["initial"]["period_days"] < r["initial"]["period_days"]:
                    det[k] = r
        g = PSyGrid(out, lazy=c["lz"])
        check(len(g) == len(point), lambda: f"{len(g)} runs, expected {len(point)}")
        dirs = [x.decode() if isinstance(x, bytes) else str(x) for x in g.MESA_dirs]
        byd = {r["dir"]: r for r in point.values()}
        check(sorted(dirs) == sorted(r["dir"] for r in point.values()), "not the right runs")
        for i in range(len(g)):
            par = tuple(float(g.initial_values[k][i]) for k in ("star_1_mass", "star_2_mass", "period_days"))
            check(par in point, "a run that is in no grid")
            r = point[par]
            check(dirs[i] == r["dir"], "run and folder do not belong together")
            over = {}
            if c["fix"] and len(det) >= 20 and r["final"]["termination_flag_1"] not in (OVER, "forced_initial_RLO"):
                ds = sorted(((k[0] - par[0]) ** 2 + (k[1] - par[1]) ** 2, k) for k in det)
                if len(ds) > 1 and ds[0][0] == ds[1][0]:
                    return
                nr = det[ds[0][1]]
                if par[2] < nr["initial"]["period_days"]:
                    over = dict(termination_flag_1="forced_initial_RLO", termination_flag_2="forced_initial_RLO", interpolation_class="initial_MT", termination_flag_3=nr["final"]["termination_flag_3"],
                                termination_flag_4=nr["final"]["termination_flag_4"])
                    label("boundary applied")
            run_equal(g, i, r, f"run {i}", over)
        check(g.config["description"] == "hello" and g.config["compression"] == c["comp"] and g.config["start_at_RLO"] == c["start"] and g.config["initial_RLO_fix"] == c["fix"], "settings of the joined grid")
        nontrivial(len(point) < len(allruns) and len(point) >= 2, "substitution")
        g.close()


# ------------------------------------------------------------- add columns: a history of operations
col = fixed(op=st.just("add"), name=one(["new_a", "new_b", "S1_log_R", "S1_state", "mt_history", "S1_x_type", "my_class", "termination_flag_1"]), kind=one(["auto"]), seed=seeds(), overwrite=st.booleans(), wrong=one([False] * 9 + [True]), lst=st.booleans())
ops = st.lists(st.one_of(col, fixed(op=one(["reload-lazy", "reload-eager", "reopen-lazy", "reopen-eager", "load-lazy"]))), min_size=1, max_size=6)


@sub("P21", "columns-history", fixed(runs=st.lists(rn, min_size=1, max_size=4), ops=ops, lazy=st.booleans(), sn=st.booleans(), comp=one(["gzip9", "lzf", None])), quick=400, thorough=2500)
def s_cols(c):
    cc = dict(strs=["S1_state"], path="sub")
    with scratch() as d:
        p = os.path.join(d, "g.h5")
        runs = [mkrun(dict(r, p=i), 0, i, cc)[0] for i, r in enumerate(c["runs"])]
        n = len(runs)
        sn = {"MODEL01": [dict(S1_state="BH", S1_mass=float(i), S1_SN_type="CCSN") for i in range(n)]} if c["sn"] else None
        synth.write_grid(p, runs, sn=sn, compression=c["comp"])
        model = {k: [r["final"][k] for r in runs] for k in runs[0]["final"]}
        g = PSyGrid(p, lazy=c["lazy"])
        nadd = 0
        for o in c["ops"]:
            if o["op"] == "add":
                rng = np.random.default_rng(o["seed"])
                m = n + 1 if o["wrong"] else n
                isstr = o["name"] in ("S1_state", "mt_history", "S1_x_type", "my_class", "termination_flag_1")
                vals = [f"v{int(rng.integers(10 ** 6))}" for _ in range(m)] if isstr else [float(x) for x in rng.normal(size=m)]
                arr = vals if o["lst"] else np.array(vals)
                exists = o["name"] in model
                try:
                    g.add_column(o["name"], arr, overwrite=o["overwrite"])
                except Exception as e:
                    check(o["wrong"] or (exists and not o["overwrite"]), f"adding {o['name']} failed: {e!r}")
                else:
                    check(not o["wrong"], "a column of the wrong length was accepted")
                    check(not exists or o["overwrite"], "an existing column was overwritten without being asked to")
                    model[o["name"]] = vals
                    nadd += 1
            elif o["op"].startswith("reopen"):
                g.close()
                g = PSyGrid(p, lazy=o["op"].endswith("lazy"))
            else:
                g.close()
                g.load(lazy=o["op"].endswith("lazy"))
            compare(g, runs, model, "after " + o["op"])
        g.close()
        g = PSyGrid(p)
        compare(g, runs, model, "in the file")
        if sn:
            for i in range(n):
                dd = g[i].get_SN_data("MODEL01")
                check(dd is not None and same({k: val(v) for k, v in dd.items()}, sn["MODEL01"][i]), "supernova data changed")
        g.close()
        nontrivial(nadd >= 2 or (nadd and len(c["ops"]) > 2), "history")


def compare(g, runs, model, what):
    check(set(g.final_values.dtype.names) == set(model), lambda: f"{what}: columns {g.final_values.dtype.names}")
    check(len(g) == len(runs), f"{what}: number of runs")
    for k, v in model.items():
        a = g.final_values[k]
        for i in range(len(runs)):
            check(same(val(a[i]), v[i]), lambda: f"{what}: {k}[{i}] is {a[i]!r}, expected {v[i]!r}")
            check(same(val(g[i].final_values[k]), v[i]), f"{what}: run view {k}[{i}]")
    for i, r in enumerate(runs):
        for k in TABS:
            t, w = getattr(g[i], k), r["tables"].get(k)
            check((t is None) == (w is None) and (w is None or np.array_equal(t["x"], w["x"])), f"{what}: table {k} of run {i} changed")
        check(same({k: float(g.initial_values[k][i]) for k in g.initial_values.dtype.names}, r["initial"]), f"{what}: initial values of run {i} changed")
