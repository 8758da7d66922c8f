"""P37: the grid pipeline: every requested product is made once, from the right inputs and after them, and no other file is touched."""
import ast
import contextlib
import csv
import io as _io
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

import h5py
import numpy as np
from hypothesis import strategies as st
from core import sub, one, fixed, nontrivial, label, seeds
from core import check as _check
import mesadirs as md
import synth
from props import p35_postprocess as pp

import posydon
import posydon.config
from posydon.grids import psygrid as pg
from posydon.grids.post_processing import add_post_processed_quantities, post_process_grid
from posydon.grids.psygrid import PSyGrid, join_grids
from posydon.grids.SN_MODELS import SN_MODELS
import posydon.interpolation.IF_interpolation as ifi

PID = "P37"
REPO = os.path.dirname(os.path.dirname(os.path.abspath(posydon.__file__)))
SETUP, RUN = (os.path.join(REPO, "bin", n) for n in ("posydon-setup-pipeline", "posydon-run-pipeline"))
STEPS = {"step_1": "CREATE_GRID_SLICES", "step_2": "COMBINE_GRID_SLICES", "step_3": "CALCULATE_EXTRA_VALUES", "step_4": "TRAIN_INTERPOLATORS", "step_F": "EXPORT_DATASET", "rerun": "RERUN"}
COMMON = ["GRID_TYPES", "METALLICITIES", "GRID_SLICES", "COMPRESSIONS"]
TYPES = {"HMS-HMS": ["LITE", "ORIGINAL"], "CO-HMS_RLO": ["LITE", "ORIGINAL", "LITE_RLO", "ORIGINAL_RLO"], "CO-HeMS": ["LITE", "ORIGINAL", "LITE_RLO", "ORIGINAL_RLO"]}
ZS = ["2e+00_Zsun", "1e+00_Zsun", "4.5e-01_Zsun", "2e-01_Zsun", "1e-01_Zsun", "1e-02_Zsun", "1e-03_Zsun", "1e-04_Zsun"]
SLICES = ["grid_low_res_0", "grid_low_res_1", "rerun_PISN_grid_low_res_combined", "grid_random_1"]
SETS = {"PLOT_AFTER_CREATE": [], "PLOT_AFTER_COMBINE": ["combined_TF12", "termination_flag_1", "termination_flag_2", "termination_flag_3", "termination_flag_4", "rl_relative_overflow_1",
                                                        "rl_relative_overflow_2", "lg_mtransfer_rate"],
        "CHECK_AFTER_CREATE": [], "CHECK_AFTER_COMBINE": ["failure_rate"], "CHECK_AFTER_EXTRA": ["CO_type", "SN_type"], "CHECK_AFTER_TRAINING": []}
PLOTS = {"step_1": ["PLOT_AFTER_CREATE", "termination_flag_1"], "step_2": ["PLOT_AFTER_COMBINE", "LOG10_age"], "step_3": ["S1_SN_MODEL_v2_01_mass", "combined_TF12"], "step_4": ["INTERP_ERROR_age"]}
CHECKS = {"step_1": ["failure_rate", "CHECK_AFTER_CREATE"], "step_2": ["CHECK_AFTER_COMBINE"], "step_3": ["CHECK_AFTER_EXTRA", "failure_rate"], "step_4": ["failure_rate", "CHECK_AFTER_TRAINING"]}


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()) as o, contextlib.redirect_stderr(_io.StringIO()):
        warnings.simplefilter("ignore")
        yield o


@contextlib.contextmanager
def script(argv, cwd):
    """A program of the package, run in this process (without its waiting times)."""
    old, argv0, path, sleep = os.getcwd(), sys.argv, posydon.config.PATH_TO_POSYDON, time.sleep
    sys.argv, posydon.config.PATH_TO_POSYDON, time.sleep = list(argv), REPO, lambda s: None
    os.chdir(cwd)
    try:
        with quiet() as o:
            yield o
    finally:
        os.chdir(old)
        sys.argv, posydon.config.PATH_TO_POSYDON, time.sleep = argv0, path, sleep


def norm(p):
    return os.path.normpath(p)


class Ini:
    """Generated settings of a pipeline, with the files which exist before it is run."""

    def __init__(self, c, d):
        rng = np.random.default_rng(c["seed"])
        pick = lambda xs, lo=1: [xs[i] for i in sorted(rng.choice(len(xs), int(rng.integers(lo, len(xs) + 1)), replace=False))]
        self.d, self.c = d, c
        self.work, self.grids = os.path.join(d, "work"), os.path.join(d, "grids")
        os.makedirs(self.work), os.makedirs(self.grids)
        self.path = "." if c["path"] == "." else os.path.join(d, "files")
        os.makedirs(os.path.join(self.work, self.path), exist_ok=True)
        self.version = c["version"]
        types = [t for t in c["types"]]
        zs = {t: [ZS[i] for i in rng.choice(len(ZS), int(rng.integers(1, 4)), replace=False)] for t in types}
        sl = {t: pick(SLICES) for t in types}
        comp = {t: [TYPES[t][i] for i in rng.permutation(len(TYPES[t]))] if rng.random() < 0.4 else list(TYPES[t]) for t in types}
        rand = {t: "grid_random_1" in sl[t] and len(sl[t]) > 1 for t in types}
        low = {t: [s for s in sl[t] if not (rand[t] and s == "grid_random_1")] for t in types}
        for t in types:
            if rng.random() < 0.5:
                low[t] = [low[t][i] for i in rng.permutation(len(low[t]))]
        g = {"step_1": dict(GRID_SLICES=[sl[t] for t in types], COMPRESSIONS=[comp[t] for t in types], STOP_BEFORE_CARBON_DEPLETION=int(rng.integers(0, 2)))}
        comb = {t: [["low_combined", low[t]]] + ([["low_first", low[t][:1]]] if rng.random() < 0.4 else []) + ([["random_combined", ["grid_random_1"]]] if rand[t] else []) for t in types}
        g["step_2"] = dict(GRID_SLICES=[[x[1] for x in comb[t]] for t in types], GRIDS_COMBINED=[[x[0] for x in comb[t]] for t in types], COMPRESSIONS=[comp[t] for t in types])
        lite = {t: [k for k in comp[t] if k.startswith("LITE")] for t in types}
        g["step_3"] = dict(GRID_SLICES=[[x[0] for x in comb[t]] for t in types], COMPRESSIONS=[lite[t] for t in types],
                           ORIGINAL_COMPRESSIONS=[["ORIGINAL"] if rng.random() < 0.7 else (["LITE"] if rng.random() < 0.5 else []) for t in types])
        g["step_4"] = dict(GRID_SLICES=[["low_combined_processed"] for t in types], COMPRESSIONS=[lite[t] for t in types], INTERPOLATION_METHODS=pick(["linear", "1NN"]),
                           CONTROL_GRIDS=[["random_combined_processed" if rand[t] else ("low_combined" if rng.random() < 0.5 else "")] for t in types])
        g["step_F"] = dict(GRID_SLICES=[["low_combined_processed"] for t in types], COMPRESSIONS=[[k for k in lite[t] if t != "CO-HMS_RLO" or "RLO" in k] for t in types])
        g["rerun"] = dict(GRID_SLICES=[[x[0] for x in comb[t]] for t in types], COMPRESSIONS=[[k for k in lite[t] if "RLO" not in k] for t in types], RERUN_TYPE=str(rng.choice(["PISN", "opacity_max", "LBV_wind"])),
                          CLUSTER=str(rng.choice(["quest", "yggdrasil"])))
        for s, v in g.items():
            v.update(GRID_TYPES=list(types), METALLICITIES=[list(zs[t]) for t in types])
            if rng.random() < 0.15 and len(types) > 1:                      # a step for part of the types
                k = int(rng.integers(0, len(types)))
                for a in list(v):
                    if isinstance(v[a], list) and a != "INTERPOLATION_METHODS":
                        v[a] = v[a][k:k + 1]
            if rng.random() < 0.8:
                v["DROP_MISSING_FILES"] = bool(rng.random() < 0.85)
            if s in PLOTS and rng.random() < 0.6:
                v["CREATE_PLOTS"] = pick(PLOTS[s], 0)
            if s in CHECKS and rng.random() < 0.6:
                v["DO_CHECKS"] = pick(CHECKS[s], 0)
        self.setup = dict(PATH_TO_GRIDS=self.grids + ("/" if rng.random() < 0.5 else ""), VERSION=self.version, PATH=self.path, VERBOSE=bool(rng.integers(0, 2)))
        self.active = [s for s in STEPS if (c["active"] >> list(STEPS).index(s)) & 1]
        if not self.active:
            self.active = ["step_1"]
        for s, a in STEPS.items():
            if s in self.active or rng.random() < 0.7:
                self.setup[a] = s in self.active
        if rng.random() < 0.7:
            self.setup["MAKE_PLOTS"] = bool(rng.random() < 0.7)
        if rng.random() < 0.7:
            self.setup["MAKE_CHECKS"] = bool(rng.random() < 0.7)
        if rng.random() < 0.5:
            self.setup["PLOT_EXTENSION"] = str(rng.choice(["png", "multipage-pdf"]))
        self.account = dict(ACCOUNT="acc", PARTITION="part", WALLTIME="01:00:00", MAILTYPE="ALL", EMAIL="a@b.c")
        if rng.random() < 0.5:
            self.account["GROUP"] = "thegroup"
        for s in list(g):                                                    # sections of steps which are not run may be missing
            if s not in self.active and rng.random() < 0.2:
                del g[s]
        self.full = {s: dict(v) for s, v in g.items()}
        # common keywords may be left out: the ones of the previous active step are taken
        self.sections = {s: dict(v) for s, v in g.items()}
        if c["inherit"]:
            for s in ("step_F", "step_3"):
                before = [a for a in self.active if a in STEPS and list(STEPS).index(a) < list(STEPS).index(s)]
                if s in self.active and before and self.full[s]["GRID_TYPES"] == self.full[before[-1]]["GRID_TYPES"]:
                    for a in ("METALLICITIES", "GRID_TYPES"):
                        if rng.random() < 0.5:
                            del self.sections[s][a]
                            label("keyword of the previous step")
        # what exists
        self.exist = set()
        for t in types:
            for z in zs[t]:
                for x in sl[t]:
                    if rng.random() < 0.85:
                        p = self.p(t, z, x)
                        os.makedirs(p)
                        self.exist.add(p)
                if c["earlier"]:
                    for k in comp[t]:
                        for x in sl[t] + [y[0] for y in comb[t]] + ["low_combined_processed", "random_combined_processed"]:
                            if rng.random() < 0.7:
                                self.file(self.p(t, z, k, x + ".h5"))
                    for m in ("linear", "1NN"):
                        for r in ("", "_RLO"):
                            if rng.random() < 0.7:
                                self.file(self.p(t, z, "interpolation_objects", "IF_" + m + r + ".pkl"))
        lines = []
        for name, v in [("account", self.account), ("pipeline setup", self.setup)] + list(self.sections.items()):
            lines.append("[%s]" % name)
            lines += ["    %s = %r" % kv for kv in v.items()] + [""]
        self.ini = os.path.join(self.work, "pipeline.ini")
        open(self.ini, "w").write("\n".join(lines))

    def p(self, *parts):
        t, rest = parts[0], parts[1:]
        return norm(os.path.join(self.grids, t, self.version, *rest))

    def file(self, p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("x")
        self.exist.add(p)

    def additions(self, s, key, switch):
        out = []
        for x in self.sections.get(s, {}).get(key, []):
            out += SETS.get(x, [x])
        return [] if self.setup.get(switch) is False else out

    def reference(self):
        """{job: tasks} in the words of the documentation; None where a job would have no task."""
        made, jobs = set(self.exist), {}
        for s in STEPS:
            if s not in self.full:
                continue
            k = self.full[s]
            drop = k.get("DROP_MISSING_FILES", False)
            here = lambda *paths: not drop or all(p in made for p in paths)
            rows, new = [], set()
            combos = [(l, t, z, i, x, q) for l, t in enumerate(k["GRID_TYPES"]) for z in k["METALLICITIES"][l] for i, x in enumerate(k["GRID_SLICES"][l]) for q in k["COMPRESSIONS"][l]]
            for l, t, z, i, x, q in combos:
                rlo = "_RLO" if "RLO" in q else ""
                if s == "step_1":
                    r = [dict(path_to_grid=self.p(t, z, x), compression=q, grid_type=t, stop_before_carbon_depletion=str(k["STOP_BEFORE_CARBON_DEPLETION"]), made=self.p(t, z, q, x + ".h5"))]
                elif s == "step_2":
                    parts = [self.p(t, z, q, y + ".h5") for y in x]
                    parts = [y for y in parts if here(y)]
                    r = [dict(parts=parts, made=self.p(t, z, q, k["GRIDS_COMBINED"][l][i] + ".h5"))] if parts else []
                elif s == "step_3":
                    o = (k["ORIGINAL_COMPRESSIONS"][l] or ["ORIGINAL"])[0] + rlo
                    r = [dict(path_to_grid=self.p(t, z, q, x + ".h5"), grid_type=t, path_to_grid_ORIGINAL=self.p(t, z, o, x + ".h5"), path_to_processed_grid=self.p(t, z, q, x + "_processed.h5"))]
                    r[0]["made"] = r[0]["path_to_processed_grid"]
                elif s == "step_4":
                    r = [dict(path_to_grid=self.p(t, z, q, x + ".h5"), grid_type=t, interpolation_method=m + rlo, path_to_interpolator=self.p(t, z, "interpolation_objects", "IF_" + m + rlo + ".pkl"))
                         for m in k["INTERPOLATION_METHODS"]]
                    for y in r:
                        y["made"] = y["path_to_interpolator"]
                elif s == "step_F":
                    to = os.path.join(self.path, "POSYDON_data", t if "RLO" in t else t + rlo)
                    r = [dict(path_to_grid=self.p(t, z, q, x + ".h5"), export_path=norm(os.path.join(to, z + ".h5")))]
                    for m, n in (("linear", "linear3c_kNN"), ("1NN", "1NN_1NN")):
                        r.append(dict(path_to_grid=self.p(t, z, "interpolation_objects", "IF_" + m + rlo + ".pkl"), export_path=norm(os.path.join(to, "interpolators", n, z + ".pkl"))))
                    for y in r:
                        y["made"] = y["export_path"]
                else:
                    r = [dict(path_to_grid=self.p(t, z, q, x + ".h5"), rerun_path=self.p(t, z, "rerun_" + k["RERUN_TYPE"] + "_" + x), grid_type=t, rerun_metallicity=z, rerun_type=k["RERUN_TYPE"], cluster=k["CLUSTER"])]
                    r[0]["made"] = r[0]["rerun_path"]
                for y in r:
                    if s == "step_2" or here(*[y[a] for a in ("path_to_grid", "path_to_grid_ORIGINAL") if a in y]):
                        rows.append(y)
                        new.add(y["made"])
            if s in self.active:
                jobs[s] = rows
                made |= new
            for key, switch, ext in (("CREATE_PLOTS", "MAKE_PLOTS", "_plots"), ("DO_CHECKS", "MAKE_CHECKS", "_checks")):
                todo = self.additions(s, key, switch)
                if not todo:
                    continue
                rows = []
                for l, t, z, i, x, q in combos:
                    rlo = "_RLO" if "RLO" in q else ""
                    g = {"step_2": lambda: k["GRIDS_COMBINED"][l][i], "step_3": lambda: x + "_processed", "step_4": lambda: k["CONTROL_GRIDS"][l][i]}.get(s, lambda: x)()
                    first = k["COMPRESSIONS"][l][0]
                    if g == "" or (ext == "_plots" and q not in first and first not in q):
                        continue
                    for m in (k["INTERPOLATION_METHODS"] if s == "step_4" else [""]):
                        y = dict(path_to_grid=self.p(t, z, q, g + ".h5"))
                        if ext == "_plots":
                            y.update(grid_type=t, quantities_to_plot=sorted(todo), path_to_plot=self.p(t, z, "plots", ("RLO_" if rlo else "") + g), plot_extension=self.setup.get("PLOT_EXTENSION", "pdf"))
                        else:
                            y.update(checks_to_do=sorted(todo))
                        if m:
                            y["path_to_interpolator"] = self.p(t, z, "interpolation_objects", "IF_" + m + rlo + ".pkl")
                        if here(*[y[a] for a in ("path_to_grid", "path_to_interpolator") if a in y]):
                            rows.append(y)
                jobs[s + ext] = rows
        return jobs


def tasks(path, job):
    rows = list(csv.reader(open(path, newline="")))
    if job == "step_2":
        return [dict(parts=[norm(r[i]) for r in rows[1:] if i < len(r) and r[i] != ""], made=norm(h)) for i, h in enumerate(rows[0])]
    out = []
    for r in rows[1:]:
        y = dict(zip(rows[0], r))
        for a in y:
            if a.startswith(("path_to", "export_path", "rerun_path")):
                y[a] = norm(y[a])
            if a in ("quantities_to_plot", "checks_to_do"):
                y[a] = sorted(ast.literal_eval(y[a]))
        out.append(y)
    return out


SBATCH = """#!/bin/bash
n=$(wc -l < "$STANDIN_OUT/sbatch")
echo "$@" >> "$STANDIN_OUT/sbatch"
echo $((1000 + n))
"""
SRUN = """#!/bin/bash
printf '%s\\0' "$@" >> "$STANDIN_OUT/srun"
printf '\\n' >> "$STANDIN_OUT/srun"
"""
RECORD = """#!/bin/bash
echo "$(basename $0)" "$@" >> "$STANDIN_OUT/perm"
"""
key = lambda r: sorted((a, str(b)) for a, b in r.items())


case = fixed(seed=seeds(), types=st.lists(one(list(TYPES)), min_size=1, max_size=3, unique=True), version=one(["", "", "v2"]), path=one([".", ".", "files"]), active=st.integers(1, 63), inherit=st.booleans(), earlier=st.booleans())


@sub(PID, "setup", case, quick=250, thorough=3000)
def setup(c):
    """The submitted jobs have one task per requested product, in an order in which every input is there before it is used."""
    with tempfile.TemporaryDirectory(prefix="vp_", ignore_cleanup_errors=True) as d:
        d = os.path.realpath(d)
        s = Ini(c, d)
        want = s.reference()
        before = {p: open(p).read() for p in s.exist if os.path.isfile(p)}
        err = None
        with script([SETUP, s.ini], s.work):
            try:
                runpy.run_path(SETUP, run_name="__main__")
            except ValueError as e:
                err = e
            except Exception as e:
                check(False, "setting up fails", error="%s: %s" % (type(e).__name__, e))
        empty = [j for j in want if not want[j]]
        if empty:
            label("job without a task")
            check(err is not None, "a job without a task is refused", jobs=empty)
            return
        check(err is None, "setting up is refused", error=str(err))
        check({p: open(p).read() for p in before} == before, "a grid is changed by the setup")
        nontrivial(len(want) > 1)
        for j in want:
            got = tasks(os.path.join(s.work, s.path, j + ".csv"), j)
            ref = [{a: b for a, b in r.items() if a != "made" or j == "step_2"} for r in want[j]]
            a, b = sorted(got, key=key), sorted(ref, key=key)
            check([key(x) for x in a] == [key(x) for x in b], "tasks of a job", job=j, got=[x for x in a if key(x) not in map(key, b)][:2], expected=[x for x in b if key(x) not in map(key, a)][:2], n=(len(a), len(b)))
        # submit
        rec, bin_ = os.path.join(d, "rec"), os.path.join(d, "bin")
        os.makedirs(rec), os.makedirs(bin_)
        for n, t in (("sbatch", SBATCH), ("srun", SRUN), ("chgrp", RECORD), ("chmod", RECORD)):
            p = os.path.join(bin_, n)
            open(p, "w").write(t)
            os.chmod(p, 0o755)
        open(os.path.join(rec, "sbatch"), "w").close()
        env = dict(os.environ, STANDIN_OUT=rec, PATH=bin_ + ":" + os.environ["PATH"])
        r = subprocess.run(["./run_pipeline.sh"], cwd=s.work, env=env, capture_output=True, text=True)
        check(r.returncode == 0 and not r.stderr, "submission", error=r.stderr)
        sub_, anc = {}, {}
        for i, line in enumerate(open(os.path.join(rec, "sbatch")).read().splitlines()):
            name = line.split()[-1]
            check(name.endswith(".slurm") and os.path.isfile(os.path.join(s.work, name)), "submitted file", call=line)
            job = name[:-6]
            check(job not in sub_, "a job is submitted twice", job=job)
            deps = dict((int(n), how) for how, n in re.findall(r"(after\w+):(\d+)", line))
            check(all(1000 <= n < 1000 + i for n in deps), "a dependency on no job", call=line)
            sub_[job] = 1000 + i
            anc[job] = {}
            for n, how in deps.items():
                o = [k for k, v in sub_.items() if v == n][0]
                for k, h in list(anc[o].items()) + [(o, "afterok")]:
                    anc[job][k] = "afterok" if how == "afterok" and h == "afterok" else anc[job].get(k, how)
        work = [j for j in sub_ if not j.endswith("_cleanup")]
        check(set(work) == set(want), "jobs", got=sorted(work), expected=sorted(want))
        order = [x for x in STEPS if x in s.active]
        for j in work:
            base = re.sub("_(plots|checks)$", "", j)
            need = [x for x in order if list(STEPS).index(x) < list(STEPS).index(base) or (x == base and j != x)]
            check(all(anc[j].get(x) == "afterok" for x in need), "a job does not wait for an earlier step", job=j, waits_for=anc[j], steps=need)
        for j in [j for j in sub_ if j.endswith("_cleanup")]:
            o = j[:-8]
            need = [x for x in sub_ if x != j] if o == "pipeline" else [o]
            check(all(x in anc[j] for x in need), "a clean-up does not wait for its job", job=j, waits_for=anc[j], jobs=need)
        check(("pipeline_cleanup" in sub_) == ("GROUP" in s.account), "clean-up of the pipeline", got=sorted(sub_))
        # each task is run once, with its log
        logs = {}
        for j in work:
            text = open(os.path.join(s.work, j + ".slurm")).read()
            head = dict(re.findall(r"#SBATCH --([a-z-]+)[= ](\S+)", text))
            for a, v in (("account", "acc"), ("partition", "part"), ("time", "01:00:00"), ("mail-user", "a@b.c")):
                check(head.get(a) == v, "setting of a job", setting=a, got=head.get(a))
            a, b = (head["array"].split("-") + [head["array"]])[:2]
            check((int(a), int(b)) == (0, len(want[j]) - 1), "tasks submitted", job=j, got=head["array"], n=len(want[j]))
            logs[j] = [norm(os.path.join(s.work, head["output"].replace("%4a", "%04d" % i))) for i in range(len(want[j]))]
            check(all(os.path.isdir(os.path.dirname(p)) for p in logs[j]), "no folder for the log of a job", job=j, log=head["output"])
            i = int(np.random.default_rng(c["seed"]).integers(0, len(want[j])))
            if os.path.exists(os.path.join(rec, "srun")):
                os.remove(os.path.join(rec, "srun"))
            r = subprocess.run(["bash", j + ".slurm"], cwd=s.work, env=dict(env, SLURM_ARRAY_TASK_ID=str(i)), capture_output=True, text=True)
            argv = open(os.path.join(rec, "srun")).read().split("\0")[:-1]
            check(r.returncode == 0 and len(argv) == 6 and argv[0] == "python" and norm(argv[1]) == RUN and norm(argv[2]) == s.grids and norm(os.path.join(s.work, argv[3])) == norm(os.path.join(s.work, s.path, j + ".csv"))
                  and argv[4] == str(i) and argv[5] == str(int(s.setup["VERBOSE"] and "check" not in j)), "command of a task", job=j, got=argv)
        flat = [p for j in logs for p in logs[j]]
        check(len(set(flat)) == len(flat), "two tasks write the same log")
        for p in flat:
            open(p, "w").write("log of %s\n" % p)
        for j in work:
            if j + "_cleanup" in sub_:
                r = subprocess.run(["bash", j + "_cleanup.slurm"], cwd=s.work, env=env, capture_output=True, text=True)
                check(r.returncode == 0, "a clean-up fails", job=j, error=r.stderr)
        text = "".join(sorted(open(os.path.join(a, x)).read() for a, _, b in os.walk(os.path.join(s.work, s.path, "logs")) for x in b))
        check(sorted(text.splitlines()) == sorted("log of %s" % p for p in flat), "logs after the clean-ups", lost=[p for p in flat if "log of %s\n" % p not in text][:3], n=(len(text.splitlines()), len(flat)))
        if "pipeline_cleanup" in sub_:
            subprocess.run(["bash", "pipeline_cleanup.slurm"], cwd=s.work, env=env, capture_output=True)
            perm = [x.split() for x in open(os.path.join(rec, "perm")).read().splitlines()]
            for prog in ("chgrp", "chmod"):
                got = {norm(os.path.join(s.work, x[-1])) for x in perm if x[0] == prog}
                check(all(any(norm(os.path.join(s.work, r["made"])) == g or norm(os.path.join(s.work, r["made"])).startswith(g + os.sep) for g in got) for j in want for r in want[j] if "made" in r),
                      "products which are not given to the group", program=prog, got=sorted(got)[:5])
                check(all(g.startswith(d + os.sep) for g in got), "files of others are given to the group", got=sorted(got)[:5])


def run(grids, table, i, cwd, verbose=0):
    """One task of posydon-run-pipeline; returns its output."""
    with script([RUN, grids, table, str(i), str(verbose)], cwd) as o:
        runpy.run_path(RUN, run_name="__main__")
    return o.getvalue()


def task(*a, **kw):
    try:
        return run(*a, **kw)
    except Exception as e:
        check(False, "a task fails", task=(os.path.basename(a[1]), a[2]), error="%s: %s" % (type(e).__name__, e))


def write_csv(path, head, rows):
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(head)
        w.writerows(rows)
    return path


def content(path):
    """Everything in an HDF5 file."""
    out = {}
    with h5py.File(path, "r") as h:
        def see(name, o):
            out[name] = (o.dtype.names or str(o.dtype), [str(x) for x in o[()].tolist()] if o.shape else str(o[()])) if isinstance(o, h5py.Dataset) else None
            for a, v in o.attrs.items():
                out[name + "@" + a] = str(v)
        h.visititems(see)
        for a, v in h.attrs.items():
            out["@" + a] = str(v)
    return out


def same_file(got, want, what, skip=("@config",), **kw):
    check(os.path.isfile(got), what + ": no file", file=os.path.basename(got), **kw)
    a, b = content(got), content(want)
    for k in sorted(set(a) | set(b)):
        if not any(x in k for x in skip):
            check(k in a and k in b and a[k] == b[k], what, item=k, got=str(a.get(k))[:150], expected=str(b.get(k))[:150], **kw)


def snapshot(d):
    return {os.path.join(a, x): (os.path.getsize(os.path.join(a, x)), os.stat(os.path.join(a, x)).st_mtime_ns) for a, _, b in os.walk(d) for x in b}


def only(before, d, made, what):
    now = snapshot(d)
    other = [p for p in set(before) | set(now) if before.get(p) != now.get(p) and norm(p) not in made]
    check(not other, what + ": another file is changed", files=[os.path.relpath(p, d) for p in other][:4])


def settings(comp, gtype, stop):
    ds = dict(history_DS_error=0.1, profile_DS_error=0.1, profile_DS_interval=-0.005, history_DS_exclude=pg.EXTRA_COLS_DS_EXCLUDE, profile_DS_exclude=pg.EXTRA_COLS_DS_EXCLUDE) if comp.startswith("LITE") else \
        dict(history_DS_error=None, profile_DS_error=None, profile_DS_interval=None, history_DS_exclude=pg.DEFAULT_HISTORY_DS_EXCLUDE, profile_DS_exclude=pg.DEFAULT_PROFILE_DS_EXCLUDE)
    return dict(ds, start_at_RLO="RLO" in comp, stop_before_carbon_depletion=bool(stop) and "HMS" in gtype, compression="gzip9", initial_RLO_fix=True, overwrite=True)


one_run = fixed(m1=one([7.5, 12.0, 40.0, 120.0]), q=one([0.2, 0.5, 0.9]), P=one([0.7, 5.0, 40.0]), n=st.integers(3, 9), rlo=one([None, None, 1, 3]), by=one([1, "rate"]), dep1=one([None, 4, 6]), cdep=st.booleans(),
                code=one(["Primary has depleted central carbon", "max_age", None, "logQ_min_limit"]), seed=seeds())
slices = fixed(type=one(["HMS-HMS", "HMS-HMS", "CO-HMS_RLO", "CO-HeMS"]), runs=st.lists(st.lists(one_run, min_size=1, max_size=2), min_size=1, max_size=2), stop=one([0, 1, 1]), comps=st.lists(one(["LITE", "ORIGINAL", "LITE_RLO", "ORIGINAL_RLO"]),
               min_size=1, max_size=2, unique=True), seed=seeds(), again=st.booleans(), gz=st.booleans(), verbose=one([0, 1]), flip=st.booleans())


@sub(PID, "slices", slices, quick=40, thorough=400)
def s_slices(c):
    """Step 1, 2 and F: each file is what its inputs and its compression give, and nothing else changes; compressed MESA output gives the same files."""
    rng = np.random.default_rng(c["seed"])
    with tempfile.TemporaryDirectory(prefix="vp_", ignore_cleanup_errors=True) as d:
        d = os.path.realpath(d)
        base = os.path.join(d, "grids", c["type"], "1e+00_Zsun")
        ref = os.path.join(d, "ref")
        os.makedirs(base), os.makedirs(ref)
        cols = (list(pg.DEFAULT_STAR_HISTORY_COLS), list(pg.DEFAULT_BINARY_HISTORY_COLS), list(pg.DEFAULT_PROFILE_COLS))
        co = c["type"].startswith("CO")
        for j, rs in enumerate(c["runs"]):
            for i, r in enumerate(rs):
                md.make_run(os.path.join(base, "grid_%d" % j), i, dict(m1=r["m1"], m2=round(r["m1"] * r["q"], 3), P=r["P"], Z=0.0142, single=False, co2=co, seed=r["seed"], restarts=0, n=r["n"], rlo=r["rlo"], by=r["by"],
                                                                     dep1=r["dep1"], dep2=None, cdep=r["cdep"], no=[], gz=False, cut=None, code=r["code"]), *cols)
            open(os.path.join(base, "grid_%d" % j, "grid_parameters.txt"), "w").write("x")
        nontrivial(len(c["runs"]) > 1 or len(c["comps"]) > 1)
        todo = [(j, k) for j in range(len(c["runs"])) for k in c["comps"]]
        table = write_csv(os.path.join(d, "step_1.csv"), ["path_to_grid", "compression", "grid_type", "stop_before_carbon_depletion"], [[os.path.join(base, "grid_%d" % j) + ("/" if c["flip"] else ""), k, c["type"], c["stop"]] for j, k in todo])
        with quiet():
            for n, (j, k) in enumerate(todo):
                g = PSyGrid()
                g.create(os.path.join(base, "grid_%d" % j), os.path.join(ref, "%d.h5" % n), **settings(k, c["type"], c["stop"]))
                g.close()
        if c["gz"]:
            label("compressed MESA output")
            from posydon.utils import compress_mesa_files as cm
            import types
            odd = os.path.join(base, "grid_0", "overshoot_f(1)_0.01 _grid_index_99" if c["flip"] else "x_grid_index_99", "LOGS1")      # not a complete run: files of a run which ended early
            os.makedirs(odd)
            open(os.path.join(odd, "profile1.data"), "w").write("p")
            texts = {p: open(p).read() for p in snapshot(base) if "_grid_index_" in p}
            with quiet():
                cm.compress_dir(types.SimpleNamespace(mesa_dir=base, verbose=False, debug=False, test_dir=None, dsr=0.01))
            import gzip
            for p, t in texts.items():
                q = p if os.path.exists(p) else p + ".gz"
                check(os.path.exists(q) and (open(q).read() if q == p else gzip.open(q, "rt").read()) == t, "a file of a run is lost by the compression", file=os.path.relpath(p, base))
                check(q != p or os.path.splitext(p)[1] not in (".data", ".txt", ".mod"), "output which is not compressed", file=os.path.relpath(p, base))
            shutil.rmtree(os.path.dirname(odd))
        for _ in range(2 if c["again"] else 1):
            for n in rng.permutation(len(todo)):
                j, k = todo[n]
                out = norm(os.path.join(base, k, "grid_%d.h5" % j))
                before = snapshot(d)
                task(os.path.join(d, "grids"), table, n, d, verbose=c["verbose"])
                only(before, d, {out}, "step 1")
                same_file(out, os.path.join(ref, "%d.h5" % n), "step 1", compression=k, grid_type=c["type"])
        # combine, in the order of the table
        order = [int(x) for x in rng.permutation(len(c["runs"]))]
        heads = [os.path.join(base, k, "combined.h5") for k in c["comps"]] + [os.path.join(base, c["comps"][0], "first.h5")]
        parts = [[os.path.join(base, k, "grid_%d.h5" % j) for j in order] for k in c["comps"]] + [[os.path.join(base, c["comps"][0], "grid_%d.h5" % order[0])]]
        height = max(map(len, parts))
        table = write_csv(os.path.join(d, "step_2.csv"), heads, [[p[i] if i < len(p) else "" for p in parts] for i in range(height)])
        for n in rng.permutation(len(heads)):
            before = snapshot(d)
            task(os.path.join(d, "grids"), table, n, d, verbose=c["verbose"])
            only(before, d, {norm(heads[n])}, "step 2")
            with quiet():
                join_grids(parts[n], os.path.join(ref, "j%d.h5" % n), verbose=False)
            same_file(heads[n], os.path.join(ref, "j%d.h5" % n), "step 2", parts=[os.path.basename(p) for p in parts[n]])
        # export
        exp = [os.path.join(d, "out%d.h5" % n) for n in range(len(heads))]
        if c["again"]:
            open(exp[0], "w").write("old")
        table = write_csv(os.path.join(d, "step_F.csv"), ["path_to_grid", "export_path"], list(zip(heads, exp)))
        for n in rng.permutation(len(heads)):
            before = snapshot(d)
            task(os.path.join(d, "grids"), table, n, d)
            only(before, d, {norm(exp[n])}, "step F")
            check(open(exp[n], "rb").read() == open(heads[n], "rb").read(), "an export differs from its source", file=os.path.basename(heads[n]))


extra = fixed(kind=one(["HMS-HMS", "CO-HMS_RLO", "CO-HeMS"]), n=st.integers(1, 4), seed=seeds(), Z=one([1.0, 0.1]), again=st.booleans(), method=one(["linear", "1NN"]), rlo=st.booleans(), verbose=one([0, 1]))


class Recorder:
    """Stands in for the interpolator: what it is given to be trained on."""
    made = {}

    def __init__(self, grid=None, interpolators=None):
        self.grid, self.interpolators, self.trained = getattr(grid, "filepath", None), interpolators, False

    def train(self):
        self.trained = True

    def save(self, path):
        open(path, "w").write("interpolator")
        Recorder.made[norm(path)] = self


@sub(PID, "extra-values", extra, quick=20, thorough=300)
def s_extra(c):
    """Step 3 puts the quantities of the full grid on a copy of the reduced one; the checks count its runs; step 4 trains on all of its quantities."""
    with tempfile.TemporaryDirectory(prefix="vp_", ignore_cleanup_errors=True) as d, quiet():
        d = os.path.realpath(d)
        base = os.path.join(d, "grids", c["kind"], "1e+00_Zsun")
        full, lite, out, ref = (os.path.join(base, *x) for x in (("ORIGINAL", "g.h5"), ("LITE", "g.h5"), ("LITE", "g_processed.h5"), ("..", "ref.h5")))
        os.makedirs(os.path.dirname(full)), os.makedirs(os.path.dirname(lite))
        rng = np.random.default_rng(c["seed"])
        runs = pp.make(c)
        synth.write_grid(full, runs)
        for r in runs:                                                   # the reduced grid: other histories, the same runs
            for t in ("history1", "history2"):
                if t in r["tables"] and r["tables"][t] is not None:
                    keep = np.sort(rng.choice(len(r["tables"][t]), max(2, len(r["tables"][t]) // 2), replace=False)) if len(r["tables"][t]) > 2 else slice(None)
                    r["tables"][t] = r["tables"][t][keep].copy()
                    r["tables"][t]["log_R"] += 0.3
            for p in ("final_profile1", "final_profile2"):
                r["tables"].pop(p, None)
        synth.write_grid(lite, runs)
        shutil.copyfile(lite, ref)
        g = PSyGrid(full, lazy=False)
        dirs, cols = post_process_grid(g, star_2_CO=c["kind"].startswith("CO"))
        g.close()
        g = PSyGrid(ref, lazy=False)
        add_post_processed_quantities(g, dirs, cols)
        g.close()
        table = write_csv(os.path.join(d, "step_3.csv"), ["path_to_grid", "grid_type", "path_to_grid_ORIGINAL", "path_to_processed_grid"], [["/nowhere/a.h5", c["kind"], "/nowhere/b.h5", "/nowhere/c.h5"], [lite, c["kind"], full, out]])
        if c["again"]:
            open(out, "w").write("old")
        before = snapshot(d)
        task(os.path.join(d, "grids"), table, 1, d, verbose=c["verbose"])
        only(before, d, {norm(out)}, "step 3")
        same_file(out, ref, "step 3", skip=["@config"] + ["SN_MODELS/" + m for m in pp.RANDOM])
        g = PSyGrid(out)
        cls = [str(x) for x in g.final_values["interpolation_class"]]
        names = g.final_values.dtype.names
        final = {k: np.array(g.final_values[k]) for k in names}
        sn = {m: {k: list(g.SN_MODELS[m][k]) for k in g.SN_MODELS[m].dtype.names} for m in g.SN_MODELS}
        g.close()
        nontrivial(len(set(cls)) > 1 or any(x == "not_converged" for x in cls))
        # checks
        table = write_csv(os.path.join(d, "step_3_checks.csv"), ["path_to_grid", "checks_to_do"], [[out, "['failure_rate', 'CO_type', 'SN_type']"]])
        before = snapshot(d)
        text = task(os.path.join(d, "grids"), table, 0, d)
        only(before, d, set(), "check")
        m = re.findall(r"Failure rate: ([\d.]+)%", text)
        check(len(m) == 1 and float(m[0]) == round(100.0 * cls.count("not_converged") / len(cls), 2), "failure rate", got=m, classes=cls)
        for mod, ds in sn.items():
            for k in ("S1_CO_type", "S1_SN_type"):
                line = [x for x in text.splitlines() if x.startswith("S1_%s_%s:" % (mod, k[3:]))]
                n = sorted(int(x) for x in re.findall(r": (\d+)[,}]", line[0])) if line else None
                vals = [x.decode() if isinstance(x, bytes) else str(x) for x in ds[k]]
                check(len(line) == 1 and n == sorted(vals.count(x) for x in set(vals)) and all("'%s'" % x in line[0] for x in vals), "counts of a check", column="S1_%s_%s" % (mod, k[3:]), got=line, values=vals)
        # training
        rlo = "_RLO" if c["rlo"] else ""
        to = os.path.join(base, "interpolation_objects", "IF_" + c["method"] + rlo + ".pkl")
        table = write_csv(os.path.join(d, "step_4.csv"), ["path_to_grid", "grid_type", "interpolation_method", "path_to_interpolator"], [[out, c["kind"], c["method"] + rlo, to]])
        real, ifi.IFInterpolator = ifi.IFInterpolator, Recorder
        Recorder.made.clear()
        try:
            before = snapshot(d)
            task(os.path.join(d, "grids"), table, 0, d, verbose=c["verbose"])
            only(before, d, {norm(to)}, "step 4")
        finally:
            ifi.IFInterpolator = real
        check(list(Recorder.made) == [norm(to)] and Recorder.made[norm(to)].trained and norm(Recorder.made[norm(to)].grid) == norm(out), "a trained interpolator is stored", got=list(Recorder.made))
        its = Recorder.made[norm(to)].interpolators
        want = {"stable_MT", "unstable_MT"} | (set() if c["rlo"] else {"no_MT"}) | (set() if c["kind"].startswith("CO") else {"stable_reverse_MT"})
        for n, it in enumerate(its):
            check(len(it["interp_method"]) == len(it["interp_classes"]) == len(set(it["interp_classes"])) and set(it["interp_method"]) <= {c["method"]}, "one method per class", got=(it["interp_method"], it["interp_classes"]))
        check(set(its[0]["interp_classes"]) == want and its[0]["c_key"] == "interpolation_class", "classes of the binary", got=its[0]["interp_classes"], expected=sorted(want))
        check({"interpolation_class", "S1_state", "S2_state", "mt_history"} <= set(its[0]["c_keys"]), "classes of the binary which are predicted", got=its[0]["c_keys"])
        numeric = [k for k in names if final[k].dtype.kind == "f" and k != "model_number"]
        some = {k for k in numeric if not np.isnan(final[k]).all()}
        check(set(its[0]["out_keys"]) == some and set(its[0]["out_nan_keys"]) == set(numeric) - some, "quantities of the binary", lacking=sorted(some - set(its[0]["out_keys"]))[:3], extra=sorted(set(its[0]["out_keys"]) - some)[:3],
              nan=sorted(set(its[0]["out_nan_keys"]) ^ (set(numeric) - some))[:3])
        seen = {}
        for it in its[1:]:
            ks = it["out_keys"] + it["out_nan_keys"]
            mods = {m for m in sn if all(k.startswith("S1_" + m + "_") for k in ks)}
            check(len(mods) == 1, "quantities of a collapse", got=ks[:3])
            m = mods.pop()
            check(m not in seen, "a collapse is trained twice", model=m)
            seen[m] = it
            vals = {k: np.array(v) for k, v in sn[m].items() if k.startswith("S1_")}
            num = {"S1_" + m + "_" + k[3:]: v for k, v in vals.items() if v.dtype.kind == "f"}
            some = {k for k, v in num.items() if not np.isnan(v).all()}
            check(set(it["out_keys"]) == some and set(it["out_nan_keys"]) == set(num) - some, "quantities of a collapse", model=m, got=ks[:4])
            co = {x.decode() if isinstance(x, bytes) else str(x) for x in sn[m]["S1_CO_interpolation_class"]}
            check(set(it["interp_classes"]) == co & {"BH", "NS", "WD", "BH_reverse_MT"}, "classes of a collapse", model=m, got=it["interp_classes"], present=sorted(co))
            check(it["c_key"] == "S1_%s_CO_interpolation_class" % m and it["c_key"] in it["c_keys"], "class of a collapse", model=m, got=it["c_key"])
        check(set(seen) == set(sn), "collapses which are trained", lacking=sorted(set(sn) - set(seen)))


ERR = ["logQ_min_limit", "min_timestep_limit", "reach cluster timelimit"]
FLAGS = ERR + ["max_age", "Primary has depleted central carbon", "gamma_center_limit", "max_number_retries"]
BY_FLAG = {"opacity_max": (ERR[1:], {"opacity_max": 0.5}), "opacity_max_hms-hms": (ERR[1:], {"opacity_max": 0.5}), "thermohaline_mixing": (ERR, {"thermohaline_coeff": 17.5}),
           "LBV_wind+thermohaline_mixing": (ERR, {"thermohaline_coeff": 17.5}), "no_age_limit+thermohaline_mixing": (ERR, {"thermohaline_coeff": 17.5}), "HeMB_MLTp_mesh": (ERR, {}),
           "more_mesh": (ERR, {"mesh_Pgas_div_P_exponent": 2, "max_allowed_nz": 50000}), "dedt_energy_eqn": (ERR, {}), "LBV_wind+dedt_energy_eqn": (ERR, {}), "no_age_limit+dedt_energy_eqn": (ERR, {}),
           "dedt_hepulse": (ERR, {}), "LBV_wind+dedt_hepulse": (ERR, {}), "no_age_limit": (["max_age"], {})}
ZAMS = dict(zip(ZS, ["z2.84m2_y0.2915", "z1.42m2_y0.2703", "z6.39m3_y0.2586", "z2.84m3_y0.2533", "z1.42m3_y0.2511", "z1.42m4_y0.2492", "z1.42m5_y0.2490", "z1.42m6_y0.2490"]))
RERUNS = sorted(BY_FLAG) + ["PISN", "reverse_MT", "TPAGBwind", "conv_bdy_weight", "initial_He", "LBV_wind"] * 3
rr = fixed(rerun=one(RERUNS), kind=one(["HMS-HMS", "HMS-HMS", "CO-HMS_RLO", "CO-HeMS", "single_HMS", "single_HeMS"]), n=st.integers(1, 6), seed=seeds(), z=one(ZS), cluster=one(["quest", "yggdrasil"]), gz=st.booleans(), again=st.booleans())


def selected(kind, r, text):
    """Whether a run is to be rerun."""
    t = r["tables"]
    if kind in BY_FLAG:
        return r["final"]["termination_flag_1"] in BY_FLAG[kind][0]
    if kind == "PISN":
        return text is not None and "have reached gamma1 integral limit" in text
    if kind == "conv_bdy_weight":
        return text is not None and ("STOP prepare_for_new_try: bad num omega" in text or "Segmentation fault" in text)
    if kind == "initial_He":
        y = r["initial"].get("S1_center_he4", r["initial"].get("Y", -1))
        return not y >= 0.96
    if kind == "reverse_MT":
        b, h = t.get("binary_history"), t.get("history1")
        return b is not None and h is not None and any(x < -0.05 and y > -0.05 and w > 0.9 for x, y, w in zip(b["rl_relative_overflow_1"], b["rl_relative_overflow_2"], h["surf_avg_omega_div_omega_crit"]))
    hs = [t[k] for k in ("history1", "history2") if t.get(k) is not None]
    agb = any(10 ** x["log_Teff"] <= 12000.0 and x["center_he4"] <= 1e-6 and x["he_core_mass"] - x["co_core_mass"] <= 0.1 for h in hs for x in h)
    if kind == "TPAGBwind":
        return agb
    lbv = any(10 ** x["log_L"] > 6e5 and 1e-5 * 10 ** x["log_R"] * (10 ** x["log_L"]) ** 0.5 > 1.0 and x["surface_h1"] >= 0.1 for h in hs for x in h)
    return lbv and not agb


@sub(PID, "rerun", rr, quick=400, thorough=3000)
def s_rerun(c):
    """A rerun holds the initial values of exactly the runs which its rule selects, with its changes, and the settings of its metallicity."""
    with tempfile.TemporaryDirectory(prefix="vp_", ignore_cleanup_errors=True) as d, quiet():
        d = os.path.realpath(d)
        rng = np.random.default_rng(c["seed"])
        runs, texts = [], []
        co, single = c["kind"].startswith("CO"), c["kind"].startswith("single")
        withz = rng.random() < 0.5
        hecol = str(rng.choice(["S1_center_he4", "Y", ""]))
        for i in range(c["n"]):
            k = int(rng.integers(1, 6))
            U = lambda *xs: np.array([float(rng.choice(xs)) for _ in range(k)]) * rng.uniform(0.999, 1.001, k)
            star = lambda: synth.rec({"log_Teff": np.log10(U(9000, 11000, 13000, 30000)), "center_he4": U(1e-7, 1e-7, 2e-6, 0.5), "he_core_mass": 1.0 + U(0.05, 0.05, 0.2), "co_core_mass": np.ones(k),
                                      "log_L": np.log10(U(1e5, 5e5, 7e5, 2e6)), "log_R": np.log10(U(50, 90, 150, 500)), "surface_h1": U(0.05, 0.2, 0.7), "surf_avg_omega_div_omega_crit": U(0.5, 0.88, 0.93, 0.95)})
            t = {"binary_history": synth.rec({"rl_relative_overflow_1": U(-0.3, -0.06, -0.04, 0.05), "rl_relative_overflow_2": U(-0.3, -0.06, -0.04, 0.1), "age": np.arange(k) * 1.0}), "history1": star()}
            if not co and not single:
                t["history2"] = star()
            if single:
                t.pop("binary_history")
            elif rng.random() < 0.1:
                t.pop(str(rng.choice(sorted(t))))
            m1 = float(np.round(10 ** rng.uniform(0.7, 1.9), int(rng.integers(1, 8))))
            m2, P = float(np.round(m1 * rng.uniform(0.1, 1), 4)), float(10 ** rng.uniform(-0.5, 3))
            ini = {"star_1_mass": m1} if single else {"star_1_mass": m1, "star_2_mass": m2, "period_days": P}
            if withz:
                ini["Z"] = 0.0142
            if hecol:
                ini[hecol] = float(rng.choice([0.25, 0.95, 0.97, 0.986, float("nan")]))
            name = "Zbase_0.0142_m1_%s_m2_%s_initial_z_0.0142_initial_period_in_days_%s_grid_index_%d" % (m1, m2, P, i)
            path = os.path.join(d, c["kind"], name)
            os.makedirs(path)
            text = None
            if rng.random() < 0.9:
                lines = ["step"] + [str(rng.choice(["", "nothing", "have reached gamma1 integral limit", "STOP prepare_for_new_try: bad num omega", "Segmentation fault (core dumped)", "gamma1 integral", "termination code: max_age"]))
                                   for _ in range(int(rng.integers(0, 4)))]
                text = "\n".join(lines) + "\n"
                if c["gz"]:
                    import gzip
                    with gzip.open(os.path.join(path, "out.txt.gz"), "wt") as f:
                        f.write(text)
                else:
                    open(os.path.join(path, "out.txt"), "w").write(text)
            texts.append(text)
            if single and text is not None:                                  # the output of the last formation step counts
                p, s2 = os.path.join(path, "out.txt"), {"single_HMS": "0", "single_HeMS": "2"}[c["kind"]]
                for x in (p, p + ".gz"):
                    if os.path.exists(x):
                        os.rename(x, x.replace("out.txt", "out_star1_formation_step%s.txt" % s2))
                open(p.replace("out.txt", "out_star1_formation_step1.txt"), "w").write("Segmentation fault\nhave reached gamma1 integral limit\n")
            runs.append(dict(tables=t, initial=ini, final={"termination_flag_1": str(rng.choice(FLAGS)), "interpolation_class": "no_MT"}, dir=path))
        file = synth.write_grid(os.path.join(d, "g.h5"), runs)
        # settings to start from
        home = os.path.join(d, "posydon")
        src = os.path.join(home, "grid_params/POSYDON-MESA-INLISTS/r11701/running_scripts")
        os.makedirs(src)
        start = {}
        for t in ("single_HMS", "single_HeMS", "HMS-HMS", "CO-HMS_RLO", "CO-HeMS"):
            for cl in ("quest", "yggdrasil"):
                start["%s_%s.ini" % (t, cl)] = "[run_parameters]\ngrid = 'grid_test.csv'\n[mesa_inlists]\nscenario = ['posydon', 'main-%s', '%s %s']\nzams = 'zams_z1.42m3_y0.2511.data'\n" % (
                    ["18710e943edd926a5653c4cdb7d6e18e5bdb35a2", "a060b7bf1a4d94d693f77be9a1b0b3a522c1eadf"][len(t) % 2], t, cl)
        for n, x in start.items():
            open(os.path.join(src, n), "w").write(x)
        to = os.path.join(d, c["kind"], "rerun_%s_g" % c["rerun"])
        if c["again"]:
            os.makedirs(to)
            open(os.path.join(to, "grid.csv"), "w").write("old")
        table = write_csv(os.path.join(d, "rerun.csv"), ["path_to_grid", "rerun_path", "grid_type", "rerun_metallicity", "rerun_type", "cluster"],
                          [[file, "/nowhere", "X", "1e+00_Zsun", "PISN", "quest"], [file, to, c["kind"], c["z"], c["rerun"], c["cluster"]]])
        before = snapshot(d)
        with script([RUN, d, table, "1", "0"], d):
            posydon.config.PATH_TO_POSYDON = home
            try:
                runpy.run_path(RUN, run_name="__main__")
            except Exception as e:
                check(False, "a rerun fails", error="%s: %s" % (type(e).__name__, e))
        name = "%s_%s.ini" % (c["kind"], c["cluster"])
        only(before, d, {os.path.join(to, "grid.csv"), os.path.join(to, name)}, "rerun")
        want = [r["initial"] for r, t in zip(runs, texts) if selected(c["rerun"], r, t)]
        nontrivial(0 < len(want) < len(runs))
        rows = list(csv.reader(open(os.path.join(to, "grid.csv"))))
        flags = BY_FLAG[c["rerun"]][1] if c["rerun"] in BY_FLAG else {"convective_bdy_weight": 0} if c["rerun"] == "conv_bdy_weight" else {}
        names = {"m1": "star_1_mass"} if single else {"m1": "star_1_mass", "m2": "star_2_mass", "initial_period_in_days": "period_days"}
        if withz:
            names.update(initial_z="Z", Zbase="Z")
        check(set(rows[0]) == set(names) | set(flags), "parameters of a rerun", got=rows[0], expected=sorted(names) + sorted(flags))
        got = sorted(tuple(sorted((k, float(v)) for k, v in zip(rows[0], r))) for r in rows[1:])
        ref = sorted(tuple(sorted([(k, float(np.around(w[v], 10))) for k, v in names.items()] + [(k, float(v)) for k, v in flags.items()])) for w in want)
        check(len(got) == len(ref) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 1e-9 * abs(b[1]) + 1e-12 for x, y in zip(got, ref) for a, b in zip(x, y)), "runs of a rerun", kind=c["rerun"], got=got, expected=ref)
        text = open(os.path.join(to, name)).read()
        check("grid = 'grid.csv'" in text and "zams_%s.data" % ZAMS[c["z"]] in text and text.count("zams_") == 1 and "'%s %s'" % (c["kind"], c["cluster"]) in text and "'main-" not in text, "settings of a rerun", got=text)
