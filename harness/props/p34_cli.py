"""P34: job-array runs set up, checked, rescued and merged from the command line, with tasks killed at any point."""
import argparse
import contextlib
import io as _io
import os
import re
import runpy
import shutil
import subprocess
import sys
import types
import warnings

import numpy as np
import pandas as pd
import tables
from hypothesis import strategies as st
from core import sub, one, fixed, nontrivial, label, scratch, seeds
from core import check as _check

PID = "P34"
BASH, SH = shutil.which("bash"), shutil.which("sh")
VALID_Z = [2e+00, 1e+00, 4.5e-01, 2e-01, 1e-01, 1e-02, 1e-03, 1e-04]


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


STEPS_FILE = '''
import sys

class Flow(dict):
    def __init__(self, **kw):
        dict.__init__(self)
    def __getitem__(self, k):
        return "step_HMS_HMS" if k[3] == "ZAMS" else "step_detached"
    def __contains__(self, k):
        return True
    def get(self, k, d=None):
        return self[k]

class Step:
    DEFAULT_KWARGS = {"RNG": None, "metallicity": None}
    def __init__(self, RNG=None, metallicity=None, **kw):
        self.RNG, self.metallicity = RNG, metallicity
    def __call__(self, b):
        sys.modules["_verif_cli_hook"].tick("step")
        b.time += 1e6
        b.star_1.log_R = b.index + 0.25
        if self.metallicity is not None:
            b.star_1.log_L = 10 * self.metallicity
        b.star_2.log_R = self.RNG.random()
        b.state = b.state if b.state == "initially_single_star" else "detached"
        b.event = "END" if len(b.state_history) > b.index % 3 else None
'''


class Killed(BaseException):
    pass


class Hook(types.ModuleType):
    """Counts the effects of a task and kills it at the chosen one."""
    left, armed, last, corrupt = None, False, None, False

    def tick(self, what, path=None):
        if not self.armed or self.left is None:
            return
        if self.left == 0:
            self.armed = False
            self.last = (what, path)
            raise Killed(what)
        self.left -= 1
        self.n += 1


HOOK = Hook("_verif_cli_hook")
sys.modules["_verif_cli_hook"] = HOOK


@contextlib.contextmanager
def instrumented():
    """Effects on files are points at which a task can be killed: before the effect and right after it."""
    saved = []

    def wrap(obj, name, path):
        old = getattr(obj, name)

        def new(*a, **k):
            HOOK.tick("before " + name, path(a))
            r = old(*a, **k)
            HOOK.tick("after " + name, path(a))
            return r
        saved.append((obj, name, old))
        setattr(obj, name, new)
    wrap(pd.HDFStore, "append", lambda a: getattr(a[0], "_path", None))
    wrap(pd.HDFStore, "put", lambda a: getattr(a[0], "_path", None))
    for f in ("remove", "unlink", "rename", "replace", "rmdir"):
        wrap(os, f, lambda a: None)
    wrap(shutil, "move", lambda a: None)
    try:
        yield
    finally:
        for obj, name, old in reversed(saved):
            setattr(obj, name, old)


@contextlib.contextmanager
def place(cwd, env=(), argv=None):
    d, e, a, p = os.getcwd(), dict(os.environ), sys.argv, list(sys.path)
    os.chdir(cwd)
    os.environ.update(env)
    if argv:
        sys.argv = argv
    out = _io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("ignore")
            yield out
    finally:
        os.chdir(d)
        os.environ.clear()
        os.environ.update(e)
        sys.argv, sys.path[:] = a, p


def inifile(c, folder):
    steps = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO", "step_detached", "step_disrupted", "step_merged", "step_initially_single", "step_dco",
             "step_SN", "step_CE", "step_end"]
    py = os.path.join(folder, "my_steps.py")
    with open(py, "w") as f:
        f.write(STEPS_FILE)
    t = "[environment_variables]\n  PATH_TO_POSYDON = ''\n[flow]\n  import = ['a', 'b']\n  absolute_import = [%r, 'Flow']\n" % py
    for s in steps:
        t += "[%s]\n  import = ['a', 'b']\n  absolute_import = [%r, 'Step']\n" % (s, py)
        if s == "step_SN":
            t += "  use_interp_values = False\n"
    t += "[extra_hooks]\n  import_1 = ['posydon.binary_evol.simulationproperties', 'StepNamesHooks']\n  absolute_import_1 = None\n  kwargs_1 = {}\n"
    opts = dict(optimize_ram=True, ram_per_cpu=None, dump_rate=c["dump"], temp_directory=c["tempdir"], tqdm=False, breakdown_to_df=c["breakdown"], use_MPI=False,
                metallicities=[VALID_Z[i] for i in c["mets"]], error_checking_verbose=False, warnings_verbose=False, history_verbose=False, entropy=c["entropy"],
                number_of_binaries=c["n"], binary_fraction_scheme="const", binary_fraction_const=c["fb"], star_formation="burst", max_simulation_time=13.8e9, read_samples_from_file="",
                primary_mass_scheme="Kroupa2001", primary_mass_min=7.0, primary_mass_max=150.0, secondary_mass_scheme="flat_mass_ratio", secondary_mass_min=0.5,
                secondary_mass_max=150.0, orbital_scheme="period", orbital_period_scheme="Sana+12_period_extended", orbital_period_min=0.75, orbital_period_max=6000.0,
                eccentricity_scheme="zero")
    t += "[BinaryPopulation_options]\n" + "".join("  %s = %r\n" % kv for kv in opts.items())
    t += "[BinaryStar_output]\n  extra_columns = {'step_names': 'string'}\n  only_select_columns = ['state', 'event', 'time', 'orbital_period']\n  scalar_names = ['interp_class_HMS_HMS']\n"
    for i in (1, 2):
        t += "[SingleStar_%d_output]\n  include_S%d = True\n  only_select_columns = ['state', 'mass', 'log_R', 'log_L']\n  scalar_names = ['SN_type']\n" % (i, i)
    with open(os.path.join(folder, "population.ini"), "w") as f:
        f.write(t)


def array_of(text):
    """The task indices of a SLURM --array value and the limit of concurrent tasks."""
    text, _, lim = text.partition("%")
    ids = []
    for part in text.split(","):
        a, dash, b = part.partition("-")
        ids += list(range(int(a), int(b) + 1)) if dash else [int(a)]
    return sorted(set(ids)), (int(lim) if lim else None)


def directives(path):
    """SLURM reads directives only until the first command."""
    d = {}
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            m = re.match(r"#SBATCH\s+--([\w-]+)=(.*)$", line)
            if m:
                d[m.group(1)] = m.group(2)
            elif line.strip() and not line.startswith("#"):
                break
    return d


class Cluster:
    """A stand-in for SLURM: submissions are recorded by a fake sbatch; tasks are run in this process."""

    def __init__(self, base, first_id):
        self.base, self.next, self.done, self.jobs = base, first_id, {}, []
        self.bin = os.path.join(base, "bin")
        self.rec = os.path.join(base, "submitted")
        os.makedirs(self.bin)
        self.script("sbatch", 'n=$(cat "%s" 2>/dev/null | wc -l)\n{ printf "%%s\\037" "$PWD" "$@"; printf "\\n"; } >> "%s"\nid=$((%d + n))\n'
                              'for a in "$@"; do [ "$a" = --parsable ] && { echo $id; exit 0; }; done\necho "Submitted batch job $id"\n' % (self.rec, self.rec, first_id))
        self.script("srun", 'printf "%%s\\037" "$PWD" "$@" > "%s/command"\nprintf "\\n" >> "%s/command"\nenv | grep "^SLURM_\\|^PATH_TO_" >> "%s/command"\n' % (base, base, base))
        self.env = {"PATH": self.bin + os.pathsep + os.environ.get("PATH", "/usr/bin:/bin")}
        self.seen = 0

    def script(self, name, body):
        p = os.path.join(self.bin, name)
        with open(p, "w") as f:
            f.write("#!%s\n%s" % (SH, body))
        os.chmod(p, 0o755)

    def submissions(self):
        """New submissions since the last call: (job id, script, dependency)."""
        lines = open(self.rec).read().split("\n")[:-1] if os.path.exists(self.rec) else []
        new = []
        for line in lines[self.seen:]:
            a = line.split("\037")[:-1]
            cwd, args = a[0], a[1:]
            dep = [x.split("afterok:")[1] for x in args if x.startswith("--dependency=")]
            files = [x for x in args if not x.startswith("-")]
            check(len(files) == 1, "one script is submitted at a time", arguments=args)
            p = os.path.join(cwd, files[0])
            check(os.path.isfile(p), "a script is submitted which does not exist", script=files[0], folder=os.path.relpath(cwd, self.base))
            new.append((self.next + self.seen, cwd, p, int(dep[0]) if dep else None))
            self.seen += 1
        return new

    def task(self, job, cwd, path, array, idx, kill, corrupt):
        """Run one task of a job; True if it ended well."""
        env = dict(self.env)
        if idx is not None:
            env.update(SLURM_ARRAY_JOB_ID=str(job), SLURM_ARRAY_TASK_ID=str(idx), SLURM_ARRAY_TASK_COUNT=str(len(array)), SLURM_ARRAY_TASK_MIN=str(min(array)),
                       SLURM_ARRAY_TASK_MAX=str(max(array)))
        clean = {k: v for k, v in os.environ.items() if not k.startswith("SLURM_")}
        cmd = os.path.join(self.base, "command")
        if os.path.exists(cmd):
            os.remove(cmd)
        r = subprocess.run([BASH, path], cwd=cwd, env={**clean, **env}, capture_output=True, text=True)
        check(r.returncode == 0 and os.path.exists(cmd), "the submitted script runs no command", script=os.path.basename(path), error=r.stderr[-300:])
        head, *rest = open(cmd).read().split("\n")
        where, *args = head.split("\037")[:-1]
        got = dict(x.split("=", 1) for x in rest if "=" in x)
        check(len(args) == 3 and args[0].startswith("python"), "command of the task", command=args)
        HOOK.left, HOOK.n, HOOK.last, HOOK.armed = kill, 0, None, True
        ok = True
        with place(where, {}, [args[1]] + args[2:]) as out:
            for k in [k for k in os.environ if k.startswith("SLURM_")]:
                del os.environ[k]
            os.environ.update(got)
            script = os.path.join(where, args[1])
            check(os.path.isfile(script), "the task's script does not exist", script=args[1], folder=os.path.relpath(where, self.base))
            try:
                with instrumented():
                    runpy.run_path(script, run_name="__main__")
            except Killed:
                ok = False
            except Exception as e:
                HOOK.armed = False
                check(False, "a task fails", script=os.path.basename(path), error="%s: %s" % (type(e).__name__, e), output=out.getvalue()[-400:])
            finally:
                HOOK.armed = False
                tables.file._open_files.close_all()
        if idx is not None:
            name = directives(path).get("output", "").replace("%A", str(job)).replace("%a", str(idx))
            with open(os.path.join(cwd, name), "w") as f:
                f.write("".join("line %d\n" % i for i in range(idx % 5)))
        if not ok:
            label("killed: " + HOOK.last[0])
            if corrupt and HOOK.last[1] and os.path.exists(HOOK.last[1]):
                label("file torn by the kill")
                with open(HOOK.last[1], "r+b") as f:
                    f.truncate(os.path.getsize(HOOK.last[1]) * 2 // 3)
        return ok

    def run(self, subs, kills):
        """Run the submissions in order; kills: list of (position, corrupt) used for successive tasks."""
        ran = []
        for job, cwd, path, dep in subs:
            if dep is not None and not self.done[dep]:
                self.done[job] = False
                continue
            d = directives(path)
            ids, _ = array_of(d["array"]) if "array" in d else ([None], None)
            ok = True
            for i in ids:
                kill, corrupt = kills.pop(0) if kills else (None, False)
                r = self.task(job, cwd, path, ids, i, kill, corrupt)
                ran.append((os.path.basename(path), i, r))
                ok = ok and r
            self.done[job] = ok
        return ran


def zstr(Z):
    return f"{Z:1.1e}".replace(".0", "")


def ranks(c):
    return np.array_split(np.arange(c["n"]), c["tasks"])


def verify_file(p, what, indices, Z, c):
    with pd.HDFStore(p, "r") as s:
        H, O = s["history"], s["oneline"]
        mass = s["mass_per_metallicity"]
    check(sorted(O.index) == sorted(indices), what + ": systems in the oneline table", got=sorted(O.index), expected=sorted(indices))
    hi = list(H.index)
    blocks = [i for j, i in enumerate(hi) if j == 0 or hi[j - 1] != i]
    check(sorted(blocks) == sorted(indices), what + ": systems in the history", got=blocks, expected=sorted(indices))
    ini, fin = H[~H.index.duplicated(keep="first")], H[~H.index.duplicated(keep="last")]
    check((ini["event"] == "ZAMS").all(), what + ": first rows", got=list(ini["event"]))
    check((fin["event"] == "END").all(), what + ": last rows", got=list(fin["event"]))
    check(np.allclose(fin["S1_log_R"], np.array(fin.index) + 0.25), what + ": values of the systems", got=list(fin["S1_log_R"]), systems=list(fin.index))
    check(np.allclose(fin["S1_log_L"].dropna(), 10 * Z) and len(fin["S1_log_L"].dropna()) > 0, what + ": metallicity the systems were evolved with", got=list(fin["S1_log_L"]), expected=10 * Z)
    check(np.allclose(O["metallicity"], Z), what + ": metallicity of the systems", got=list(O["metallicity"]), expected=Z)
    check(list(mass.index) == [Z] and int(mass["number_of_systems"].iloc[0]) == len(indices), what + ": number of systems stored", got=mass.to_dict(), expected=len(indices))
    single = ini["state"] == "initially_single_star"
    tot = float(ini["S1_mass"].sum() + ini["S2_mass"][~single].sum())
    check(np.isclose(mass["simulated_mass"].iloc[0], tot, rtol=1e-9), what + ": simulated mass stored", got=float(mass["simulated_mass"].iloc[0]), expected=tot)
    check(ini["S1_mass"].nunique() == len(ini), what + ": two systems share their initial mass")
    return H, O


def options(o, keep):
    d = dict(email=None, partition=None, walltime=None, merge_walltime=None, mem_per_cpu=None, account=None, max_concurrent_jobs=None, exclude=None)
    d.update({k: v for k, v in o.items() if v is not None})
    return argparse.Namespace(**d, **keep)


def check_directives(d, want, what):
    for k, n in (("partition", "partition"), ("email", "mail-user"), ("walltime", "time"), ("account", "account"), ("mem_per_cpu", "mem-per-cpu"), ("exclude", "exclude")):
        check(d.get(n) == want.get(k), what + ": --" + n, got=d.get(n), expected=want.get(k))


def workflow(c, base, kills, label_it=True):
    """Set up, submit, and check/rescue until the check passes. Returns the tables of every population."""
    from posydon.CLI.popsyn.check import check_popsyn_function
    from posydon.CLI.popsyn.setup import setup_popsyn_function
    from posydon.config import PATH_TO_POSYDON
    run, other = os.path.join(base, "run"), os.path.join(base, "other")
    os.makedirs(run)
    os.makedirs(other)
    inifile(c, run)
    cl = Cluster(base, c["job"])
    mets = [VALID_Z[i] for i in c["mets"]]
    first = dict(c["opts"])
    first.setdefault("walltime", "23:00:00"), first.setdefault("merge_walltime", "12:00:00"), first.setdefault("mem_per_cpu", "9G")
    with place(run, cl.env):
        setup_popsyn_function(options(first, dict(ini_file="population.ini", job_array=c["tasks"])))
        check(os.path.isfile("slurm_submit.sh"), "no submission script")
        check(os.system("%s slurm_submit.sh > /dev/null 2>&1" % SH) == 0, "the submission script fails")
    subs = cl.submissions()
    arrays = [x for x in subs if "array" in directives(x[2])]
    check(len(subs) == 2 * len(mets) and len(arrays) == len(mets), "number of submitted jobs", got=[os.path.basename(x[2]) for x in subs], metallicities=mets)
    for x in arrays:
        d = directives(x[2])
        ids, lim = array_of(d["array"])
        check(ids == list(range(c["tasks"])) and lim == first.get("max_concurrent_jobs"), "job array", got=d["array"], tasks=c["tasks"], limit=first.get("max_concurrent_jobs"))
        check_directives(d, first, "array job")
        check(sum(y[3] == x[0] for y in subs) == 1, "one merge job waits for the array", got=[y[3] for y in subs])
    plan = [list(k) for k in kills]
    cl.run(subs, plan.pop(0) if plan else [])
    code = None
    kept = {}
    for rnd in range(8):
        # what is there
        missing, unmerged = {}, []
        for Z in mets:
            pop = os.path.join(run, zstr(Z) + "_Zsun_population.h5")
            bd = os.path.join(run, zstr(Z) + "_Zsun_" + c["tempdir"])
            if os.path.exists(pop):
                verify_file(pop, "merged population", range(c["n"]), Z, c)
                continue
            unmerged.append(Z)
            miss = []
            for r, ids in enumerate(ranks(c)):
                p = os.path.join(bd, "evolution.combined.%d.h5" % r)
                if os.path.exists(p):
                    H, O = verify_file(p, "the file of a task (taken as complete)", ids, Z, c)
                    if (Z, r) in kept:
                        check(kept[Z, r].equals(O), "the file of a finished task has changed", metallicity=Z, task=r)
                    kept[Z, r] = O
                else:
                    miss.append(r)
            if miss:
                missing[Z] = miss
        if label_it:
            label("%s metallicities unmerged, %s incomplete" % (len(unmerged), len(missing)))
        asked = []

        def answer(prompt=""):
            asked.append(prompt)
            if len(asked) > 50:
                raise Killed("asked again and again")
            return "yes" if "yes" in prompt else "0"
        over = c["over"] if rnd == 0 else {}
        where = {"run": run, "other": other, "base": base}[c["where"]]
        folder = {"abs": run, "rel": os.path.relpath(run, where)}[c["path"]]
        import builtins
        old = builtins.input
        builtins.input = answer
        with place(where, cl.env) as out:
            try:
                code = check_popsyn_function(options(over, dict(run_folder=folder, job_array=None)))
            except Killed:
                check(False, "the check never ends", output=out.getvalue()[-300:])
            finally:
                builtins.input = old
        subs = cl.submissions()
        if not unmerged:
            check(code == 0 and not subs, "a finished run does not pass the check", code=code, submitted=[os.path.basename(x[2]) for x in subs])
            break
        check(code != 0 or subs, "an unfinished run passes the check", missing=missing, unmerged=unmerged)
        resc = {}
        for x in subs:
            d = directives(x[2])
            if "array" not in d:
                continue
            Z = [Z for Z in mets if os.path.basename(x[2]).startswith(zstr(Z) + "_")]
            check(len(Z) == 1, "metallicity of a rescue job", script=os.path.basename(x[2]))
            ids, lim = array_of(d["array"])
            resc[Z[0]] = ids
            want = {**first, **over}
            check(lim == want.get("max_concurrent_jobs"), "concurrent tasks of the rescue job", got=d["array"], expected=want.get("max_concurrent_jobs"))
            check_directives(d, want, "rescue job")
            check(sum(y[3] == x[0] for y in subs) == 1, "one merge job waits for the rescue job", got=[y[3] for y in subs])
        check(resc == missing, "tasks submitted again", got=resc, expected=missing)
        merges = [os.path.basename(x[2]) for x in subs if "array" not in directives(x[2])]
        check(len(set(merges)) == len(merges), "a merge job is submitted twice", got=merges)
        for m in merges:
            check(any(m.startswith(zstr(Z) + "_") for Z in unmerged), "a merge job for a population which is there", got=m, unmerged=unmerged)
        if not missing:
            check(len(merges) == len(unmerged), "merge jobs submitted", got=merges, unmerged=unmerged)
        cl.run(subs, plan.pop(0) if plan else [])
    check(code == 0 and not unmerged, "the run is not finished by repeated checks", unmerged=unmerged, missing=missing)
    res = {}
    for Z in mets:
        H, O = verify_file(os.path.join(run, zstr(Z) + "_Zsun_population.h5"), "merged population", range(c["n"]), Z, c)
        for r, ids in enumerate(ranks(c)):
            if (Z, r) in kept:
                a, b = O.loc[list(ids)], kept[Z, r]
                cols = [k for k in b.columns if b[k].dtype.kind == "f"]
                check(np.array_equal(a[cols].to_numpy(), b[cols].to_numpy(), equal_nan=True), "a finished task's systems differ after the merge", metallicity=Z, task=r)
        res[Z] = (H, O)
    if c["entropy"] is None and len(mets) > 1 and len({x for x in c["mets"]}) == len(c["mets"]):
        a, b = (res[Z][0] for Z in mets[:2])
        check(not set(a["S1_mass"][a["event"] == "ZAMS"]) & set(b["S1_mass"][b["event"] == "ZAMS"]), "two metallicities share drawn systems")
    return res


kill_list = st.lists(st.tuples(st.one_of(st.none(), st.integers(0, 30), st.integers(0, 90)), st.booleans()), min_size=2, max_size=8)
opt = fixed(email=one([None, "me@x.org"]), partition=one([None, "private-astro", "debug-cpu"]), walltime=one([None, "01:30:00", "3-00:00:00"]), account=one([None, "meynet"]),
            mem_per_cpu=one([None, "4G", "500M"]), max_concurrent_jobs=one([None, 1, 3]), exclude=one([None, "n1,n[3-5]"]))
case = fixed(n=st.integers(4, 11), tasks=st.integers(1, 5), mets=st.lists(st.integers(0, 7), min_size=1, max_size=2, unique=True), dump=one([1, 2, 3, 3, 4, 2000, 2000]), breakdown=st.booleans(),
             tempdir=one(["batches", "tmp_runs"]), entropy=one([None, None, 12, 0]), fb=one([1.0, 1.0, 0.5]), job=st.integers(100, 10 ** 7), opts=opt, over=opt,
             where=one(["run", "run", "other", "base"]), path=one(["abs", "rel"]), kills=st.lists(kill_list, min_size=1, max_size=3), ref=st.booleans())


@sub(PID, "workflow", case, quick=80, thorough=800)
def job_array_workflow(c):
    """Whatever tasks are killed when, check and rescue lead to populations with every system exactly once."""
    c = dict(c, tasks=min(c["tasks"], c["n"]), opts={k: v for k, v in c["opts"].items() if v is not None}, over={k: v for k, v in c["over"].items() if v is not None})
    killed = sum(k is not None for r in c["kills"] for k, _ in r)
    nontrivial(c["tasks"] > 1 and killed > 0)
    with scratch() as d:
        a = workflow(c, os.path.join(d, "a"), c["kills"])
        if c["ref"] and killed and c["entropy"] is not None:
            label("compared with an uninterrupted run")
            b = workflow(dict(c, where="run", path="abs"), os.path.join(d, "b"), [], False)
            for Z in b:
                for k in (0, 1):
                    x, y = a[Z][k], b[Z][k]
                    check(list(x.index) == list(y.index) and list(x.columns) == list(y.columns), "rows differ from an uninterrupted run", metallicity=Z)
                    cols = [q for q in y.columns if y[q].dtype.kind == "f"]
                    check(np.array_equal(x[cols].to_numpy(), y[cols].to_numpy(), equal_nan=True), "values differ from an uninterrupted run", metallicity=Z)


def wide(rng, k):
    return sorted(int(i) for i in rng.permutation(k)[:int(rng.integers(0, k + 1))])


wide_case = fixed(n=one([3, 40, 10000]), tasks=one([1, 2, 3, 10, 11, 37, 100, 256]), mets=st.lists(st.integers(0, 7), min_size=1, max_size=4, unique=True), tempdir=one(["batches", "b.v2"]),
                  opts=opt, over=opt, where=one(["run", "other"]), path=one(["abs", "rel"]), seed=seeds(), answers=one(["yy", "yy", "yn", "n", "YES!"]), logs=one([0, 1, 2]),
                  extra=st.booleans())


@sub(PID, "rescue_scripts", wide_case, quick=300, thorough=5000)
def rescue_scripts(c):
    """The check asks for exactly the missing tasks of each metallicity, with the options of the run or the new ones; nothing is submitted without consent."""
    from posydon.CLI.popsyn.check import check_popsyn_function
    from posydon.CLI.popsyn.setup import setup_popsyn_function
    rng = np.random.default_rng(c["seed"])
    first = {k: v for k, v in c["opts"].items() if v is not None}
    over = {k: v for k, v in c["over"].items() if v is not None}
    first.setdefault("walltime", "23:00:00"), first.setdefault("merge_walltime", "12:00:00"), first.setdefault("mem_per_cpu", "9G")
    mets = [VALID_Z[i] for i in c["mets"]]
    with scratch() as base:
        run, other = os.path.join(base, "run"), os.path.join(base, "other")
        os.makedirs(run)
        os.makedirs(other)
        inifile(dict(c, dump=10, breakdown=True, entropy=None, fb=1.0), run)
        cl = Cluster(base, 500)
        with place(run, cl.env) as out:
            try:
                setup_popsyn_function(options(first, dict(ini_file="population.ini", job_array=c["tasks"])))
            except ValueError:
                check(c["n"] < c["tasks"], "the set-up is refused", binaries=c["n"], tasks=c["tasks"])
                label("more tasks than systems")
                return
        check(c["n"] >= c["tasks"], "a run with tasks without systems is set up", binaries=c["n"], tasks=c["tasks"])
        missing = {}
        for Z in mets:
            b = os.path.join(run, zstr(Z) + "_Zsun_" + c["tempdir"])
            os.makedirs(b)
            miss = wide(rng, c["tasks"]) if rng.uniform() < 0.8 else []
            for r in set(range(c["tasks"])) - set(miss):
                open(os.path.join(b, "evolution.combined.%d.h5" % r), "w").close()
            if c["extra"]:
                for r in miss[:3]:
                    open(os.path.join(b, "%d_evolution.batch.%d" % (rng.integers(0, 5000), r)), "w").close()
            if miss:
                missing[Z] = miss
            for j in range(c["logs"]):
                for r in miss:
                    with open(os.path.join(run, zstr(Z) + "_logs", "popsyn_%d_%d.out" % (500 + 7 * j, r)), "w") as f:
                        f.write("".join("x %d\n" % i for i in range(int(rng.integers(0, 6)))))
        nontrivial(len(missing) > 0 and any(len(m) < c["tasks"] for m in missing.values()))
        label("%d of %d metallicities incomplete" % (len(missing), len(mets)))
        answers, asked = list(c["answers"]) if c["answers"] != "YES!" else ["YES!", "YES!"], []

        def answer(prompt=""):
            asked.append(prompt)
            if len(asked) > 50:
                raise Killed("asked again and again")
            if "yes" not in prompt:
                return str(int(rng.integers(0, max(1, c["logs"]))))
            a = answers.pop(0) if answers else "y"
            return {"y": "yes", "n": "no"}.get(a, a)
        where = run if c["where"] == "run" else other
        import builtins
        old = builtins.input
        builtins.input = answer
        before = sorted(os.listdir(other))
        with place(where, cl.env) as out:
            try:
                code = check_popsyn_function(options(over, dict(run_folder=run if c["path"] == "abs" else os.path.relpath(run, where), job_array=None)))
            except Killed:
                check(False, "the check never ends", output=out.getvalue()[-300:])
            finally:
                builtins.input = old
        subs = cl.submissions()
        check(sorted(os.listdir(other)) == before, "files written to another folder", got=os.listdir(other))
        consent = [a == "y" for a in c["answers"]] if c["answers"] != "YES!" else [False]
        if not missing:
            want = sorted(zstr(Z) + "_Zsun_merge_popsyn.slurm" for Z in mets) if consent[0] else []
            check(sorted(os.path.basename(x[2]) for x in subs) == want and code != 0, "merge jobs submitted", got=[os.path.basename(x[2]) for x in subs], expected=want, code=code)
            return
        if not all(consent) or len(consent) < 2:
            check(not subs and code != 0, "submitted without consent", got=[os.path.basename(x[2]) for x in subs], code=code, answers=c["answers"])
        if not consent[0]:
            check(not [f for f in os.listdir(run) if "rescue" in f], "rescue scripts made without consent")
            return
        if not consent[1]:
            # the way the user is told to submit them
            label("submitted by hand")
            with place(run, cl.env):
                check(os.system("%s resubmit_slurm.sh > /dev/null 2>&1" % SH) == 0, "the submission script fails")
            subs = cl.submissions()
        resc = {}
        for x in subs:
            d = directives(x[2])
            if "array" in d:
                Z = [Z for Z in mets if os.path.basename(x[2]).startswith(zstr(Z) + "_")][0]
                ids, lim = array_of(d["array"])
                resc[Z] = ids
                want = {**first, **over}
                check(lim == want.get("max_concurrent_jobs"), "concurrent tasks of the rescue job", got=d["array"], expected=want.get("max_concurrent_jobs"))
                check_directives(d, want, "rescue job")
                m = [y for y in subs if y[3] == x[0]]
                check(len(m) == 1 and os.path.basename(m[0][2]) == zstr(Z) + "_Zsun_merge_popsyn.slurm", "the merge job of the same metallicity waits for the rescue job",
                      got=[(os.path.basename(y[2]), y[3]) for y in subs], rescue=x[0])
                env = task_env(cl, x, ids, ids[-1])
                check(int(env["SLURM_ARRAY_TASK_COUNT"]) == c["tasks"] and int(env["SLURM_ARRAY_TASK_ID"]) - int(env["SLURM_ARRAY_TASK_MIN"]) == ids[-1],
                      "place of a rescued task in the job array", got={k: v for k, v in env.items() if "TASK" in k}, task=ids[-1], tasks=c["tasks"])
                check(float(env["command"][-1]) == Z, "metallicity of a rescued task", got=env["command"], expected=Z)
                for k in ("PATH_TO_POSYDON",):
                    check(os.path.abspath(env[k]) == os.path.abspath(os.environ[k]), "environment of a rescued task", got=env[k], expected=os.environ[k])
        check(resc == missing, "tasks submitted again", got=resc, expected=missing)


def task_env(cl, subm, array, idx):
    job, cwd, path, _ = subm
    env = {k: v for k, v in os.environ.items() if not k.startswith("SLURM_")}
    env.update(cl.env, SLURM_ARRAY_JOB_ID=str(job), SLURM_ARRAY_TASK_ID=str(idx), SLURM_ARRAY_TASK_COUNT=str(len(array)), SLURM_ARRAY_TASK_MIN=str(min(array)))
    r = subprocess.run([BASH, path], cwd=cwd, env=env, capture_output=True, text=True)
    cmd = os.path.join(cl.base, "command")
    check(r.returncode == 0 and os.path.exists(cmd), "the submitted script runs no command", error=r.stderr[-300:])
    head, *rest = open(cmd).read().split("\n")
    out = dict(x.split("=", 1) for x in rest if "=" in x)
    out["command"] = head.split("\037")[:-1]
    return out
