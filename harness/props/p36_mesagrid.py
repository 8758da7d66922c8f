"""P36: setting up and running grids of MESA models: every run gets its own grid point on top of the chosen inlists."""
import contextlib
import csv
import glob
import io as _io
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import time
import types
import warnings

import numpy as np
from hypothesis import strategies as st
from core import sub, one, fixed, nontrivial, label, seeds
from core import check as _check

import posydon
from posydon.grids.psygrid import PSyGrid          # noqa: F401  (imported before the scripts, which are run in this process)

PID = "P36"
REPO = os.path.dirname(os.path.dirname(os.path.abspath(posydon.__file__)))
SETUP, RUN = (os.path.join(REPO, "bin", n) for n in ("posydon-setup-grid", "posydon-run-grid"))
SECTIONS = {"binary_controls": "binary_controls", "binary_job": "binary_job", "star1_controls": "controls", "star2_controls": "controls", "star1_job": "star_job", "star2_job": "star_job"}
POOL = {"binary_controls": {"m1": "f", "m2": "f", "initial_period_in_days": "f", "fr": "f", "mdot_scheme": "s", "do_tidal_sync": "l", "max_tries_to_achieve": "i"},
        "binary_job": {"evolve_both_stars": "l", "show_binary_log_description_at_start": "l", "change_initial_age": "l", "pause_interval": "i"},
        "controls": {"initial_z": "f", "Zbase": "f", "initial_mass": "f", "mixing_length_alpha": "f", "overshoot_f(1)": "f", "varcontrol_target": "f", "x_logical_ctrl(1)": "l", "photo_interval": "i",
                     "log_directory": "s", "max_num_profile_models": "i"},
        "star_job": {"pgstar_flag": "l", "new_Z": "f", "relax_initial_Z": "l", "initial_age": "f", "kappa_file_prefix": "s", "set_initial_age": "l"}}


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()) as out, contextlib.redirect_stderr(_io.StringIO()):
        warnings.simplefilter("ignore")
        yield out


# -- inlists ---------------------------------------------------------------------------------------------------------------------------------------------------------
def fortran(v, rng):
    if isinstance(v, bool):
        return ".true." if v else ".false."
    if isinstance(v, str):
        return "'%s'" % v
    if isinstance(v, int):
        return str(v)
    return ["%.6e" % v, ("%.6e" % v).replace("e", "d"), repr(float("%.7g" % v))][int(rng.integers(0, 3))]


def norm(t):
    t = t.strip().rstrip(",")
    if t[:1] in "'\"":
        return t.strip("'\"")
    if t.lower() in (".true.", "t", ".t."):
        return True
    if t.lower() in (".false.", "f", ".f."):
        return False
    return float(t.lower().replace("d", "e"))


def values(section, rng, part):
    out = {}
    for k, ty in POOL[section].items():
        if rng.random() < part:
            out[k] = {"f": lambda: float("%.6e" % 10 ** rng.uniform(-4, 3)), "i": lambda: int(rng.integers(0, 500)), "l": lambda: bool(rng.random() < 0.5), "s": lambda: "%s_%d" % (k[:3], rng.integers(0, 99))}[ty]()
    return out


def write_inlist(path, content, rng, header=True):
    """content: {section: {name: value}}"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("! generated = yes & so on\n\n")
        for sec, vals in content.items():
            if header:
                f.write("&%s%s\n" % (sec, ["", " ! start", "  "][int(rng.integers(0, 3))]))
                if rng.random() < 0.3:
                    ex = {"controls": "controls", "star_job": "star_job"}.get(sec, sec)
                    f.write("   read_extra_%s_inlist1 = .true.\n   extra_%s_inlist1_name = 'elsewhere'\n" % (ex, ex))
                if sec == "binary_job":
                    f.write("   inlist_names(1) = 'other1'\n   inlist_names(2) = 'other2'\n")
            for k, v in vals.items():
                f.write("%s%s %s= %s%s\n" % (" " * int(rng.integers(0, 8)), k, " " * int(rng.integers(0, 3)), fortran(v, rng), ["", " ! comment = 3", "   ", "! %s = 7" % k][int(rng.integers(0, 4))]))
                if rng.random() < 0.2:
                    f.write("\n      ! %s = 99\n" % k)
            if sec == "controls" and not header:
                f.write("      x_ctrl(1:num_x_ctrls) = 0d0\n")
            if header:
                f.write("/ ! end of %s\n\n" % sec)
    return path


def read_namelists(path):
    out, cur = {}, None
    for line in open(path):
        s, q = "", None
        for ch in line:
            if q is None and ch == "!":
                break
            if ch in "'\"":
                q = None if q == ch else (q or ch)
            s += ch
        s = s.strip()
        if s.startswith("&"):
            cur = out.setdefault(s[1:].lower(), [])
        elif s == "/":
            cur = None
        elif "=" in s and cur is not None:
            k, v = s.split("=", 1)
            cur.append((k.strip().lower().replace("(1:1)", "(1)"), norm(v)))
        elif s:
            check(cur is None, "a line of an inlist which MESA cannot read", file=path, line=s)
    return out


def effective(path, sec, cwd, level=0):
    """Values MESA ends up with: the file itself, then the further inlists it names in their order."""
    path = os.path.join(cwd, path)
    check(os.path.isfile(path) and level < 6, "an inlist that is read does not exist", file=path)
    lists = read_namelists(path)
    check(sec in lists, "an inlist that is read has no such section", file=path, section=sec)
    vals = dict(lists[sec])
    extra = {k: vals.pop(k) for k in list(vals) if k.startswith(("read_extra_", "extra_"))}
    for i in range(1, 6):
        if extra.get("read_extra_%s_inlist%d" % (sec, i)) is True:
            vals.update(effective(extra["extra_%s_inlist%d_name" % (sec, i)], sec, cwd, level + 1))
    return vals


# -- the setting up --------------------------------------------------------------------------------------------------------------------------------------------------
EXE = r'''#!/bin/bash
mkdir -p rec; n=$(ls rec | wc -l); mkdir rec/$n; cp inlist* rec/$n/; echo "$0" > rec/$n/exe
for d in LOGS LOGS1 LOGS2; do mkdir -p $d; echo p > $d/profile$n.data; echo h > $d/history.data; done
mkdir -p photos photos1 .mesa_temp_cache; echo x > photos/a; echo x > photos1/b; echo x > .mesa_temp_cache/c
sleep 0.01; echo "model done $n"; echo "problem $n" >&2; echo m > final_star1.mod
'''
MAKEFILE = "all:\n\tcat ../src/*.f > ../built\n\tcp %s ../%s\n"




class Setup:
    def __init__(self, c, d):
        rng = self.rng = np.random.default_rng(c["seed"])
        self.c, self.d = c, d
        self.run = os.path.join(d, "grid")
        self.home = os.path.join(d, "home")
        mesa = self.mesa = os.path.join(d, "mesa")
        for p in (self.run, self.home, os.path.join(d, "sdk", "bin"), os.path.join(d, "bin"), os.path.join(d, "tmp")):
            os.makedirs(p)
        open(os.path.join(d, "sdk", "bin", "mesasdk_init.sh"), "w").write("export SDK_READY=1\n")
        exe = os.path.join(d, "exe.sh")
        open(exe, "w").write(EXE)
        os.chmod(exe, 0o755)
        for what, name in (("binary", "binary"), ("star", "star")):
            src = os.path.join(mesa, what, "work", "src")
            os.makedirs(src)
            os.makedirs(os.path.join(mesa, what, "work", "make"))
            open(os.path.join(mesa, what, "work", "make", "makefile"), "w").write(MAKEFILE % (exe, name))
            for f in ("run_binary_extras.f", "run_star_extras.f", "binary_run.f", "run.f"):
                open(os.path.join(src, f), "w").write("mesa %s %s\n" % (what, f))
        ini = self.ini = {}
        zams = None
        self.single = c["kind"] == "single"
        form = c["form"] if not c["zams"] and not self.single else (0, 0)
        nform = {1: form[0], 2: form[1]}
        self.nsteps = c["steps"] if self.single else 1
        if self.single and (c["zams"] or not c["user"]):
            self.nsteps = 1
        scen = c["scenario"] and not (self.single and self.nsteps > 1) and not nform[2]
        static = {}
        inl = os.path.join(d, "inl")
        # MESA defaults
        for key, sec in SECTIONS.items():
            p = os.path.join(inl, sec + ".defaults")
            if not os.path.exists(p):
                self_vals = values(sec, rng, 1.0)
                static["mesa_" + sec] = self_vals
                write_inlist(p, {sec: self_vals}, rng, header=False)
        self.static = {key: dict(static["mesa_" + sec]) for key, sec in SECTIONS.items()}
        files = {"binary_controls": ("inlist_project", "binary_controls"), "binary_job": ("inlist_project", "binary_job"), "star1_controls": ("inlist1", "controls"), "star1_job": ("inlist1", "star_job"),
                 "star2_controls": ("inlist2", "controls"), "star2_job": ("inlist2", "star_job")}
        secs = {"inlist_project": ["binary_controls", "binary_job"], "inlist1": ["controls", "star_job"], "inlist2": ["controls", "star_job"]}

        def layer(folder, part):
            cont = {f: {s: values(s, rng, part) for s in ss} for f, ss in secs.items()}
            for j in (1, 2):                                     # parameters which only one of the stars has
                for sec, k in (("controls", "x_ctrl(%d)" % (6 + j)), ("star_job", "special_age_%d" % j)):
                    if rng.random() < 0.5:
                        cont["inlist%d" % j][sec][k] = float("%.6e" % rng.uniform(0, 10))
            for f, cc in cont.items():
                write_inlist(os.path.join(folder, f), cc, rng)
            return cont
        order = list(SECTIONS)
        rng.shuffle(order)
        cols = {}
        pos = os.path.join(d, "posydon")
        cont_pos = None
        self.git = None
        if scen:
            label("scenario")
            self.git = os.path.join(self.home, ".posydon_mesa_inlists")
            kind = c["system"] if not self.single else "HMS-HMS"
            root = os.path.join(self.git, "r11701")
            common = os.path.join(root, "default_common_inlists")
            g = lambda *a: subprocess.run(["git", "-C", self.git, *a], check=True, capture_output=True, text=True, env=dict(os.environ, HOME=self.home, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a",
                                                                                                                         GIT_COMMITTER_EMAIL="a@b", GIT_CONFIG_NOSYSTEM="1")).stdout.strip()
            os.makedirs(self.git)
            g("init", "-q", "-b", "main")
            commits = []
            for k in range(2):
                shutil.rmtree(root, ignore_errors=True)
                cp = layer(os.path.join(common, "binary"), 0.5)
                zname = None
                if c["sc_zams"]:
                    zname = "zams_%d.data" % k
                    os.makedirs(os.path.join(root, "ZAMS_models"))
                    open(os.path.join(root, "ZAMS_models", zname), "w").write("z%d" % k)
                    for f in ("inlist1", "inlist2"):
                        t = open(os.path.join(common, "binary", f)).read()
                        cp[f]["controls"]["zams_filename"] = "/some/where/" + zname
                        open(os.path.join(common, "binary", f), "w").write(t.replace("&controls", "&controls\n  zams_filename = '/some/where/%s'\n!" % zname, 1))
                os.makedirs(os.path.join(common, "binary", "src"))
                for f in ("run_binary_extras.f", "run_star_extras.f"):
                    open(os.path.join(common, "binary", "src", f), "w").write("posydon %d %s\n" % (k, f))
                for f in ("history_columns.list", "binary_history_columns.list", "profile_columns.list"):
                    open(os.path.join(common, f), "w").write("%s of commit %d\n" % (f, k))
                cu, fs = None, []
                if kind != "HMS-HMS":
                    cu = layer(os.path.join(root, kind, "binary"), 0.4)
                    if kind == "HeMS-HMS":
                        os.remove(os.path.join(root, kind, "binary", "inlist_project"))
                        cu["inlist_project"] = {"binary_controls": {}, "binary_job": {}}
                    for j in range(nform[1]):
                        cf = {"controls": values("controls", rng, 0.4), "star_job": values("star_job", rng, 0.4)}
                        write_inlist(os.path.join(root, kind, "star1_formation", "inlist_step%d" % (j + 1)), cf, rng)
                        fs.append(cf)
                g("add", "-A")
                g("commit", "-q", "-m", "c%d" % k)
                commits.append((g("rev-parse", "HEAD"), cp, cu, fs, zname))
            pick = int(rng.integers(0, 2))
            h, cont_pos, cont_user, fsteps, zname = commits[pick]
            ini["scenario"] = "['posydon', 'main-%s', '%s']" % (h[:int(rng.integers(7, 40))], kind)
            if not (kind == "HMS-HMS"):
                label("scenario with its own layer")
            else:
                nform = {1: 0, 2: 0}
            if zname is not None and not nform[1]:
                zams = os.path.join(root, "ZAMS_models", zname)
            zams2 = os.path.join(root, "ZAMS_models", zname) if zname else None
            for f in ("history_columns.list", "binary_history_columns.list", "profile_columns.list"):
                cols[f] = "%s of commit %d\n" % (f, pick)
            own = kind == "HMS-HMS" and c["user"]
        else:
            zams2 = None
            if c["posydon"]:
                cont_pos = layer(pos, 0.5)
            cont_user, fsteps = None, []
            own = c["user"]
            for f in ("history_columns.list", "binary_history_columns.list", "profile_columns.list"):
                cols[f] = "chosen %s\n" % f
        userdir = os.path.join(d, "user")
        single_user = []
        if own:
            label("user layer")
            cont_user = layer(userdir, 0.4)
            if self.single:
                for j in range(self.nsteps):
                    cf = {"controls": values("controls", rng, 0.4), "star_job": values("star_job", rng, 0.4)}
                    write_inlist(os.path.join(userdir, "single%d" % j), cf, rng)
                    single_user.append(cf)
        for f, t in cols.items():
            open(os.path.join(d, f), "w").write(t if not scen else "not this one\n")
        self.cols = cols
        # sections of the inifile
        for key in order:
            f, sec = files[key]
            ini[key + "_mesa_defaults"] = os.path.join(inl, sec + ".defaults")
            if cont_pos is not None:
                self.static[key].update(cont_pos[f][sec])
                if not scen:
                    ini[key + "_posydon_defaults"] = os.path.join(pos, f)
            if cont_user is not None and not (self.single and own):
                self.static[key].update(cont_user[f][sec])
            if own:
                ini[key + "_user"] = os.path.join(userdir, f)
            elif not scen and rng.random() < 0.3:
                ini[key + "_user"] = "None"
        if self.single and own:
            for key in ("star1_controls", "star1_job"):
                ini[key + "_user"] = repr([os.path.join(userdir, "single%d" % j) for j in range(self.nsteps)]) if self.nsteps > 1 or c["listed"] else os.path.join(userdir, "single0")
        # formation of the stars
        self.formation = {1: [], 2: []}
        for j in (1, 2):
            n = nform[j]
            if not n:
                continue
            label("formation of star %d in %d steps" % (j, n))
            steps = []
            if scen:
                for k in range(n):
                    steps.append({"controls": {**cont_pos["inlist1"]["controls"], **fsteps[k]["controls"]}, "star_job": {**cont_pos["inlist1"]["star_job"], **fsteps[k]["star_job"]}})
            else:
                conts = []
                for k in range(n):
                    cf = {"controls": values("controls", rng, 0.4), "star_job": values("star_job", rng, 0.4)}
                    write_inlist(os.path.join(userdir, "form%d_%d" % (j, k)), cf, rng)
                    conts.append(cf)
                for key, sec in (("job", "star_job"), ("controls", "controls")):
                    ini["star%d_formation_%s_mesa_defaults" % (j, key)] = os.path.join(inl, sec + ".defaults")
                    ini["star%d_formation_%s_user" % (j, key)] = repr([os.path.join(userdir, "form%d_%d" % (j, k)) for k in range(n)]) if n > 1 or c["listed"] else os.path.join(userdir, "form%d_0" % j)
                for k in range(n):
                    steps.append({sec: {**static["mesa_" + sec], **conts[k][sec]} for sec in ("controls", "star_job")})
            self.formation[j] = steps
        if self.single:
            label("single stars in %d steps" % self.nsteps)
            self.formation[1] = []
            for k in range(self.nsteps):
                s = {}
                for key, sec in (("star1_controls", "controls"), ("star1_job", "star_job")):
                    s[sec] = {**self.static[key], **(single_user[k][sec] if own else {})}
                if scen:
                    s["controls"]["x_logical_ctrl(1)"] = True
                self.formation[1].append(s)
            ini["single_star_grid"] = "True"
        else:
            ini["single_star_grid"] = "False"
        if c["zams"]:
            zams = zams2 = os.path.join(d, "my_zams.data")
            ini["zams_filename"] = zams
        self.zams = {1: zams, 2: zams2}
        for k, f in (("star_history_columns", "history_columns.list"), ("binary_history_columns", "binary_history_columns.list"), ("profile_columns", "profile_columns.list")):
            ini[k] = os.path.join(d, f)
        self.out = {k: bool(rng.random() < 0.5) for k in ("binary_history", "history_star1", "history_star2", "final_profile_star1", "final_profile_star2", "final_model_star1", "final_model_star2")}
        self.out["history_interval"] = int(rng.integers(1, 20))
        ini.update({k: str(v) for k, v in self.out.items()})
        extras = {"makefile_binary": "${MESA_DIR}/binary/work/make/makefile", "makefile_star": "${MESA_DIR}/star/work/make/makefile", "mesa_binary_extras": "${MESA_DIR}/binary/work/src/run_binary_extras.f",
                  "mesa_star_binary_extras": "${MESA_DIR}/binary/work/src/run_star_extras.f", "mesa_star1_extras": "${MESA_DIR}/star/work/src/run_star_extras.f",
                  "mesa_star2_extras": "${MESA_DIR}/star/work/src/run_star_extras.f", "binary_run": "${MESA_DIR}/binary/work/src/binary_run.f", "star_run": "${MESA_DIR}/star/work/src/run.f"}
        self.src = {"binary": {"run_binary_extras.f": "mesa binary run_binary_extras.f\n", "run_star_extras.f": "mesa binary run_star_extras.f\n", "binary_run.f": "mesa binary binary_run.f\n"},
                    "star1": {"run_star_extras.f": "mesa star run_star_extras.f\n", "run.f": "mesa star run.f\n"}, "star2": {"run_star_extras.f": "mesa star run_star_extras.f\n", "run.f": "mesa star run.f\n"}}
        if scen:
            self.src["binary"].update({f: "posydon %d %s\n" % (pick, f) for f in ("run_binary_extras.f", "run_star_extras.f")})
            self.src["star1"]["run_star_extras.f"] = "posydon %d run_star_extras.f\n" % pick
        if c["extras"] and (not scen or kind == "HMS-HMS"):
            label("own extras")
            u = os.path.join(d, "usersrc")
            os.makedirs(u)
            for f in ("run_binary_extras.f", "run_star_extras.f"):
                open(os.path.join(u, f), "w").write("user %s\n" % f)
            extras.update(user_binary_extras=os.path.join(u, "run_binary_extras.f"), user_star_binary_extras=os.path.join(u, "run_star_extras.f"))
            self.src["binary"].update({f: "user %s\n" % f for f in ("run_binary_extras.f", "run_star_extras.f")})
        self.extras = extras
        # the grid
        if self.single:
            names = ["initial_mass", "initial_z"] + [k for k in ("mixing_length_alpha",) if rng.random() < 0.0]
        else:
            names = ["m1", "m2", "initial_period_in_days"]
            more = ["initial_z", "Zbase", "fr", "do_tidal_sync", "mixing_length_alpha", "overshoot_f(1)", "x_logical_ctrl(1)", "photo_interval", "evolve_both_stars", "pause_interval", "initial_age", "set_initial_age", "new_Z", "x_ctrl(7)", "x_ctrl(8)",
                    "special_age_1", "special_age_2", "unknown_thing"]
            names += [str(k) for k in rng.permutation(more)[:int(c["more"] * 8)]]                  # the names of the folders are limited
            if max(nform.values()) > 1 and "initial_z" not in names:
                names.append("initial_z")
        rng.shuffle(names)
        self.points = []
        for i in range(c["n"]):
            p = {}
            for k in names:
                ty = next((s[k] for s in POOL.values() if k in s), "f")
                p[k] = bool(rng.random() < 0.5) if ty == "l" else int(rng.integers(0, 300)) if ty == "i" else float("%.9g" % (10 ** rng.uniform(-1, 2.5))) if rng.random() < 0.8 else float(rng.integers(1, 90))
                if k in ("initial_z", "Zbase", "new_Z"):
                    p[k] = float("%.6g" % 10 ** rng.uniform(-5, -1.5))
            self.points.append(p)
        if len(self.points) > 1 and c["close"]:
            label("points which differ little")
            self.points[1] = {k: (v * (1 + 1e-7) if isinstance(v, float) else v) for k, v in self.points[0].items()}
        self.grid = os.path.join(d, "points.csv")
        with open(self.grid, "w") as f:
            w = csv.writer(f)
            w.writerow(names)
            for p in self.points:
                w.writerow([repr(p[k]) for k in names])
        self.slurm = dict(number_of_nodes=1, number_of_mpi_tasks=1, number_of_cpus_per_task=int(rng.integers(1, 9)), job_array="True", user="me", partition="part%d" % rng.integers(0, 9), account="acc%d" % rng.integers(0, 9),
                          walltime="'%d-00:00:00'" % rng.integers(1, 9), email="me@here.org")
        if c["temp"]:
            self.slurm["work_dir"] = os.path.join(d, "tmp")
        self.keep = {k: bool(rng.random() < 0.5) for k in ("keep_profiles", "keep_photos")}
        runp = {"grid": self.grid, **({k: str(v) for k, v in self.keep.items()} if c["seed"] % 3 else {})}
        if not c["seed"] % 3:
            self.keep = dict(keep_profiles=False, keep_photos=False)
        self.inifile = os.path.join(d, "grid.ini")
        with open(self.inifile, "w") as f:
            blocks = [("slurm", self.slurm), ("mesa_inlists", ini), ("mesa_extras", extras), ("run_parameters", runp)]
            for name, b in blocks:
                f.write("[%s]\n; comment\n" % name)
                for k, v in b.items():
                    f.write("%s = %s\n" % (k, v))
                f.write("\n")


RECORD = '''#!/bin/bash
{ printf '%s\\0' "$@"; } > "$STANDIN_OUT/call.$(date +%s%N).$RANDOM"
echo "$SDK_READY $OMP_NUM_THREADS $MESA_DIR" > "$STANDIN_OUT/env"
'''
SBATCH = '''#!/bin/bash
echo "$@" >> "$STANDIN_OUT/sbatch"
echo $((1000 + $(wc -l < "$STANDIN_OUT/sbatch")))
'''


@contextlib.contextmanager
def script_env(s, argv, **env):
    old, cwd, argv0, mods = dict(os.environ), os.getcwd(), sys.argv, sys.modules.get("mpi4py")
    fork, sleepers = os.fork, []

    def stand_in_fork():
        p = subprocess.Popen(["sleep", "300"])
        sleepers.append(p)
        return p.pid
    os.environ.update(HOME=s.home, MESA_DIR=s.mesa, MESASDK_ROOT=os.path.join(s.d, "sdk"), PATH=os.path.join(s.d, "bin") + ":" + old["PATH"], GIT_CONFIG_NOSYSTEM="1", GIT_TERMINAL_PROMPT="0", **env)
    sys.argv = list(argv)
    sys.modules["mpi4py"] = types.ModuleType("mpi4py")
    sys.modules["mpi4py"].MPI = types.SimpleNamespace()
    fd1, fd2, null = os.dup(1), os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.fork = stand_in_fork
    try:
        yield sleepers
    finally:
        os.fork = fork
        os.dup2(fd1, 1)
        os.dup2(fd2, 2)
        for f in (fd1, fd2, null):
            os.close(f)
        sys.argv = argv0
        if mods is None:
            del sys.modules["mpi4py"]
        else:
            sys.modules["mpi4py"] = mods
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(old)
        for p in sleepers:
            p.kill()
            p.wait()


def compare(got, want, what):
    want = {k.lower(): v for k, v in want.items()}
    for k in sorted(set(got) | set(want)):
        check(k in got and k in want, what + ": parameter", parameter=k, got=got.get(k, "absent"), expected=want.get(k, "absent"))
        a, b = got[k], want[k]
        ok = a == b and isinstance(a, bool) == isinstance(b, bool) if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) else bool(np.isclose(a, b, rtol=1e-9))
        check(ok, what + ": value", parameter=k, got=a, expected=b)


case = fixed(kind=one(["binary", "binary", "binary", "single"]), seed=seeds(), n=st.integers(1, 4), zams=one([False, False, True]), form=st.tuples(st.integers(0, 3), st.integers(0, 3)), steps=st.integers(1, 3), scenario=st.booleans(),
             system=one(["HMS-HMS", "CO-H_star", "HeMS-HMS"]), sc_zams=st.booleans(), posydon=st.booleans(), user=one([True, True, False]), listed=st.booleans(), extras=st.booleans(), more=one([0.0, 0.3, 0.6]),
             temp=st.booleans(), close=st.booleans(), slurm=st.booleans(), again=st.booleans(), order=st.booleans())


@sub(PID, "grid", case, quick=200, thorough=2500)
def grid(c):
    with tempfile.TemporaryDirectory(prefix="vp_", ignore_cleanup_errors=True) as d:         # not in memory: programs are executed there
        d = os.path.realpath(d)
        s = Setup(c, d)
        for name, text in (("python", RECORD), ("sbatch", SBATCH), ("compress-mesa", "#!/bin/bash\npwd > \"$STANDIN_OUT/compressed\"\n"), ("posydon-run-grid", "#!/bin/bash\n")):
            p = os.path.join(d, "bin", name)
            open(p, "w").write(text)
            os.chmod(p, 0o755)
        rec = os.path.join(d, "calls")
        os.makedirs(rec)
        # set up
        for _ in range(2 if c["again"] else 1):
            with quiet(), script_env(s, [SETUP, "--inifile", s.inifile, "--grid-type", "fixed", "--run-directory", s.run, "--submission-type", "slurm" if c["slurm"] else "shell"]):
                os.chdir(s.run)
                try:
                    runpy.run_path(SETUP, run_name="__main__")
                except Exception as e:
                    check(False, "setting up fails", error="%s: %s" % (type(e).__name__, e))
        for who, fs in s.src.items():
            src = os.path.join(s.run, who, "src")
            got = {f: open(os.path.join(src, f)).read() for f in os.listdir(src)}
            check(got == fs, "sources of an executable", which=who, got=got, expected=fs)
            check(open(os.path.join(s.run, who, "built")).read() == "".join(fs[f] for f in sorted(fs)), "an executable was not built from its sources", which=who)
        # submit
        n = len(s.points)
        env = dict(os.environ, STANDIN_OUT=rec, HOME=s.home, MESA_DIR="", MESASDK_ROOT="", PATH=os.path.join(d, "bin") + ":" + os.environ["PATH"])
        if c["slurm"]:
            r = subprocess.run(["bash", "run_grid.sh"], cwd=s.run, env=env, capture_output=True, text=True)
            calls = open(os.path.join(rec, "sbatch")).read().splitlines() if os.path.exists(os.path.join(rec, "sbatch")) else []
            check(r.returncode == 0 and len(calls) == 2, "submission", calls=calls, error=r.stderr)
            script = calls[0].split()[-1]
            check("afterany:1001" in calls[1], "the clean-up waits for the runs", call=calls[1])
            head = dict(re.findall(r"#SBATCH --([a-z-]+)[= ](\S+)", open(os.path.join(s.run, script)).read()))
            for k, v in (("account", s.slurm["account"]), ("partition", s.slurm["partition"]), ("cpus-per-task", str(s.slurm["number_of_cpus_per_task"])), ("time", s.slurm["walltime"].strip("'")), ("mail-user", s.slurm["email"])):
                check(head.get(k) == v, "setting of the job", setting=k, got=head.get(k), expected=v)
            a, b = (head["array"].split("-") + [None])[:2]
            tasks = range(int(a), int(b if b is not None else a) + 1)
            for t in tasks:
                r = subprocess.run(["bash", script], cwd=s.run, env=dict(env, SLURM_ARRAY_TASK_ID=str(t), SLURM_JOB_END_TIME=str(int(time.time()) + 1000)), capture_output=True, text=True)
                check(r.returncode == 0, "a job fails", error=r.stderr)
            subprocess.run(["bash", calls[1].split()[-1]], cwd=s.run, env=env, capture_output=True)
        else:
            r = subprocess.run(["bash", "grid_command.sh"], cwd=s.run, env=env, capture_output=True, text=True)
            check(r.returncode == 0, "the command fails", error=r.stderr)
        check(os.path.exists(os.path.join(rec, "compressed")), "the output is compressed at the end")
        check(open(os.path.join(rec, "env")).read().split() == ["1", str(s.slurm["number_of_cpus_per_task"]), s.mesa], "environment of the runs", got=open(os.path.join(rec, "env")).read())
        calls = [open(p).read().split("\0")[:-1] for p in sorted(glob.glob(os.path.join(rec, "call.*")))]
        if c["order"]:
            calls = calls[::-1]
        # run
        for args in calls:
            check(args[0] == os.path.join(d, "bin", "posydon-run-grid"), "command", got=args[0])
            with quiet() as out, script_env(s, args):
                os.chdir(s.run)
                try:
                    runpy.run_path(RUN, run_name="__main__")
                except SystemExit as e:
                    check(not e.code, "a run exits with a failure", code=e.code, output=out.getvalue()[-300:])
                except Exception as e:
                    check(False, "a run fails", error="%s: %s" % (type(e).__name__, e))
        nontrivial(n > 1)
        judge(s, calls)


def judge(s, calls):
    c, d = s.c, s.d
    dirs = sorted(p for p in glob.glob(os.path.join(s.run, "*_grid_index_*")))
    index = [int(p.rsplit("_", 1)[1]) for p in dirs]
    check(sorted(index) == list(range(len(s.points))), "every point of the grid is run once", got=sorted(index), points=len(s.points))
    check(not os.listdir(os.path.join(d, "tmp")), "left over in the temporary folder", got=os.listdir(os.path.join(d, "tmp")))
    for p, i in zip(dirs, index):
        point = s.points[i]
        recs = sorted(os.listdir(os.path.join(p, "rec")), key=int)
        steps = [(1, k) for k in range(len(s.formation[1]))] + [(2, k) for k in range(len(s.formation[2]))] + ([] if s.single else [("binary", 0)])
        check(len(recs) == len(steps), "number of MESA runs of a point", got=len(recs), expected=len(steps))
        for f, text in s.cols.items():
            check(open(os.path.join(p, f)).read() == text, "list of columns", file=f, got=open(os.path.join(p, f)).read(), expected=text)
        for num, (who, k) in enumerate(steps):
            cwd = os.path.join(p, "rec", str(num))
            exe = open(os.path.join(cwd, "exe")).read().strip()
            want_exe = os.path.join(s.run, *(("binary", "binary") if who == "binary" else ("star%d" % who, "star")))
            check(exe == want_exe, "executable", got=exe, expected=want_exe)
            name = "out.txt" if who == "binary" else "out_star%d_formation_step%d.txt" % (who, k)
            text = open(os.path.join(p, name)).read()
            check("model done %d" % num in text and "problem %d" % num in text, "output of MESA", file=name, got=text)
            if who == "binary":
                wc = {**s.static["binary_controls"], "history_interval": s.out["history_interval"] if s.out["binary_history"] else -1}
                wj = {**s.static["binary_job"]}
                wc.update({q: v for q, v in point.items() if q in s.static["binary_controls"]})
                wj.update({q: v for q, v in point.items() if q in s.static["binary_job"]})
                compare(effective("inlist", "binary_controls", cwd), wc, "binary_controls")
                job = effective("inlist", "binary_job", cwd)
                inl = {j: job.pop("inlist_names(%d)" % j) for j in (1, 2)}
                compare(job, wj, "binary_job")
                for j in (1, 2):
                    wc, wj = dict(s.static["star%d_controls" % j]), dict(s.static["star%d_job" % j])
                    grid_c, grid_j = ({q: v for q, v in point.items() if q in w} for w in (wc, wj))
                    wc.update(history_interval=s.out["history_interval"], do_history_file=s.out["history_star%d" % j])
                    wc["x_ctrl(1)"] = wc.get("x_ctrl(1)", 0.0)
                    if s.zams[j]:
                        wc["zams_filename"] = s.zams[j]
                    if s.formation[j]:
                        wj.update({"create_pre_main_sequence_model": False, "load_saved_model": True, "saved_model_name": "initial_star%d_step%d.mod" % (j, len(s.formation[j]) - 1)})
                    wj["write_profile_when_terminate"] = s.out["final_profile_star%d" % j]
                    if s.out["final_profile_star%d" % j]:
                        wj["filename_for_profile_when_terminate"] = "final_profile_star%d.data" % j
                    wj["save_model_when_terminate"] = s.out["final_model_star%d" % j]
                    if s.out["final_model_star%d" % j]:
                        wj["save_model_filename"] = "final_star%d.mod" % j
                    compare(effective(inl[j], "controls", cwd), {**wc, **grid_c}, "controls of star %d" % j)
                    compare(effective(inl[j], "star_job", cwd), {**wj, **grid_j}, "star_job of star %d" % j)
            else:
                form = s.formation[who]
                wc, wj = dict(form[k]["controls"]), dict(form[k]["star_job"])
                last = k == len(form) - 1
                mass = point["initial_mass"] if s.single else point["m%d" % who]
                wc["initial_mass"] = mass
                if (s.single and last) or k == 1:
                    wc["initial_z"] = wc["Zbase"] = point["initial_z"]
                if k == 1 and not (s.single and last):
                    wj["new_Z"] = point["initial_z"]
                if k:
                    wj.update({"create_pre_main_sequence_model": False, "load_saved_model": True, "saved_model_name": "initial_star%d_step%d.mod" % (who, k - 1)})
                wj.update({"save_model_when_terminate": True, "save_model_filename": "initial_star%d_step%d.mod" % (who, k)})
                if s.single and s.zams[1]:
                    wc["zams_filename"] = s.zams[1]
                got = effective("inlist", "controls", cwd)
                if "x_ctrl(1)" in got:
                    wc["x_ctrl(1)"] = 0.0
                compare(got, wc, "controls of formation step %d of star %d" % (k, who))
                compare(effective("inlist", "star_job", cwd), wj, "star_job of formation step %d of star %d" % (k, who))
        check(not os.path.exists(os.path.join(p, ".mesa_temp_cache")), "cache left over")
        for f in ("photos", "photos1"):
            check(os.path.exists(os.path.join(p, f)) == s.keep["keep_photos"], "photos are kept as chosen", keep=s.keep["keep_photos"])
        for f in ("LOGS", "LOGS1", "LOGS2"):
            check(os.path.exists(os.path.join(p, f, "history.data")), "history lost", folder=f)
            check(os.path.exists(os.path.join(p, f, "profile%d.data" % (len(steps) - 1))) == s.keep["keep_profiles"], "profiles are kept as chosen", keep=s.keep["keep_profiles"])
        check(os.path.exists(os.path.join(p, "final_star1.mod")), "final model lost")


@sub(PID, "backup", fixed(seed=seeds(), left=one([-400, 100, 1500, 3000, 4321, 86400]), before=one([None, 60, 900])), quick=16, thorough=300)
def backup(cc):
    """Shortly before the job ends, what a run has written so far is copied to its final place, in place of older data, and the run goes on."""
    c = dict(kind="binary", seed=cc["seed"], n=1, zams=True, form=(0, 0), steps=1, scenario=False, system="HMS-HMS", sc_zams=False, posydon=False, user=True, listed=False, extras=False, more=0.3, temp=True, close=False)
    with tempfile.TemporaryDirectory(prefix="vp_", ignore_cleanup_errors=True) as d:
        d = os.path.realpath(d)
        s = Setup(c, d)
        p = os.path.join(d, "bin", "posydon-run-grid")
        open(p, "w").write("#!/bin/bash\n")
        os.chmod(p, 0o755)
        with quiet(), script_env(s, [SETUP, "--inifile", s.inifile, "--grid-type", "fixed", "--run-directory", s.run]):
            os.chdir(s.run)
            runpy.run_path(SETUP, run_name="__main__")
        line = next(x for x in open(os.path.join(s.run, "grid_command.sh")) if "--mesa-grid" in x)
        args = line.split("; do ")[-1].split(" ; done")[0].replace("$SLURM_ARRAY_TASK_ID", "0").split()
        end = int(time.time()) + cc["left"]
        args = args[1:] + ["--job_end", str(end)] + (["--job_before_end", str(cc["before"])] if cc["before"] is not None else [])
        slept, sleep, code = [], time.sleep, "none"
        for round in range(2):
            with quiet(), script_env(s, args):
                os.fork, fork = (lambda: 0), os.fork
                time.sleep = lambda t: (slept.append((t, time.time())), [open(os.path.join(q, "written_meanwhile"), "w").write(str(round)) for q in glob.glob(os.path.join(d, "tmp", "*"))])
                os.chdir(s.run)
                try:
                    runpy.run_path(RUN, run_name="__main__")
                except SystemExit as e:
                    code = e.code
                finally:
                    time.sleep, os.fork = sleep, fork
            work, final = glob.glob(os.path.join(d, "tmp", "*")), glob.glob(os.path.join(s.run, "*_grid_index_0"))
            check(not code, "the copying process ends", code=code)
            check(len(work) == 1 and len(final) == 1 and os.path.basename(work[0]) == os.path.basename(final[0]), "folders", work=work, final=final)
            check(sorted(os.listdir(work[0])) == sorted(os.listdir(final[0])) and open(os.path.join(final[0], "written_meanwhile")).read() == str(round), "the copy has what the run wrote", got=sorted(os.listdir(final[0])))
        left = end - (300 if cc["before"] is None else cc["before"]) - slept[0][1]
        nontrivial(left > 1)
        if left > 1:
            check(len(slept) == 2 and -2 <= slept[0][0] - left <= 5, "time of the copy", waits=slept[0][0], expected=left)
        elif left < -5:
            check(len(slept) == 2 and 0 <= slept[0][0] <= 300, "time of the copy", waits=slept[0][0])
