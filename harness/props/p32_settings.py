"""P32: inifiles, the settings the steps are loaded with, and the data types of saved tables."""
import contextlib
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import sub, one, u, fixed, nontrivial, label, scratch
from core import check as _check
import synth

PID = "P32"
METS = [2.0, 1.0, 0.45, 0.2, 0.1, 0.01, 0.001, 0.0001]


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


# ---------------------------------------------------------------- generated inifiles
text = st.text(alphabet=st.sampled_from(list("abzAZ019 _-./#;=:[](){},'\"\\éλ")), max_size=12)
leaf = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 12, 10 ** 12), st.floats(allow_nan=False, allow_infinity=False), text)
literal = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)), max_leaves=6)
key = st.from_regex(r"\A[a-zA-Z][a-zA-Z0-9_]{0,9}\Z").filter(lambda k: "import" not in k.lower() and not k.lower().startswith("include_s"))
section = st.dictionaries(key, literal, max_size=4)


def fmt(k, v, style, rng):
    r = repr(v)
    if style == "multi" and isinstance(v, list) and v:
        r = "[" + ",\n       ".join(repr(x) for x in v) + ",\n       ]"
    sep = [" = ", "=", ": ", " =  "][int(rng.integers(4))]
    line = "  " + k + sep + r + "\n" if style != "flush" else k + sep + r + "\n"
    if rng.uniform() < 0.3:
        line += "    # comment = 1\n"
    if rng.uniform() < 0.2:
        line += "\n; another comment\n\n"
    return line


def ini(sections, style, seed, order=None):
    rng = np.random.default_rng(seed)
    out = "# generated\n\n"
    names = list(sections)
    for n in (names if order is None else [names[i] for i in order if i < len(names)]):
        out += "[%s]\n" % n + "".join(fmt(k, v, style, rng) for k, v in sections[n].items()) + "\n"
    return out


def same(a, b):
    """Equal including the types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


@contextlib.contextmanager
def environ(**kw):
    names = ["SLURM_ARRAY_JOB_ID", "SLURM_ARRAY_TASK_ID", "SLURM_ARRAY_TASK_MIN", "SLURM_ARRAY_TASK_COUNT"]
    old = {k: os.environ.pop(k, None) for k in names}
    os.environ.update({k: str(v) for k, v in kw.items()})
    try:
        yield
    finally:
        for k in names:
            os.environ.pop(k, None)
            if old[k] is not None:
                os.environ[k] = old[k]


pop_case = fixed(a=section, b=section, c=section, d=section, inc=st.tuples(st.booleans(), st.booleans()), style=one(["plain", "multi", "flush"]),
                 seed=st.integers(0, 10 ** 6), order=st.permutations(range(5)), second=st.one_of(st.none(), section),
                 slurm=st.one_of(st.none(), st.tuples(st.integers(0, 10 ** 6), st.integers(0, 50), st.integers(0, 50))), mpi=st.booleans(), other=section)


@sub(PID, "population_ini", pop_case, quick=300, thorough=6000)
def population_ini(c):
    """The settings of a population are exactly the literals of its inifiles and the place in the job array."""
    from posydon.popsyn.io import binarypop_kwargs_from_ini
    mpi = c["mpi"] and c["slurm"] is not None
    a = dict(c["a"], use_MPI=mpi)
    taken = set(a) | set(c["second"] or ())         # a setting given in two sections is the user's mistake
    b = {k: v for k, v in c["b"].items() if k not in taken}
    secs = {"BinaryPopulation_options": a, "BinaryStar_output": b, "SingleStar_1_output": dict(c["c"], include_S1=c["inc"][0]),
            "SingleStar_2_output": dict(c["d"], include_S2=c["inc"][1]), "step_x": c["other"]}
    env = {}
    if c["slurm"] is not None:
        job, first, rank = c["slurm"]
        env = dict(SLURM_ARRAY_JOB_ID=job, SLURM_ARRAY_TASK_ID=first + rank, SLURM_ARRAY_TASK_MIN=first, SLURM_ARRAY_TASK_COUNT=rank + 3)
    nontrivial(sum(len(x) for x in secs.values()) > 6 and any(isinstance(v, (list, dict)) for s in secs.values() for v in s.values()),
               "several settings with containers")
    label("job array", bool(env))
    with scratch() as d:
        p = os.path.join(d, "a.ini")
        with open(p, "w") as f:
            f.write(ini(secs, c["style"], c["seed"], c["order"]))
        if c["second"] is not None:
            label("two inifiles")
            p2 = os.path.join(d, "b.ini")
            with open(p2, "w") as f:
                f.write(ini({"BinaryPopulation_options": c["second"]}, "plain", c["seed"]))
            a = dict(a, **c["second"])
            p = [p, p2]
        with environ(**env):
            try:
                got = binarypop_kwargs_from_ini(p)
            except ValueError:
                check(mpi, "inifile refused")
                return
    check(not mpi, "MPI inside a job array must be refused")
    want = dict(a)
    if env:
        want.update(JOB_ID=c["slurm"][0], RANK=c["slurm"][2], size=c["slurm"][2] + 3, comm=None)
    else:
        want.update(RANK=None, size=None, comm=None)
    want.update(b)
    for i, s in ((1, c["c"]), (2, c["d"])):
        want["include_S%d" % i] = c["inc"][i - 1]
        if c["inc"][i - 1]:
            want["S%d_kwargs" % i] = dict(s)
    for k in ("JOB_ID", "RANK", "size"):
        if got.get(k) is not None and k not in b:
            got[k] = int(got[k])
    check(set(got) == set(want), "names of the settings", got=sorted(got), expected=sorted(want))
    for k in want:
        ok = same(got[k], want[k]) or (isinstance(want[k], dict) and same(dict(sorted(got[k].items())), dict(sorted(want[k].items()))))
        check(ok, "setting %s" % k, got=got[k], expected=want[k])


MODULE = '''
class Base:
    def __init__(self, **kwargs):
        self.kwargs = kwargs
    def __call__(self, binary):
        pass
''' + "".join("class C%d(Base):\n    pass\n" % i for i in range(6))
BUILTIN = [("posydon.binary_evol.simulationproperties", "TimingHooks"), ("posydon.binary_evol.simulationproperties", "StepNamesHooks"),
           ("posydon.binary_evol.step_end", "step_end"), ("posydon.binary_evol.flow_chart", "flow_chart"), ("builtins", "dict")]
hook = fixed(cls=st.integers(0, 5), absolute=st.booleans(), kwargs=st.one_of(st.none(), st.dictionaries(key, literal, max_size=2)), none=st.booleans())
sim_case = fixed(steps=st.lists(fixed(name=one(["flow", "step_HMS_HMS", "step_SN", "step_CE", "step_end", "step_my_own"]), cls=st.integers(0, 5),
                                      absolute=st.booleans(), none=st.booleans(), kwargs=section), max_size=5, unique_by=lambda s: s["name"]),
                 hooks=st.one_of(st.none(), st.lists(hook, max_size=4)), gap=st.integers(1, 3), start=st.integers(1, 3),
                 paths=st.dictionaries(one(["HMS_HMS_path", "CO_HeMS_path", "single_HMS_path"]), one([None, "/a/b", "rel/x"]), max_size=3),
                 style=one(["plain", "multi", "flush"]), seed=st.integers(0, 10 ** 6), order=st.permutations(range(9)), rel=st.booleans())


@sub(PID, "simulation_ini", sim_case, quick=300, thorough=5000)
def simulation_ini(c):
    """Every section naming a step gives its class and settings, every numbered hook its class and settings, in order."""
    import importlib
    from posydon.popsyn.io import simprop_kwargs_from_ini
    with scratch() as d:
        mod = os.path.join(d, "my.steps.py" if c["seed"] % 5 == 0 else "mine.py")
        with open(mod, "w") as f:
            f.write(MODULE)
        where = os.path.relpath(mod) if c["rel"] else mod
        secs, want = {"environment_variables": {"PATH_TO_POSYDON": "x"}}, {}

        def imports(s, suffix=""):
            out = {}
            b = BUILTIN[s["cls"] % len(BUILTIN)]
            if s["absolute"]:
                out["import" + suffix] = None if s["none"] else list(b)
                out["absolute_import" + suffix] = [where, "C%d" % s["cls"]]
                return out, "C%d" % s["cls"]
            out["import" + suffix] = list(b)
            if s["none"]:
                out["absolute_import" + suffix] = None
            return out, getattr(importlib.import_module(b[0]), b[1])
        for s in c["steps"]:
            imp, cls = imports(s)
            secs[s["name"]] = dict(imp, **s["kwargs"])
            want[s["name"]] = (cls, s["kwargs"])
        if c["hooks"] is not None:
            h, wh = {}, []
            for k, x in enumerate(c["hooks"]):
                n = c["start"] + k * c["gap"]
                imp, cls = imports(x, "_%d" % n)
                h.update(imp)
                if x["kwargs"] is not None:
                    h["kwargs_%d" % n] = x["kwargs"]
                wh.append((cls, x["kwargs"] or {}))
            secs["extra_hooks"], want["extra_hooks"] = h, wh
            label("hooks without further settings", bool(c["hooks"]) and all(x["kwargs"] is None and not x["none"] and not x["absolute"] for x in c["hooks"]))
        if c["paths"]:
            secs["grid_paths"] = c["paths"]
            want.update(c["paths"])
        nontrivial(len(c["steps"]) >= 2 and bool(c["hooks"]), "steps and hooks")
        p = os.path.join(d, "s.ini")
        with open(p, "w") as f:
            f.write(ini(secs, c["style"], c["seed"], c["order"]))
        got = simprop_kwargs_from_ini(p)
        same_cls = lambda a, b: (isinstance(b, str) and getattr(a, "__name__", "") == b and a(x=1).kwargs == {"x": 1}) or a is b
        check(set(got) == set(want), "sections of the simulation", got=sorted(got), expected=sorted(want))
        for n, w in want.items():
            g = got[n]
            if n == "extra_hooks":
                check(len(g) == len(w), "number of hooks", got=len(g), expected=len(w), inifile=secs[n])
                for (gc, gk), (wc, wk) in zip(g, w):
                    check(same_cls(gc, wc) and same(gk, wk), "hook", got=(gc, gk), expected=(wc, wk))
            elif isinstance(w, tuple):
                check(same_cls(g[0], w[0]), "class of %s" % n, got=g[0], expected=w[0])
                check(same(g[1], w[1]), "settings of %s" % n, got=g[1], expected=w[1])
            else:
                check(same(g, w), "grid path", got=g, expected=w)
        if c["steps"]:
            n = c["steps"][0]["name"]
            only = simprop_kwargs_from_ini(p, only=n)
            check(list(only) == [n] and same(only[n][1], want[n][1]), "a single section", got=list(only))


# ---------------------------------------------------------------- loading the steps
class Plain:
    """A user defined step (no list of its settings)."""
    def __init__(self, a=0, b=None):
        self.got = {"a": a, "b": b}


class Listed:
    DEFAULT_KWARGS = {"metallicity": None, "RNG": None, "a": 0, "b": None, "grid_path": None}

    def __init__(self, **kw):
        for k in kw:
            if k not in self.DEFAULT_KWARGS:
                raise ValueError(k)
        self.got = kw


class Matching(Listed):
    DEFAULT_KWARGS = dict(Listed.DEFAULT_KWARGS, track_matcher=None)


KINDS = {"plain": Plain, "listed": Listed, "matching": Matching}
GRIDSTEPS = {"step_HMS_HMS": "HMS_HMS_path", "step_CO_HMS_RLO": "CO_HMS_RLO_path", "step_CO_HeMS": "CO_HeMS_path", "step_CO_HeMS_RLO": "CO_HeMS_RLO_path"}
STEPS = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO", "step_detached", "step_disrupted", "step_merged",
         "step_initially_single", "step_dco", "step_SN", "step_CE", "step_end", "step_my_own"]


def write_single(dirname, Z, he):
    masses = [(1.0 + METS.index(Z) * 0.01) * m for m in (2.0, 5.0, 12.0, 30.0)]
    synth.write_single_grid(dirname, Z, he, masses, 20)
    return masses


load_case = fixed(steps=st.lists(fixed(name=one(STEPS), kind=one(["plain", "listed", "listed", "matching"]), a=st.integers(0, 9), tol=one([None, 0.02, 0.05]),
                                       method=one([None, "root", "minimize"]), Z=one([None, None, None, 0.1, 1.0])), min_size=1, max_size=4, unique_by=lambda s: s["name"]),
                  loads=st.lists(one([1.0, 0.1, 0.45, 1e-4]), min_size=1, max_size=3), path=st.booleans(), default=st.booleans())


def three(loads, methods=(None, "root", "minimize"), tols=(None, 0.02, 0.05)):
    return dict(steps=[dict(name=n, kind="matching", a=i, tol=t, method=m, Z=None) for i, (n, m, t) in enumerate(zip(("step_detached", "step_disrupted", "step_merged"), methods, tols))],
                loads=loads, path=False, default=False)


@sub(PID, "load_steps", load_case, quick=60, thorough=1200, examples=[three([1.0, 0.1]), three([0.1, 0.45, 0.1])])
def load_steps(c):
    """(Re)loading the steps gives each its own settings, the metallicity asked for, the random numbers and the grids of that metallicity."""
    from posydon.binary_evol.simulationproperties import SimulationProperties
    with scratch() as d:
        match = any(s["kind"] == "matching" for s in c["steps"])
        sh, she = os.path.join(d, "single_HMS"), os.path.join(d, "single_HeMS")
        masses = {}
        if match:
            for Z in set(c["loads"]) | {s["Z"] for s in c["steps"]} - {None}:
                masses[Z] = write_single(sh, Z, False)
                write_single(she, Z, True)
        kw = {"single_HMS_path": sh, "single_HeMS_path": she}
        if c["path"]:
            for p in GRIDSTEPS.values():
                kw[p] = os.path.join(d, p)
        settings = {}
        for s in c["steps"]:
            k = {"a": s["a"]}
            if s["kind"] == "matching":
                if s["tol"]:
                    k["matching_tolerance"] = s["tol"]
                if s["method"]:
                    k["matching_method"] = s["method"]
            if s["Z"] and s["kind"] != "plain":
                k["metallicity"] = s["Z"]
                label("a step with its own metallicity")
            if s["kind"] == "plain" and s["name"] in GRIDSTEPS:
                continue
            settings[s["name"]] = (KINDS[s["kind"]], k)
        nontrivial(len(settings) > 1 and len(set(c["loads"])) > 1, "several steps, loaded at several metallicities")
        label("track matching", match)
        props = SimulationProperties(flow=(dict, {}), **kw, **{n: (t[0], dict(t[1])) for n, t in settings.items()})
        try:
            for Zload in c["loads"]:
                rng = np.random.default_rng(3)
                props.load_steps(metallicity=Zload, RNG=rng)
                check(props.steps_loaded is True, "all steps are loaded")
                check(props.flow == {}, "flow is loaded")
                for n, (cls, k) in settings.items():
                    s = getattr(props, n)
                    Z = k.get("metallicity", Zload)
                    check(type(s) is cls, "class of %s" % n, got=type(s))
                    if cls is Plain:
                        check(s.got == {"a": k["a"], "b": None}, "settings of %s" % n, got=s.got)
                        continue
                    check(s.got.get("metallicity") == Z and type(s.got["metallicity"]) is float, "metallicity of %s" % n, got=s.got.get("metallicity"), expected=Z)
                    check(s.got.get("RNG") is rng, "random numbers of %s" % n)
                    check(s.got.get("a") == k["a"], "settings of %s" % n, got=s.got)
                    if n in GRIDSTEPS:
                        want = kw[GRIDSTEPS[n]] if c["path"] else SimulationProperties.default_grid_paths[GRIDSTEPS[n]]
                        check(os.path.abspath(s.got.get("grid_path")) == os.path.abspath(want), "grid of %s" % n, got=s.got.get("grid_path"))
                    if cls is Matching:
                        tm = s.got["track_matcher"]
                        check(tm.matching_method == (k.get("matching_method") or "minimize"), "matching method of %s" % n, got=tm.matching_method, metallicity=Z)
                        check(tm.matching_tolerance == (k.get("matching_tolerance") or 1e-2), "matching tolerance of %s" % n, got=tm.matching_tolerance, metallicity=Z)
                        for g in (tm.grid_Hrich, tm.grid_strippedHe):
                            check(np.allclose(sorted(g.grid_mass), masses[Z]), "tracks of %s" % n, got=list(g.grid_mass), expected=masses[Z])
                        check(not {"matching_method", "matching_tolerance"} & set(s.got), "matching settings go to the matcher")
                check(not any(hasattr(props, n) for n in STEPS if n not in settings), "no other steps")
            mine = [n for n, t in settings.items() if t[0] is Matching]
            if mine:
                before = {n: (getattr(props, n).got["track_matcher"].matching_method, getattr(props, n).got["track_matcher"].matching_tolerance) for n in mine}
                n = mine[0]
                Z = settings[n][1].get("metallicity", Zload)
                new = "root" if before[n][0] == "minimize" else "minimize"
                props.load_a_step(n, (Matching, {"a": 5, "matching_method": new}), metallicity=Z)
                s = getattr(props, n)
                check(s.got["a"] == 5 and s.got["metallicity"] == Z, "settings of the reloaded step", got=s.got)
                check(s.got["track_matcher"].matching_method == new, "matching method of the reloaded step", got=s.got["track_matcher"].matching_method)
                for m in mine[1:]:
                    tm = getattr(props, m).got["track_matcher"]
                    check((tm.matching_method, tm.matching_tolerance) == before[m], "the other steps keep their matching", step=m)
        finally:
            props.close()


# ---------------------------------------------------------------- data types
user_names = one(["my_info", "x_final", "f_fall", "plain", "a_i_b", "event_f_i"])
USER = st.dictionaries(user_names, one(["float64", "string", "int64"]), max_size=3)
dt_case = fixed(cols=st.lists(one(["state", "event", "time", "separation", "mass_transfer_case", "step_names", "step_times", "eccentricity"]), unique=True, max_size=5),
                s1=st.lists(one(["state", "mass", "total_moment_of_inertia", "m_disk_radiated", "lambda_CE_1cent"]), unique=True, max_size=4),
                s2=st.lists(one(["state", "mass", "total_moment_of_inertia", "surface_h1"]), unique=True, max_size=4),
                scal=st.lists(one(["SN_type", "f_fb", "spin_orbit_tilt_first_SN", "natal_kick_array_0"]), unique=True, max_size=3),
                user=st.tuples(USER, USER, USER), n=st.integers(1, 5), seed=st.integers(0, 10 ** 6), unknown=st.booleans())
STR = {"state", "event", "mass_transfer_case", "step_names", "SN_type"}


def column(kind, n, rng):
    if kind == "string":
        return [[None, "abc", "detached", "1.5", ""][int(rng.integers(5))] for _ in range(n)]
    if kind == "int64":
        return [int(x) for x in rng.integers(-9, 9, n)]
    if rng.uniform() < 0.3:
        return [None if rng.uniform() < 0.5 else float(x) for x in rng.uniform(0, 1, n)]
    if rng.uniform() < 0.3:
        return [int(x) for x in rng.integers(0, 9, n)]
    return [float(x) for x in rng.uniform(0, 1, n)]


@sub(PID, "data_types", dt_case, quick=250, thorough=4000)
def data_types(c):
    """Saved tables keep all values and columns and have the declared data types, also for user defined columns."""
    from posydon.popsyn.io import clean_binary_history_df, clean_binary_oneline_df
    nontrivial(any(any("_i" in k or "_f" in k for k in x) for x in c["user"]) and bool(c["s1"]), "user columns with _i or _f in their names")
    kind = lambda k: "string" if k in STR else "float64"
    for oneline in (False, True):
        rng = np.random.default_rng(c["seed"])
        cols = {}
        suffixes = ("_i", "_f") if oneline else ("",)
        for sfx in suffixes:
            for pre, known, user in (("", c["cols"], c["user"][0]), ("S1_", c["s1"], c["user"][1]), ("S2_", c["s2"], c["user"][2])):
                for k in known:
                    cols[pre + k + sfx] = kind(k)
                for k, t in user.items():
                    cols[pre + k + sfx] = t
        if oneline:
            for k in c["scal"]:
                cols["S1_" + k] = cols["S2_" + k] = kind(k)
        if len(set(cols)) == 0:
            continue
        order = list(cols)
        rng.shuffle(order)
        data = {k: column(cols[k], c["n"], rng) for k in order}
        df = pd.DataFrame(data, index=[7] * c["n"])
        if c["unknown"]:
            df["other"] = ["x"] * c["n"]
        f = clean_binary_oneline_df if oneline else clean_binary_history_df
        out = f(df, extra_binary_dtypes_user=c["user"][0], extra_S1_dtypes_user=c["user"][1], extra_S2_dtypes_user=c["user"][2])
        check(list(out.columns) == list(df.columns) and list(out.index) == list(df.index), "columns and rows unchanged")
        for k in order:
            t = out[k].dtype
            want = "object" if cols[k] == "string" else cols[k]
            check(str(t) == want, "data type of %s" % k, got=str(t), expected=want)
            for a, b in zip(data[k], out[k]):
                ok = (pd.isna(b) if a is None else (b == a))
                check(ok, "value of %s" % k, got=b, expected=a)
