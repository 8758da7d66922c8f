"""P26 evolving, saving and combining populations: every system exactly once, unchanged, whatever the batching."""
import contextlib
import io as _io
import os
import shutil
import traceback
import warnings

import numpy as np
import pandas as pd

from core import *

from posydon.binary_evol.simulationproperties import SimulationProperties, StepNamesHooks, TimingHooks
from posydon.popsyn.binarypopulation import BinaryGenerator, BinaryPopulation, PopulationManager
from posydon.popsyn.defaults import default_kwargs
from posydon.popsyn.independent_sample import generate_independent_samples
from posydon.utils.common_functions import set_binary_to_failed
from posydon.utils.posydonerror import ModelError
from posydon.utils.posydonwarning import Pwarn

STEPS = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO", "step_detached", "step_disrupted", "step_merged", "step_initially_single", "step_dco",
         "step_SN", "step_CE", "step_end"]
EVENTS = [None, "CC1", "oRLO1", "oCE1", "redirect_from_CO_HeMS_RLO", "CO_contact"]
STATES = ["detached", "RLO1", "disrupted", "initially_single_star"]
SS = ["H-rich_Core_H_burning", "stripped_He_Central_He_depleted", "BH", "NS"]


class AnyFlow(dict):
    def __getitem__(self, k):
        e = k[3]
        if e == "CO_contact" and k[2] == "disrupted":
            raise KeyError(k)
        return {"ZAMS": "step_HMS_HMS", "CC1": "step_SN", "oCE1": "step_CE", None: "step_detached"}.get(e, "step_CO_HeMS_RLO")

    def __contains__(self, k):
        return not (k[3] == "CO_contact" and k[2] == "disrupted")

    def get(self, k, d=None):
        return self[k] if k in self else d


class Stub:
    """A step whose outcome depends on the binary and on the population's random numbers."""
    DEFAULT_KWARGS = {"RNG": None, "metallicity": None}

    def __init__(self, RNG=None, metallicity=None, bad=(), kind="model", **kw):
        self.RNG, self.metallicity, self.bad, self.kind = RNG, metallicity, bad, kind

    def __call__(self, b):
        r = self.RNG.random(6)
        b.time += 1e6 * (1 + r[0])
        b.star_1.mass *= 1 - 0.1 * r[1]
        b.star_1.log_R = r[2]
        b.star_1.state = SS[int(r[3] * 4)]
        b.event = EVENTS[int(r[4] * 6)]
        b.interp_class_HMS_HMS = ["stable_MT", "unstable_MT", "stable_reverse_MT", None][int(r[5] * 4)]
        b.star_1.SN_type = ["CCSN", "PPISN", None][int(r[1] * 3)]
        b.star_2.SN_type = ["ECSN", "PISN", None][int(r[2] * 3)]
        b.star_2.natal_kick_velocity = 100 * r[2]
        if b.state != "initially_single_star":
            b.state = STATES[int(r[3] * 3)]
            b.orbital_period = 10 ** (3 * r[5])
        if b.index in self.bad and r[0] < 0.6:
            if self.kind == "model":
                raise ModelError("stub")
            if self.kind == "any":
                raise ZeroDivisionError("stub")
            if self.kind == "warn":
                Pwarn("stub", "EvolutionWarning")
        if r[0] > 0.65:
            b.event = "END"


def props(bad, kind):
    return SimulationProperties(flow=(AnyFlow, {}), extra_hooks=[(TimingHooks, {}), (StepNamesHooks, {})], max_simulation_time=1e11,
                                **{s: (Stub, {"bad": list(bad), "kind": kind}) for s in STEPS})


OUT = dict(extra_columns={"step_names": "string", "step_times": "float64"}, only_select_columns=["state", "event", "time", "orbital_period", "eccentricity", "lg_mtransfer_rate"],
           scalar_names=["interp_class_HMS_HMS", "mt_history_HMS_HMS"], include_S1=True, include_S2=True,
           S1_kwargs=dict(include_S1=True, only_select_columns=["state", "mass", "log_R"], scalar_names=["natal_kick_velocity", "SN_type"]),
           S2_kwargs=dict(include_S2=True, only_select_columns=["state", "mass"], scalar_names=["natal_kick_velocity", "SN_type"]))


def settings(c, tmp, **kw):
    d = dict(OUT, number_of_binaries=c["n"], metallicities=[2.0, 1.0, 0.1], metallicity_index=c["met"], entropy=c["seed"], star_formation=c["sf"], max_simulation_time=1e10,
             orbital_scheme=c["orb"], binary_fraction_const=c["fb"], primary_mass_scheme="Salpeter", secondary_mass_scheme="flat_mass_ratio", eccentricity_scheme="thermal",
             population_properties=props(c["bad"], c["kind"]), temp_directory=os.path.join(tmp, "batches"), error_checking_verbose=False)
    d.update(kw)
    return d


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()), contextlib.redirect_stderr(_io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def norm(v):
    if v is None or v is pd.NA or (isinstance(v, float) and v != v) or v in ("None", "nan", "<NA>"):
        return None
    return v


def rows(df, skip=()):
    """{index: [row, ...]} with missing values unified."""
    out = {}
    cols = [c for c in df.columns if c not in skip]
    for i, r in zip(df.index, df[cols].itertuples(index=False, name=None)):
        out.setdefault(int(i), []).append({k: norm(v) for k, v in zip(cols, r)})
    return out


def diff(a, b, what):
    check(sorted(a) == sorted(b), f"{what}: systems {sorted(a)[:20]} instead of {sorted(b)[:20]}")
    for i in b:
        check(len(a[i]) == len(b[i]), f"{what}: system {i} has {len(a[i])} rows instead of {len(b[i])}")
        for r, (x, y) in enumerate(zip(a[i], b[i])):
            check(set(x) == set(y), f"{what}: columns differ: {set(x) ^ set(y)}")
            for k in y:
                same_ = x[k] == y[k] or (isinstance(y[k], float) and isinstance(x[k], (int, float)) and close(float(x[k]), y[k], 1e-9))
                check(same_, f"{what}: {k} of system {i}, row {r}: {x[k]!r} instead of {y[k]!r}")


SKIP = ("step_times", "step_times_i", "step_times_f")


def evolve_alone(c, indices, kw):
    """Reference: the systems drawn and evolved one after another without any population machinery."""
    rng = np.random.default_rng(np.random.SeedSequence(entropy=c["seed"]))
    g = BinaryGenerator(sampler=generate_independent_samples, RNG=rng, **{k: v for k, v in kw.items() if k not in ("RNG",)})
    p = props(c["bad"], c["kind"])
    p.load_steps(RNG=rng, metallicity=g.Z_div_Zsun)
    H, O, failed, start = [], [], [], {}
    for i in indices:
        b = g.draw_initial_binary(index=i, **{**kw, "RNG": rng})
        start[i] = (b.state, b.star_1.mass, b.star_2.mass)
        b.properties = p
        try:
            b.evolve()
        except Exception:
            failed.append(i)
            set_binary_to_failed(b)
            b.traceback = "x"
        H.append(b.to_df(**kw))
        O.append(b.to_oneline_df(**kw))
    return pd.concat(H), pd.concat(O), failed, start


@st.composite
def case(draw):
    n = draw(one([9, 8, 7, 6, 5, 4, 2, 1]))
    return dict(n=n, met=draw(st.integers(0, 2)), seed=draw(seeds()), sf=draw(one(["burst", "constant"])), orb=draw(one(["period", "separation"])), fb=draw(one([1.0, 0.6, 0.0])),
                bad=draw(st.lists(st.integers(0, n), max_size=3)), kind=draw(one(["model", "any", "warn"])), mode=draw(one(["mem", "df", "ram", "ramdf"])),
                dump=draw(one([None, 1, 2, 3, 100])), pick=draw(st.booleans()), rel=draw(st.booleans()))


def read(path):
    with pd.HDFStore(path, mode="r") as s:
        return s["history"], s["oneline"], s["ini_parameters"], s["mass_per_metallicity"]


def meta(c, ini, mass, start, what):
    met = [2.0, 1.0, 0.1][c["met"]]
    check(list(mass.index) == [met], f"{what}: metallicity {list(mass.index)} instead of {met}")
    s = sum(m for st_, m, _ in start.values() if st_ == "initially_single_star")
    b = sum(m1 + m2 for st_, m1, m2 in start.values() if st_ != "initially_single_star")
    r = mass.iloc[0]
    check_close(float(r["simulated_mass_single"]), s, f"{what}: simulated mass of single stars", rtol=1e-9, atol=1e-9)
    check_close(float(r["simulated_mass_binaries"]), b, f"{what}: simulated mass of binaries", rtol=1e-9, atol=1e-9)
    check_close(float(r["simulated_mass"]), s + b, f"{what}: simulated mass", rtol=1e-9)
    check(int(r["number_of_systems"]) == len(start), f"{what}: {r['number_of_systems']} systems counted instead of {len(start)}")
    check(float(ini["metallicity"].iloc[0]) == met and int(ini["number_of_binaries"].iloc[0]) == c["n"] and float(ini["binary_fraction_const"].iloc[0]) == c["fb"]
          and ini["orbital_scheme"].iloc[0] == c["orb"] and ini["star_formation"].iloc[0] == c["sf"], f"{what}: recorded settings differ: {ini.iloc[0].to_dict()}")


@sub("P26", "modes", case(), quick=36, thorough=600, terminates=True)
def modes(c):
    """However results are batched, the saved file holds the histories of the systems evolved one by one."""
    with scratch() as tmp, quiet():
        idx = list(range(c["n"]))
        if c["pick"]:
            idx = idx[::2]
        kw = settings(c, tmp, optimize_ram=c["mode"].startswith("ram"), breakdown_to_df=c["mode"].endswith("df"))
        if c["dump"]:
            kw["dump_rate"] = c["dump"]
        pop = BinaryPopulation(**kw)
        pop.evolve(**({"indices": idx} if c["pick"] else {}), optimize_ram=kw["optimize_ram"], breakdown_to_df=kw["breakdown_to_df"])
        ref = dict({**default_kwargs, **kw}, metallicity=[2.0, 1.0, 0.1][c["met"]])
        ref.pop("population_properties")
        H, O, failed, start = evolve_alone(c, idx, ref)
        nontrivial(len(idx) > 2, c["mode"])
        label("failures", bool(failed))
        label("batches", c["mode"].startswith("ram") and len(idx) > max(c["dump"] or 1, 1))
        if c["mode"] in ("mem", "df"):
            diff(rows(pop.to_df(), SKIP), rows(H, SKIP), "population in memory")
            diff(rows(pop.to_oneline_df(), SKIP + ("WARNING",)), rows(O, SKIP + ("WARNING",)), "population in memory, summary")
            f = pop.find_failed()
            got = sorted({b.index for b in f} if c["mode"] == "mem" else (set() if len(f) == 0 else {int(i) for i in f.index}))
            check(got == sorted(failed), f"failed systems {got} instead of {sorted(failed)}")
        path = os.path.join(tmp, "pop.h5")
        pop.save(path)
        h, o, ini, mass = read(path)
        diff(rows(h, SKIP), rows(H, SKIP), f"saved file ({c['mode']})")
        diff(rows(o, SKIP + ("WARNING", "metallicity")), rows(O, SKIP + ("WARNING", "metallicity")), f"summary in the saved file ({c['mode']})")
        check(list(dict.fromkeys(h.index)) == idx and list(o.index) == idx, f"order of the systems in the file: {list(o.index)}")
        check(sorted(o.index[o["FAILED"] == 1]) == sorted(failed), f"systems marked as failed: {list(o.index[o['FAILED'] == 1])}, failed: {failed}")
        check(np.all(o["metallicity"] == [2.0, 1.0, 0.1][c["met"]]), "metallicity of the systems")
        if c["kind"] == "warn":
            check(set(o.index[o["WARNING"] == 1]) <= set(c["bad"]), "systems marked with warnings of others")
        meta(c, ini, mass, start, f"saved file ({c['mode']})")
        check(os.listdir(kw["temp_directory"]) == [] or c["mode"] == "df", f"batches left behind: {os.listdir(kw['temp_directory'])}")
        del pop


class Comm:
    def __init__(self, r, n):
        self.r, self.n = r, n

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.n


@sub("P26", "ranks", fixed(c=case(), size=st.integers(1, 4), how=one(["job", "job+entropy", "mpi"])), quick=12, thorough=300, terminates=True)
def ranks(z):
    """Job arrays / MPI: together the ranks hold every system once, with independent random numbers, reproducibly."""
    c, size = z["c"], z["size"]
    with scratch() as tmp, quiet():
        def run(rank, sub_, mode):
            kw = settings(c, os.path.join(tmp, sub_), optimize_ram=mode.startswith("ram"), breakdown_to_df=mode.endswith("df"))
            os.makedirs(os.path.join(tmp, sub_), exist_ok=True)
            if c["dump"]:
                kw["dump_rate"] = c["dump"]
            if z["how"] == "mpi":
                kw.update(comm=Comm(rank, size))
            else:
                kw.update(JOB_ID=c["seed"] % 10000 + 7, RANK=rank, size=size)
                if z["how"] == "job":
                    kw["entropy"] = None
            p = BinaryPopulation(**kw)
            p.evolve(optimize_ram=kw["optimize_ram"], breakdown_to_df=kw["breakdown_to_df"])
            return p
        if c["n"] < size:
            return
        # reference: every rank in memory
        H, first = {}, []
        for r in range(size):
            p = run(r, "ref", "mem")
            d = p.to_df()
            for i, v in rows(d, SKIP).items():
                check(i not in H, f"system {i} is evolved by two ranks")
                H[i] = v
            first.append(v[0]["S1_mass"])
        check(sorted(H) == list(range(c["n"])), f"the ranks evolve the systems {sorted(H)} instead of all {c['n']}")
        check(len({v[0]["S1_mass"] for v in H.values()}) == c["n"], "systems of different ranks are copies of each other")
        if z["how"] != "job+entropy":
            c["met"] = (c["met"] + 1) % 3
            other = rows(run(0, "ref", "mem").to_df(), SKIP)
            c["met"] = (c["met"] - 1) % 3
            check(not {v[0]["S1_mass"] for v in other.values()} & {v[0]["S1_mass"] for v in H.values()}, "another metallicity of the same run evolves copies of the same systems")
        mode = c["mode"] if c["mode"] != "mem" else "ramdf"
        shutil.rmtree(os.path.join(tmp, "ref", "batches"), ignore_errors=True)
        for r in range(size):
            p = run(r, "out", mode)
        path = os.path.join(tmp, "all.h5")
        p.save(path)
        h, o, ini, mass = read(path)
        diff(rows(h, SKIP), H, f"combined file of {size} ranks ({mode})")
        check(sorted(o.index) == list(range(c["n"])), f"summary of the combined file: {sorted(o.index)}")
        meta(c, ini, mass, {i: (v[0]["state"], v[0]["S1_mass"], v[0]["S2_mass"] or 0.0) for i, v in H.items()}, "combined file")
        nontrivial(size > 1, f"{z['how']},{mode}")


@sub("P26", "combine", fixed(c=case(), files=st.integers(2, 5), hurt=st.lists(st.tuples(st.integers(1, 4), one(["truncate", "nohistory", "nooneline", "long", "longline", "empty", "gone"])), min_size=1, max_size=2)),
     quick=24, thorough=300, terminates=True)
def combine(z):
    """A batch that cannot be read or added is left alone completely; everything else is combined."""
    c = dict(z["c"], n=max(z["c"]["n"], 2), kind="warn")
    with scratch() as tmp, quiet():
        kw = settings(c, tmp, optimize_ram=False, breakdown_to_df=False)
        pop = BinaryPopulation(**kw)
        pop.evolve(optimize_ram=False, breakdown_to_df=False)
        parts = [p for p in np.array_split(np.arange(c["n"]), z["files"]) if len(p)]
        names, H, O, start = [], {}, {}, {}
        for k, part in enumerate(parts):
            m = PopulationManager(**{**pop.kwargs, "RNG": pop.RNG})
            m.append([pop[int(i)] for i in part])
            f = os.path.join(tmp, f"part{k}")
            m.save(f, mode="w", **kw)
            names.append(f)
            H[k], O[k] = rows(m.to_df(), SKIP), rows(m.to_oneline_df(), SKIP + ("metallicity",))
            start[k] = {i: (v[0]["state"], v[0]["S1_mass"], v[0]["S2_mass"] or 0.0) for i, v in H[k].items()}
            m.remove(list(m.binaries))
            check(len(m) == 0 and m.indices == [], "systems left in an emptied manager")
        bad = {}
        for k, how in z["hurt"]:
            k %= len(parts)
            if k == 0 or k in bad:
                continue
            f = names[k]
            bad[k] = how
            if how == "truncate":
                s = open(f, "rb").read()
                open(f, "wb").write(s[: len(s) // 3])
            elif how == "empty":
                open(f, "wb").close()
            elif how == "gone":
                os.remove(f)
            else:
                with pd.HDFStore(f, mode="r") as s:
                    hh, oo, ii, mm = s["history"], s["oneline"], s["ini_parameters"], s["mass_per_metallicity"]
                os.remove(f)
                if how == "long":
                    hh["state"] = hh["state"].astype(object)
                    hh.iloc[-1, list(hh.columns).index("state")] = "x" * 200
                if how == "longline":
                    oo["state_f"] = oo["state_f"].astype(object)
                    oo.iloc[-1, list(oo.columns).index("state_f")] = "x" * 200
                with pd.HDFStore(f, mode="w") as s:
                    if how != "nohistory":
                        s.append("history", hh)
                    if how != "nooneline":
                        s.append("oneline", oo)
        out = os.path.join(tmp, "all.h5")
        pop.combine_saved_files(out, names)
        h, o, ini, mass = read(out)
        good = [k for k in range(len(parts)) if k not in bad]
        what = f"combined file with damaged batches {sorted(bad.values())}"
        diff(rows(h, SKIP), {i: v for k in good for i, v in H[k].items()}, what)
        diff(rows(o, SKIP + ("metallicity",)), {i: v for k in good for i, v in O[k].items()}, what)
        meta(c, ini, mass, {i: v for k in good for i, v in start[k].items()}, what)
        for k, f in enumerate(names):
            if bad.get(k) != "gone":
                check(os.path.exists(f) == (k in bad), f"{what}: batch {k} was {'removed although it is not' if k in bad else 'left although it is'} in the combined file")
        nontrivial(bool(bad) or len(good) > 1, ",".join(sorted(bad.values())) or "all good")


@sub("P26", "reload", fixed(c=case(), want=st.lists(st.integers(0, 13), min_size=1, max_size=5)), quick=12, thorough=200, terminates=True)
def reload_(z):
    """Systems read back from a saved population are those asked for, with their histories, scalars and failures."""
    c = z["c"]
    with scratch() as tmp, quiet():
        kw = settings(c, tmp, optimize_ram=False, breakdown_to_df=False)
        pop = BinaryPopulation(**kw)
        pop.evolve(optimize_ram=False, breakdown_to_df=False)
        path = os.path.join(tmp, "pop.h5")
        pop.save(path)
        want = sorted({w % c["n"] for w in z["want"]})
        m = PopulationManager(file_name=path, **{**pop.kwargs, "RNG": pop.RNG})
        bs = m.from_hdf(want if len(want) > 1 else want[0])
        check([b.index for b in bs] == want, f"systems {[b.index for b in bs]} instead of {want}")
        for b in bs:
            a = pop[b.index]
            for k in ("time", "orbital_period", "state", "event"):
                x, y = getattr(b, k + "_history"), getattr(a, k + "_history")
                check(len(x) == len(y) and all(norm(p) == norm(q) for p, q in zip(x, y)), f"{k} history of system {b.index}: {x} instead of {y}")
            for n, s, t in ((1, b.star_1, a.star_1), (2, b.star_2, a.star_2)):
                for k in ("mass", "state") + (("log_R",) if n == 1 else ()):
                    x, y = getattr(s, k + "_history"), getattr(t, k + "_history")
                    check(all(norm(p) == norm(q) for p, q in zip(x, y)) and len(x) == len(y), f"{k} history of star {n} of system {b.index}: {x} instead of {y}")
                for k in ("SN_type", "natal_kick_velocity"):
                    check(norm(getattr(s, k)) == norm(getattr(t, k)), f"{k} of star {n} of system {b.index}: {getattr(s, k)} instead of {getattr(t, k)}")
            for k in ("interp_class_HMS_HMS", "mt_history_HMS_HMS"):
                check(norm(getattr(b, k)) == norm(getattr(a, k)), f"{k} of system {b.index}: {getattr(b, k)!r} instead of {getattr(a, k)!r}")
            check((b.event == "FAILED") == (a.event == "FAILED"), f"failure of system {b.index}")
        r = m.from_hdf(want if len(want) > 1 else want[0], restore=True)
        for b in r:
            a = pop[b.index]
            check(b.event == "ZAMS" and b.time == a.time_history[0] and b.star_1.mass == a.star_1.mass_history[0] and len(b.time_history) == 1, f"restored system {b.index} is not at its start")
        nontrivial(c["n"] > 1)


@sub("P26", "draws", fixed(c=case(), k=st.integers(1, 6), how=one(["plain", "spawned"])), quick=60, thorough=600)
def draws(z):
    """The n-th system can be drawn again; resetting repeats all; a rank's generator likewise."""
    c = z["c"]
    with quiet():
        kw = dict(metallicity=0.1, star_formation=c["sf"], max_simulation_time=1e10, orbital_scheme=c["orb"], binary_fraction_const=c["fb"], primary_mass_scheme="Salpeter", eccentricity_scheme="thermal")
        seq = np.random.SeedSequence(entropy=c["seed"])
        if z["how"] == "spawned":
            seq = seq.spawn(3)[2]
        g = BinaryGenerator(RNG=np.random.default_rng(seq), **kw)

        def sig(b):
            return tuple(norm(v) for v in (b.time, b.orbital_period, b.separation, b.eccentricity, b.state, b.star_1.mass, b.star_2.mass))
        a = [g.draw_initial_binary(**kw) for _ in range(z["k"])]
        check([b.index for b in a] == list(range(z["k"])), f"indices {[b.index for b in a]}")
        for b in a:
            single = b.state == "initially_single_star"
            check(b.event == "ZAMS" and (single or b.state == "detached") and b.star_1.metallicity == 0.1, f"initial state {b.state}, {b.event}")
            check(single == (b.star_2.state == "massless_remnant"), "a single star with a companion (or a binary without)")
            if not single:
                import phys
                check_close(b.separation, phys.kepler_a(b.orbital_period, b.star_1.mass, b.star_2.mass), "initial separation and period", rtol=1e-3)
            check(0 <= b.time <= 1e10 and (c["sf"] != "burst" or b.time == 0), f"birth time {b.time}")
        nth = g.get_binary_by_iter(n=z["k"], **kw)
        check(sig(nth) == sig(a[-1]), f"the {z['k']}th system drawn again is {sig(nth)} instead of {sig(a[-1])}")
        check(len(a) == z["k"] and g.draw_initial_binary(**kw).index == z["k"], "drawing a system again changed the numbering")
        g.reset_rng()
        check([sig(g.draw_initial_binary(**kw)) for _ in range(z["k"])] == [sig(b) for b in a], "after a reset other systems are drawn")
        nontrivial(z["k"] > 1, z["how"])


@sub("P26", "ages", fixed(scen=one(["burst", "constant", "custom_linear", "custom_log10", "custom_linear_histogram", "custom_log10_histogram"]), n=one([1, 2, 2000]), lo=u(0, 5e9), seed=seeds()), quick=60, thorough=600)
def ages(c):
    """Birth times follow the configured star-formation scenario, one per system."""
    from posydon.popsyn.star_formation_history import get_formation_times
    from props.p24_sampling import ks
    rng = np.random.default_rng(c["seed"])
    T = 1.2e10
    kw = {}
    nontrivial(c["n"] > 1, c["scen"])
    with scratch() as d, quiet():
        log = "log10" in c["scen"]
        k = int(rng.integers(2, 6))
        x = np.sort(rng.uniform(6, 10, k + 1)) if log else np.sort(rng.uniform(0, 1e10, k + 1))
        y = rng.uniform(0.1, 1, k if "histogram" in c["scen"] else k + 1)
        if c["scen"].startswith("custom"):
            f = os.path.join(d, "ages.txt")
            if "histogram" in c["scen"]:
                open(f, "w").write(",".join(repr(float(v)) for v in x) + "\n" + ",".join(repr(float(v)) for v in y) + "\n")
            else:
                np.savetxt(f, np.transpose([x, y]), fmt="%.17g")
            kw["custom_ages_file"] = f
        elif c["scen"] == "burst":
            kw["burst_time"] = c["lo"]
        else:
            kw["min_time"] = c["lo"]
        t = np.atleast_1d(get_formation_times(c["n"], star_formation=c["scen"], max_simulation_time=T, RNG=np.random.default_rng(c["seed"]), **kw))
    check(np.shape(t) == (c["n"],), f"{np.shape(t)} birth times for {c['n']} systems")
    if c["scen"] == "burst":
        check(np.all(t == c["lo"]), f"birth times {t[:3]} of a burst at {c['lo']}")
        return
    if c["scen"] == "constant":
        check(np.all((t >= c["lo"]) & (t <= T)), "birth times outside of the star-forming period")
        cdf, s = (lambda v: (v - c["lo"]) / (T - c["lo"])), t
    else:
        s = np.log10(T - t) if log else T - t
        check(np.all((s >= x[0] - 1e-3 * abs(x[0])) & (s <= x[-1] * (1 + 1e-9))), f"ages {s[:3]} outside of [{x[0]}, {x[-1]}]")
        if "histogram" in c["scen"]:
            cum = np.concatenate([[0], np.cumsum(y)]) / y.sum()
            cdf = lambda v: np.interp(v, x, cum)
        else:
            A = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])

            def cdf(v):
                i = np.clip(np.searchsorted(x, v, side="right") - 1, 0, k - 1)
                h = v - x[i]
                return (A[i] + y[i] * h + 0.5 * (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * h * h) / A[-1]
    if c["n"] > 100:
        ks(s, cdf, f"ages of the systems ({c['scen']})")
