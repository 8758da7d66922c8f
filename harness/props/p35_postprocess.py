"""P35: post-processing of model grids: every run is described by its own stars, whatever else is in the grid."""
import contextlib
import io as _io
import math
import os
import re
import warnings

import numpy as np
from hypothesis import strategies as st
from core import sub, one, u, fixed, nontrivial, label, scratch, seeds
from core import check as _check
import synth

from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.grids.post_processing import add_post_processed_quantities, post_process_grid
from posydon.grids.psygrid import PSyGrid
from posydon.grids.SN_MODELS import DEFAULT_SN_MODEL, SN_MODELS
from posydon.utils.common_functions import calculate_lambda_from_profile, check_state_of_star

PID = "P35"
NAMES = sorted(SN_MODELS)
CC = ["CO_type", "SN_type", "f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "CO_interpolation_class", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"]
STATES_CC = ["H-rich_Core_C_depleted", "H-rich_Core_He_depleted", "stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted", "stripped_He_non_burning", "H-rich_non_burning",
             "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning", "accreted_He_non_burning"]
OWN = ["has depleted central carbon", "got stopped before central carbon depletion", "enters pair-instability regime", "enters pulsational pair-instability regime"]
OTHER = ["max_age", "envelope_mass_limit", "reach cluster timelimit", "Reached TPAGB"]
TF2 = {"no_MT": {"no_RLOF": "no RLOF"},
       "stable_MT": {"case_A1": "Last stable RLOF during MS", "case_A2": "Last stable RLOF during MS", "case_B1": "Last stable RLOF during postMS", "case_C2": "Last stable RLOF during postMS",
                     "case_BA1": "Last stable RLOF during stripped He star", "case_BB2": "Last stable RLOF during stripped He star", "contact_during_MS": "Stable contact phase",
                     "case_A1/B1": "Last stable RLOF during postMS", "case_A1/B1/BB1": "Last stable RLOF during stripped He star", "?case_B1": "Last stable RLOF during postMS",
                     "case_nonburning1": "Last stable RLOF while non burning", "case_A1/B2": "Stable reverse mass-transfer phase", "case_B1/nonburning1": "Last stable RLOF during postMS"},
       "stable_reverse_MT": {"case_A1/A2": "Stable reverse mass-transfer phase", "case_B1/A2": "Stable reverse mass-transfer phase"},
       "unstable_MT": {"case_A1": "Unstable RLOF during MS", "case_B1": "Unstable RLOF during postMS", "case_BB1": "Unstable RLOF during stripped He star",
                       "contact_during_MS": "Unstable contact phase", "case_B1/C1": "Unstable RLOF during postMS", "case_B1/A2": "Unstable reverse mass-transfer phase"},
       "initial_MT": {"initial_RLOF": "Initial RLOF"}, "not_converged": {"None": "Not converged", "case_A1": "Not converged"}}


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


def missing(v):
    return v is None or (isinstance(v, (float, np.floating)) and v != v) or (isinstance(v, (str, bytes)) and v in ("None", "nan", b"None", b"nan"))


def same(a, b, rtol=1e-9):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    if isinstance(a, bytes):
        a = a.decode()
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return bool(np.isclose(float(a), float(b), rtol=rtol, atol=1e-12))


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()), contextlib.redirect_stderr(_io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def profile(rng, m, R, he):
    """Surface-to-centre profile with a hydrogen-free and a helium-free core."""
    n = int(rng.integers(25, 60))
    x = np.linspace(1.0, 1.0 / n, n)
    r = R * (1e-3 * x + (1 - 1e-3) * x ** rng.uniform(1.5, 4))
    f = rng.uniform(0.3, 0.7)
    H = 0 * x if he else 0.7 / (1 + np.exp(-(x - f) / 0.04))
    He = (0.98 - H) / (1 + np.exp(-(x - f * rng.uniform(0.4, 0.9)) / 0.03))
    mm, rr = m * x, r
    vol = 4 / 3 * math.pi * (rr ** 3 - np.concatenate((rr[1:], [0.0])) ** 3) * 6.957e10 ** 3
    dm = np.concatenate((-np.diff(mm), [mm[-1]])) * 1.98847e33
    om = rng.uniform(0, 0.3) * np.sqrt(6.674e-8 * mm * 1.98847e33 / (rr * 6.957e10) ** 3) * x ** rng.uniform(0, 2)
    cols = dict(mass=mm, radius=rr, logRho=np.log10(dm / vol), omega=om, x_mass_fraction_H=H, y_mass_fraction_He=He, z_mass_fraction_metals=1 - H - He,
                energy=rng.uniform(0, 0.5) * 6.674e-8 * mm * 1.98847e33 / (rr * 6.957e10) + 1e13, dm=dm)
    return synth.rec(cols)


def make(c, path=None):
    """Runs of a grid of the kind of the case."""
    rng = np.random.default_rng(c["seed"])
    co = c["kind"].startswith("CO")
    runs = []
    if c["kind"] == "single":
        for i in range(c["n"]):
            m = float(10 ** rng.uniform(0.7, 1.9))
            he = bool(rng.random() < 0.3)
            x = np.sort(rng.uniform(0, 1, int(rng.integers(4, 9))))
            x[-1] = float(rng.choice([1.0, 0.97, 0.9, 0.5]))
            x.sort()
            t = synth.star_table(m, he, x)
            t["star_mass"] = np.interp(x, np.linspace(0, 1, 80), synth.track(m, he)["mass"])
            t["star_age"] = x * 1e7
            t["star_mdot"] = 0 * x
            t["surface_c12"], t["surface_n14"], t["surface_o16"] = (rng.uniform(0, 0.01) + 0 * x for _ in range(3))
            t["center_gamma"] = 0 * x + rng.choice([0.5, 20.0])
            h = synth.rec(t)
            fin = {"S1_" + k: float(h[k][-1]) for k in h.dtype.names}
            fin.update(termination_flag_1=str(rng.choice(["Primary has depleted central carbon", "max_age", "gamma_center_limit"])))
            runs.append(dict(tables={"history1": h, "final_profile1": profile(rng, fin["S1_star_mass"], 10 ** fin["S1_log_R"], he) if rng.random() < 0.9 else None},
                             initial={"star_1_mass": m, "Z": 0.0142 * c["Z"]}, final=fin, dir="/g/run%d" % i))
        return runs
    kinds = list(TF2) + ["no_MT", "stable_MT", "stable_MT"]
    runs = synth.binary_runs(c["kind"], c["n"], rng, classes=kinds)
    for i, r in enumerate(runs):
        cls = r["cls"]
        t, fin = r["tables"], r["final"]
        tf2 = str(rng.choice(list(TF2[cls])))
        if co and "2" in tf2.replace("1/", "/"):
            tf2 = next(iter(TF2[cls]))
        k = rng.random()
        who = int(rng.integers(1, 3))
        gam = {1: float(rng.choice([0.5, 20.0])), 2: 0.5}
        if gam[1] < 1 and rng.random() < 0.5:
            gam[2] = 15.0
        if k < 0.55:
            tf1 = ["Primary ", "Secondary "][who - 1] + str(rng.choice(OWN))
        elif k < 0.85:
            tf1 = "gamma_center_limit"
        else:
            tf1 = str(rng.choice(OTHER))
        end = bool(rng.random() < 0.6)
        for j in (1, 2):
            if "history%d" % j not in t:
                continue
            h = t["history%d" % j]
            m = fin["star_%d_mass" % j]
            he = r["he"] if j == 1 else False
            if end and (j == who or co):                         # bring the star of the flag to its end
                row = synth.star_table(r["initial"]["star_%d_mass" % j], he, np.array([float(rng.choice([1.0, 0.97]))]))
                for col in h.dtype.names:
                    if col in row:
                        h[col][-1] = row[col][0]
            add = {"surface_c12": rng.uniform(0, 0.01), "surface_n14": rng.uniform(0, 0.01), "surface_o16": rng.uniform(0, 0.01), "center_gamma": gam[j],
                   "total_mass_h1": m * rng.uniform(0, 0.5), "total_mass_he4": m * rng.uniform(0.1, 0.4)}
            if rng.random() < 0.1:
                add["surface_n14"] = float("nan")
            d = {q: h[q] for q in h.dtype.names if not re.match(r"[mr]_core_CE|lambda_CE|.*_at_He_depletion", q)}
            d.update({q: v + np.zeros(len(h)) for q, v in add.items()})
            t["history%d" % j] = h = synth.rec(d)
            for q in h.dtype.names:
                fin["S%d_%s" % (j, q)] = float(h[q][-1])
            t["final_profile%d" % j] = profile(rng, m, 10 ** fin["S%d_log_R" % j], he) if rng.random() < 0.85 else None
        for q in [q for q in fin if re.match(r"S\d_(avg_c_in_c_core_at|co_core_mass_at|[mr]_core_CE|lambda_CE)", q)]:
            del fin[q]
        fin.pop("mt_history")
        fin.update(interpolation_class=cls, termination_flag_1=tf1, termination_flag_2=tf2)
        r["initial"]["Z"] = 0.0142 * c["Z"]
        r["dir"] = "/g/run%d" % i
    names = {q: type(v) for r in runs for q, v in r["final"].items()}
    for r in runs:
        for q, ty in names.items():
            r["final"].setdefault(q, "None" if ty is str else float("nan"))
        r["final"] = {q: r["final"][q] for q in sorted(names)}
    return runs


def star_of(r, j, row=-1, kind=None):
    """A star with the values of one row of its run, put together here."""
    h = r["tables"].get("history%d" % j)
    s = SingleStar()
    for a in STARPROPERTIES:
        setattr(s, a, None)
    if h is not None:
        for a in STARPROPERTIES:
            if a in h.dtype.names:
                setattr(s, a, h[a][row])
        s.spin = h["spin_parameter"][row]
    if kind == "single":
        s.mass = h["star_mass"][row]
    else:
        b = r["tables"]["binary_history"]
        s.mass, s.lg_mdot, s.lg_system_mdot, s.lg_wind_mdot = (b[k % j][row] for k in ("star_%d_mass", "lg_mstar_dot_%d", "lg_system_mdot_%d", "lg_wind_mdot_%d"))
    s.metallicity = r["initial"]["Z"]
    s.state = check_state_of_star(s, star_CO=h is None)
    p = r["tables"].get("final_profile%d" % j)
    s.profile = p.copy() if p is not None else None
    return s


def reference(c, r):
    """The columns a run must get."""
    kind = c["kind"]
    single, co = kind == "single", kind.startswith("CO")
    fin = r["final"]
    out = {}
    ic = "no_MT" if single else fin["interpolation_class"]
    tf2 = "no_RLOF" if single else fin["termination_flag_2"]
    tf1 = fin["termination_flag_1"]
    if not single:
        out["mt_history"] = TF2[ic][tf2]
    stars = {j: star_of(r, j, kind=kind) for j in ((1,) if single else (1, 2))}
    for j, s in stars.items():
        P = "S%d_" % j
        cols = ["avg_c_in_c_core_at_He_depletion", "co_core_mass_at_He_depletion", "surface_other", "center_other"]
        for q in ("lambda_CE", "m_core_CE", "r_core_CE"):
            cols += ["%s_%scent" % (q, v) for v in ("1", "10", "30", "pure_He_star_10")]
        out.update({P + q: None for q in cols})
        out[P + "state"] = None
        if (co and j == 2) or ic not in ("no_MT", "stable_MT", "unstable_MT", "stable_reverse_MT"):
            if ic in ("no_MT", "stable_MT", "unstable_MT", "stable_reverse_MT"):
                out[P + "state"] = s.state
            continue
        out[P + "state"] = s.state
        n = len(r["tables"]["history%d" % j])
        hist = [star_of(r, j, i, kind) for i in range(n)]
        for want in ("H-rich_Core_He_depleted", "stripped_He_Core_He_depleted"):
            first = [x for x in hist if x.state == want]
            if first:
                out[P + "avg_c_in_c_core_at_He_depletion"], out[P + "co_core_mass_at_He_depletion"] = first[0].avg_c_in_c_core, first[0].co_core_mass
                break
        s.avg_c_in_c_core_at_He_depletion, s.co_core_mass_at_He_depletion = out[P + "avg_c_in_c_core_at_He_depletion"], out[P + "co_core_mass_at_He_depletion"]
        out[P + "surface_other"] = 1 - sum(getattr(s, "surface_" + e) for e in ("h1", "he4", "c12", "n14", "o16"))
        out[P + "center_other"] = 1 - sum(getattr(s, "center_" + e) for e in ("h1", "he4", "c12", "n14", "o16"))
        for q in ("surface_other", "center_other"):              # documented: unknown abundances give zero
            if math.isnan(out[P + q]):
                out[P + q] = 0.0
        if s.profile is not None:
            R = 10 ** s.log_R
            try:
                if "H-rich" in s.state:
                    for v, f in (("1", 0.01), ("10", 0.1), ("30", 0.3)):
                        lam, mc, rc = calculate_lambda_from_profile(profile=s.profile, donor_star_state=s.state, m1_i=s.mass, radius1=R, core_element_fraction_definition=f)
                        H, p = s.profile["x_mass_fraction_H"], s.profile
                        if H[-1] < f < H[0]:
                            k = int(np.where(H <= f)[0][0])
                            w = (f - H[k - 1]) / (H[k] - H[k - 1])
                            mc, rc = (p[q][k - 1] + w * (p[q][k] - p[q][k - 1]) for q in ("mass", "radius"))
                        out.update({P + "lambda_CE_%scent" % v: lam, P + "m_core_CE_%scent" % v: mc, P + "r_core_CE_%scent" % v: rc})
                    lam, mc, rc = calculate_lambda_from_profile(profile=s.profile, donor_star_state=s.state, m1_i=s.mass, radius1=R, core_element_fraction_definition=0.1,
                                                                CO_core_in_Hrich_star=True)
                    v = "pure_He_star_10"
                    out.update({P + "lambda_CE_%scent" % v: lam, P + "m_core_CE_%scent" % v: mc, P + "r_core_CE_%scent" % v: rc})
                elif "stripped_He" in s.state:
                    lam, mc, rc = calculate_lambda_from_profile(profile=s.profile, donor_star_state=s.state, m1_i=s.mass, radius1=R, core_element_fraction_definition=0.1)
                    v = "pure_He_star_10"
                    out.update({P + "lambda_CE_%scent" % v: lam, P + "m_core_CE_%scent" % v: mc, P + "r_core_CE_%scent" % v: rc})
                    for v in ("1", "10", "30"):
                        out.update({P + "m_core_CE_%scent" % v: s.mass, P + "r_core_CE_%scent" % v: R})
            except Exception:
                for q in ("lambda_CE", "m_core_CE", "r_core_CE"):
                    for v in ("1", "10", "30", "pure_He_star_10"):
                        out[P + "%s_%scent" % (q, v)] = None
                label("common-envelope quantities not computable")
    # the star whose collapse ended the run
    who, alt = 0, {}
    if single:
        who = 1
    elif ic in ("no_MT", "stable_MT", "stable_reverse_MT"):
        if co or tf1.startswith("Primary"):
            who = 1
        elif tf1.startswith("Secondary"):
            who = 2
        elif tf1 == "gamma_center_limit":
            who = 1 if stars[1].center_gamma >= 10 else 2 if stars[2].center_gamma >= 10 else 0
    for j in stars:
        for m in c["models"]:
            for q in CC:
                out["S%d_%s_%s" % (j, m, q)] = None
    if who and stars[who].state in STATES_CC:
        for m, end in [(m, end) for m in c["models"] for end in (1e-9, 1 - 1e-9)]:
            s = star_of(r, who, kind=kind)
            s.avg_c_in_c_core_at_He_depletion, s.co_core_mass_at_He_depletion = out["S%d_avg_c_in_c_core_at_He_depletion" % who], out["S%d_co_core_mass_at_He_depletion" % who]
            try:
                StepSN(**{**DEFAULT_SN_MODEL, **SN_MODELS[m], "allow_spin_None": True, "RNG": Draw(end)}).collapse_star(s)
            except Exception:
                label("no collapse possible")
                continue
            v = {q: getattr(s, q, None) for q in CC if q not in ("CO_type", "CO_interpolation_class")}
            if not (isinstance(s.state, str) and isinstance(s.SN_type, str)) or any(v[q] is None for q in ("f_fb", "mass", "m_disk_accreted", "m_disk_radiated")):
                continue
            label("collapse to " + s.state)
            v["CO_type"] = s.state
            v["CO_interpolation_class"] = s.state + ("_reverse_MT" if s.state == "BH" and "case" in tf2 and "1" in tf2 and "2" in tf2 else "")
            (out if end < 0.5 else alt).update({"S%d_%s_%s" % (who, m, q): v[q] for q in CC})
    return out, who, {**out, **alt}


class Draw:
    """Stands for a random generator giving one end of the range."""
    def __init__(self, end):
        self.end = end

    def uniform(self, a=0.0, b=1.0):
        return a + (b - a) * self.end


RANDOM = [m for m in NAMES if SN_MODELS[m].get("mechanism", DEFAULT_SN_MODEL["mechanism"]).startswith("Maltsev")]     # explode at random in part of their range


def process(c, path, runs, index=None):
    synth.write_grid(path, runs)
    g = PSyGrid(path)
    try:
        dirs, cols = post_process_grid(g, index=index, star_2_CO=c["kind"].startswith("CO"), SN_MODELS={m: SN_MODELS[m] for m in c["models"]}, single_star=c["kind"] == "single")
        return [d.decode() if isinstance(d, bytes) else str(d) for d in dirs], {k: list(v) for k, v in cols.items()}
    finally:
        g.close()


case = fixed(kind=one(["HMS-HMS", "HMS-HMS", "CO-HMS_RLO", "CO-HeMS", "single"]), n=st.integers(1, 5), seed=seeds(), Z=one([1.0, 0.1, 0.01]),
             models=st.lists(one(NAMES), min_size=1, max_size=3, unique=True), a=st.integers(0, 4), b=st.integers(0, 5))


@sub(PID, "runs", case, quick=150, thorough=3000)
def each_run(c):
    """Every column of every run follows from that run alone; parts of a grid give the same rows as the whole."""
    with scratch() as d, quiet():
        runs = make(c)
        dirs, cols = process(c, os.path.join(d, "g.h5"), runs)
        check(dirs == [r["dir"] for r in runs], "order of the runs", got=dirs)
        hit = 0
        for i, r in enumerate(runs):
            want, who, other = reference(c, r)
            for m in RANDOM:
                ks = [k for k in want if m + "_" in k]
                if any(not same(want[k], other[k]) for k in ks) and all(same(cols[k][i], other[k], 1e-7) for k in ks):
                    want.update({k: other[k] for k in ks})
                    label("outcome drawn at random")
            check(set(cols) == set(want), "columns", extra=sorted(set(cols) - set(want))[:5], lacking=sorted(set(want) - set(cols))[:5])
            for k in want:
                check(len(cols[k]) == len(runs), "length of a column", column=k, got=len(cols[k]))
                check(same(cols[k][i], want[k], 1e-7), "value of run", run=i, column=k, got=cols[k][i], expected=want[k], collapsing=who, flags=[r["final"].get("termination_flag_1"), r["final"].get("termination_flag_2"), r["final"].get("interpolation_class")])
            hit += any(not missing(want[k]) for k in want if "CO_type" in k)
        nontrivial(hit > 0)
        a, b = sorted((c["a"] % len(runs), min(c["b"], len(runs))))
        if a < b:
            label("part of a grid")
            dirs2, part = process(c, os.path.join(d, "h.h5"), runs, index=[a, b] if b - a > 1 or c["b"] % 2 else a)
            check(dirs2 == dirs[a:b] and set(part) == set(cols), "part of a grid", got=dirs2)
            for k in [k for k in cols if not any(m in k for m in RANDOM)]:
                check(len(part[k]) == b - a and all(same(x, y) for x, y in zip(part[k], cols[k][a:b])), "values of a part of the grid differ from the whole", column=k, got=part[k], expected=cols[k][a:b])


def swap_name(k):
    return re.sub(r"(?<![0-9A-Za-z])S([12])_", lambda m: "S%d_" % (3 - int(m.group(1))), k)


def exchanged(r):
    t = r["tables"]
    b = t["binary_history"]
    sw = lambda k: re.sub(r"(star_|_)([12])(?=_mass$|$)", lambda m: m.group(1) + str(3 - int(m.group(2))), k)
    nb = synth.rec({sw(k): b[k] for k in b.dtype.names})
    T = {"binary_history": nb, "history1": t["history2"], "history2": t["history1"], "final_profile1": t["final_profile2"], "final_profile2": t["final_profile1"]}
    fin = {}
    for k, v in r["final"].items():
        fin[swap_name(k) if k.startswith("S") else sw(k) if k in b.dtype.names else k] = v
    f = fin["termination_flag_1"]
    fin["termination_flag_1"] = f.replace("Primary", "#").replace("Secondary", "Primary").replace("#", "Secondary")
    fin["termination_flag_2"] = re.sub(r"[12]", lambda m: str(3 - int(m.group())), fin["termination_flag_2"])
    ini = {**r["initial"], "star_1_mass": r["initial"]["star_2_mass"], "star_2_mass": r["initial"]["star_1_mass"]}
    return dict(tables=T, initial=ini, final={k: fin[k] for k in sorted(fin)}, dir=r["dir"])


@sub(PID, "exchange", case, quick=80, thorough=1500)
def exchange(c):
    """Exchanging the two stars of every run exchanges their columns."""
    c = dict(c, kind="HMS-HMS", models=c["models"][:2])
    with scratch() as d, quiet():
        runs = make(c)
        a = process(c, os.path.join(d, "g.h5"), runs)[1]
        b = process(c, os.path.join(d, "h.h5"), [exchanged(r) for r in runs])[1]
        nontrivial(any(not missing(v) for k in a if "CO_type" in k for v in a[k]))
        for k in [k for k in a if not any(m in k for m in RANDOM)]:
            check(all(same(x, y) for x, y in zip(a[k], b[swap_name(k)])), "exchanged stars", column=k, got=b[swap_name(k)], expected=a[k])


@sub(PID, "stored", fixed(c=case, again=st.booleans(), wrong=one([0, 0, 0, 1, 2])), quick=80, thorough=1500)
def stored(cc):
    """The grid file keeps all it had and gains exactly the new quantities, also when they are replaced later."""
    c = cc["c"]
    with scratch() as d, quiet():
        runs = make(c)
        path = os.path.join(d, "g.h5")
        synth.write_grid(path, runs)
        rounds = [c] + ([dict(c, models=c["models"][:1])] if cc["again"] else [])
        old = {k: [r["final"][k] for r in runs] for k in runs[0]["final"]}
        for rd, c2 in enumerate(rounds):
            g = PSyGrid(path)
            dirs, cols = post_process_grid(g, star_2_CO=c["kind"].startswith("CO"), SN_MODELS={m: SN_MODELS[m] for m in c2["models"]}, single_star=c["kind"] == "single")
            want = {k: list(v) for k, v in cols.items()}
            if cc["wrong"] and len(runs) > 1:
                label("wrong order")
                bad = list(dirs)[::-1] if cc["wrong"] == 1 else [str(x) + "x" for x in dirs]
                try:
                    add_post_processed_quantities(g, bad, cols)
                except ValueError:
                    g.close()
                    return
                check(False, "quantities of other runs are accepted")
            add_post_processed_quantities(g, dirs, cols)
            g.close()
            g = PSyGrid(path)
            fv = g.final_values
            new = {k: v for k, v in want.items() if not re.search("SN_MODEL", k)}
            names = list(fv.dtype.names)
            check(len(names) == len(set(names)) and set(names) == set(old) | set(new), "final values", extra=sorted(set(names) - set(old) - set(new)), lacking=sorted((set(old) | set(new)) - set(names)))
            for k in names:
                ref = new.get(k, old.get(k))
                got = list(fv[k])
                check(all(same(x, y) for x, y in zip(got, ref)) and len(got) == len(ref), "stored value", column=k, got=got, expected=ref, round=rd)
            models = sorted(g.hdf5["grid/SN_MODELS"])
            check(models == sorted(c2["models"]), "supernova models in the file", got=models, expected=sorted(c2["models"]))
            for m in models:
                ds = g.hdf5["grid/SN_MODELS/" + m]
                ref = {k.replace(m + "_", ""): v for k, v in want.items() if m + "_" in k}
                check(set(ds.dtype.names) == set(ref), "quantities of a supernova model", got=sorted(ds.dtype.names), expected=sorted(ref))
                for k in ref:
                    check(all(same(x, y) for x, y in zip(list(ds[k]), ref[k])), "stored collapse quantity", model=m, column=k, got=list(ds[k]), expected=ref[k])
                for k, v in {**DEFAULT_SN_MODEL, **SN_MODELS[m]}.items():
                    check(ds.attrs[k] == v, "stored settings of a supernova model", model=m, setting=k, got=ds.attrs[k], expected=v)
            for i, r in enumerate(runs):
                for t, v in r["tables"].items():
                    if v is not None:
                        got = getattr(g[i], t)
                        check(all(np.array_equal(got[k], v[k], equal_nan=True) for k in v.dtype.names), "table of a run changed", run=i, table=t)
            g.close()
            old = {**old, **new}
        nontrivial(len(runs) > 1)
