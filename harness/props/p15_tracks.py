"""P15 single-star tracks: grid interpolation, time interpolation and matching."""
import functools
import math
import os
import warnings

import numpy as np

from core import *
import phys
import synth

from posydon.interpolation.interpolation import GRIDInterpolator
from posydon.grids.SN_MODELS import SN_MODELS
from posydon.utils.interpolators import SingleStarInterpolator, interp1d
from posydon.utils.key_library import DEFAULT_TRANSLATED_KEYS, DEFAULT_FINAL_KEYS, DEFAULT_PROFILE_KEYS
from posydon.utils.posydonerror import MatchingError, NumericalError
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils import common_functions as cf

EXTRA = ["he_core_radius", "surface_c12", "surf_avg_omega", "surf_avg_omega_div_omega_crit"]
COLS = list(dict.fromkeys(list(DEFAULT_TRANSLATED_KEYS) + EXTRA))
PKEYS = list(dict.fromkeys(list(DEFAULT_PROFILE_KEYS) + ["omega"]))
MODELS = list(SN_MODELS)
SNNUM = ["f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"]

run_s = fixed(dm=u(0.05, 5.0), n=st.integers(4, 12), pre=st.integers(0, 3), np=st.integers(3, 9), rmin=u(0.001, 0.2), nan=st.lists(st.integers(0, 9), max_size=6), seed=seeds())
grid_s = fixed(runs=st.lists(run_s, min_size=2, max_size=5), order=seeds(), q=u(-0.1, 1.1), at=one([False, False, False, True]), i=st.integers(0, 3), k=seeds(), never=one([False, False, False, True]))


def make_grid(c, path):
    """Random grid; returns the runs in order of mass."""
    runs, m = [], 0.5
    for r in c["runs"]:
        m += r["dm"]
        rng = np.random.default_rng(r["seed"])
        t = {}
        for k in COLS:
            t[k] = rng.uniform(0.1, 2.0) + np.cumsum(rng.uniform(-0.2, 0.3, r["n"]))
        t["age"] = np.cumsum(rng.uniform(0.1, 2, r["n"])) * 1e6
        t["mass"] = m - np.r_[0, np.cumsum(rng.uniform(0, 0.01, r["n"] - 1))]
        pre = r["n"] if c["never"] else min(r["pre"], r["n"] - 1)
        t["log_LH"] = t["log_L"] + np.where(np.arange(r["n"]) < pre, -1.0, 0.3)
        p = {k: rng.uniform(0, 3, r["np"]) for k in PKEYS}
        mc = np.r_[1.0, np.sort(rng.uniform(r["rmin"] + 0.01, 0.99, r["np"] - 2))[::-1], r["rmin"]]
        p["mass"] = mc * m * 0.9
        fin = {"S1_" + k: float(v) for k, v in zip(DEFAULT_FINAL_KEYS, rng.uniform(0, 10, len(DEFAULT_FINAL_KEYS)))}
        for j in r["nan"]:
            fin["S1_" + DEFAULT_FINAL_KEYS[j]] = float("nan")
        sn = {"S1_" + k: float(v) for k, v in zip(SNNUM, rng.uniform(0, 10, len(SNNUM)))}
        for j in r["nan"]:
            if j < len(SNNUM):
                sn["S1_" + SNNUM[j]] = float("nan")
        sn["S1_CO_type"] = str(rng.choice(["BH", "NS", "WD"]))
        sn["S1_SN_type"] = str(rng.choice(["CCSN", "PPISN", "None"]))
        runs.append(dict(m=m, t=t, p=p, fin=fin, sn=sn))
    perm = np.random.default_rng(c["order"]).permutation(len(runs))
    sn = {mod: [dict(runs[i]["sn"], **{"S1_mass": runs[i]["sn"]["S1_mass"] + j}) for i in perm] for j, mod in enumerate(MODELS[:2])}
    synth.write_grid(path, [dict(tables={"history1": synth.rec({synth.COLNAMES.get(k, k): v for k, v in runs[i]["t"].items()}), "final_profile1": synth.rec(runs[i]["p"])},
                                 initial={"star_1_mass": runs[i]["m"]}, final=dict(runs[i]["fin"])) for i in perm], sn=sn)
    return runs


def query(c, runs):
    if c["at"]:
        return runs[c["i"] % len(runs)]["m"]
    lo, hi = runs[0]["m"], runs[-1]["m"]
    return float(lo + (hi - lo) * c["q"])


def around(runs, M):
    lo = [r for r in runs if r["m"] < M][-1]
    hi = [r for r in runs if r["m"] > M][0]
    return lo, hi, (M - lo["m"]) / (hi["m"] - lo["m"])


@sub("P15", "grid", grid_s, quick=160, thorough=4000)
def grid(c):
    """Tracks, final values, final states and profiles of a single-star grid at any mass, against linear interpolation between
    the two neighbouring masses.  Non-trivial: the mass lies between two grid masses."""
    with scratch() as d:
        runs = make_grid(c, os.path.join(d, "g.h5"))
        g = GRIDInterpolator(os.path.join(d, "g.h5"))
        try:
            check(sorted(float(x) for x in g.get_masses_gridfiles()) == [r["m"] for r in runs], "masses of the grid")
            M = query(c, runs)
            if M < runs[0]["m"] or M > runs[-1]["m"]:
                label("outside")
                for f, k in ((g.get, "mass"), (g.get_final_values, "S1_m_core_CE_1cent"), (g.get_profile, "mass")):
                    try:
                        f(k, M)
                    except ValueError:
                        continue
                    check(False, "extrapolated beyond the grid")
                return
            exact = [r for r in runs if r["m"] == M]
            nontrivial(not exact, "between")
            rng = np.random.default_rng(c["k"])
            keys = ["age", "mass"] + [str(k) for k in rng.choice(COLS, 5)]
            if exact:
                t = {k: exact[0]["t"][k] for k in COLS}
            else:
                lo, hi, w = around(runs, M)
                n = min(len(lo["t"]["age"]), len(hi["t"]["age"]))
                t = {k: (1 - w) * lo["t"][k][:n] + w * hi["t"][k][:n] for k in COLS}
            ok = t["log_LH"] >= t["log_L"] + math.log10(0.99)
            if np.any(abs(t["log_LH"] - t["log_L"] - math.log10(0.99)) < 1e-9):
                return
            z = int(np.argmax(ok))
            label("pre-main-sequence cut", z > 0)
            for k in keys:
                want = t[k][z:] - (t[k][z] if k == "age" else 0)
                got = np.asarray(g.get(k, M))
                check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-9 if k != "age" else 1e-3), lambda: f"track {k} at {M}: {got}, expected {want}")
            # final values: nearest neighbours that have one
            for key, val in [("S1_" + k, lambda r, k=k: r["fin"]["S1_" + k]) for k in DEFAULT_FINAL_KEYS] + \
                    [(f"S1_{MODELS[j]}_{q}", lambda r, q=q, j=j: r["sn"]["S1_" + q] + (j if q == "mass" else 0)) for q in SNNUM for j in (0, 1)]:
                got = float(g.get_final_values(key, M))
                if exact:
                    check(same(got, val(exact[0])), lambda: f"final {key}: {got}")
                    continue
                a = [r for r in runs if r["m"] < M and not math.isnan(val(r))]
                b = [r for r in runs if r["m"] > M and not math.isnan(val(r))]
                if not a or not b:
                    check(math.isnan(got), lambda: f"final {key}: {got} although one side has no value")
                    continue
                a, b = a[-1], b[0]
                want = val(a) + (M - a["m"]) / (b["m"] - a["m"]) * (val(b) - val(a))
                check_close(got, want, f"final {key}", 1e-9, 1e-12)
            near = min(runs, key=lambda r: (abs(r["m"] - M), -r["m"]))
            if exact or abs(M - (lo["m"] + hi["m"]) / 2) > 1e-9:
                for q in ("CO_type", "SN_type"):
                    check(g.get_final_state(f"S1_{MODELS[0]}_{q}", M) == near["sn"]["S1_" + q], "final state is not that of the nearest mass")
            missing = g.get_final_values(f"S1_{MODELS[-1]}_mass", exact[0]["m"] if exact else runs[0]["m"])
            check(math.isnan(float(missing)), "value of a collapse model the grid does not have")
            for k in rng.choice(PKEYS, 3):
                k = str(k)
                got, table = g.get_profile(k, M)
                if exact:
                    check(np.array_equal(got, exact[0]["p"][k]), "profile at a grid mass")
                    continue
                x = {n: r["p"]["mass"] / r["p"]["mass"][0] for n, r in (("lo", lo), ("hi", hi))}
                base = "hi" if x["lo"][-1] < x["hi"][-1] else "lo"
                f = {n: np.interp(x[base], x[n][::-1], r["p"][k][::-1]) for n, r in (("lo", lo), ("hi", hi))}
                want = (1 - w) * f["lo"] + w * f["hi"]
                check(len(got) == len(table) and np.allclose(got, want, rtol=1e-9, atol=1e-12), lambda: f"profile {k}: {got}, expected {want}")
        finally:
            g.close()


@sub("P15", "time", fixed(n=st.integers(2, 12), seed=seeds(), pos=st.lists(st.booleans(), min_size=3, max_size=3), off=one([0.0]) | u(-1e6, 1e6), one=st.booleans()), quick=400, thorough=10000)
def time(c):
    """Interpolation of a track in time: exact at the track points, monotone between them, shifted by the offset, clipped to
    zero only where asked, and with consistent time derivatives.  Non-trivial: more than two points and an offset."""
    rng = np.random.default_rng(c["seed"])
    t = np.cumsum(rng.uniform(0.1, 3, c["n"])) * 1e5
    y = rng.uniform(-1, 1, (3, c["n"]))
    nontrivial(c["n"] > 2 and c["off"] != 0, "offset")
    it = SingleStarInterpolator(t, np.vstack([y, y[:1]]), ["a", "b", "c", "da"], positives=c["pos"] + [False], derivatives=[False, False, False, True])
    check(it.t_max == t.max() and sorted(it.keys) == ["a", "b", "c", "da"], "track metadata")
    it.offset = c["off"]
    at = it(t + c["off"])
    for i, k in enumerate("abc"):
        want = np.maximum(y[i], 0) if c["pos"][i] else y[i]
        check(np.allclose(at[k], want, rtol=1e-9, atol=1e-9), lambda: f"value at the track points: {at[k]}, expected {want}")
    x = rng.uniform(t[0], t[-1], 7)
    r = it(x + c["off"])
    j = np.clip(np.searchsorted(t, x) - 1, 0, c["n"] - 2)
    for i, k in enumerate("abc"):
        lo, hi = np.minimum(y[i][j], y[i][j + 1]), np.maximum(y[i][j], y[i][j + 1])
        if c["pos"][i]:
            lo, hi = np.maximum(lo, 0), np.maximum(hi, 0)
        check(np.all(r[k] >= lo - 1e-9) and np.all(r[k] <= hi + 1e-9), "value outside the neighbouring track points")
        s = [float(it(v + c["off"])[k]) for v in x]
        check(np.allclose(s, r[k], rtol=1e-12, atol=1e-12), "scalar and array evaluation differ")
    h = 1e-4 * np.diff(t).min()
    inner = np.array([t[i] + f * (t[i + 1] - t[i]) for i, f in zip(j, rng.uniform(0.1, 0.9, 7))])
    if not c["pos"][0]:
        num = (it(inner + h + c["off"])["a"] - it(inner - h + c["off"])["a"]) / (2 * h)
        check(np.allclose(num, it(inner + c["off"])["da"], rtol=1e-3, atol=1e-3 * np.abs(np.diff(y[0]) / np.diff(t)).max() + 1e-12), "time derivative")


@sub("P15", "linear", fixed(n=st.integers(1, 10), seed=seeds(), order=one(["up", "down", "mixed"]), mode=one(["plain", "extrapolate", "one", "two", "sides"])), quick=500, thorough=10000)
def linear(c):
    """The package's linear interpolator: any order of the points, inside and outside the range.  Non-trivial: points outside."""
    rng = np.random.default_rng(c["seed"])
    x = np.cumsum(rng.uniform(0.1, 1, c["n"])) - 2
    y = rng.uniform(-3, 3, c["n"])
    o = {"up": np.arange(c["n"]), "down": np.arange(c["n"])[::-1], "mixed": rng.permutation(c["n"])}[c["order"]]
    kw = {"plain": {}, "extrapolate": {"fill_value": "extrapolate"}, "one": {"fill_value": (7.0,)}, "two": {"fill_value": (7.0, 8.0)}, "sides": {"left": 7.0, "right": 8.0}}[c["mode"]]
    f = interp1d(x[o], y[o], **kw)
    q = np.r_[rng.uniform(x[0] - 1, x[-1] + 1, 8), x]
    got = np.asarray(f(q))
    want = np.interp(q, x, y)
    below, above = q < x[0], q > x[-1]
    nontrivial(np.any(below | above) and c["n"] > 1, c["mode"])
    if c["mode"] == "extrapolate" and c["n"] > 1:
        want[below] = y[0] + (y[1] - y[0]) / (x[1] - x[0]) * (q[below] - x[0])
        want[above] = y[-1] + (y[-1] - y[-2]) / (x[-1] - x[-2]) * (q[above] - x[-1])
    elif c["mode"] == "one":
        want[below | above] = 7.0
    elif c["mode"] in ("two", "sides"):
        want[below], want[above] = 7.0, 8.0
    check(np.allclose(got, want, rtol=1e-9, atol=1e-12), lambda: f"{got} expected {want}")
    check(np.allclose([float(f(v)) for v in q], got, rtol=1e-12, atol=1e-12), "scalar and array evaluation differ")


PROP = None


def props():
    global PROP
    if PROP is None:
        PROP = SimulationProperties(flow=({}, {}), max_simulation_time=1e11)
    return PROP


@functools.lru_cache(maxsize=4)
def ranges(he):
    """Range of the matching quantities over the grid."""
    g = synth.SynthGrid(he)
    out = {}
    for k in ("mass", "center_h1", "center_he4", "log_R", "he_core_mass"):
        v = np.concatenate([g.get(k, m) for m in g.grid_mass])
        out[k] = (v.min(), v.max())
    return out


def misfit(names, he, a, b):
    """Squared scaled distance used for matching: min-max over the grid (log for the mass), relative for central helium."""
    r = ranges(he)
    tot = 0.0
    for k in names:
        lo, hi = r[k]
        f = (lambda v: (math.log10(v) - math.log10(lo)) / (math.log10(hi) - math.log10(lo))) if k == "mass" else (lambda v: (v - lo) / (hi - lo))
        d = f(a[k]) - f(b[k])
        if k == "center_he4":
            d /= f(b[k])
        tot += d * d
    return tot


match_s = fixed(he=one([False, False, True]), m=lu(1.0, 70), x=u(0.02, 0.93), dR=one([0.0, 0.0]) | u(-0.5, 0.5), dm=one([0.0, 0.0]) | u(-0.3, 0.3), dc=one([0.0, 0.0]) | u(-0.5, 0.5), method=one(["minimize", "minimize", "root"]),
                 w=one([None, 0.0]) | lu(1e-8, 1e-4), j=st.booleans(), which=st.booleans(), co=one(["NS", "BH"]), rec=st.booleans())


@sub("P15", "matching", match_s, quick=110, thorough=3000)
def matching(c):
    """Matching a star (on or off the tracks) to a track: the chosen track point is within the tolerance of the star, inside the
    grid, and the star takes over the properties of exactly that point and keeps its rotation; or the binary fails with a
    MatchingError.  Non-trivial: the star is off the tracks."""
    kw, _ = synth.star_at(c["m"], c["x"], he=c["he"])
    kw["log_R"] += c["dR"]
    kw["mass"] *= 1 + c["dm"]
    for k in ("center_he4", "center_h1"):
        kw[k] = min(0.99, kw[k] * (1 + c["dc"]))
    if c["he"]:
        kw["he_core_mass"] = kw["mass"]
    I = kw["total_moment_of_inertia"]
    crit = math.sqrt(phys.G * kw["mass"] * phys.MSUN / (10 ** kw["log_R"] * phys.RSUN) ** 3)
    w = c["w"]
    kw.update(surf_avg_omega=w, surf_avg_omega_div_omega_crit=None if w is None else w / crit, log_total_angular_momentum=math.log10(w * I * 0.8) if w and c["j"] else None)
    s = SingleStar(**kw)
    s.state = cf.check_state_of_star(s, star_CO=False)
    o = SingleStar(mass=1.4 if c["co"] == "NS" else 12.0, state=c["co"], metallicity=1.0)
    b = BinaryStar(star_1=s if c["which"] else o, star_2=o if c["which"] else s, state="detached", event=None, time=1e6, separation=1e4, eccentricity=0.1)
    me, he = (b.star_1, b.star_2) if c["which"] else (b.star_2, b.star_1)
    me.state, he.state = s.state, c["co"]
    b.properties = props()
    b.step_names = []
    orig = {k: getattr(me, k) for k in ("mass", "center_h1", "center_he4", "log_R", "he_core_mass")}
    before = me.state
    tm = synth.matcher(c["method"], c["rec"])
    off = c["dR"] != 0 or c["dm"] != 0 or c["dc"] != 0
    n0 = len(b.time_history)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            primary, secondary, only = tm.do_matching(b, "step_detached")
        except (MatchingError, NumericalError) as ex:
            label("refused")
            check(b.state == "ERR" or isinstance(ex, NumericalError), lambda: f"a failed match left the binary in state {b.state}")
            if c["method"] == "minimize" and not off and "H_burning" in before or before == "stripped_He_Core_He_burning" and not off and c["method"] == "minimize":
                check(False, lambda: f"a star on the grid could not be matched: {ex!r} {before}")
            return
    nontrivial(off, "off the tracks")
    label("on the tracks", not off)
    check(secondary is me and primary is he and not only, "the star must be the secondary next to a compact object")
    m0, t0 = float(me.interp1d.m0), float(me.interp1d.t0)
    g = tm.grid_Hrich if me.htrack else tm.grid_strippedHe
    check(g.grid_mass.min() <= m0 <= g.grid_mass.max() and t0 >= 0, lambda: f"matched to a point outside the grid: {m0}, {t0}")
    tr = synth.track(m0, not me.htrack)
    check(t0 <= tr["age"][-1] * (1 + 1e-9), "matched beyond the end of the track")
    pt = {k: float(np.interp(t0, tr["age"], tr[k])) for k in ("mass", "center_h1", "center_he4", "log_R", "he_core_mass", "surface_h1", "log_L", "co_core_mass")}
    for k, v in pt.items():
        check_close(getattr(me, k), v, f"{k} after matching", 1e-9, 1e-12)
    if c["method"] == "root" and (c["he"] or c["dc"] or c["dm"] or before != "H-rich_Core_H_burning"):
        pass                    # no, no unique or a non-smooth root, where the root finder may stop anywhere
    elif c["method"] == "root":
        for k in ["center_h1", "mass"]:
            check_close(pt[k], orig[k], f"root matching of {k}", 1e-5, 1e-7)
    else:
        lists = [["mass", "center_h1", "log_R", "he_core_mass"]] if "Core_H_burning" in before else None
        if "He_burning" in before or "stripped" in before or "He_depleted" in before or before.startswith("H-rich"):
            lists = lists or [["mass", "center_he4", "log_R", "he_core_mass"], ["he_core_mass", "center_he4", "log_R"], ["he_core_mass", "log_R"], ["mass", "center_h1", "he_core_mass"]]
        lists = lists + [["mass", "center_h1", "he_core_mass"]]
        best = min(misfit(n, not me.htrack, pt, orig) if all(np.isfinite(orig[k]) for k in n) else 9 for n in lists)
        check(best <= 0.1 * 1.001, lambda: f"accepted match with a squared distance of {best} ({orig} matched to {pt})")
        if before in ("H-rich_Core_H_burning", "stripped_He_Core_He_burning") and not off:
            check(best <= 0.0101, lambda: f"a star on a track is matched with a squared distance of {best}")
    check(he.mass == (1.4 if c["co"] == "NS" else 12.0) and he.state == c["co"], "the compact companion changed")
    # rotation
    if w:
        om = w * (0.8 if c["j"] else 1.0)
        check_close(me.omega0, om * phys.YR, "rotation rate after matching", 1e-4)
        check_close(me.surf_avg_omega, om, "surf_avg_omega after matching", 1e-4)
        check_close(me.surf_avg_omega_div_omega_crit, om / crit, "critical rotation fraction", 1e-4)
    else:
        check(me.omega0 == 0 and me.surf_avg_omega == 0, "a non-rotating star was spun up")
    if c["rec"]:
        check(len(b.time_history) == n0 + 1 and b.event_history[-1] == ("Match1" if c["which"] else "Match2") and b.step_names == ["step_detached"], lambda: f"recorded match: {b.event_history}, {b.step_names}")
    else:
        check(len(b.time_history) == n0, "a match was recorded without being asked for")
