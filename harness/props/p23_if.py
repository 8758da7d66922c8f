"""P23 initial-final interpolation reproduces its training runs and interpolates class by class."""
import contextlib
import io
import math
import os
import warnings
from types import SimpleNamespace as NS

import numpy as np
from scipy.spatial import ConvexHull

from core import *
import synth

from posydon.grids.psygrid import PSyGrid
from posydon.interpolation.IF_interpolation import IFInterpolator

CL = ["no_MT", "stable_MT", "unstable_MT", "stable_reverse_MT"]
IN = ["star_1_mass", "star_2_mass", "period_days"]


def points(c, rng):
    """Initial values on a (possibly jittered) grid, uniform in the second mass or in the mass ratio."""
    n1, n2, n3 = c["dims"]
    m1 = np.geomspace(5, 5 * c["ratio"], n1)
    q = np.linspace(0.15, 0.9, n2)
    m2 = np.geomspace(1.0, 4.0, n2)
    P = np.geomspace(1, 3000, n3)
    pts = []
    for i in range(n1):
        for j in range(n2):
            for k in range(n3):
                f = 10 ** rng.uniform(-0.08, 0.08, 2) if c["jit"] else np.ones(2)
                s = q[j] * m1[i] if c["q"] else m2[j]
                pts.append((m1[i], s * (f[0] if c["q"] or 0 < j else 1.0), P[k] * f[1]))
    return pts


def to_x(p, q):
    return np.array([p[0], p[1] / p[0] if q else p[1], p[2]])


def classify(p, c):
    m1, m2, P = p
    if P < 3 and c["imt"]:
        return c["imt"]
    x = math.log10(P) + 0.5 * math.log10(m1)
    k = c["ncls"]
    i = 0 if x > 2.4 else 1 if m2 / m1 > 0.3 else 2
    return CL[min(i, k - 1)]


def grid_runs(c, rng):
    pts = points(c, rng)
    runs = []
    for p in pts:
        cl = classify(p, c)
        u_ = rng.random()
        if u_ < c["bad"]:
            cl = "not_converged" if u_ < c["bad"] / 2 else "ignored_no_RLO"
        runs.append(dict(p=p, cls=cl))
    return runs


def load(path, runs, sn=None):
    for r in runs:
        r["tables"] = {}
        r["initial"] = dict(zip(IN, map(float, r["p"])), Z=0.0142)
    synth.write_grid(path, runs, sn=sn)
    g = PSyGrid()
    g.load(path, lazy=False)
    return g


def train(g, interps):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        it = IFInterpolator(grid=g, interpolators=interps)
        it.train()
    return it


def ask(it, p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return it.evaluate(NS(star_1=NS(mass=float(p[0])), star_2=NS(mass=float(p[1])), orbital_period=float(p[2])))


def queries(runs, rng, n, q):
    P = np.array([r["p"] for r in runs])
    lo, hi = np.log10(P.min(0)), np.log10(P.max(0))
    out = []
    for _ in range(n):
        u_ = rng.random()
        if u_ < 0.35:
            out.append(tuple(P[rng.integers(len(P))]))
        elif u_ < 0.75:
            w = rng.dirichlet(np.ones(4))
            out.append(tuple(10 ** (w @ np.log10(P[rng.integers(len(P), size=4)]))))
        else:
            out.append(tuple(10 ** (lo + (hi - lo) * rng.uniform(-0.3, 1.3, 3))))
    return out


def scaled(X, logs, ref):
    f = np.where(logs, np.log10(X), X)
    r = np.where(logs, np.log10(ref), ref)
    return 2 * (f - r.min(0)) / (r.max(0) - r.min(0)) - 1


def near(S, s):
    d = np.sqrt(((S - s) ** 2).sum(1))
    return np.where(d <= d.min() + 1e-9)[0], d.min()


def spans(X, logs):
    """Enough runs, spanning a volume, to triangulate."""
    if len(X) < 6 or (X.max(0) - X.min(0) < 1e-6).any():
        return False
    for x in X.T:
        # automatic scaling leaves out 15 % of the runs at a time
        if len(x) - np.unique(np.round(x, 9), return_counts=True)[1].max() < math.ceil(0.15 * len(x)) + 3:
            return False
    S = scaled(X, logs, X)
    return np.linalg.svd(S - S.mean(0))[1][-1] > 0.3


base = dict(dims=one([(3, 3, 4), (4, 3, 3), (3, 3, 5), (4, 4, 4)]), ratio=one([3.0, 8.0]), q=st.booleans(), jit=one([True, True, False]), ncls=one([1, 2, 3, 3]), imt=one([None, "initial_MT", "ignored_no_BH"]), bad=one([0, 0.08]), seed=seeds())
ex = fixed(**base, method=one(["linear", "1NN", "cls:linear", "cls:1NN", "cls:mixed", "cls:mixed"]), logs=st.tuples(*[st.booleans()] * 3), skip=st.booleans(), nq=st.just(12), nanin=one([False, False, True]))


@sub("P23", "explicit", ex, quick=320, thorough=4000)
def explicit(c):
    """Given scalings and nearest-neighbour classes: every answer is predicted exactly."""
    rng = np.random.default_rng(c["seed"])
    runs = grid_runs(c, rng)
    if c["nanin"]:
        runs[int(rng.integers(1, len(runs) - 1))]["gone"] = True
    logs = np.array(c["logs"])
    nk = 4
    co = {k: rng.normal(size=(nk, 4)) for k in CL}
    if not c["method"].startswith("cls"):
        co = {k: co[CL[0]] for k in CL}
    if c["method"] == "cls:1NN" and c["seed"] % 2:
        co = {k: rng.normal(size=(nk, 4)) for k in CL}

    def truth(cl, x):
        f = scaled(x, logs, ALL) @ co[cl][:, :3].T + co[cl][:, 3]
        return np.array([f[0], 100 * f[1], 10 ** f[2], -10 ** f[3]])

    q = c["q"]
    ALL = np.array([to_x(r["p"], q) for r in runs])
    keys = ["S1_a", "S1_b", "S1_c", "S1_d"]
    for r in runs:
        x = to_x(r["p"], q)
        # runs that are not interpolated may hold anything
        t = truth(r["cls"], x) if r["cls"] in CL else np.full(4, np.nan) if c["seed"] % 3 else rng.normal(size=4) * 1e4
        r["final"] = dict(zip(keys, map(float, t)), S1_void=math.nan, interpolation_class=r["cls"], S1_state="st_" + r["cls"])
        if r.get("gone"):
            r["p"] = (r["p"][0], math.nan, r["p"][2])
    with scratch() as d:
        g = load(os.path.join(d, "g.h5"), runs)
        names = sorted({r["cls"] for r in runs} & set(CL))
        kw = dict(in_scaling=["log_min_max" if b else "min_max" for b in logs], out_scaling=["none", "min_max", "log_min_max", "neg_log_min_max"], out_keys=keys, out_nan_keys=["S1_void"],
                  class_method="1NN", c_keys=["interpolation_class", "S1_state"])
        use = names
        if c["method"].startswith("cls"):
            use = names[:-1] if c["skip"] and len(names) > 1 else names
            m = c["method"][4:]
            meth = {k: m if m != "mixed" else ["linear", "1NN"][int(rng.integers(2))] for k in use}
            kw.update(interp_classes=use, interp_method=[meth[k] for k in use])
        else:
            meth = {k: c["method"] for k in names}
            kw.update(interp_method=c["method"])
        ok = [r for r in runs if r["cls"] not in ("not_converged", "ignored_no_RLO") and not r.get("gone")]
        sets = {k: [r for r in ok if r["cls"] == k] for k in names}
        if c["method"].startswith("cls"):
            groups = {k: sets[k] for k in use}
        else:
            groups = {k: [r for r in ok if r["cls"] in CL] for k in names}
        XS = {k: np.array([to_x(r["p"], q) for r in v]) for k, v in groups.items()}
        for k, X in XS.items():
            # enough runs to span a volume (in the given scalings) for linear interpolation
            YY = np.array([[r["final"][kk] for kk in keys] for r in groups[k]])
            if (YY.max(0) == YY.min(0)).any():
                return
            if not spans(X, logs):
                return
        it = train(g, [kw])
        check(bool(it.interp_in_q) == q, f"interpolation in mass ratio: {it.interp_in_q}")
        A = np.array([to_x(r["p"], q) for r in ok])
        ref = A            # classification uses all usable runs
        As = scaled(A, logs, ref)
        inner = outer = exact = 0
        f = os.path.join(d, "x.pkl")
        it.save(f)
        it2 = IFInterpolator()
        it2.load(f)
        for p in queries([r for r in runs if not r.get("gone")], rng, c["nq"], q):
            x = to_x(p, q)
            y, z = ask(it, p)
            yb, zb = ask(it2, p)
            if c["jit"]:       # on a regular grid a system may lie exactly on the hull
                check(z == zb and all(close(y[k], yb[k], 1e-9, 1e-9) or same(y[k], yb[k]) for k in y), "a saved and loaded interpolator gives different results")
            idx, dist = near(As, scaled(x, logs, ref))
            cands = {ok[i]["cls"] for i in idx}
            check(str(z["interpolation_class"]) in cands, lambda: f"class {z['interpolation_class']} at {p}, nearest run has {cands}")
            check(str(z["S1_state"])[3:] in cands, lambda: f"state {z['S1_state']} at {p}, nearest run has {cands}")
            check(set(y) == set(keys) | {"S1_void"} and math.isnan(y["S1_void"]), lambda: f"quantities {y}")
            if len(cands) > 1:
                continue
            k = cands.pop()
            got = np.array([y[kk] for kk in keys])
            if k not in groups and (c["method"].startswith("cls")):
                check(np.isnan(got).all(), lambda: f"values {got} for class {k}, which has no interpolator")
                label("class without interpolator")
                continue
            if k == c["imt"]:
                k = names[0]           # one interpolator for all classes
            X, R = XS[k], groups[k]
            # class-independent interpolation shares the scaling of all usable runs
            sref = X if c["method"].startswith("cls") else A
            S, s = scaled(X, logs, sref), scaled(x, logs, sref)
            ids, dmin = near(S, s)
            nn = [np.array([R[i]["final"][kk] for kk in keys]) for i in ids]
            at = dmin < 1e-9
            exact += at
            if meth[k] == "1NN" or at:
                check(any(np.allclose(got, v, rtol=1e-7, atol=1e-7) for v in nn), lambda: f"{c['method']}: {got} at {p}, nearest run of class {k} has {nn}")
            else:
                h = hull_side(S, s)
                isnn = any(np.allclose(got, v, rtol=1e-7, atol=1e-7) for v in nn)
                islin = np.allclose(got, truth(R[0]["cls"], x), rtol=1e-6, atol=1e-6)
                if h > 1e-6:
                    inner += 1
                    check(islin, lambda: f"{got} at {p} inside the hull of class {k}, the runs lie on {truth(R[0]['cls'], x)}")
                elif h < -1e-6:
                    outer += 1
                    check(isnn, lambda: f"{got} at {p} outside the hull of class {k}, nearest run has {nn}")
                else:
                    check(isnn or islin, "neither linear nor nearest value")
        label("exact at a run", exact > 0)
        label("inside hull", inner > 0)
        label("outside hull", outer > 0)
        label("input missing", c["nanin"])
        nontrivial(exact + inner + outer > 2, "several predicted values")


def hull_side(S, s):
    """Signed distance to the convex hull (positive inside)."""
    eq = ConvexHull(S, qhull_options="Pp").equations
    return float(-(eq[:, :3] @ s + eq[:, 3]).max())


au = fixed(**{**base, "dims": one([(4, 4, 4), (4, 3, 5), (5, 4, 5)])}, method=one(["linear", "linear", "1NN"]), cm=one(["kNN", "kNN", "1NN"]), nan=one([0, 0.1]), nq=st.just(10), sn=st.booleans(), cut=one([1.0, 1.2, 1.4]), single=one([False, False, True]))


@sub("P23", "automatic", au, quick=600, thorough=4000)
def automatic(c):
    """The pipeline's configuration (automatic scalings, kNN classes, one interpolator per set of quantities)."""
    rng = np.random.default_rng(c["seed"])
    runs = grid_runs(c, rng)
    q = c["q"]
    co = rng.normal(size=(8, 4))
    KEYS = ["S1_log_L", "S1_log_R", "S1_log_Teff", "star_1_mass", "star_2_mass", "period_days", "binary_separation", "S1_u", "S1_w"]
    import phys
    for i, r in enumerate(runs):
        x = np.log10(np.array(r["p"]))
        f = co[:, :3] @ x + co[:, 3]
        ok = r["cls"] in CL
        m1, m2 = r["p"][0] * (0.5 + 0.4 / (1 + math.exp(f[0]))), r["p"][1] * 1.1
        P = r["p"][2] * 10 ** (0.1 * math.sin(f[1]))
        L, R = 2 + math.sin(f[2]), 1 + math.sin(f[3])
        v = [L, R, 0.25 * (L - 2 * R) + 3.76154, m1, m2, P, phys.kepler_a(P, m1, m2), 10 ** math.sin(f[4]), math.cos(f[5])]
        fin = dict(zip(KEYS, [float(t) if ok else math.nan if c["seed"] % 3 else 1e3 for t in v]), S1_void=math.nan)
        for k in ("S1_u", "S1_w"):
            if rng.random() < c["nan"]:
                fin[k] = math.nan
        fin.update(interpolation_class=r["cls"], S1_state="stateA" if m1 > 8 else "stateB", mt_history="None" if r["cls"] == "no_MT" else "h" + r["cls"])
        r["final"] = fin
    sn = None
    ints = [dict(interp_method=None, interp_classes=None, out_keys=KEYS, out_nan_keys=["S1_void"], class_method=c["cm"], c_keys=["interpolation_class", "S1_state", "mt_history"], c_key="interpolation_class")]
    names = [k for k in CL if sum(r["cls"] == k for r in runs) >= 12]
    few = [k for k in CL if 0 < sum(r["cls"] == k for r in runs) < 12]
    if few or not names:
        return
    if c["single"]:
        ints[0].update(interp_method=c["method"])
    else:
        ints[0].update(interp_method=[c["method"]] * len(names), interp_classes=names)
    if c["sn"]:
        rows = []
        for r in runs:
            co_t = "None" if r["cls"] not in CL else "BH" if math.log10(r["p"][0]) + 0.1 * math.log10(r["p"][2]) > c["cut"] else "NS"
            r["co"] = co_t
            rows.append(dict(S1_mass=math.nan if co_t == "None" else r["p"][0] * 0.4, S1_spin=math.nan if co_t == "None" else float(rng.random()), S1_CO_interpolation_class=co_t, S1_CO_type=co_t, S1_SN_type="None" if co_t == "None" else "CCSN"))
        if min(sum(r["co"] == k for r in runs) for k in ("BH", "NS")) < 12:
            return
        sn = {"SN_MODEL_v2_01": rows}
        pre = "S1_SN_MODEL_v2_01_"
        ints.append(dict(interp_method=[c["method"]] * 2, interp_classes=["BH", "NS"], out_keys=[pre + "mass", pre + "spin"], out_nan_keys=[], class_method=c["cm"],
                         c_keys=[pre + k for k in ("CO_interpolation_class", "CO_type", "SN_type")], c_key=pre + "CO_interpolation_class"))
    groups = [[r for r in runs if r["cls"] == k] for k in names] + ([[r for r in runs if r["co"] == k] for k in ("BH", "NS")] if sn else [])
    if not all(spans(np.array([to_x(r["p"], q) for r in G]), np.array(l)) for G in groups for l in ([True] * 3, [False] * 3)):
        return
    with scratch() as d:
        g = load(os.path.join(d, "g.h5"), runs, sn)
        it = train(g, ints)
        use = [r for r in runs if r["cls"] in CL]
        rngs = {k: {kk: (np.nanmin(vals), np.nanmax(vals)) for kk in KEYS for vals in [np.array([r["final"][kk] for r in use if r["cls"] == k])]} for k in names}
        free = ["S1_log_L", "S1_log_R", "star_1_mass", "star_2_mass", "period_days", "S1_u", "S1_w"]
        qs = queries(runs, rng, c["nq"], q) + [runs[int(i)]["p"] for i in rng.integers(len(runs), size=8)]
        res = [ask(it, p) for p in qs]
        # a matrix of systems gives the same answers as one at a time
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            M = np.array(qs)
            M0 = M.copy()
            T = it.test_interpolator(M)
            C = it.test_classifiers(M)
            check(np.array_equal(M, M0), "the systems were changed")
            f = os.path.join(d, "s.pkl")
            it.save(f)
            it2 = IFInterpolator()
            it2.load(f)
            check(not c["jit"] or np.allclose(it2.test_interpolator(M), T, rtol=1e-9, atol=1e-9, equal_nan=True), "saved and loaded interpolator differs")
        outk = sum([i["out_keys"] for i in ints], [])
        check(T.shape == (len(qs), len(outk)), lambda: f"matrix of results {T.shape} for {len(outk)} quantities")
        by = {tuple(r["p"]): r for r in runs}
        n = 0
        for j, (p, (y, z)) in enumerate(zip(qs, res)):
            check(set(y) == set(outk) | {"S1_void"} and math.isnan(y["S1_void"]), "set of quantities")
            for k in z:
                check(str(C[k][j] if C[k] is not None else None) == str(z[k]), "matrix classification differs")
            cl = str(z["interpolation_class"])
            check(cl in names + [c["imt"]], f"class {cl}")
            r = by.get(tuple(p))
            usable = r is not None and r["cls"] not in ("not_converged", "ignored_no_RLO")
            if usable:
                for k in ("interpolation_class", "S1_state", "mt_history"):
                    check(str(z[k]) == r["final"][k], lambda: f"{k} = {z[k]} at a training run with {r['final'][k]}")
            if cl == "initial_MT":
                check(c["single"] and c["cm"] == "1NN" or all(math.isnan(y[k]) for k in KEYS), "values for a system that overflows initially")
                label("initial_MT")
                continue
            if cl == "ignored_no_BH":
                label("ignored class")
                if not c["single"]:
                    check(all(math.isnan(y[k]) for k in KEYS), "values for a class without interpolator")
                    continue
                cl = names[0]
            for i, k in enumerate(outk):
                check(not c["jit"] or same(T[j, i], y[k]) or c["single"] and T[j, i] == -100 or close(T[j, i], y[k], 1e-9, 1e-12), lambda: f"{k}: {T[j, i]} in a matrix, {y[k]} alone")
            for k in free:
                lo, hi = rngs[cl][k]
                if k in ("S1_u", "S1_w") or c["single"]:
                    lo, hi = min(rngs[c_][k][0] for c_ in names), max(rngs[c_][k][1] for c_ in names)
                e = 1e-7 * (abs(lo) + abs(hi))
                check(lo - e <= y[k] <= hi + e or c["single"] and c["method"] == "1NN" and c["nan"] and math.isnan(y[k]), lambda: f"{k} = {y[k]} outside the range [{lo}, {hi}] of the runs of {cl}")
            check_close(y["binary_separation"], phys.kepler_a(y["period_days"], y["star_1_mass"], y["star_2_mass"]), "separation", 1e-6)
            check_close(y["S1_log_Teff"], 0.25 * (y["S1_log_L"] - 2 * y["S1_log_R"]) + 3.7615, "log Teff", 0, 2e-3)
            if usable and r["cls"] in CL:
                n += 1
                for k in KEYS:
                    if not math.isnan(r["final"][k]):
                        check_close(y[k], r["final"][k], f"{k} at a training run of {cl}", 1e-6, 2e-4 if k == "S1_log_Teff" else 1e-8)
                if c["sn"] and r["co"] != "None":
                    row = sn["SN_MODEL_v2_01"][runs.index(r)]
                    check(str(z[pre + "CO_type"]) == r["co"], "CO type at a training run")
                    check_close(y[pre + "mass"], row["S1_mass"], "remnant mass at a training run", 1e-7)
                    check_close(y[pre + "spin"], row["S1_spin"], "remnant spin at a training run", 1e-7, 1e-9)
        label("with supernova model", c["sn"])
        label("one interpolator for all classes", c["single"])
        label("kNN", c["cm"] == "kNN")
        nontrivial(n > 0, "training run reproduced")


@sub("P23", "refused", fixed(i=st.integers(0, 3)), quick=8, thorough=8)
def refused(c):
    keys = [["a", "b"], ["b", "c"]]
    if c["i"] == 0:
        params = [dict(out_keys=keys[0]), dict(out_keys=keys[1])]
    elif c["i"] == 1:
        params = [dict(out_keys=keys[0]), dict()]
    elif c["i"] == 2:
        params = [dict(), dict()]
    else:
        params = [dict(out_keys=["a", "a"])]
    try:
        IFInterpolator(grid=None, interpolators=params)
    except ValueError:
        nontrivial(True, "overlapping quantities refused")
        return
    check(False, "interpolators with overlapping quantities accepted")
