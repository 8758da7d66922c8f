"""P19 downsampling keeps a subset of rows that reproduces the track within the tolerance."""
import math

import numpy as np

from core import *

from posydon.grids.downsampling import TrackDownsampler, rescale_from_0_to_1
from posydon.grids.psygrid import downsample_history, downsample_profile

shape = one(["walk", "line", "jump", "sine", "const", "noise", "exp"])
case = fixed(n=st.integers(1, 60), d=st.integers(1, 4), shapes=st.tuples(*[shape] * 4), scale=st.tuples(*[one([1e-30, 1e-3, 1.0, 1e7, 1e40])] * 4), off=st.tuples(*[one([0.0, 0.0, -5.0, 1e6])] * 4),
             tt=one(["uniform", "log", "random"]), err=one([None, 0.0, 1e-12, 0.3, 1.0, 5.0]) | lu(1e-4, 0.9), mi=one([None, None, None, 0.0]) | u(-0.5, -0.01) | lu(0.01, 1e3), seed=seeds(), oned=st.booleans())


def times(c, rng):
    n = c["n"]
    if c["tt"] == "uniform":
        return np.arange(n) * 1.0
    if c["tt"] == "log":
        return np.cumsum(10 ** rng.uniform(-3, 3, n)) + 1e3
    return np.sort(rng.uniform(0, 1e7, n)) + np.arange(n) * 1e-3


def column(kind, n, rng):
    x = np.linspace(0, 1, n)
    if kind == "walk":
        return np.cumsum(rng.normal(size=n))
    if kind == "line":
        return 2 * x + 1
    if kind == "jump":
        return (x > rng.random()).astype(float)
    if kind == "sine":
        return np.sin(x * rng.uniform(1, 20))
    if kind == "const":
        return np.full(n, 3.0)
    if kind == "exp":
        return np.exp(10 * x)
    return rng.random(n)


def unit(X):
    X = np.array(X, dtype=float)
    lo, hi = X.min(axis=0), X.max(axis=0)
    rng = np.where(hi > lo, hi - lo, 1.0)
    return np.where(hi > lo, (X - lo) / rng, 0.0)


def errors(t, X, keep):
    """Euclidean distance of every row from the linear interpolation between its kept neighbours, in unit-range columns."""
    idx = np.flatnonzero(keep)
    out = np.zeros(len(t))
    for a, b in zip(idx, idx[1:]):
        for k in range(a + 1, b):
            w = (t[k] - t[a]) / (t[b] - t[a])
            out[k] = math.sqrt(float(np.sum((X[k] - (1 - w) * X[a] - w * X[b]) ** 2)))
    return out


def rule(c, t, X, keep, mi, err, what):
    n = len(t)
    check(keep.dtype == bool and len(keep) == n, f"{what}: not a row mask")
    check(keep[0] and keep[-1], f"{what}: an end point was dropped")
    if err is None or n < 3:
        check(keep.all(), f"{what}: rows dropped without downsampling")
        return
    U = unit(X)
    e = errors(t, U, keep)
    check(e.max() <= err * (1 + 1e-9) + 1e-9, lambda: f"{what}: a dropped row is {e.max():.6g} away from the interpolated track, tolerance {err}")
    if mi is not None:
        lim = abs(mi) * (t[-1] - t[0]) if mi < 0 else mi
        idx = np.flatnonzero(keep)
        for a, b in zip(idx, idx[1:]):
            check(b == a + 1 or t[b] - t[a] <= lim * (1 + 1e-9), lambda: f"{what}: kept points {t[a]} and {t[b]} are further apart than {lim}")
    if mi is None and err >= 2.01:
        check(keep.sum() == 2, f"{what}: rows kept although the tolerance exceeds any error")
    if mi is None and err > 1e-6:
        # economy: on a straight line nothing but the end points is needed
        full = errors(t, U, np.arange(n) % (n - 1) == 0) if n > 1 else np.zeros(1)
        if full.max() <= err * 0.999:
            check(keep.sum() == 2, f"{what}: rows kept although the end points suffice")


@sub("P19", "tracks", case, quick=700, thorough=10000)
def s_tracks(c):
    rng = np.random.default_rng(c["seed"])
    t = times(c, rng)
    cols = np.array([column(c["shapes"][j], c["n"], rng) * c["scale"][j] + c["off"][j] * c["scale"][j] for j in range(c["d"])]).T
    dep = cols[:, 0] if (c["oned"] and c["d"] == 1) else cols
    t0, d0 = t.copy(), dep.copy()
    TD = TrackDownsampler(t, dep)
    to, Xo = TD.downsample(max_err=c["err"], max_interval=c["mi"])
    keep = TD.keep
    rule(c, t, cols, keep, c["mi"], c["err"], "downsample")
    check(np.array_equal(to, t[keep]), "returned times are not the kept ones")
    span = np.abs(cols).max(axis=0) + (cols.max(axis=0) - cols.min(axis=0))
    for j in range(c["d"]):
        check(np.allclose(Xo[:, j], cols[keep, j], rtol=1e-9, atol=1e-12 * span[j]), f"column {j}: returned values are not those of the kept rows")
    check(np.array_equal(t0, t) and np.array_equal(d0, dep), "input modified")
    t2, X2 = TrackDownsampler(t, dep).downsample(max_err=c["err"], scale_back=False, max_interval=c["mi"])
    check(np.allclose(X2, unit(cols)[keep], rtol=1e-9, atol=1e-9), "unit-range output is not in the unit range")
    # units do not matter
    t3, X3 = TrackDownsampler(t * 4.0, cols * 8.0).downsample(max_err=c["err"], max_interval=c["mi"] if c["mi"] is None or c["mi"] < 0 else c["mi"] * 4.0)
    check(len(t3) == keep.sum() and np.array_equal(t3, t[keep] * 4.0), "the kept rows depend on the units")
    nontrivial(2 < keep.sum() < c["n"], "partial")


bad = fixed(kind=one(["decreasing", "equal", "2d-t", "3d-x", "scalar-t", "scalar-x", "neg", "nan", "inf", "1d-matrix"]), n=st.integers(3, 6))


@sub("P19", "refusals", bad, quick=40, thorough=100)
def s_bad(c):
    n = c["n"]
    t = np.arange(n) * 1.0
    X = np.random.default_rng(n).random((n, 2))
    k = c["kind"]
    nontrivial()
    try:
        if k == "decreasing":
            TrackDownsampler(t[::-1], X)
        elif k == "equal":
            TrackDownsampler(np.r_[t[:1], t[:-1]], X)
        elif k == "2d-t":
            TrackDownsampler(np.array([t, t]).T, X)
        elif k == "3d-x":
            TrackDownsampler(t, X.reshape(n, 2, 1))
        elif k == "scalar-t":
            TrackDownsampler(3.0, X)
        elif k == "scalar-x":
            TrackDownsampler(t, 3.0)
        elif k == "1d-matrix":
            rescale_from_0_to_1(t)
        else:
            TrackDownsampler(t, X).find_downsample({"neg": -0.1, "nan": math.nan, "inf": math.inf}[k])
    except ValueError:
        return
    check(False, f"{k} accepted")


hist = fixed(n=st.integers(1, 50), tabs=st.tuples(st.booleans(), st.booleans(), st.booleans()), binary=st.booleans(), err=one([None, 0.3]) | lu(1e-3, 0.5), seed=seeds(), tt=one(["uniform", "log", "random"]), excl=st.booleans(), unequal=one([False] * 9 + [True]))


@sub("P19", "run-histories", hist, quick=300, thorough=4000)
def s_hist(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    t = times(c, rng)
    def tab(agecol, on):
        if not on:
            return None
        h = np.zeros(n, dtype=[(agecol, "f8"), ("model_number", "f8"), ("a", "f8"), ("b", "f8"), ("x", "f8")])
        h[agecol] = t
        h["model_number"] = np.arange(n)
        h["a"] = column("walk", n, rng)
        h["b"] = column("sine", n, rng)
        h["x"] = rng.random(n)     # excluded noise
        return h
    on = list(c["tabs"])
    on[0 if c["binary"] else 1] = True
    if not c["binary"]:
        on[0] = on[2] = False
    bh, h1, h2 = tab("age", on[0]), tab("star_age", on[1]), tab("star_age", on[2])
    params = dict(history_DS_error=c["err"], history_DS_exclude=["model_number", "age", "star_age"] + (["x"] if c["excl"] else []), binary=c["binary"])
    if c["unequal"] and bh is not None and h1 is not None and n > 3 and c["err"] is not None:
        try:
            downsample_history(bh, h1[:-1], h2, params)
        except IndexError:
            return
        check(False, "histories of unequal length accepted")
    out = downsample_history(bh, h1, h2, params)
    keeps = []
    for o, h, nm in zip(out, (bh, h1, h2), ("binary_history", "history1", "history2")):
        if h is None:
            check(o is None, f"{nm} appeared")
            continue
        idx = np.array([int(v) for v in o["model_number"]])
        check(np.array_equal(o, h[idx]) and np.all(np.diff(idx) > 0), f"{nm}: rows are not rows of the run")
        keeps.append(list(idx))
    check(all(k == keeps[0] for k in keeps), "the tables of one run keep different rows")
    keep = np.zeros(n, bool)
    keep[keeps[0]] = True
    X = np.array([h[k] for h in (bh, h1, h2) if h is not None for k in (("a", "b") if c["excl"] else ("a", "b", "x"))]).T
    rule(c, t, X, keep, None, c["err"], "history")
    nontrivial(2 < keep.sum() < n)
    label("several tables", sum(on) > 1)


prof = fixed(n=st.integers(1, 50), err=one([None, 0.3]) | lu(1e-3, 0.5), mi=one([None, -0.01, -0.1, -0.3]) | lu(0.01, 5), seed=seeds(), none=one([False] * 9 + [True]))


@sub("P19", "profiles", prof, quick=300, thorough=4000)
def s_prof(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    m = np.cumsum(10 ** rng.uniform(-3, 0, n))
    p = np.zeros(n, dtype=[("mass", "f8"), ("radius", "f8"), ("rho", "f8"), ("id", "f8")])
    p["mass"] = m[::-1]           # profiles run from the surface inwards
    p["radius"] = (m ** 0.3)[::-1]
    p["rho"] = column("walk", n, rng)
    p["id"] = np.arange(n)
    params = dict(profile_DS_error=c["err"], profile_DS_exclude=["mass", "star_mass", "id"], profile_DS_interval=c["mi"])
    if c["none"]:
        check(downsample_profile(None, params) is None, "profile appeared")
        return
    o = downsample_profile(p, params)
    idx = np.array([int(v) for v in o["id"]])
    check(np.array_equal(o, p[idx]) and np.all(np.diff(idx) > 0), "rows are not rows of the profile")
    keep = np.zeros(n, bool)
    keep[idx] = True
    X = np.array([p["radius"][::-1], p["rho"][::-1]]).T
    rule(c, m, X, keep[::-1], c["mi"], c["err"], "profile")
    nontrivial(2 < keep.sum() < n)
