"""P22 interpolated quantities are made physically consistent; scalings are invertible."""
import math
import warnings

import numpy as np

from core import *
import phys

from posydon.interpolation.constraints import find_constraints_to_apply, sanitize_interpolated_quantities
from posydon.interpolation.data_scaling import DataScaler
from posydon.interpolation.IF_interpolation import MatrixScaler, Scaler

PER_STAR = ["S{}_log_L", "S{}_log_R", "S{}_log_Teff", "S{}_log_LH", "S{}_log_LHe", "S{}_log_LZ", "S{}_log_Lnuc", "star_{}_mass", "S{}_he_core_mass", "S{}_co_core_mass",
            "S{}_he_core_radius", "S{}_co_core_radius", "S{}_m_core_CE_1cent", "S{}_m_core_CE_10cent", "S{}_m_core_CE_30cent", "S{}_m_core_CE_pure_He_star_10cent",
            "S{}_r_core_CE_1cent", "S{}_r_core_CE_10cent", "S{}_r_core_CE_30cent", "S{}_r_core_CE_pure_He_star_10cent", "S{}_mass_conv_reg_fortides",
            "S{}_thickness_conv_reg_fortides", "S{}_radius_conv_reg_fortides", "lg_system_mdot_{}", "S{}_total_mass_h1", "S{}_total_mass_he4",
            "S{}_center_gamma", "S{}_spin_parameter"] + [f"S{{}}_{w}_{e}" for w in ("center", "surface") for e in ("h1", "he4", "c12", "n14", "o16", "other")]
BIN = ["period_days", "binary_separation", "lg_mtransfer_rate", "xfer_fraction", "age", "eccentricity"]
UPPER = [("star_{}_mass", k, False) for k in ("S{}_he_core_mass", "S{}_m_core_CE_1cent", "S{}_m_core_CE_10cent", "S{}_m_core_CE_30cent", "S{}_m_core_CE_pure_He_star_10cent",
                                             "S{}_mass_conv_reg_fortides", "S{}_total_mass_h1", "S{}_total_mass_he4")]
UPPER += [("S{}_log_R", k, True) for k in ("S{}_he_core_radius", "S{}_r_core_CE_1cent", "S{}_r_core_CE_10cent", "S{}_r_core_CE_30cent", "S{}_r_core_CE_pure_He_star_10cent")]
TEFF0 = 0.25 * math.log10(phys.LSUN / (4 * math.pi * phys.RSUN ** 2 * 5.670374e-5))
CHAIN = [("star_{}_mass", "S{}_he_core_mass", "S{}_co_core_mass", False), ("S{}_log_R", "S{}_he_core_radius", "S{}_co_core_radius", True)]
COMP = [tuple(f"S{{}}_{w}_{e}" for e in ("h1", "he4", "c12", "n14", "o16", "other")) for w in ("center", "surface")]


def value(k, rng, mode):
    """A value for quantity k; mode 'odd' values lie on edges."""
    q = k.replace("S1_", "").replace("S2_", "")
    if q.startswith("log_L"):
        return rng.uniform(-5, 6.5)
    if q == "log_R":
        return rng.uniform(-2, 3.3)
    if q == "log_Teff":
        return rng.uniform(3.3, 5.5)
    if k.startswith("lg_"):
        return -99.0 if rng.random() < 0.2 else rng.uniform(-14, -1)
    if "center_" in q or "surface_" in q and q != "center_gamma":
        return 0.0 if rng.random() < 0.2 else rng.random()
    if "mass" in q or "m_core" in q:
        return 0.0 if rng.random() < 0.1 else 10 ** rng.uniform(-1, 2)
    if "radius" in q or "r_core" in q or "thickness" in q:
        return 0.0 if rng.random() < 0.1 else 10 ** rng.uniform(-2, 3.3)
    return 10 ** rng.uniform(-1, 3)


def draw(keys, rng, nan, shape):
    d = {k: float(value(k, rng, None)) for k in keys}
    for s in (1, 2):
        m = f"star_{s}_mass"
        if m in d and d[m] == 0:
            d[m] = 1.0
        R = f"S{s}_log_R"
        tk, rk = f"S{s}_thickness_conv_reg_fortides", f"S{s}_radius_conv_reg_fortides"
        if R in d and tk in d and rk in d and shape:
            d[tk], d[rk] = shape[0] * 10 ** d[R], shape[1] * 10 ** d[R]
        for c in COMP:
            c = [k.format(s) for k in c]
            if all(k in d for k in c) and sum(d[k] for k in c) < 1e-3:
                d[c[0]] = 0.5
    for k in sorted(d):
        if rng.random() < nan:
            d[k] = math.nan
    return d


def fin(d, *ks):
    return all(k in d and math.isfinite(d[k]) for k in ks)


def relations(d, src, keys, stars):
    """Check every documented relation among the quantities of d (after sanitizing src)."""
    n = 0
    changed_ok = set()

    def expect(dep, deps, f, rtol=1e-9, atol=1e-12):
        changed_ok.add(dep)
        if not all(math.isfinite(src[k]) for k in deps):
            check(math.isnan(d[dep]), lambda: f"{dep} = {d[dep]} although {deps} = {[src[k] for k in deps]} are not all known")
            return
        check_close(d[dep], f(), dep, rtol, atol)

    for s in (1, 2):
        F = lambda k: k.format(s)
        if all(F(k) in keys for k in ("S{}_log_L", "S{}_log_R", "S{}_log_Teff")):
            L, R = d[F("S{}_log_L")], d[F("S{}_log_R")]
            expect(F("S{}_log_Teff"), [F("S{}_log_L"), F("S{}_log_R")], lambda: TEFF0 + 0.25 * (L - 2 * R), 0, 1e-4)
        ls = [F(k) for k in ("S{}_log_LH", "S{}_log_LHe", "S{}_log_LZ")]
        if all(k in keys for k in ls + [F("S{}_log_Lnuc")]):
            expect(F("S{}_log_Lnuc"), ls, lambda: math.log10(sum(10 ** d[k] for k in ls)))
        k = F("lg_system_mdot_{}")
        if k in keys and "lg_mtransfer_rate" in keys and "lg_system_mdot_1" in keys:
            expect(k, [k, "lg_mtransfer_rate"], lambda: min(src[k], src["lg_mtransfer_rate"]))
    ks = ["period_days", "star_1_mass", "star_2_mass"]
    if all(k in keys for k in ks + ["binary_separation"]):
        expect("binary_separation", ks, lambda: phys.kepler_a(d["period_days"], d["star_1_mass"], d["star_2_mass"]))
    if all(k in keys for k in ("lg_system_mdot_2", "lg_system_mdot_1", "lg_mtransfer_rate", "xfer_fraction")):
        a, b = "lg_system_mdot_2", "lg_mtransfer_rate"
        expect("xfer_fraction", [a, b], lambda: 1.0 if min(d[a], d[b]) < -98 else 1.0 - 10 ** (d[a] - d[b]))
        if math.isfinite(d["xfer_fraction"]):
            check(0 <= d["xfer_fraction"] <= 1, "xfer_fraction outside [0, 1]")
    for s in stars:
        F = lambda k: k.format(s)
        for a, b, log in UPPER:
            if F(a) in keys and F(b) in keys and not (b in ("S{}_he_core_mass", "S{}_he_core_radius") and F(b).replace("he_core", "co_core") not in keys):
                changed_ok.add(F(b))
                if fin(src, F(a), F(b)):
                    top = 10 ** d[F(a)] if log else d[F(a)]
                    n += src[F(b)] > top
                    check_close(d[F(b)], min(src[F(b)], top), f"{F(b)} (limit {top})", 1e-12)
        for a, b, c, log in CHAIN:
            if all(F(k) in keys for k in (a, b, c)):
                changed_ok.add(F(c))
                if fin(src, F(a), F(b), F(c)):
                    top = 10 ** d[F(a)] if log else d[F(a)]
                    n += src[F(c)] > min(src[F(b)], top)
                    check_close(d[F(c)], min(src[F(c)], src[F(b)], top), f"{F(c)}", 1e-12)
        for c in COMP:
            c = [F(k) for k in c]
            if all(k in keys for k in c):
                changed_ok.update(c)
                if fin(src, *c):
                    tot = sum(src[k] for k in c)
                    for k in c:
                        check_close(d[k], src[k] / tot, k, 1e-8)
                    n += abs(tot - 1) > 1e-6
        tri = [F(k) for k in ("S{}_log_R", "S{}_thickness_conv_reg_fortides", "S{}_radius_conv_reg_fortides")]
        if all(k in keys for k in tri):
            changed_ok.update(tri[1:])
            if fin(src, *tri):
                R, t, r = 10 ** d[tri[0]], d[tri[1]], d[tri[2]]
                tol = 1e-8 * max(R, 1)
                check(t > 0 and r >= 0.5 * t - tol and r + 0.5 * t <= R + tol, lambda: f"convective region of thickness {t} at radius {r} in a star of radius {R} (from {src[tri[1]]}, {src[tri[2]]})")
                t0, r0 = src[tri[1]], src[tri[2]]
                if t0 > 0 and r0 >= 0.5 * t0 and r0 + 0.5 * t0 <= R:
                    check(t == t0 and r == r0, "a valid convective region was changed")
                else:
                    n += 1
                    label("convective region corrected")
                    if t0 == R / 3:
                        label("t = R/3")
    for k in src:
        if k not in changed_ok:
            check(k in d and same(d[k], src[k]), lambda: f"{k} changed from {src[k]} to {d.get(k)} although no relation fixes it")
    return n


def kepler_sets(sel, second):
    keys = []
    for i, k in enumerate(PER_STAR):
        if sel is None or k in sel:
            keys.append(k.format(1))
            if second == "full" or second == "mass" and k in ("star_{}_mass", "lg_system_mdot_{}"):
                keys.append(k.format(2))
    keys += [k for k in BIN if sel is None or k in sel or k in ("age",)]
    return keys


sel = st.one_of(st.none(), st.none(), st.lists(one(PER_STAR + BIN), min_size=3, unique=True))
cs = fixed(sels=st.lists(sel, min_size=1, max_size=3), second=one(["full", "full", "mass", "none"]), nan=one([0, 0, 0.05, 0.3]), seed=seeds(),
           shape=one([None, None, (1 / 3, 0), (1 / 3, 1.0), (0, 0.5), (0, 1 / 3), (0, 0), (1, 0.5), (0.5, 0.25), (2, 0.1), (0.2, 1.5), (-0.1, 0.2), (1 / 3, 2.0)]))


@sub("P22", "constraints", cs, quick=3000, thorough=80000)
def constraints(c):
    rng = np.random.default_rng(c["seed"])
    made = [(kepler_sets(s, c["second"]), None) for s in c["sels"]]
    made = [(keys, find_constraints_to_apply(keys)) for keys, _ in made]         # every interpolator selects its own
    for keys, cons in made:
        # relations whose result is not among the quantities are left out by the caller
        need = {"S{}_log_Teff": ["S{}_log_L", "S{}_log_R"], "S{}_log_Lnuc": ["S{}_log_LH", "S{}_log_LHe", "S{}_log_LZ"], "binary_separation": ["period_days", "star_1_mass", "star_2_mass"],
                "xfer_fraction": ["lg_system_mdot_2", "lg_mtransfer_rate"]}
        if "lg_system_mdot_2" in keys and "lg_mtransfer_rate" in keys and "lg_system_mdot_1" not in keys:
            continue
        src = draw(keys, rng, c["nan"], c["shape"])
        stars = (1, 2) if "S1_log_R" in keys and "S2_log_R" in keys else (1,)
        full = c["second"] == "full"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = dict(src)
            out = sanitize_interpolated_quantities(src, cons)
            check(all(same(src[k], before[k]) for k in before), "the input was changed")
            n = relations({k: out[k] for k in keys}, src, keys, stars)
            again = sanitize_interpolated_quantities(dict(out), cons)
        check(set(out) >= set(keys), "quantities lost")
        for k in keys:
            # the corrections are settled after one pass
            check_close(again[k], out[k], f"{k} after a second pass", 1e-7, 1e-7)
        nontrivial(n > 0, "a correction was needed")
        label("second star complete", full)
        label("subset of keys", len(keys) < 60)


METHODS = ["min_max", "max_abs", "standarize", "none", "log", "log_min_max", "log_max_abs", "log_standarize", "neg_log_min_max", "neg_log_standarize"]
sc = fixed(method=one(METHODS), n=st.integers(2, 30), seed=seeds(), lim=one([None, (0.0, 1.0), (-3.0, 2.0), (-1.0, 1.0)]), spread=one([0.01, 1.0, 6.0]))


def data(method, n, spread, rng):
    x = rng.uniform(-spread, spread, n)
    if method.startswith("neg_log"):
        return -10 ** x
    if "log" in method:
        return 10 ** x
    return x * 10 + rng.normal() * 5


@sub("P22", "scaler", sc, quick=600, thorough=20000)
def scaler(c):
    rng = np.random.default_rng(c["seed"])
    x = data(c["method"], c["n"], c["spread"], rng)
    y = data(c["method"], c["n"], c["spread"], rng)      # unseen data, partly outside the training range
    kw = {} if c["lim"] is None else dict(lower=c["lim"][0], upper=c["lim"][1])
    s = DataScaler()
    x0 = x.copy()
    t = s.fit_and_transform(x, method=c["method"], **kw)
    check(np.array_equal(x, x0), "training data changed")
    s2 = DataScaler()
    s2.fit(x, method=c["method"], **kw)
    check(np.array_equal(s2.transform(x), t), "fit then transform differs from fit_and_transform")
    for a in (x, y):
        b = s.inv_transform(s.transform(a))
        check(np.allclose(b, a, rtol=1e-8, atol=1e-8 * np.abs(x).max()), lambda: f"{c['method']}: {a} comes back as {b}")
    f = {"neg": lambda v: -np.log10(-v), "log": np.log10, "lin": lambda v: v}["neg" if c["method"].startswith("neg") else "log" if "log" in c["method"] else "lin"]
    lx = np.log10(np.abs(x)) if "log" in c["method"] else x
    lo, hi = c["lim"] or (-1.0, 1.0)
    if "min_max" in c["method"]:
        check_close(t.min(), lo, "lower end", 1e-9, 1e-9)
        check_close(t.max(), hi, "upper end", 1e-9, 1e-9)
        check(np.allclose((t - lo) / (hi - lo), (lx - lx.min()) / (lx.max() - lx.min()), atol=1e-7), "the scaled training data are not linear in the (logarithm of the) data")
    elif "max_abs" in c["method"]:
        check_close(np.abs(t).max(), 1.0, "largest absolute value", 1e-9)
        check(np.allclose(t * np.abs(lx).max(), lx, atol=1e-9 * np.abs(lx).max()), "max_abs scaling")
    elif "standarize" in c["method"]:
        check(abs(t.mean()) < 1e-6 and abs(t.std() - 1) < 1e-6, "mean and width of the scaled data")
        check(np.allclose(t * lx.std() + lx.mean(), lx, atol=1e-7 * np.abs(lx).max()), "standard scaling")
    else:
        check(np.allclose(t, lx, rtol=1e-12), c["method"])
    nontrivial(c["n"] > 2, "several values")


mc = fixed(cols=st.lists(one(METHODS), min_size=1, max_size=5), n=st.integers(4, 25), nan=one([0, 0.2]), classes=one([0, 1, 2, 3]), seed=seeds())


@sub("P22", "matrix_scaler", mc, quick=300, thorough=8000)
def matrix_scaler(c):
    rng = np.random.default_rng(c["seed"])
    X = np.array([data(m, c["n"], 1.0, rng) for m in c["cols"]]).T
    Y = np.array([data(m, c["n"], 1.0, rng) for m in c["cols"]]).T
    miss = rng.random(X.shape) < c["nan"]
    miss[:2] = False
    X[miss] = np.nan
    m = MatrixScaler(c["cols"], X)
    for A in (X, Y):
        A0 = A.copy()
        N = m.normalize(A)
        check(np.array_equal(A, A0, equal_nan=True), "normalize changed its input")
        check(np.allclose(m.denormalize(N), A, rtol=1e-7, atol=1e-6, equal_nan=True), "scaling a matrix back and forth changes it")
    for i, meth in enumerate(c["cols"]):
        d = DataScaler()
        d.fit(X[~np.isnan(X[:, i]), i], method=meth)
        check(np.allclose(m.normalize(Y)[:, i], d.transform(Y[:, i]), rtol=1e-9, atol=1e-9), "a column is scaled with another column's data")
    if c["classes"]:
        X[miss] = Y[miss]
        names = np.array(["no_MT", "stable_MT", "None"])[:c["classes"]]
        ic = np.array([names[i % len(names)] for i in range(c["n"])])
        if c["n"] < 3 * len(names):
            return
        perm = [list(rng.permutation(c["cols"])) if False else list(c["cols"]) for _ in names]
        norms = ({k: p for k, p in zip(names, perm) if k != "None"}, c["cols"])
        S = Scaler(norms, X, ic)
        label("class-wise")
        N = S.normalize(X, ic)
        for k in names:
            w = ic == k
            ref = MatrixScaler(c["cols"], X[w] if k != "None" else X)
            check(np.allclose(N[w], ref.normalize(X[w]), rtol=1e-9, atol=1e-9), "class-wise scaling does not use the data of its class")
        check(np.allclose(S.denormalize(N.copy(), ic), X, rtol=1e-7, atol=1e-6), "class-wise scaling back and forth changes the data")
        check(np.allclose(S.normalize(X), MatrixScaler(c["cols"], X).normalize(X), rtol=1e-9, atol=1e-9), "scaling without a class does not use all data")
    nontrivial(len(c["cols"]) > 1, "several columns")
