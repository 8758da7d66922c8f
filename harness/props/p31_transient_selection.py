"""P31: transient selections, gravitational-wave detectability and GRB properties."""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import sub, one, u, lu, fixed, nontrivial, label, scratch, seeds
from core import check as _check
import popfile as pf

PID = "P31"
SENS = ["O3actual_H1L1V1", "O4low_H1L1V1", "O4high_H1L1V1", "design_H1L1V1"]


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


def near(a, b, rtol=1e-9, atol=1e-12):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, equal_nan=True)


# ---------------------------------------------------------------- histories with compact object formation
def population(lay, kind):
    """Histories with supernovae: per system the kinds of remnants, their order, disks; all values distinct."""
    rng = np.random.default_rng(lay["seed"] + 5)
    H, O, C, truth = [], [], [], {}
    for i in pf.indices(lay):
        order = [1, 2] if rng.uniform() < 0.7 else [2, 1]
        rem = {s: ("BH" if kind == "bbh" or rng.uniform() < 0.75 else one_of(rng, ["NS", "WD"])) for s in (1, 2)}
        nsn = 2 if kind == "bbh" else one_of(rng, [0, 1, 2, 2])
        disrupted = kind != "bbh" and rng.uniform() < 0.2
        state = {1: "H-rich_Core_H_burning", 2: "H-rich_Core_H_burning"}
        t, rows, ch = 0.0, [], "ZAMS"
        tr = {"sn": {}}

        def row(step, bstate, event):
            nonlocal t
            t += float(rng.uniform(1e4, 3e6))
            rows.append({"binary_index": i, "time": t if rows else 0.0, "state": bstate, "event": event, "step_names": step,
                         "S1_state": state[1], "S2_state": state[2], "S1_mass": float(rng.uniform(3, 60)),
                         "S2_mass": float(rng.uniform(3, 60)), "S1_spin": float(rng.uniform(0, 1)),
                         "S2_spin": float(rng.uniform(0, 1)) if rng.uniform() < 0.9 else np.nan,
                         "orbital_period": float(rng.uniform(1, 1e3)), "eccentricity": float(rng.uniform(0, 0.9))})
        row("initial_cond", "detached", "ZAMS")
        bst = "detached"
        for s in order[:nsn]:
            for _ in range(int(rng.integers(0, 3))):
                row(one_of(rng, ["step_HMS_HMS", "step_detached", "step_CE"]), bst, one_of(rng, ["oRLO1", "oRLO2", "oCE1"]))
                ch += "_" + rows[-1]["event"]
            row("step_detached", bst, "CC%d" % s)
            ch += "_CC%d" % s
            state[s] = rem[s]
            if disrupted:
                bst = "disrupted"
            row("step_SN", bst, None)
            tr["sn"][s] = len(rows) - 1
        if kind == "bbh":
            row("step_dco", "contact", "CO_contact")
        row("step_end", "merged" if kind == "bbh" else bst, "END")
        ch += "_END"
        disk = {s: (float(rng.uniform(1e-4, 3)) if s in tr["sn"] and rem[s] == "BH" and rng.uniform() < 0.75
                    else (0.0 if rng.uniform() < 0.5 else np.nan)) for s in (1, 2)}
        tr["rows"], tr["disk"], tr["channel"] = rows, disk, ch
        truth[i] = tr
        H += rows
        o = {"binary_index": i, "metallicity": float(one_of(rng, [1.0, 0.1])), "state_i": "detached",
             "S1_mass_i": float(rng.uniform(7, 99)), "S2_mass_i": float(rng.uniform(7, 99)),
             "orbital_period_i": 10.0, "eccentricity_i": 0.0, "interp_class_HMS_HMS": "stable_MT",
             "mt_history_HMS_HMS": "Stable",
             "S1_m_disk_radiated": disk[1], "S2_m_disk_radiated": disk[2],
             "S1_spin_orbit_tilt_second_SN": float(rng.uniform(0, np.pi)) if rng.uniform() < 0.9 else np.nan,
             "S2_spin_orbit_tilt_second_SN": float(rng.uniform(0, np.pi)) if rng.uniform() < 0.9 else np.nan}
        tr["oneline"] = o
        O.append(o)
        C.append({"binary_index": i, "channel": ch, "channel_debug": ch})
    f = lambda x: pd.DataFrame(x).set_index("binary_index")
    return f(H), f(O), f(C), truth


def one_of(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def unchanged(frames, copies):
    for name, f, c in zip(("history", "oneline", "channels"), frames, copies):
        if f is not None:
            check(f.equals(c) and list(f.columns) == list(c.columns), "the %s table handed to a selection is unchanged" % name)


grb_case = fixed(lay=pf.layout(), star=one(["S1", "S2"]), chunk=one([1, 2, 3, 100]), fc=st.booleans(), file=one([True, False, False, False]))


def grb_expected(truth, idx, star):
    s = int(star[1])
    out = []
    for i in idx:
        tr = truth[i]
        if not tr["disk"][s] > 0:
            continue
        k = tr["sn"][s]
        pre, post, o = tr["rows"][k - 1], tr["rows"][k], tr["oneline"]
        e = {"i": i, "time": post["time"] * 1e-6, "metallicity": o["metallicity"], star + "_m_disk_radiated": tr["disk"][s],
             "S%d_mass" % (3 - s): post["S%d_mass" % (3 - s)]}
        for c in ("orbital_period", "eccentricity", "S1_spin", "S2_spin", star + "_mass"):
            e[c + "_preSN"], e[c + "_postSN"] = pre[c], post[c]
        e["channel"] = tr["channel"].split("_CC%d" % s)[0] + "_CC%d" % s
        out.append(e)
    return out


@sub(PID, "grb", grb_case, quick=120, thorough=3000)
def grb(c):
    """Every collapse with a radiating disk is selected once, with its own pre and post supernova properties."""
    from posydon.popsyn.transient_select_funcs import GRB_selection
    H, O, C, truth = population(c["lay"], "grb")
    idx = pf.indices(c["lay"])
    star = c["star"]
    want = grb_expected(truth, idx, star)
    nontrivial(1 <= len(want) < len(idx), "some systems with a burst of that star, some without")
    label("no burst at all", not want)
    if c["file"]:
        with scratch() as d:
            from posydon.popsyn.synthetic_population import Population
            pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, [1.0, 0.1]))
            pop = Population(os.path.join(d, "p.h5"), chunksize=c["chunk"])
            if c["fc"]:
                with pd.HDFStore(os.path.join(d, "p.h5"), "a") as s:
                    s.append("formation_channels", C, min_itemsize={"channel": 100, "channel_debug": 100})
                pop = Population(os.path.join(d, "p.h5"), chunksize=c["chunk"])
            tp = pop.create_transient_population(lambda h, o, fc=None: GRB_selection(h, o, fc, S1_S2=star), "G")
            if not want:
                check(tp is None, "a population without bursts gives no transient population")
                return
            got = tp.population
    else:
        args = (H, O, C if c["fc"] else None)
        copies = [None if a is None else a.copy(deep=True) for a in args]
        got = GRB_selection(*args, S1_S2=star)
        unchanged(args, copies)
        if not want:
            check(len(got) == 0, "no bursts selected", got=len(got))
            return
    check(list(got.index) == [e["i"] for e in want], "systems with a burst", got=list(got.index), expected=[e["i"] for e in want])
    for col in want[0]:
        if col == "i" or (col == "channel" and not c["fc"]):
            continue
        a, b = list(got[col]), [e[col] for e in want]
        check(a == b if col == "channel" else near(a, b), "column %s of the bursts" % col, got=a, expected=b)


bbh_case = fixed(lay=pf.layout(), fc=st.booleans(), chunk=one([1, 2, 3, 100]), file=one([True, False, False, False]))


@sub(PID, "bbh", bbh_case, quick=100, thorough=2000)
def bbh(c):
    """Every merging double black hole is one event at its merger, with the properties at its formation."""
    from posydon.popsyn.transient_select_funcs import BBH_selection_function
    H, O, C, truth = population(c["lay"], "bbh")
    idx = pf.indices(c["lay"])
    nontrivial(len(idx) > 2 and idx != sorted(idx), "several systems, not in order of their index")
    if c["file"]:
        with scratch() as d:
            from posydon.popsyn.synthetic_population import Population
            pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, [1.0, 0.1]))
            pop = Population(os.path.join(d, "p.h5"), chunksize=c["chunk"])
            if c["fc"]:
                with pd.HDFStore(os.path.join(d, "p.h5"), "a") as s:
                    s.append("formation_channels", C, min_itemsize={"channel": 100, "channel_debug": 100})
                pop = Population(os.path.join(d, "p.h5"), chunksize=c["chunk"])
            got = pop.create_transient_population(BBH_selection_function, "B").population
    else:
        args = (H, O, C if c["fc"] else None)
        copies = [None if a is None else a.copy(deep=True) for a in args]
        got = BBH_selection_function(*args)
        unchanged(args, copies)
    check(list(got.index) == idx, "one event per system, in the order of the population", got=list(got.index), expected=idx)
    for k, i in enumerate(idx):
        tr, g = truth[i], got.iloc[k]
        f, end, o = tr["rows"][max(tr["sn"].values())], tr["rows"][-1], tr["oneline"]
        m1, m2 = f["S1_mass"], f["S2_mass"]
        t1, t2 = o["S1_spin_orbit_tilt_second_SN"], o["S2_spin_orbit_tilt_second_SN"]
        z = lambda x: 0.0 if x != x else x
        ref = {"time": end["time"] * 1e-6, "t_inspiral": (end["time"] - f["time"]) * 1e-6, "metallicity": o["metallicity"],
               "S1_mass": m1, "S2_mass": m2, "S1_spin": f["S1_spin"], "S2_spin": f["S2_spin"],
               "S1_spin_orbit_tilt_at_merger": t1, "S2_spin_orbit_tilt_at_merger": t2,
               "orbital_period": f["orbital_period"], "eccentricity": f["eccentricity"],
               "chirp_mass": (m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, "mass_ratio": min(m1, m2) / max(m1, m2),
               "chi_eff": (m1 * z(f["S1_spin"]) * np.cos(z(t1)) + m2 * z(f["S2_spin"]) * np.cos(z(t2))) / (m1 + m2)}
        for col, v in ref.items():
            check(near(g[col], v), "column %s of a merger" % col, system=i, got=g[col], expected=v)
        check(g["S1_state"] == "BH" and g["S2_state"] == "BH", "states of the merging objects")
        if c["fc"]:
            check(g["channel"] == tr["channel"], "channel of a merger", got=g["channel"], expected=tr["channel"])


obj = st.tuples(lu(1, 100), u(0, 1), u(0, np.pi))


@sub(PID, "spins", fixed(p=st.lists(st.tuples(obj, obj), min_size=1, max_size=6), series=st.booleans()), quick=300, thorough=5000)
def spins(c):
    """Effective spin, precession, chirp mass and mass ratio follow their definitions for any system."""
    from posydon.popsyn.transient_select_funcs import chi_eff, effective_precession, m_chirp, mass_ratio
    a = np.array(c["p"], float)
    wrap = (lambda x: pd.Series(np.array(x), index=np.arange(len(x)) * 3 + 1)) if c["series"] else np.array
    m1, a1, t1 = (wrap(a[:, 0, k]) for k in range(3))
    m2, a2, t2 = (wrap(a[:, 1, k]) for k in range(3))
    nontrivial(bool((np.asarray(m2) > np.asarray(m1)).any() and (np.asarray(m2) < np.asarray(m1)).any()), "either star is the heavier one")
    x = np.asarray(chi_eff(m1, m2, a1, a2, t1, t2))
    y = np.asarray(chi_eff(m2, m1, a2, a1, t2, t1))
    A = a
    ref = [(p[0][0] * p[0][1] * np.cos(p[0][2]) + p[1][0] * p[1][1] * np.cos(p[1][2])) / (p[0][0] + p[1][0]) for p in A]
    check(near(x, ref), "effective spin", got=list(x), expected=ref)
    check(near(x, y), "effective spin does not depend on the labels", got=list(x), swapped=list(y))
    check(bool((abs(x) <= 1 + 1e-12).all()), "effective spin within [-1, 1]")
    mc = np.asarray(m_chirp(m1, m2))
    check(near(mc, np.asarray(m_chirp(m2, m1))), "chirp mass does not depend on the labels")
    check(near(mc, [(p[0][0] * p[1][0]) ** 0.6 * (p[0][0] + p[1][0]) ** -0.2 for p in A]), "chirp mass")
    q = np.asarray(mass_ratio(m1, m2))
    check(near(q, [min(p[0][0], p[1][0]) / max(p[0][0], p[1][0]) for p in A]), "mass ratio", got=list(q))
    for p in A:
        (M1, A1, T1), (M2, A2, T2) = sorted([tuple(p[0]), tuple(p[1])], reverse=True)
        qq = M2 / M1
        r = max(A1 * np.sin(T1), qq * (4 * qq + 3) / (4 + 3 * qq) * A2 * np.sin(T2))
        g = effective_precession(T1, T2, A1, A2, M1, M2)
        check(near(g, r), "effective precession", got=g, expected=r)
        check(-1e-12 <= g <= 1 + 1e-12, "effective precession within [0, 1]", got=g)


# ---------------------------------------------------------------- detection probabilities
def pdet_grid(seed, n, path, keys):
    rng = np.random.default_rng(seed)
    for k, key in enumerate(keys):
        g = pd.DataFrame({"m1": np.round(10 ** rng.uniform(0.5, 2.3, n), 4), "q": np.round(rng.uniform(0.05, 1, n), 4),
                          "z": np.round(10 ** rng.uniform(-2.5, 0.6, n), 5), "chieff": np.round(rng.uniform(-1, 1, n), 4)})
        g["pdet"] = np.clip(rng.uniform(-0.3, 1.3, n), 0, 1)
        g.to_hdf(path, key=key, mode="w" if k == 0 else "a")
        yield key, g


def knn_ref(g, m1, q, z, chi, k=10):
    """Inverse-distance mean of the ten nearest grid points in (log m1, q, log z, chi_eff), each scaled to [0, 1]."""
    def nrm(x, ref, log):
        lo, hi = ref.min(), ref.max()
        if log:
            x, lo, hi = np.log10(x), np.log10(lo), np.log10(hi)
        return (x - lo) / (hi - lo)
    G = np.column_stack([nrm(g["m1"].to_numpy(), g["m1"], 1), nrm(g["q"].to_numpy(), g["q"], 0),
                         nrm(g["z"].to_numpy(), g["z"], 1), nrm(g["chieff"].to_numpy(), g["chieff"], 0)])
    X = np.column_stack([nrm(m1, g["m1"], 1), nrm(q, g["q"], 0), nrm(z, g["z"], 1), nrm(chi, g["chieff"], 0)])
    out = []
    for x in X:
        d = np.sqrt(((G - x) ** 2).sum(axis=1))
        j = np.argsort(d, kind="stable")[:k]
        p = g["pdet"].to_numpy()[j]
        if d[j[0]] < 1e-9:
            out.append(p[0])
        else:
            out.append((p / d[j]).sum() / (1 / d[j]).sum())
    return np.array(out)


det_case = fixed(seed=st.integers(0, 2 ** 31), n=st.integers(11, 200), nev=st.integers(1, 6), ncol=st.integers(1, 4),
                 key=one(SENS), q=st.booleans(), chi=st.booleans(), swap=st.booleans(), shuffle=st.booleans())


@sub(PID, "detectability", det_case, quick=80, thorough=2000)
def detectability(c):
    """Detectable rates are the intrinsic ones times the probability tabulated for that merger, whatever the labels."""
    import posydon.popsyn.transient_select_funcs as tsf
    from posydon.popsyn.selection_effects import KNNmodel
    rng = np.random.default_rng(c["seed"] + 1)
    n, m = c["nev"], c["ncol"]
    idx = rng.permutation(n * 3)[:n] if c["shuffle"] else np.arange(n)
    mA, mB = 10 ** rng.uniform(0.3, 2.3, n), 10 ** rng.uniform(0.3, 2.3, n)
    heavy, light = np.maximum(mA, mB), np.minimum(mA, mB)
    T = pd.DataFrame({"S1_mass": heavy, "S2_mass": light, "S1_spin": rng.uniform(0, 1, n), "S2_spin": rng.uniform(0, 1, n),
                      "S1_spin_orbit_tilt_at_merger": rng.uniform(0, np.pi, n),
                      "S2_spin_orbit_tilt_at_merger": rng.uniform(0, np.pi, n)}, index=idx)
    if rng.uniform() < 0.3:
        T.loc[idx[0], "S2_spin"] = np.nan
    z = pd.DataFrame(np.where(rng.uniform(0, 1, (n, m)) < 0.25, np.nan, 10 ** rng.uniform(-2.3, 0.7, (n, m))), index=idx)
    w = pd.DataFrame(10 ** rng.uniform(-3, 3, (n, m)), index=idx).where(z.notna(), 0.0)
    sp = T[["S1_spin", "S2_spin"]].fillna(0.0).to_numpy()
    chi = (heavy * sp[:, 0] * np.cos(T["S1_spin_orbit_tilt_at_merger"]) + light * sp[:, 1] * np.cos(T["S2_spin_orbit_tilt_at_merger"])) / (heavy + light)
    if c["q"]:
        T["q"] = light / heavy
    if c["chi"]:
        T["chi_eff"] = chi
    swapped = np.zeros(n, bool)
    if c["swap"]:
        swapped = rng.uniform(0, 1, n) < 0.5
        for col in ("mass", "spin", "spin_orbit_tilt_at_merger"):
            a, b = T["S1_" + col].to_numpy().copy(), T["S2_" + col].to_numpy().copy()
            T["S1_" + col], T["S2_" + col] = np.where(swapped, b, a), np.where(swapped, a, b)
    nontrivial(bool(swapped.any()) and bool(z.isna().any().any()) and n > 1, "star 2 heavier in some mergers, some without an event")
    with scratch() as d:
        path = os.path.join(d, "pdet.hdf5")
        grids = dict(pdet_grid(c["seed"], c["n"], path, [c["key"], SENS[(SENS.index(c["key"]) + 1) % 4]]))
        g = grids[c["key"]]
        old = tsf.PATH_TO_PDET_GRID
        tsf.PATH_TO_PDET_GRID = path
        try:
            before = [x.copy(deep=True) for x in (T, z, w)]
            got = tsf.DCO_detectability(c["key"], T, z, w)
            for name, x, b in zip(("transient", "redshift", "weight"), (T, z, w), before):
                check(x.equals(b), "the %s table is unchanged" % name)
            model = KNNmodel(grid_path=path, sensitivity_key=c["key"])
        finally:
            tsf.PATH_TO_PDET_GRID = old
    check(list(got.index) == list(idx) and got.shape == w.shape and list(got.columns) == list(z.columns), "shape of the detectable rates")
    q = light / heavy
    for k in range(m):
        ok = z.iloc[:, k].notna().to_numpy()
        want = w.iloc[:, k].to_numpy().copy()
        if ok.any():
            p = knn_ref(g, heavy[ok], q[ok], z.iloc[:, k].to_numpy()[ok], np.asarray(chi)[ok])
            want[ok] *= p
            direct = model.predict_pdet(pd.DataFrame({"m1": heavy[ok], "q": q[ok], "z": z.iloc[:, k].to_numpy()[ok], "chieff": np.asarray(chi)[ok]}))
            check(near(direct, p, rtol=1e-3, atol=1e-3), "detection probability", got=list(direct), expected=list(p))
            check(bool(((direct >= 0) & (direct <= 1)).all()), "detection probability in [0, 1]")
        have = got.iloc[:, k].to_numpy()
        check(np.allclose(have, want, rtol=1e-3, atol=1e-3 * w.to_numpy().max() if ok.any() else 0), "detectable rate", column=k, got=list(have), expected=list(want))
        check(bool((have <= w.iloc[:, k].to_numpy() * (1 + 1e-12)).all()), "no more events are detected than happen")
    on = g.sample(min(5, len(g)), random_state=1)
    check(near(model.predict_pdet(on), on["pdet"], rtol=1e-6, atol=1e-6), "a grid point has its tabulated probability")


# ---------------------------------------------------------------- GRB properties
props_case = fixed(seed=st.integers(0, 2 ** 31), n=st.integers(1, 12), eta=one([0.01, 0.1, 1.0, 0.5]),
                   beam=one([0.01, 0.5, 1.0, "Goldstein+15", "Pescalli+15"]), emin=one([0.0, 1e51, 1e53, 1e55]),
                   index=one(["range", "random"]))


@sub(PID, "grb_properties", props_case, quick=200, thorough=4000)
def grb_properties(c):
    """Energies of a burst follow from the radiated disk mass, efficiency and beaming of that star alone."""
    from posydon.popsyn.GRB import get_GRB_properties, GRB_PROPERTIES
    MC2 = 1.98840987e33 * 2.99792458e10 ** 2
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    disk = lambda: np.where(rng.uniform(0, 1, n) < 0.5, 10 ** rng.uniform(-4, 1, n), np.where(rng.uniform(0, 1, n) < 0.5, 0.0, np.nan))
    df = pd.DataFrame({"S1_m_disk_radiated": disk(), "S2_m_disk_radiated": disk(), "time": rng.uniform(0, 1, n)},
                      index=np.arange(n) if c["index"] == "range" else rng.permutation(10 * n)[:n])
    src = df.copy(deep=True)
    np.random.seed(c["seed"] % 2 ** 32)
    out = get_GRB_properties(df, c["eta"], c["beam"], c["emin"])
    d1, d2 = src["S1_m_disk_radiated"] > 0, src["S2_m_disk_radiated"] > 0
    nontrivial(bool((d1 & ~d2).any() and (d2 & ~d1).any()), "bursts of either star alone")
    check(set(GRB_PROPERTIES) <= set(out.columns), "all GRB properties are present")
    check(list(out.index) == list(src.index) and all(out[k].equals(src[k]) for k in src), "the population is unchanged")
    for s, on in ((1, d1.to_numpy()), (2, d2.to_numpy())):
        g = lambda k: out["S%d_%s" % (s, k)].to_numpy(float)
        M = src["S%d_m_disk_radiated" % s].to_numpy()
        E, fb, Ei, L, eta = g("E_GRB"), g("f_beaming"), g("E_GRB_iso"), g("L_GRB_iso"), g("eta")
        flag = out["GRB%d" % s].to_numpy()
        check(near(E[on], c["eta"] * M[on] * MC2, rtol=2e-3), "energy is the efficiency times the radiated rest mass", got=list(E), disk=list(M))
        check(near(eta[on], c["eta"]), "efficiency")
        if isinstance(c["beam"], float):
            check(near(fb[on], c["beam"]), "beaming factor")
        else:
            check(bool((fb[on] > 0).all()), "beaming factor positive", got=list(fb[on]))
        check(near(Ei[on] * fb[on], E[on]), "isotropic energy is the energy over the beaming factor")
        check(near(L[on] * 25.0, Ei[on]), "luminosity over 25 s")
        check([bool(x) for x in flag] == [bool(o and e >= c["emin"]) for o, e in zip(on, Ei)], "bursts above the threshold are flagged", got=list(flag))
        check(bool((E[~on] == 0).all() and (Ei[~on] == 0).all() and (L[~on] == 0).all()), "no energy without a disk")
        check(bool(np.isnan(eta[~on]).all() and np.isnan(fb[~on]).all()), "no efficiency and beaming without a disk")
    if c["beam"] == "Pescalli+15":
        for s in (1, 2):
            o = out[out["S%d_m_disk_radiated" % s] > 0].sort_values("S%d_E_GRB" % s)
            check(bool((np.diff(o["S%d_f_beaming" % s]) <= 0).all()), "more energetic bursts are more collimated")


@sub(PID, "grb_angles", fixed(seed=st.integers(0, 2 ** 31)), quick=4, thorough=40)
def grb_angles(c):
    """Opening angles drawn per burst are log-normal (0.77 dex of a degree, 0.37 dex) in both hemispheres."""
    from posydon.popsyn.GRB import get_GRB_properties
    from scipy import stats
    n = 4000
    df = pd.DataFrame({"S1_m_disk_radiated": np.ones(n), "S2_m_disk_radiated": np.ones(n)})
    np.random.seed(c["seed"] % 2 ** 32)
    out = get_GRB_properties(df, 0.1, "Goldstein+15")
    nontrivial(True, "4000 systems, two bursts each")
    f1, f2 = out["S1_f_beaming"].to_numpy(), out["S2_f_beaming"].to_numpy()
    for f in (f1, f2):
        x = np.log10(np.degrees(np.arccos(np.clip(1 - f, -1, 1))))
        D = stats.kstest(x, "norm", args=(0.77, 0.37)).statistic
        check(D < 2.6 / np.sqrt(n), "distribution of the opening angles", D=D)
    check(len(np.unique(f1)) > 0.99 * n and abs(np.corrcoef(f1, f2)[0, 1]) < 0.15, "angles are drawn independently")
