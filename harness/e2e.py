"""Complete synthetic stellar-model library: single-star grids and the four binary grids with consistent tracks, so that the
shipped default settings can evolve binaries from zero age to the end through all the steps."""
import functools
import math
import os
import shutil
import tempfile
from multiprocessing import util as mputil

import numpy as np

import phys
import synth
from synth import COLNAMES, POST, rec, track
from posydon.utils.key_library import DEFAULT_FINAL_KEYS, DEFAULT_PROFILE_KEYS

SUB = {"HMS_HMS": "HMS-HMS", "CO_HMS_RLO": "CO-HMS_RLO", "CO_HeMS": "CO-HeMS", "CO_HeMS_RLO": "CO-HeMS_RLO"}
PROFILE = list(dict.fromkeys(list(DEFAULT_PROFILE_KEYS) + ["omega", "he3", "he4"]))


def egg(q):
    return 0.49 * q ** (2 / 3) / (0.6 * q ** (2 / 3) + math.log(1 + q ** (1 / 3)))


def sep(P, M):
    return 4.2083 * (P * P * M) ** (1 / 3)


def per(a, M):
    return math.sqrt((a / 4.2083) ** 3 / M)


def cores(he_core, co_core, mass, he):
    """Core masses and radii at the onset of a common envelope, ordered by the definition of the core."""
    out = {}
    for k, f in (("1cent", 1.0), ("10cent", 1.05), ("30cent", 1.1)):
        m = min(max(he_core, 0.25 * mass) * f, mass)
        out["m_core_CE_" + k], out["r_core_CE_" + k] = m, 0.12 * m ** 0.6 * f
    out["m_core_CE_pure_He_star_10cent"] = min(max(co_core, 0.3 * mass), mass)
    out["r_core_CE_pure_He_star_10cent"] = 0.05 * mass ** 0.6
    out["avg_c_in_c_core_at_He_depletion"], out["co_core_mass_at_He_depletion"] = 0.3, 0.4 * he_core
    return out


def profile(mass, logR, he, n=60):
    f = np.linspace(1, 1.0 / n, n)
    R = 10 ** logR
    p = {k: 0.1 + 0 * f for k in PROFILE}
    p["mass"] = mass * f
    p["radius"] = R * f ** 12 + 1e-3 * mass ** 0.6 * f ** (1 / 3)
    p["logRho"] = 5.5 - 7 * f
    p["energy"] = 1e14 * f ** 2
    p["x_mass_fraction_H"] = np.where(f > 0.5, 0.65, 0.0) if not he else 0 * f
    p["y_mass_fraction_He"] = np.where(f > 0.3, 0.98 - p["x_mass_fraction_H"], 0.0)
    p["z_mass_fraction_metals"] = 1 - p["x_mass_fraction_H"] - p["y_mass_fraction_He"]
    p["omega"] = 1e-9 / (1e-3 + p["radius"] ** 2)
    p["he4"], p["he3"] = p["y_mass_fraction_He"], 1e-6 + 0 * f
    return rec(p)


def write_single(dirname, he, masses, n=60, Z=1.0):
    from posydon.utils.common_functions import convert_metallicity_to_string
    os.makedirs(dirname, exist_ok=True)
    runs = []
    for m in masses:
        t = dict(track(m, he, n))
        for k, v in (("surface_c12", 0.003), ("surf_avg_omega", 1e-6), ("surf_avg_omega_div_omega_crit", 0.1)):
            t.setdefault(k, v + 0 * t["age"])
        c = cores(t["he_core_mass"][-1], t["co_core_mass"][-1], t["mass"][-1], he)
        runs.append(dict(tables={"history1": rec({COLNAMES.get(k, k): v for k, v in t.items()}),
                                 "final_profile1": profile(t["mass"][-1], t["log_R"][-1], he)},
                         initial={"star_1_mass": m}, final={"S1_" + k: float(c[k]) if k in c else 0.3 for k in DEFAULT_FINAL_KEYS}))
    return synth.write_grid(os.path.join(dirname, convert_metallicity_to_string(Z) + "_Zsun.h5"), runs)


def collapse(mass, co_core, rng):
    if co_core < 1.37:
        return dict(CO_type="WD", SN_type="WD", mass=min(max(co_core, 0.2), mass), spin=0.0, f_fb=0.0)
    if co_core < 1.43:
        return dict(CO_type="NS", SN_type="ECSN", mass=1.26, spin=0.0, f_fb=0.0)
    if co_core < 4:
        return dict(CO_type="NS", SN_type="CCSN", mass=1.2 + 0.2 * co_core, spin=0.0, f_fb=float(rng.uniform(0, 0.5)))
    return dict(CO_type="BH", SN_type="CCSN", mass=max(0.9 * mass - 0.5, 2.7), spin=float(rng.uniform(0, 0.9)), f_fb=float(rng.uniform(0.5, 1)))


def extra_columns(tab, rng):
    from posydon.binary_evol.singlestar import STARPROPERTIES
    new = {k: tab[k] for k in tab}
    n = len(next(iter(tab.values())))
    for k in STARPROPERTIES:
        k = {"spin": "spin_parameter"}.get(k, k)
        if k not in new and k not in ("state", "metallicity", "profile", "mass", "avg_c_in_c_core", "lg_mdot", "lg_system_mdot", "lg_wind_mdot"):
            new[k] = 0.2 + 0 * np.zeros(n)
    return new


def runs(kind, n, rng):
    """Runs of one binary grid: star 1 follows its track until its Roche lobe is full, then is stripped (stable) or ends there (unstable)."""
    co, he, rlo = kind.startswith("CO"), "HeMS" in kind, kind.endswith("RLO")
    out = []
    while len(out) < n:
        m1 = float(10 ** (rng.uniform(0.4, 1.9) if not he else rng.uniform(-0.4, 1.5)))
        q = float(rng.uniform(0.25, 0.98))
        m2 = float(10 ** rng.uniform(-0.4, 1.6)) if co else m1 * q
        q = m2 / m1
        tr = track(m1, he)
        f = tr["age"] / tr["age"][-1]
        T = tr["age"][-1]
        at = lambda k, x: np.interp(x, f, tr[k])
        if rlo:
            x0 = float(rng.uniform(0.05, 0.97))
            P = per(10 ** float(at("log_R", x0)) / egg(1 / q), m1 + m2)
            xr = x0
        else:
            x0, P = 0.0, float(10 ** rng.uniform(0.3, 3.7))
            RL = egg(1 / q) * sep(P, m1 + m2)
            over = np.flatnonzero(10 ** tr["log_R"] > RL)
            xr = f[over[0]] if len(over) else None
        cls = "no_MT" if xr is None else "initial_MT" if xr == 0 else "unstable_MT" if q < 0.45 or rng.random() < 0.25 else "stable_MT"
        if cls == "unstable_MT":
            x = np.linspace(x0, xr, 8) if xr > x0 else x0 + np.linspace(0, 0.01, 8)
        elif cls == "initial_MT":
            x = np.linspace(0, 0.001, 4)
        else:
            x = np.unique(np.concatenate([np.linspace(x0, 1, 14), [] if xr is None else [xr]]))
        k = len(x)
        tab = {COLNAMES.get(c, c): at(c, x) for c in tr if c not in ("mass", "age", "mdot")}
        tab["center_gamma"] = 0.5 + 0 * x
        mass = at("mass", x)
        mass = mass * m1 / mass[0]
        mass2 = m2 + 0 * x
        rl1, rl2 = np.full(k, -0.5), np.full(k, -0.7)
        mt = np.full(k, -99.0)
        if cls == "stable_MT":
            after = x > xr
            mh = 0.32 * m1 if not he else 0.85 * m1
            mass = np.where(after, np.minimum(mass, mh * (1 - 0.1 * (x - xr))), mass)
            rl1[x == xr] = 0.05
            mt[x == xr] = -5.0
            mass2 = np.where(after, m2 + (0.3 * (m1 - mh) if not co else 0.01), m2)
            t2 = track(mh, True)
            f2 = t2["age"] / t2["age"][-1]
            for c in ("log_R", "he_core_mass", "co_core_mass", "c_core_mass", "o_core_mass"):
                tab[c] = np.where(after & (x >= 0.8), np.interp(x, f2, t2[c]), tab[c] if c != "log_R" else np.where(after, np.interp(x, f2, t2[c]), tab[c]))
            tab["he_core_mass"] = np.minimum(tab["he_core_mass"], mass)
            tab["surface_h1"] = np.where(after, 0.2 if not he else 0.0, tab["surface_h1"])
            tab["surface_he4"] = 0.98 - tab["surface_h1"]
        elif cls in ("unstable_MT", "initial_MT"):
            rl1[-1 if cls == "unstable_MT" else 0] = 0.1
            mt[-1] = -1.0
            if cls == "unstable_MT" and not co and q > 0.9 and rng.random() < 0.3:
                rl2[-1] = 0.05
        Pt = P * (1 + 0.3 * (1 - mass / m1))
        bh = dict(model_number=np.arange(k) * 10.0, age=(x - x0) * T, star_1_mass=mass, star_2_mass=mass2, period_days=Pt,
                  binary_separation=np.array([sep(p, m) for p, m in zip(Pt, mass + mass2)]), lg_mtransfer_rate=mt,
                  rl_relative_overflow_1=rl1, rl_relative_overflow_2=rl2)
        for j in (1, 2):
            for c, v in (("lg_system_mdot", -99), ("lg_wind_mdot", -7), ("lg_mstar_dot", -7)):
                bh[f"{c}_{j}"] = np.full(k, float(v))
        for c in synth.BH_EXTRA:
            bh[c] = np.full(k, 1.0)
        tabs = {"binary_history": rec(bh), "history1": rec(extra_columns(tab, rng)), "final_profile1": profile(mass[-1], tab["log_R"][-1], he)}
        if not co:
            x2 = np.minimum((x - x0) * T / track(m2, False)["age"][-1], 0.97)
            t2 = synth.star_table(m2, False, x2)
            tabs["history2"] = rec(extra_columns(t2, rng))
            tabs["final_profile2"] = profile(mass2[-1], t2["log_R"][-1], False)
        fin = {c: float(v[-1]) for c, v in bh.items()}
        sn = {}
        for j in (1, 2):
            h = tabs.get(f"history{j}")
            m = (mass, mass2)[j - 1][-1]
            for c in POST:
                fin[f"S{j}_{c}"] = float("nan")
            if h is not None:
                for c in h.dtype.names:
                    fin[f"S{j}_{c}"] = float(h[c][-1])
                for c, v in cores(h["he_core_mass"][-1], h["co_core_mass"][-1], m, he).items():
                    if f"S{j}_{c}" in fin:
                        fin[f"S{j}_{c}"] = float(v)
            done = j == 1 and x[-1] == 1
            c = collapse(m, float(tab["co_core_mass"][-1]), rng) if done else {}
            for k_ in ("CO_type", "SN_type"):
                sn[f"S{j}_{k_}"] = c.get(k_, "None")
            for k_ in ("f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"):
                sn[f"S{j}_{k_}"] = c.get(k_, 0.0) if done else float("nan")
        flag1 = {"unstable_MT": "overflow from L2 point for q(=Mdonor/Macc)<1", "initial_MT": "forced_initial_RLO"}.get(cls, "gamma_center_limit")
        fin.update(interpolation_class=cls, termination_flag_1=flag1, termination_flag_2="no_RLOF" if cls == "no_MT" else "case_B1",
                   termination_flag_3="H-rich_Core_C_depleted", termination_flag_4="undetermined_type", mt_history="None" if cls == "no_MT" else "Stable RLOF")
        out.append(dict(tables=tabs, initial={"star_1_mass": m1, "star_2_mass": m2, "period_days": P}, final=fin, sn=sn, cls=cls, dir=f"/synthetic/run{len(out)}"))
    return out


def build(d, seed, n=150):
    from posydon.grids.SN_MODELS import SN_MODELS
    rng = np.random.default_rng(seed)
    write_single(d + "/single_HMS", False, np.geomspace(0.5, 250, 25))
    write_single(d + "/single_HeMS", True, np.geomspace(0.3, 90, 22))
    for kind, sub in SUB.items():
        rs = runs(kind, n, rng)
        os.makedirs(os.path.join(d, sub))
        synth.write_grid(os.path.join(d, sub, "1e+00_Zsun.h5"), rs, sn={m: [r["sn"] for r in rs] for m in SN_MODELS})


def _drop(d, pid):
    if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)


@functools.lru_cache(maxsize=4)
def library(seed):
    """Directory of a complete library; removed when the process ends."""
    d = tempfile.mkdtemp(prefix="vp_lib_", suffix="_d", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    mputil.Finalize(None, _drop, args=(d, os.getpid()), exitpriority=10)
    build(d, seed)
    return d


def settings(d, **over):
    """Keyword arguments of SimulationProperties: the shipped default settings on the synthetic library."""
    import posydon
    from posydon.popsyn.io import simprop_kwargs_from_ini
    kw = simprop_kwargs_from_ini(os.path.join(os.path.dirname(posydon.__file__), "popsyn/population_params_default.ini"))
    for s in ("step_HMS_HMS", "step_CO_HMS_RLO", "step_CO_HeMS", "step_CO_HeMS_RLO"):
        kw[s][1]["interpolation_method"] = "nearest_neighbour"
    for k in ("HMS_HMS", "CO_HMS_RLO", "CO_HeMS", "CO_HeMS_RLO"):
        kw[k + "_path"] = os.path.join(d, SUB[k])
    for k in ("single_HMS", "single_HeMS"):
        kw[k + "_path"] = os.path.join(d, k)
    for step, o in over.items():
        kw[step][1].update(o)
    return kw


def properties(d, max_time=1.38e10, seed=1, **over):
    from posydon.binary_evol.simulationproperties import SimulationProperties
    p = SimulationProperties(max_simulation_time=max_time, **settings(d, **over))
    p.load_steps(metallicity=1.0, RNG=np.random.default_rng(seed))
    return p
