"""Synthetic single-star grids (analytic, physically ordered tracks) with the interface TrackMatcher uses."""
import functools
import math

import numpy as np

import posydon.utils.constants as const
from posydon.utils.key_library import DEFAULT_FINAL_KEYS, DEFAULT_TRANSLATED_KEYS, DEFAULT_PROFILE_KEYS


def track(m, he, n=80):
    """All columns of the track of initial mass m (H-rich, or stripped helium star)."""
    x = np.linspace(0, 1, n)
    T = 3e6 + 1e10 * m ** -2.6
    if he:
        T = 0.3e6 + 1e9 * m ** -2.4
    t = x * T
    w = 0.35 * m / (m + 40.0)
    mass = m * (1 - w * x ** 2)
    mdot = -m * w * 2 * x / T
    xh = 0.8 if not he else 0.0
    d = {}
    y = np.clip((x - xh) / (0.95 - xh), 0, 1)          # helium burning progress
    z = np.clip((x - 0.95) / 0.05, 0, 1)               # carbon burning progress
    if not he:
        h = np.clip(1 - x / xh, 0, 1)
        d["center_h1"] = 0.7 * h
        d["center_he4"] = np.where(x < xh, 0.98 - 0.7 * h, 0.98 * (1 - y))
        d["log_R"] = 0.6 * math.log10(m) + 0.35 * np.minimum(x / xh, 1) + 1.1 * np.clip((x - xh) / (1 - xh), 0, 1)
        fhe = 0.18 + 0.3 * m / (m + 30)
        he_c = np.where(x < xh, 0.0, fhe * m * (0.6 + 0.4 * np.clip((x - xh) / (1 - xh), 0, 1)))
        d["surface_h1"] = 0.7 - 0.1 * x
    else:
        d["center_h1"] = np.zeros(n)
        d["center_he4"] = 0.98 * (1 - y)
        d["log_R"] = -0.55 + 0.6 * math.log10(m) + 0.5 * x ** 2
        he_c = mass.copy()
        d["surface_h1"] = np.zeros(n)
    d["surface_he4"] = 0.98 - d["surface_h1"]
    d["center_c12"] = np.where(z > 0, 0.4 * (1 - z), 0.4 * y)
    d["center_o16"] = 0.5 * y
    d["center_n14"] = 0.005 * (1 - y)
    d["he_core_mass"] = he_c
    co = np.where(x >= 0.95, 0.5 * he_c * (0.5 + 0.5 * z), 0.0)
    d["co_core_mass"] = co
    d["c_core_mass"] = co * 0.5
    d["o_core_mass"] = co * 0.5
    for k in ("he", "c", "o", "co"):
        d[k + "_core_radius"] = 0.1 * d[k + "_core_mass"] ** 0.7
    R = 10 ** d["log_R"]
    d["age"], d["mass"], d["mdot"] = t, mass, mdot
    d["inertia"] = 0.07 * mass * R ** 2 * const.msol * const.rsol ** 2
    d["log_L"] = 3.3 * math.log10(m) - 0.2 + 0.5 * x + (0.6 if he else 0.0)
    burnH = x < (0.9 if not he else -1)
    d["log_LH"] = np.where(burnH, d["log_L"], -10.0)
    d["log_LHe"] = np.where((x >= xh), d["log_L"] - 0.2, -10.0)
    d["log_LZ"] = np.where(x > 0.9, d["log_L"] - 0.5, -10.0)
    d["log_Lnuc"] = d["log_L"]
    d["log_Teff"] = 0.25 * (d["log_L"] - 2 * d["log_R"]) + 3.76
    env = 0.3 + 0.2 * x
    d["conv_mx1_top_r"], d["conv_mx1_bot_r"] = 0.3 * R, 0.05 * R
    d["mass_conv_reg_fortides"] = env * mass * 0.1 * np.clip(1.5 - x, 0, 1)
    d["thickness_conv_reg_fortides"] = env * R * 0.5
    d["radius_conv_reg_fortides"] = env * R
    d["conv_env_top_mass"], d["conv_env_bot_mass"] = mass, mass * (1 - 0.1 * env)
    d["conv_env_top_radius"], d["conv_env_bot_radius"] = R, R * (1 - 0.3 * env)
    for k, f in (("g", 1.0), ("l_b", 0.5), ("l_t", 0.4)):
        d["conv_env_turnover_time_" + k] = f * 3e6 * (1 + x)
    d["spin_parameter"] = 0.1 + 0 * x
    d["log_total_angular_momentum"] = 51 + 0 * x
    for i, k in enumerate(DEFAULT_TRANSLATED_KEYS):
        if k not in d:
            d[k] = 0.01 * (i + 1) * (1 + 0.3 * x)
    return d


class SynthGrid:
    """Same calls as GRIDInterpolator; exact analytic track at any mass inside the grid."""

    def __init__(self, he=False, masses=None, n=80, final_type=None):
        self.he, self.n = he, n
        self.grid_mass = np.array(masses if masses is not None else np.geomspace(0.6, 250 if not he else 80, 20))
        self._track = functools.lru_cache(maxsize=64)(lambda m: track(m, he, n))

    def _in(self, m):
        if not (self.grid_mass.min() <= m <= self.grid_mass.max()):
            raise ValueError("outside the grid")

    def get(self, key, m):
        self._in(m)
        return self._track(float(m))[key]

    def get_final_values(self, key, m):
        self._in(m)
        return 0.01 * (1 + [("S1_" + k) for k in DEFAULT_FINAL_KEYS].index(key)) + m

    def get_profile(self, key, m):
        n = 30
        p = np.zeros(n, dtype=[(k, float) for k in tuple(DEFAULT_PROFILE_KEYS) + ("omega",)])
        x = np.linspace(1, 0.03, n)
        names = list(p.dtype.names)
        for i, k in enumerate(names):
            p[k] = (i + 1) * x * m
        return p[key].copy(), p

    def close(self):
        pass


@functools.lru_cache(maxsize=8)
def matcher(method="minimize", record=False):
    from posydon.binary_evol.track_match import TrackMatcher
    return TrackMatcher(grid_Hrich=SynthGrid(False), grid_strippedHe=SynthGrid(True), metallicity=1.0, matching_method=method, record_matching=record)


def star_at(m, x, he=False, Z=1.0, **over):
    """SingleStar kwargs of the track star of initial mass m at fractional age x (linear between track points)."""
    from posydon.binary_evol.singlestar import STARPROPERTIES
    tr = track(m, he)
    t = x * tr["age"][-1]
    v = {k: float(np.interp(t, tr["age"], tr[k])) for k in tr}
    out = {k: v[k] for k in STARPROPERTIES if k in v}
    out.update(lg_mdot=math.log10(max(-v["mdot"], 1e-99)), lg_wind_mdot=math.log10(max(-v["mdot"], 1e-99)), total_moment_of_inertia=v["inertia"], metallicity=Z,
               spin=v["spin_parameter"], center_gamma=0.5)
    out.update(over)
    return out, t


COLNAMES = {"age": "star_age", "mass": "star_mass", "mdot": "star_mdot", "inertia": "total_moment_of_inertia"}


def rec(d):
    """Structured array from a dict of equally long columns."""
    names = list(d)
    n = len(d[names[0]])
    a = np.zeros(n, dtype=[(k, "f8") for k in names])
    for k in names:
        a[k] = d[k]
    return a


def write_grid(path, runs, sn=None, **config):
    """PSyGrid HDF5 file.  runs: list of dict(tables={name: structured array}, initial={..}, final={..}, dir=str);
    sn: {model: list of dict per run}."""
    import json

    import h5py
    from posydon.grids.psygrid import PSyGrid
    g = PSyGrid()
    g.filepath = path
    g.generate_config(**config)
    S = h5py.string_dtype()
    with h5py.File(path, "w") as h:
        for i, r in enumerate(runs):
            h.create_group(f"/grid/run{i}/")
            for k, v in r["tables"].items():
                if v is not None:
                    h.create_dataset(f"/grid/run{i}/{k}", data=v)
        for where in ("initial", "final"):
            names = list(runs[0][where])
            dt = [(k, S if isinstance(runs[0][where][k], str) else "f8") for k in names]
            arr = np.array([tuple(r[where][k] for k in names) for r in runs], dtype=dt)
            h.create_dataset(f"/grid/{where}_values", data=arr)
        if sn:
            for m, rows in sn.items():
                names = list(rows[0])
                dt = [(k, "S70" if isinstance(rows[0][k], str) else "f8") for k in names]
                h.create_dataset(f"/grid/SN_MODELS/{m}", data=np.array([tuple(r[k] for k in names) for r in rows], dtype=dt))
        h.attrs["config"] = json.dumps(str(dict(g.config.items())))
        rel = [r.get("dir", f"/synthetic/run{i}") for i, r in enumerate(runs)]
        h.create_dataset("relative_file_paths", data=np.array(rel, dtype=S), dtype=S)
    return path


def write_single_grid(dirname, Z, he, masses, n=60):
    """Single-star grid file <Z>_Zsun.h5 of the analytic tracks (with profiles and final values)."""
    import os
    from posydon.utils.common_functions import convert_metallicity_to_string
    os.makedirs(dirname, exist_ok=True)
    names = list(dict.fromkeys(list(DEFAULT_PROFILE_KEYS) + ["omega"]))
    runs = []
    for m in masses:
        t = dict(track(m, he, n))
        for k, v in (("he_core_radius", 0.3), ("surface_c12", 0.003), ("surf_avg_omega", 1e-6), ("surf_avg_omega_div_omega_crit", 0.1)):
            t.setdefault(k, v + 0 * t["age"])
        x = np.linspace(1, 0.03, 30)
        g = SynthGrid(he, masses)
        runs.append(dict(tables={"history1": rec({COLNAMES.get(k, k): v for k, v in t.items()}),
                                 "final_profile1": rec({k: (i + 1) * x * m if k != "mass" else x * t["mass"][-1] for i, k in enumerate(names)})},
                         initial={"star_1_mass": m}, final={"S1_" + k: float(g.get_final_values("S1_" + k, m)) for k in DEFAULT_FINAL_KEYS}))
    return write_grid(os.path.join(dirname, convert_metallicity_to_string(Z) + "_Zsun.h5"), runs)


BH_EXTRA = ["trap_radius", "acc_radius", "t_sync_rad_1", "t_sync_conv_1", "t_sync_rad_2", "t_sync_conv_2"]
POST = ["avg_c_in_c_core_at_He_depletion", "co_core_mass_at_He_depletion"] + [f"{a}_CE_{b}" for b in ("1cent", "10cent", "30cent", "pure_He_star_10cent") for a in ("m_core", "r_core")]


def star_table(m, he, x):
    """MESA-like history of one star at the fractional ages x of its track (names of the grid files)."""
    tr = track(m, he)
    f = tr["age"] / tr["age"][-1]
    out = {COLNAMES.get(k, k): np.interp(x, f, v) for k, v in tr.items() if k not in ("mass", "age", "mdot")}
    out["center_gamma"] = 0.5 + 0 * x
    return out


def binary_runs(kind, n, rng, rows=(4, 9), classes=None):
    """Runs of a synthetic MESA binary grid: star 1 follows its track from x0 to x1, a companion star or a point mass goes along."""
    co, he = kind.startswith("CO"), "HeMS" in kind
    classes = classes or ["no_MT", "no_MT", "stable_MT", "stable_MT", "unstable_MT", "initial_MT", "not_converged"]
    runs = []
    for i in range(n):
        m1 = float(10 ** rng.uniform(0.7, 1.7)) if not he else float(10 ** rng.uniform(0.3, 1.3))
        q = float(rng.uniform(0.3, 0.98))
        m2 = float(10 ** rng.uniform(0.1, 1.3)) if co else m1 * q
        P = float(10 ** rng.uniform(-0.3, 3))
        cls = str(rng.choice(classes))
        k = int(rng.integers(*rows))
        x = np.sort(rng.uniform(0.0, float(rng.choice([0.75, 0.9, 0.97, 1.0])), k))
        if rng.random() < 0.4:
            x[-1] = 1.0
        T = track(m1, he)["age"][-1]
        bh = {"model_number": np.arange(k) * 10.0, "age": (x - x[0]) * T if rng.random() < 0.7 else x * T}
        bh["star_1_mass"] = np.interp(x, np.linspace(0, 1, 80), track(m1, he)["mass"])
        bh["star_1_mass"] *= m1 / bh["star_1_mass"][0]
        bh["star_2_mass"] = m2 * (1 + 0.2 * rng.random() * (x - x[0])) if rng.random() < 0.6 else m2 + 0 * x
        bh["period_days"] = P * np.exp(rng.normal(0, 0.3) * (x - x[0]))
        bh["binary_separation"] = 4.2 * (bh["period_days"] ** 2 * (bh["star_1_mass"] + bh["star_2_mass"])) ** (1 / 3)
        for j in (1, 2):
            for c in ("lg_system_mdot", "lg_wind_mdot", "lg_mstar_dot"):
                bh[f"{c}_{j}"] = rng.uniform(-12, -4, k)
            bh[f"rl_relative_overflow_{j}"] = rng.uniform(-0.9, -0.2, k)
        bh["lg_mtransfer_rate"] = np.full(k, -99.0)
        if cls in ("stable_MT", "unstable_MT"):
            donor = 1 if co or rng.random() < 0.7 else 2
            bh[f"rl_relative_overflow_{donor}"][-1 if cls == "unstable_MT" else k // 2] = rng.uniform(0.01, 0.2)
            bh["lg_mtransfer_rate"] = rng.uniform(-8, -3, k)
            if not co and cls == "unstable_MT" and rng.random() < 0.4:
                bh[f"rl_relative_overflow_{3 - donor}"][-1] = rng.uniform(0.001, 0.2)
        for c in BH_EXTRA:
            bh[c] = rng.uniform(0.1, 10, k)
        tabs = {"binary_history": rec(bh), "history1": rec(star_table(m1, he, x))}
        x2 = None
        if not co:
            x2 = np.minimum(x * track(m1, False)["age"][-1] / track(m2, False)["age"][-1], 1.0)
            tabs["history2"] = rec(star_table(m2, False, x2))
        for j in ((1,) if co else (1, 2)):
            tabs[f"final_profile{j}"] = rec({"mass": np.linspace(1, 0.1, 4) * (m1 if j == 1 else m2), "radius": np.linspace(2, 0.1, 4), "logRho": rng.uniform(0, 5, 4)})
        fin = {c: float(v[-1]) for c, v in bh.items()}
        for j in (1, 2):
            if f"history{j}" in tabs:
                for c in tabs[f"history{j}"].dtype.names:
                    fin[f"S{j}_{c}"] = float(tabs[f"history{j}"][c][-1])
            for c in POST:
                fin[f"S{j}_{c}"] = float(rng.uniform(0.1, 9)) if not (co and j == 2) else float("nan")
        fin.update(interpolation_class=cls, termination_flag_1="gamma_center_limit", termination_flag_2=str(rng.choice(["no_RLOF", "case_A1", "case_B1/A2"])),
                   termination_flag_3="H-rich_Core_C_depleted", termination_flag_4="undetermined_type", mt_history=str(rng.choice(["None", "Stable RLOF", "Reverse stable RLOF"])))
        sn = {}
        for j in (1, 2):
            ok = rng.random() < 0.7 and not (co and j == 2)
            sn[f"S{j}_CO_type"] = str(rng.choice(["NS", "BH", "WD"])) if ok else "None"
            sn[f"S{j}_SN_type"] = str(rng.choice(["CCSN", "ECSN", "PPISN"])) if ok else "None"
            for c in ("f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "M4", "mu4", "h1_mass_ej", "he4_mass_ej"):
                sn[f"S{j}_{c}"] = float(rng.uniform(0.01, 9)) if ok else float("nan")
        runs.append(dict(tables=tabs, initial={"star_1_mass": m1, "star_2_mass": m2, "period_days": P}, final=fin, sn=sn, x=x, x2=x2, he=he, co=co, cls=cls, dir=f"/synthetic/run{i}"))
    return runs
