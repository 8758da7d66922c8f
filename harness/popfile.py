"""Synthetic population files (the HDF5 layout BinaryPopulation.combine_saved_files writes)."""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import one, seeds

STATES = ["detached", "RLO1", "RLO2", "contact", "initially_single_star", "merged", "disrupted"]
EVENTS = ["oRLO1", "oRLO2", "CC1", "CC2", "oCE1", "oCE2", "CO_contact", "redirect_from_ZAMS",
          "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS_RLO", "redirect_from_CO_HeMS",
          "maxtime", "END", None]
CLASSES = ["initial_MT", "stable_MT", "stable_reverse_MT", "no_MT", "unstable_MT", None]
MTH = ["Stable contact phase", "Stable RLO1", "no MT", "Unstable", None]
INI = {"metallicity": 1.0, "number_of_binaries": 10, "binary_fraction_scheme": "const",
       "binary_fraction_const": 0.7, "star_formation": "burst", "max_simulation_time": 1.38e10,
       "primary_mass_scheme": "Kroupa2001", "primary_mass_min": 6.5, "primary_mass_max": 250.0,
       "secondary_mass_scheme": "flat_mass_ratio", "secondary_mass_min": 0.35,
       "secondary_mass_max": 250.0, "orbital_scheme": "period",
       "orbital_period_scheme": "Sana+12_period_extended", "orbital_period_min": 0.35,
       "orbital_period_max": 6000.0, "eccentricity_scheme": "zero", "posydon_version": "x"}


def layout(max_systems=9):
    """Index layout of a population file: blocks of systems (one per rank file), any block order."""
    return st.fixed_dictionaries({
        "blocks": st.lists(st.integers(1, 4), min_size=1, max_size=3),
        "order": st.permutations(range(3)),
        "gap": st.integers(0, 4), "start": st.integers(0, 6),
        "inner": one(["sorted", "sorted", "reversed", "shuffled"]),
        "seed": st.integers(0, 2 ** 31)})


def indices(lay):
    out, nxt = [], lay["start"]
    for n in lay["blocks"]:
        blk = list(range(nxt, nxt + n))
        nxt += n + lay["gap"]
        out.append(blk)
    rng = np.random.default_rng(lay["seed"])
    if lay["inner"] == "reversed":
        out = [b[::-1] for b in out]
    elif lay["inner"] == "shuffled":
        out = [list(rng.permutation(b)) for b in out]
    order = [o for o in lay["order"] if o < len(out)]
    return [int(i) for o in order for i in out[o]]


def tables(lay, mets=(1.0,), single=0.2, params=None, times=None):
    """History and oneline tables of a population with that layout (all values distinct)."""
    rng = np.random.default_rng(lay["seed"] + 1)
    idx = indices(lay)
    H, O = [], []
    for i in idx:
        n = int(rng.integers(1, 6))
        is_single = rng.uniform() < single
        m1 = float(rng.uniform(7, 150))
        m2 = m1 * float(rng.uniform(0.1, 1.0))
        if rng.uniform() < 0.1:
            m1, m2 = m2, m1
        cls = CLASSES[rng.integers(len(CLASSES))]
        t = np.sort(rng.uniform(0, 1e7, n)) if times is None else np.sort(10 ** rng.uniform(*times, n))
        for k in range(n):
            H.append({"binary_index": i, "time": float(t[k]),
                      "state": ("initially_single_star" if is_single else
                                STATES[rng.integers(4)]) if k == 0 else STATES[rng.integers(len(STATES))],
                      "event": "ZAMS" if k == 0 else EVENTS[rng.integers(len(EVENTS))],
                      "step_names": "step_%d" % k, "S1_mass": m1 / (k + 1),
                      "S2_mass": m2 / (k + 1) if not is_single else np.nan,
                      "S1_state": "H-rich_Core_H_burning", "S2_state": "BH",
                      "orbital_period": float(rng.uniform(1, 1e3))})
        O.append({"binary_index": i, "state_i": "initially_single_star" if is_single else "detached",
                  "state_f": STATES[rng.integers(len(STATES))], "event_i": "ZAMS", "event_f": "END",
                  "S1_mass_i": m1, "S2_mass_i": np.nan if is_single else m2,
                  "orbital_period_i": np.nan if is_single else float(10 ** rng.uniform(0, 3.5)),
                  "eccentricity_i": np.nan if is_single else 0.0,
                  "interp_class_HMS_HMS": cls,
                  "mt_history_HMS_HMS": MTH[rng.integers(len(MTH))] if cls in ("stable_MT", "stable_reverse_MT")
                  else MTH[1 + rng.integers(len(MTH) - 1)],
                  "S1_spin": float(rng.uniform(0, 1)),
                  "metallicity": float(mets[rng.integers(len(mets))])})
    H = pd.DataFrame(H).set_index("binary_index")
    O = pd.DataFrame(O).set_index("binary_index")
    return H, O


def masses(O, mets):
    rows = []
    for Z in mets:
        o = O[O["metallicity"] == Z]
        s = o["state_i"] == "initially_single_star"
        ms = float(np.nansum(o["S1_mass_i"][s]))
        mb = float(np.nansum(o["S1_mass_i"][~s]) + np.nansum(o["S2_mass_i"][~s]))
        rows.append([ms + mb + 1000.0, ms, mb, len(o)])
    return pd.DataFrame(rows, index=pd.Index(list(mets), name="metallicity"),
                        columns=["simulated_mass", "simulated_mass_single",
                                 "simulated_mass_binaries", "number_of_systems"])


def write(path, H, O, mass, ini=None, with_met=True, channels=None):
    from posydon.popsyn.binarypopulation import HISTORY_MIN_ITEMSIZE, ONELINE_MIN_ITEMSIZE
    ini = dict(INI, **(ini or {}))
    if not with_met:
        O = O.drop(columns="metallicity")
    with pd.HDFStore(path, "w") as s:
        s.append("history", H, min_itemsize={k: v for k, v in HISTORY_MIN_ITEMSIZE.items() if k in H})
        s.append("oneline", O, min_itemsize={k: v for k, v in ONELINE_MIN_ITEMSIZE.items() if k in O})
        s.append("ini_parameters", pd.DataFrame({k: [v] for k, v in ini.items()}))
        if mass is not None:
            s.append("mass_per_metallicity", mass)
    return path


def cache_mean_mass():
    """Memoise the (slow, pure) mean-mass integral of posydon.popsyn.norm_pop; values are unchanged."""
    import posydon.popsyn.norm_pop as n
    f = getattr(n, "get_mean_mass", None)
    if f is None or getattr(f, "_cached", False):
        return
    memo = {}

    def get_mean_mass(params):
        k = repr(sorted((a, b) for a, b in dict(params).items() if a not in ("metallicity", "posydon_version")))
        if k not in memo:
            memo[k] = f(params)
        return memo[k]
    get_mean_mass._cached = True
    n.get_mean_mass = get_mean_mass
