"""P11 merger products: mass budget, mixing, labels."""
import copy
import math

import numpy as np

from core import *

from posydon.binary_evol.DT.step_merged import MergedStep
from posydon.binary_evol.DT.step_disrupted import DisruptedStep
from posydon.binary_evol.DT.step_initially_single import InitiallySingleStep
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
from posydon.utils.posydonerror import ModelError

HMS = "H-rich_Core_H_burning"
HEMS = "stripped_He_Core_He_burning"
POST = ["H-rich_Shell_H_burning", "H-rich_Core_He_burning", "H-rich_Core_He_depleted", "H-rich_Core_C_depleted", "H-rich_non_burning"]
POSTHE = ["stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted", "stripped_He_non_burning"]
CEN = ["center_h1", "center_he4", "center_c12", "center_n14", "center_o16"]
SUR = ["surface_h1", "surface_he4", "surface_c12", "surface_n14", "surface_o16"]
CORES = ["he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]

star = fixed(s=one([HMS, HMS, HEMS, HEMS] + POST + POSTHE), m=lu(1.0, 80), fhe=u(0.1, 0.7), fco=u(0.2, 0.8), co=st.booleans(), fc=u(0.1, 0.5),
             x=st.tuples(*[u(0, 1)] * 12), nan=one([None] * 9 + ["center_n14", "surface_o16", "avg_c_in_c_core"]))
case = fixed(a=star, b=star, kind=one(["star"] * 6 + ["WD", "NS", "BH"]), mwd=u(0.5, 1.3), ev=one([1, 2]), crit=u(0.0, 0.9), frac=u(0, 0.3), rlo=st.booleans())


def mk(c, kind="star"):
    s = c["s"] if kind == "star" else kind
    d = dict(state=s, mass=c["m"], metallicity=1.0)
    if kind in ("NS", "BH"):
        d.update(mass=1.4 if kind == "NS" else 10.0, spin=0.3)
        return d
    x = c["x"]
    he = "stripped" in s
    hem = c["m"] if he else c["m"] * c["fhe"]
    cod = c["co"] if s not in (HMS, HEMS) else False
    com = hem * c["fco"] if cod else 0.0
    if s == HMS:
        hem = 0.0
    d.update(he_core_mass=hem, co_core_mass=com, c_core_mass=com * c["fc"], o_core_mass=com * (1 - c["fc"]))
    for i, k in enumerate(CEN + SUR):
        d[k] = x[i] * 0.5
    d["center_h1"] = 0.1 + 0.5 * x[0] if s == HMS else 0.0
    if "He_depl" in s or "C_depl" in s:
        d["center_he4"] = 0.0
    else:
        d["center_he4"] = 0.05 + 0.5 * x[1]
    d["center_c12"] = 0.0 if "C_depl" in s else 0.05 + 0.3 * x[2]
    d["surface_h1"] = 0.0 if he else 0.1 + 0.6 * x[5]
    d["avg_c_in_c_core"] = x[10]
    d["center_gamma"] = 1 + x[11]
    if c["nan"]:
        d[c["nan"]] = math.nan
    if kind == "WD":
        d.update(state="WD", he_core_mass=c["m"], co_core_mass=c["m"])
    d.update(log_LH=1.0 + x[3], log_LHe=2.0 + x[4], log_LZ=-3.0 + x[5], log_Lnuc=3.0, log_L=4.0, log_R=1.0, lg_wind_mdot=-6.0, spin=0.1, c12_c12=0.2,
             total_moment_of_inertia=1e55, conv_env_top_mass=1.0, surf_avg_omega=1e-5, surf_avg_omega_div_omega_crit=0.05)
    return d


class Stop(Exception):
    pass


class Matcher:
    matching_method = "x"

    def do_matching(self, binary, step_name=None, **kw):
        raise Stop


def avg(a, b, k, wa, wb):
    vals = [a.get(k), b.get(k), wa, wb]
    if any(v is None or not math.isfinite(v) for v in vals) or wa + wb == 0:
        return math.nan
    return (a[k] * wa + b[k] * wb) / (wa + wb)


def reference(b, o, frac):
    """b: base (engulfing), o: other; -> (values, holder) of the merger product."""
    cls = lambda s: "HMS" if s == HMS else "HEMS" if s == HEMS else "POST" if s in POST else "POSTHE" if s in POSTHE else s
    kb, ko = cls(b["state"]), cls(o["state"])
    if ko in ("NS", "BH"):
        return None, None
    he = ("HEMS", "POSTHE")
    out = {}
    if kb == ko == "HMS":
        main = b
        for k in CEN + SUR:
            out[k] = avg(b, o, k, b["mass"], o["mass"])
        out["mass"] = (b["mass"] + o["mass"]) * (1 - frac)
        for k in CORES:
            out[k] = b[k]
        return out, main
    if {kb, ko} == {"HMS", "POST"}:
        main, x = (b, o) if kb == "POST" else (o, b)
        for k in SUR:
            out[k] = avg(main, x, k, main["mass"] - main["he_core_mass"], x["mass"])
        for k in CEN + ["center_gamma", "avg_c_in_c_core", "log_LHe", "log_LZ"]:
            out[k] = main[k]
        for k in CORES:
            out[k] = main[k]
        out["mass"] = b["mass"] + o["mass"]
        return out, main
    if ko == "WD":
        if kb == "HMS" or kb in ("POST",) + he:
            if b["co_core_mass"] == 0:
                for k in CEN + ["avg_c_in_c_core", "center_gamma"]:
                    out[k] = o[k]
            else:
                for k in CEN + ["avg_c_in_c_core"]:
                    out[k] = avg(b, o, k, b["co_core_mass"], o["co_core_mass"])
                out["center_gamma"] = math.nan
            for k in CORES + ["mass"]:
                out[k] = b[k] + o["mass"]
            for k in SUR:
                out[k] = b[k]
            return out, b
        return "error", None
    if "HMS" in (kb, ko):
        return "error", None
    # two stars with cores
    main = b if kb == "POST" or ko != "POST" else o
    x = o if main is b else b
    ca, cx = main["co_core_mass"], x["co_core_mass"]
    for k in CEN + ["avg_c_in_c_core"]:
        if ca == 0 and cx == 0:
            out[k] = avg(main, x, k, main["he_core_mass"], x["he_core_mass"])
        elif cx == 0:
            out[k] = main[k]
        elif ca == 0:
            out[k] = x[k]
        else:
            out[k] = avg(main, x, k, ca, cx)
    out["center_gamma"] = main["center_gamma"] if ca > 0 and cx == 0 else x["center_gamma"] if cx > 0 and ca == 0 else math.nan
    for k in SUR:
        if kb == ko == "POST":
            out[k] = avg(main, x, k, main["mass"] - main["he_core_mass"], x["mass"] - x["he_core_mass"])
        elif kb in he and ko in he:
            out[k] = avg(main, x, k, main["he_core_mass"] - ca, x["he_core_mass"] - cx)
        else:
            out[k] = main[k]
    for k in CORES + ["mass"]:
        out[k] = main[k] + x[k]
    return out, main


@sub("P11", "product", case, quick=3000, thorough=60000)
def product(c):
    """The star that leaves a merger against an independent mass and mixing budget, for every pair of states and both
    donor labels.  Non-trivial: a merger product was formed from two stars (or star and white dwarf)."""
    d1 = mk(c["a"])
    d2 = mk(dict(c["b"], m=c["mwd"]) if c["kind"] == "WD" else c["b"], c["kind"])
    base, other = dict(d1), dict(d2)
    e = c["ev"]
    A, B = SingleStar(**d1), SingleStar(**d2)
    hehe = "stripped" in d1["state"] and "stripped" in d2["state"] and c["rlo"]
    bn = BinaryStar(star_1=A if e == 1 else B, star_2=B if e == 1 else A, state="RLO%d" % e if hehe else "merged",
                    event=("oRLO%d" if hehe else "oMerging%d") % e, time=3e6, orbital_period=3.0, eccentricity=0.2)
    from posydon.binary_evol.simulationproperties import SimulationProperties
    bn.properties = SimulationProperties(flow=({}, {}))
    bn.get_next_step_name = lambda: "step_merged"
    step = MergedStep(merger_critical_rot=c["crit"], rel_mass_lost_HMS_HMS=c["frac"], track_matcher=Matcher())
    out, main = reference(base, other, c["frac"])
    try:
        step(bn)
        raise Violation("the merger product was not handed to the track matching")
    except Stop:
        check(out != "error", lambda: f"unsupported pair {d1['state']} + {d2['state']} accepted")
    except ModelError:
        check(out == "error", lambda: f"supported pair {d1['state']} + {d2['state']} refused")
        return
    s_base, s_oth = (bn.star_1, bn.star_2) if e == 1 else (bn.star_2, bn.star_1)
    check(bn.state == "merged", "state is not merged")
    check(bn.orbital_period > 1e50, "an isolated star is evolved in a bound orbit")
    for k, v in (("mass", 0.0), ("state", "massless_remnant")):
        gone = s_base if out is None else s_oth
        check(getattr(gone, k) == v, lambda: f"the swallowed star keeps {k}={getattr(gone, k)}")
    for k in STARPROPERTIES:
        if k not in ("mass", "state"):
            check(getattr(gone, k) != getattr(gone, k), lambda: f"the swallowed star keeps {k}={getattr(gone, k)}")
    if out is None:
        label("onto " + c["kind"])
        for k in d2:
            check(same(getattr(s_oth, k), d2[k]), lambda: f"{c['kind']} changed its {k} when swallowing a star")
        return
    nontrivial(True, "%s+%s" % (d1["state"][:9], d2["state"][:9]))
    for k, v in out.items():
        check_close(getattr(s_base, k), v, f"merger product {d1['state']} + {d2['state']}: {k}", 1e-9, 1e-14)
    check_close(s_base.surf_avg_omega_div_omega_crit, c["crit"], "rotation of the product")
    check(s_base.metallicity == 1.0, "metallicity lost")
    for k in ("log_R", "log_L", "lg_wind_mdot", "spin", "total_moment_of_inertia", "surf_avg_omega"):
        check(getattr(s_base, k) != getattr(s_base, k), lambda: f"stale {k} after the merger")
    if base["state"] != HMS or other["state"] != HMS:
        pre = "H-rich" if out["surface_h1"] > 0.01 else "stripped_He"
        check(s_base.state.startswith(pre), lambda: f"product with surface hydrogen {out['surface_h1']} in state {s_base.state}")
        if out["center_h1"] <= 0.01 and out["center_he4"] <= 0.01:
            suf = "C_depleted" if out["center_c12"] <= 0.01 else "He_depleted"
            check(s_base.state.endswith(suf), lambda: f"product in state {s_base.state}, centre he4 {out['center_he4']} c12 {out['center_c12']}")
    else:
        check(s_base.state == HMS, "merged main-sequence stars leave the main sequence")


@sub("P11", "refuses", fixed(a=star, b=star, ev=one(["oRLO1", None, "ZAMS", "oCE1", "CC1"]), state=one(["merged", "detached", "RLO1", "contact"])),
     quick=300, thorough=3000)
def refuses(c):
    """A binary that is not merging is refused.  Non-trivial: always."""
    d1, d2 = mk(c["a"]), mk(c["b"])
    hr = lambda s: "stripped" in s or s == "H-rich_non_burning"      # listed with the He-rich states on purpose (after a CE)
    hehe = hr(d1["state"]) and hr(d2["state"])
    if c["state"] != "merged" and hehe and c["ev"] == "oRLO1":
        return
    nontrivial(True, str(c["ev"]))
    b = BinaryStar(star_1=SingleStar(**d1), star_2=SingleStar(**d2), state=c["state"], event=c["ev"], time=1e6, orbital_period=3.0, eccentricity=0.0)
    step = MergedStep(track_matcher=Matcher())
    try:
        step(b)
    except Stop:
        raise Violation(f"state {c['state']} event {c['ev']} merged")
    except ValueError:
        return
    raise Violation("no error")
