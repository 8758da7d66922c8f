"""P02 binary and star histories: append / restore / table conversions (model based)."""
import math

import numpy as np
import pandas as pd

from core import *

from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar, convert_star_to_massless_remnant
from posydon.popsyn.io import BINARYPROPERTIES_DTYPES, STARPROPERTIES_DTYPES

EVENTS = [None, "ZAMS", "CC1", "CC2", "oRLO1", "oCE1", "redirect_from_ZAMS",
          "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS", "maxtime", "END"]
STATES = ["detached", "RLO1", "RLO2", "contact", "disrupted", "merged", "initial_RLOF"]
SSTATES = ["H-rich_Core_H_burning", "H-rich_Core_He_burning", "stripped_He_Core_He_burning",
           "NS", "BH", "WD", "massless_remnant", "H-rich_non_burning"]
BF = [k for k in BINARYPROPERTIES if BINARYPROPERTIES_DTYPES.get(k) == "float64"]
SF = [k for k in STARPROPERTIES if STARPROPERTIES_DTYPES.get(k) == "float64"]
val = one([0.0, 1.0, -1.5, 1e-30, 1e30, None, float("nan"), 42.0]) | u(-100, 100)
vec = st.lists(u(-50, 50), min_size=3, max_size=3)

setters = [
    fixed(op=st.just("set"), key=one(BF), v=val),
    fixed(op=st.just("set1"), key=one(SF), v=val),
    fixed(op=st.just("set2"), key=one(SF), v=val),
    fixed(op=st.just("state"), v=one(STATES)),
    fixed(op=st.just("event"), v=one(EVENTS)),
    fixed(op=st.just("event"), v=one(EVENTS)),
    fixed(op=st.just("sstate"), star=one([1, 2]), v=one(SSTATES)),
    fixed(op=st.just("mtcase"), v=one(["None", "case_A1", "case_B2"])),
    fixed(op=st.just("verbose"), v=st.booleans()),
    fixed(op=st.just("massless"), star=one([1, 2])),
    fixed(op=st.just("switch")),
]
setv = fixed(op=st.just("vec"), key=one(["V_sys", "nearest_neighbour_distance"]), v=vec)
enders = one(["append"] * 6 + ["restore"] * 3 + ["restore_default", "none"])


def blocks(setter, n):
    blk = st.tuples(st.lists(setter, min_size=1, max_size=4), enders, st.integers(0, 6)).map(
        lambda t: t[0] + ([] if t[1] == "none" else [{"op": t[1], "i": t[2]}]))
    return st.lists(blk, min_size=2, max_size=n).map(lambda bs: [o for b in bs for o in b])


ops_all = blocks(st.one_of(*setters, setv), 10)
ops_novec = blocks(st.one_of(*setters), 7)

base = fixed(m1=lu(0.1, 150), m2=lu(0.1, 150), P=lu(0.1, 5000), e=u(0, 0.9), Z=one([1.0, 0.1, 0.01]),
             index=st.integers(0, 10 ** 6))


class Model:
    """Independent model: list of snapshots and a current snapshot."""

    def __init__(self, b):
        self.cur = self.snap(b)
        self.hist = [self.snap(b)]
        self.verbose = False

    @staticmethod
    def snap(b):
        d = {("b", k): getattr(b, k) for k in BINARYPROPERTIES}
        for n, s in (("s1", b.star_1), ("s2", b.star_2)):
            d.update({(n, k): getattr(s, k) for k in STARPROPERTIES})
        return d


def build(c):
    return BinaryStar(star_1=SingleStar(mass=c["m1"], metallicity=c["Z"], state="H-rich_Core_H_burning"),
                      star_2=SingleStar(mass=c["m2"], metallicity=c["Z"], state="H-rich_Core_H_burning"),
                      index=c["index"], state="detached", event="ZAMS", time=0.0,
                      orbital_period=c["P"], eccentricity=c["e"])


def apply(b, m, o):
    k = o["op"]
    if k == "set":
        setattr(b, o["key"], o["v"])
        m.cur[("b", o["key"])] = o["v"]
    elif k in ("set1", "set2"):
        setattr(b.star_1 if k == "set1" else b.star_2, o["key"], o["v"])
        m.cur[("s1" if k == "set1" else "s2", o["key"])] = o["v"]
    elif k == "state":
        b.state = o["v"]
        m.cur[("b", "state")] = o["v"]
    elif k == "event":
        b.event = o["v"]
        m.cur[("b", "event")] = o["v"]
    elif k == "sstate":
        (b.star_1 if o["star"] == 1 else b.star_2).state = o["v"]
        m.cur[("s%d" % o["star"], "state")] = o["v"]
    elif k == "vec":
        v = np.array(o["v"]) if o["key"] == "V_sys" else list(o["v"])
        setattr(b, o["key"], v)
        m.cur[("b", o["key"])] = v
    elif k == "mtcase":
        b.mass_transfer_case = o["v"]
        m.cur[("b", "mass_transfer_case")] = o["v"]
    elif k == "verbose":
        b.history_verbose = o["v"]
        m.verbose = o["v"]
    elif k == "massless":
        convert_star_to_massless_remnant(b.star_1 if o["star"] == 1 else b.star_2)
        n = "s%d" % o["star"]
        for key in STARPROPERTIES:
            m.cur[(n, key)] = float("nan")
        m.cur[(n, "state")] = "massless_remnant"
        m.cur[(n, "mass")] = 0.0
    elif k == "switch":
        b.switch_star()
        for d in [m.cur] + m.hist:
            for key in STARPROPERTIES:
                d[("s1", key)], d[("s2", key)] = d[("s2", key)], d[("s1", key)]
    elif k == "append":
        b.append_state()
        ev = m.cur[("b", "event")]
        if not m.verbose and ev is not None and "redirect" in ev:
            label("redirect skipped")
            return "skipped"
        m.hist.append(dict(m.cur))
        return "appended"
    elif k in ("restore", "restore_default"):
        i = o["i"] if k == "restore" else 0
        if i >= len(m.hist):
            i = len(m.hist) - 1
        b.restore(i) if k == "restore" else b.restore()
        m.hist = m.hist[:i + 1]
        m.cur = dict(m.hist[i])
        return "restored"


def compare(b, m, where=""):
    n = len(m.hist)
    for pre, obj, keys in (("b", b, BINARYPROPERTIES), ("s1", b.star_1, STARPROPERTIES),
                           ("s2", b.star_2, STARPROPERTIES)):
        for k in keys:
            h = getattr(obj, k + "_history")
            check(len(h) == n, lambda: f"{where}: {pre}.{k}_history has {len(h)} entries, expected {n}")
            for i in range(n):
                check(same(h[i], m.hist[i][(pre, k)]),
                      lambda: f"{where}: {pre}.{k}_history[{i}]={h[i]!r}, expected {m.hist[i][(pre, k)]!r}")
            check(same(getattr(obj, k), m.cur[(pre, k)]),
                  lambda: f"{where}: {pre}.{k}={getattr(obj, k)!r}, expected {m.cur[(pre, k)]!r}")


@sub("P02", "append_restore", fixed(base=base, ops=ops_all),
     quick=700, thorough=15000)
def append_restore(c):
    """Histories of random property changes, appends, swaps, massless conversions and restores against a
    list model: all columns of binary and both stars have the same length and the recorded values;
    restore truncates to and reinstates the chosen entry.  Non-trivial: >=2 appends and a restore."""
    b = build(c["base"])
    m = Model(b)
    compare(b, m, "initial")
    na = nr = 0
    for i, o in enumerate(c["ops"]):
        r = apply(b, m, o)
        na += r == "appended"
        nr += r == "restored" and na > 0
        if r:
            compare(b, m, f"after op {i} {o['op']}")
    compare(b, m, "end")
    nontrivial(na >= 2 and nr >= 1)


def norm(v, dtype):
    if v is None:
        return float("nan")
    return v


def expected_df_value(m, i, pre, k):
    return m.hist[i][(pre, k)]


def eqcell(got, want):
    if want is None or (isinstance(want, float) and math.isnan(want)):
        return got is None or pd.isna(got) or got == "nan"
    if isinstance(want, str):
        return got == want
    return close(got, want, 1e-12)


@sub("P02", "tables", fixed(base=base, ops=ops_novec,
                            sel=one(["all", "only", "ignore", "noS2"]),
                            cols=st.lists(one([k for k in BF]), min_size=1, max_size=5, unique=True),
                            scols=st.lists(one([k for k in SF]), min_size=1, max_size=5, unique=True)),
     quick=160, thorough=4000)
def tables(c):
    """to_df has one row per history entry with the recorded values; the one-line table holds first and
    last entries; rebuilding from the table gives the same histories; conversions leave the object as it
    was.  Non-trivial: >=2 rows."""
    b = build(c["base"])
    m = Model(b)
    for o in c["ops"]:
        apply(b, m, o)
    n = len(m.hist)
    kw = {}
    bcols = [k for k in BINARYPROPERTIES if k not in ("V_sys", "nearest_neighbour_distance")]
    s1cols = [k for k in STARPROPERTIES if k != "profile"]
    s2cols = list(s1cols)
    if c["sel"] == "only":
        kw = dict(only_select_columns=["state", "event"] + c["cols"],
                  S1_kwargs=dict(only_select_columns=["state"] + c["scols"]),
                  S2_kwargs=dict(only_select_columns=["state"] + c["scols"]))
        bcols, s1cols, s2cols = ["state", "event"] + c["cols"], ["state"] + c["scols"], ["state"] + c["scols"]
    elif c["sel"] == "ignore":
        kw = dict(ignore_columns=list(c["cols"]), S1_kwargs=dict(ignore_columns=list(c["scols"])))
        bcols = [k for k in bcols if k not in c["cols"]]
        s1cols = [k for k in s1cols if k not in c["scols"]]
    elif c["sel"] == "noS2":
        kw = dict(include_S2=False)
        s2cols = []
    df = b.to_df(**kw)
    want_cols = set(bcols) | {"S1_" + k for k in s1cols} | {"S2_" + k for k in s2cols}
    extra = {"V_sys_x", "V_sys_y", "V_sys_z", "NN_dist_x", "NN_dist_y", "NN_dist_z"}
    check(set(df.columns) - extra == want_cols,
          lambda: f"columns differ: {set(df.columns) - extra ^ want_cols}")
    check(len(df) == n, f"{len(df)} rows for {n} history entries")
    check(list(df.index) == [c["base"]["index"]] * n, "index is not the binary index")
    cells = [(k, "b", k) for k in bcols] + [("S1_" + k, "s1", k) for k in s1cols] + \
            [("S2_" + k, "s2", k) for k in s2cols]
    for col, pre, k in cells:
        v = df[col].values
        for i in range(n):
            check(eqcell(v[i], m.hist[i][(pre, k)]),
                  lambda: f"to_df {col}[{i}] = {v[i]!r}, recorded {m.hist[i][(pre, k)]!r}")
    compare(b, m, "after to_df")
    # one line
    if c["sel"] != "noS2":
        ol = b.to_oneline_df(**kw)
        check(len(ol) == 1, "one-line table must have one row")
        for col, pre, k in cells:
            for suf, i in (("_i", 0), ("_f", n - 1)):
                check(col + suf in ol.columns, lambda: f"one-line column {col + suf} missing")
                check(eqcell(ol[col + suf].values[0], m.hist[i][(pre, k)]),
                      lambda: f"one-line {col + suf} = {ol[col + suf].values[0]!r}, recorded "
                              f"{m.hist[i][(pre, k)]!r}")
        check(int(ol["FAILED"].values[0]) == 0 and int(ol["WARNING"].values[0]) == 0, "flags")
        b.traceback = "x"
        check(int(b.to_oneline_df(**kw)["FAILED"].values[0]) == 1, "failure flag not set")
        del b.traceback
    # rebuild
    if c["sel"] in ("all",):
        b2 = BinaryStar.from_df(df)
        check(b2.index == c["base"]["index"], "index lost in from_df")
        df2 = b2.to_df()
        for col in df2.columns:
            if col in extra:
                continue
            a_, b_ = df[col].values, df2[col].values
            check(len(a_) == len(b_), "row count changed in round trip")
            for i in range(n):
                check(eqcell(b_[i], None if (a_[i] is None or pd.isna(a_[i])) else a_[i]),
                      lambda: f"round trip {col}[{i}]: {b_[i]!r} != {a_[i]!r}")
        check(BinaryStar.from_df(df, index=0).index == 0, "index given to from_df ignored")
        # one-line table, with scalars
        x = float(c["base"]["index"]) + 0.5
        sc = {}
        for j, star in ((1, b.star_1), (2, b.star_2)):
            sc[j] = {"natal_kick_velocity": x + j, "natal_kick_azimuthal_angle": 0.1 * j, "natal_kick_polar_angle": 0.2 * j, "natal_kick_mean_anomaly": 0.3 * j,
                     "SN_type": ["CCSN", "PISN"][j - 1], "avg_c_in_c_core_at_He_depletion": 0.4 * j, "co_core_mass_at_He_depletion": 1.5 * j, "f_fb": 0.25 * j}
            for k, v in sc[j].items():
                setattr(star, k, v)
        bs = {"mt_history_HMS_HMS": "Stable RLOF", "interp_class_CO_HMS_RLO": "stable_MT", "cumulative_mt_case_HMS_HMS": "case_A1", "true_anomaly_SN1": x}
        for k, v in bs.items():
            setattr(b, k, v)
        ol = b.to_oneline_df(scalar_names=list(bs), S1_kwargs=dict(scalar_names=list(sc[1])), S2_kwargs=dict(scalar_names=list(sc[2])))
        b3 = BinaryStar.from_oneline_df(ol)
        check(b3.index == c["base"]["index"] and BinaryStar.from_oneline_df(ol, index=0).index == 0, "index of the one-line table")
        for pre, obj, keys in (("b", b3, bcols), ("s1", b3.star_1, s1cols), ("s2", b3.star_2, s2cols)):
            for k in keys:
                check(eqcell(getattr(obj, k), m.hist[0][(pre, k)]),
                      lambda: f"from_oneline_df {pre}.{k}={getattr(obj, k)!r}, initial "
                              f"{m.hist[0][(pre, k)]!r}")
        for obj, want in ((b3, bs), (b3.star_1, sc[1]), (b3.star_2, sc[2])):
            for k, v in want.items():
                check(getattr(obj, k, None) == v, lambda: f"from_oneline_df scalar {k}: {getattr(obj, k, None)!r} instead of {v!r}")
        # older tables: the four kick values in numbered columns
        q = [10.0 * x, 0.7, 1.1, 2.9]
        b4 = BinaryStar.from_oneline_df(ol[[k for k in ol.columns if "natal_kick" not in k]].assign(**{f"S{j}_natal_kick_array_{i}": v * j for j in (1, 2) for i, v in enumerate(q)}))
        for j, star in ((1, b4.star_1), (2, b4.star_2)):
            got = [star.natal_kick_velocity, star.natal_kick_azimuthal_angle, star.natal_kick_polar_angle, star.natal_kick_mean_anomaly]
            check(got == [v * j for v in q], lambda: f"kick of star {j} from a table of natal_kick_array: {got}")
    nontrivial(n >= 2, c["sel"])


@sub("P02", "vectors", fixed(base=base, vs=st.lists(st.tuples(vec, vec).map(list), min_size=1, max_size=6)),
     quick=200, thorough=3000)
def vectors(c):
    """Systemic-velocity and neighbour-distance vectors come out component by component, row by row.
    Non-trivial: >=2 distinct rows."""
    b = build(c["base"])
    want = [(b.V_sys, b.nearest_neighbour_distance)]
    for v, d in c["vs"]:
        b.V_sys, b.nearest_neighbour_distance = np.array(v), d
        b.append_state()
        want.append((v, d))
    df = b.to_df()
    for i, (v, d) in enumerate(want):
        for j, x in enumerate("xyz"):
            check_close(df["V_sys_" + x].values[i], v[j], f"V_sys_{x}[{i}]", 1e-12)
            check_close(df["NN_dist_" + x].values[i], d[j], f"NN_dist_{x}[{i}]", 1e-12)
    ol = b.to_oneline_df()
    for j, x in enumerate("xyz"):
        check_close(ol[f"V_sys_{x}_i"].values[0], want[0][0][j], "V_sys_i", 1e-12)
        check_close(ol[f"V_sys_{x}_f"].values[0], want[-1][0][j], "V_sys_f", 1e-12)
    nontrivial(len(c["vs"]) >= 2)


@sub("P02", "period_only", fixed(rows=st.lists(fixed(m1=lu(0.1, 100), m2=lu(0.1, 100), P=lu(0.1, 1e4)),
                                               min_size=1, max_size=6), given=one(["P", "a"]),
                                 fmt=one(["history", "oneline"])),
     quick=200, thorough=2000)
def period_only(c):
    """A binary rebuilt from a table with only the period (or only the separation) has the other one
    consistent with the row masses, in every row.  Non-trivial: always."""
    import phys
    rows = c["rows"] if c["fmt"] == "history" else c["rows"][:1]
    n = len(rows)
    idx = pd.Index([7] * n, name="binary_index")
    a = [phys.kepler_a(r["P"], r["m1"], r["m2"]) for r in rows]
    suf = "" if c["fmt"] == "history" else "_i"
    d = {"state" + suf: ["detached"] * n, "event" + suf: ["ZAMS"] * n, "time" + suf: [0.0] * n,
         "S1_state" + suf: ["H-rich_Core_H_burning"] * n, "S2_state" + suf: ["H-rich_Core_H_burning"] * n,
         "S1_mass" + suf: [r["m1"] for r in rows], "S2_mass" + suf: [r["m2"] for r in rows]}
    if c["given"] == "P":
        d["orbital_period" + suf] = [r["P"] for r in rows]
    else:
        d["separation" + suf] = a
    df = pd.DataFrame(d, index=idx)
    if c["fmt"] == "oneline":
        df["FAILED"] = 0
        b = BinaryStar.from_oneline_df(df)
    else:
        b = BinaryStar.from_df(df)
    ph, ah = b.orbital_period_history, b.separation_history
    check(len(ph) == n and len(ah) == n, lambda: f"history lengths {len(ph)}, {len(ah)} for {n} rows")
    for i in range(n):
        check_close(ph[i], rows[i]["P"], f"period[{i}]", 1e-3)
        check_close(ah[i], a[i], f"separation[{i}]", 1e-3)
    check_close(b.orbital_period, rows[-1]["P"], "period", 1e-3)
    check_close(b.separation, a[-1], "separation", 1e-3)
    nontrivial()
