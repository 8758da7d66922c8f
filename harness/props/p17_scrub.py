"""P17 MESA histories: restarts scrubbed, truncated at RLO / carbon depletion."""
import math

import numpy as np

from core import *

from posydon.grids.scrubbing import keep_after_RLO, keep_till_central_abundance_He_C, scrub
from posydon.utils.ignorereason import IgnoreReason, IGNORE_REASONS_PRIORITY

# ---------------------------------------------------------------- scrub
# an append-only MESA log: advance a model, or restart from an earlier photo
op = st.one_of(fixed(op=st.just("adv"), n=st.integers(1, 6), dt=lu(1e-3, 1e6)), fixed(op=st.just("back"), k=st.integers(1, 8)))
scr = fixed(ops=st.lists(op, min_size=1, max_size=8), m0=st.integers(1, 500), t0=one([0.0, 1e-3, 5.0, 1e7]), every=st.tuples(*[st.integers(1, 3)] * 3),
            missing=st.tuples(*[one(["no", "no", "no", "table", "model", "age"])] * 3), tail=st.tuples(*[st.integers(0, 2)] * 3), lastlong=st.booleans(), cnt=st.integers(1, 3))


@sub("P17", "restart-logs", scr, quick=1500, thorough=8000)
def s_scrub(c):
    m, t = c["m0"], c["t0"]
    branch = [(m, t, 0)]            # the run as it finally happened
    log = [(m, t, 0)]               # everything ever written
    uid = 0
    nback = 0
    for o in c["ops"]:
        if o["op"] == "adv":
            for _ in range(o["n"]):
                m, t, _u = branch[-1]
                uid += 1
                row = (m + 1, t + o["dt"] * (1 + 0.1 * (uid % 7)), uid)
                if row[1] <= t:
                    continue
                branch.append(row)
                log.append(row)
        else:
            k = max(1, len(branch) - o["k"])
            if k < len(branch):
                branch = branch[:k]
                nback += 1
    # what follows the last photo restart may never have been written again
    if log[-1] != branch[-1]:
        m, t, _u = branch[-1]
        uid += 1
        row = (m + 1, t + 1.0, uid)
        branch.append(row)
        log.append(row)
    last = log[-1][0]
    tabs, mods, ages, exp = [], [], [], []
    for j in range(3):
        ev = c["every"][j]
        rows = [r for r in log if (r[0] % ev == 0 or r[0] == last or r[0] == c["m0"])]
        br = [r for r in branch if (r[0] % ev == 0 or r[0] == last or r[0] == c["m0"])]
        cut = min(c["tail"][j], len(rows) - 1) if nback == 0 else 0
        if cut:
            rows, br = rows[:-cut], br[:-cut]
        tab = np.array([(r[2], float(r[1]) * 3 + j, 1.0) for r in rows], dtype=[("uid", "f8"), ("x", "f8"), ("y", "f8")])
        mod = np.array([r[0] for r in rows])
        age = np.array([r[1] for r in rows], dtype=float)
        mi = c["missing"][j]
        if mi == "no":
            tabs.append(tab), mods.append(mod), ages.append(age), exp.append(br)
        else:
            tabs.append(None if mi == "table" else tab), mods.append(None if mi == "model" else mod), ages.append(None if mi == "age" else age), exp.append(None)
    common = None
    for e in exp:
        if e is not None:
            s = {r[0] for r in e}
            common = s if common is None else common & s
    before = [None if x is None else x.copy() for x in tabs + mods + ages]
    out = scrub(tables=tabs[:c["cnt"]], models=mods[:c["cnt"]], ages=ages[:c["cnt"]]) if c["cnt"] < 3 else scrub(tabs, mods, ages)
    n = c["cnt"]
    if n < 3:
        common = None
        for e in exp[:n]:
            if e is not None:
                s = {r[0] for r in e}
                common = s if common is None else common & s
    check(len(out) == n, "number of tables changed")
    for j in range(n):
        if exp[j] is None:
            check(out[j] is None, f"table {j} has no usable columns but was returned")
            continue
        want = [r[2] for r in exp[j] if r[0] in common]
        check(same(list(out[j]["uid"]), want), lambda: f"table {j}: kept rows {list(out[j]['uid'])}, the run's surviving branch is {want}")
        w2 = [float(r[1]) * 3 + j for r in exp[j] if r[0] in common]
        check(same(list(out[j]["x"]), w2) and out[j].dtype == tabs[j].dtype, f"table {j}: row content changed")
    lens = {len(o) for o in out if o is not None}
    check(len(lens) <= 1, f"scrubbed tables are not aligned: {lens}")
    for a, b in zip(before, tabs + mods + ages):
        check((a is None and b is None) or np.array_equal(a, b), "input modified")
    nontrivial(nback > 0 and len(branch) > 3, "restart")
    label("missing", any(e is None for e in exp[:n]))
    label("subsampled", len(set(c["every"][:n])) > 1)


# arbitrary logs (e.g. corrupted): output always monotone and aligned
rawrow = st.tuples(st.integers(1, 12), st.integers(0, 20))


@sub("P17", "arbitrary-logs", st.lists(st.lists(rawrow, min_size=0, max_size=14), min_size=1, max_size=3), quick=1000, thorough=8000)
def s_raw(c):
    tabs = [np.array([(i,) for i in range(len(r))], dtype=[("i", "f8")]) for r in c]
    mods = [np.array([x[0] for x in r], dtype=int) for r in c]
    ages = [np.array([x[1] for x in r], dtype=float) for r in c]
    out = scrub(tabs, mods, ages)
    sets = []
    for o, m, a in zip(out, mods, ages):
        idx = [int(x) for x in o["i"]]
        check(all(p < q for p, q in zip(idx, idx[1:])), "rows reordered or repeated")
        check(all(m[p] < m[q] and a[p] < a[q] for p, q in zip(idx, idx[1:])), "kept rows not increasing in model number and age")
        sets.append([int(m[p]) for p in idx])
    check(all(s == sets[0] for s in sets), lambda: f"tables hold different models: {sets}")
    if len(c) == 1 and c[0]:
        idx = [int(x) for x in out[0]["i"]]
        check(idx[-1] == len(c[0]) - 1, "the last row of the log was dropped")
        # nothing that could stay is dropped: every dropped row is not older/lower than the next kept one
        for p in range(len(c[0])):
            if p not in idx:
                nx = min(q for q in idx if q > p)
                check(not (mods[0][p] < mods[0][nx] and ages[0][p] < ages[0][nx]), f"row {p} dropped although consistent with the rest")
    nontrivial(any(0 < len(o) < len(r) for o, r in zip(out, c)))


# ---------------------------------------------------------------- RLO start
rlo = fixed(n=st.integers(3, 12), first=st.integers(0, 9), how=one(["1", "2", "rate", "all", "all"]), edge=st.booleans(), t0=one([0.0, 0.0, 5.0, 1e6, 1e9]), dt=lu(1e-2, 1e6),
            cols=one(["both"] * 5 + ["1", "2", "none"]), h1=st.booleans(), h2=st.booleans(), sa=st.booleans(), norate=one([False] * 9 + [True]), after=st.booleans())


@sub("P17", "start-at-rlo", rlo, quick=1500, thorough=6000)
def s_rlo(c):
    n = c["n"]
    k = c["first"]
    dt = [(("age"), "f8")] + ([("rl_relative_overflow_1", "f8")] if c["cols"] in ("both", "1") else []) + ([("rl_relative_overflow_2", "f8")] if c["cols"] in ("both", "2") else [])
    if not c["norate"]:
        dt.append(("lg_mtransfer_rate", "f8"))
    dt.append(("id", "f8"))
    bh = np.zeros(n, dtype=dt)
    ages = c["t0"] + c["dt"] * np.arange(n) * (1 + 0.01 * np.arange(n))
    bh["age"] = ages
    bh["id"] = np.arange(n)
    have = set()
    for s in ("1", "2"):
        nm = "rl_relative_overflow_" + s
        if nm in bh.dtype.names:
            bh[nm] = -0.5
            if c["how"] in (s, "all"):
                have.add(s)
                bh[nm][k:] = 0.0 if c["edge"] else 0.1
                if c["after"]:
                    bh[nm][k + 1:] = -0.1
    if "lg_mtransfer_rate" in bh.dtype.names:
        bh["lg_mtransfer_rate"] = -99.0
        if c["how"] in ("rate", "all"):
            have.add("rate")
            bh["lg_mtransfer_rate"][k:] = -10.0 if c["edge"] else -4.0
            if c["after"]:
                bh["lg_mtransfer_rate"][k + 1:] = -12
    def hist(on):
        if not on:
            return None
        d = [("id", "f8")] + ([("star_age", "f8")] if c["sa"] else [])
        h = np.zeros(n, dtype=d)
        h["id"] = np.arange(n)
        if c["sa"]:
            h["star_age"] = ages
        return h
    h1, h2 = hist(c["h1"]), hist(c["h2"])
    if c["norate"] or c["cols"] == "none":
        try:
            keep_after_RLO(bh, h1, h2)
        except ValueError:
            return
        check(False, "missing columns not refused")
    out = keep_after_RLO(bh.copy(), None if h1 is None else h1.copy(), None if h2 is None else h2.copy())
    if not have or k >= n:
        check(out is None, "no overflow, but histories returned")
        return
    check(out is not None, "overflow not found")
    nontrivial(0 < k)
    obh, oh1, oh2 = out
    check(list(obh["id"]) == list(range(k, n)), lambda: f"kept rows {list(obh['id'])}, overflow starts at {k}")
    for o, h, nm in ((oh1, h1, "history1"), (oh2, h2, "history2")):
        if h is None:
            check(o is None, f"{nm} appeared")
        else:
            check(list(o["id"]) == list(range(k, n)), f"{nm} not aligned with the binary history")
            if c["sa"]:
                check(np.allclose(o["star_age"], obh["age"], rtol=1e-9, atol=1e-6 * c["dt"]), f"{nm}: star ages disagree with binary age")
    check(np.allclose(np.diff(obh["age"]), np.diff(ages[k:]), rtol=1e-5, atol=1e-7 * ages[-1] if ages[-1] > 1e12 * c["dt"] else 1e-6 * c["dt"]), "time steps changed")
    check(abs(obh["age"][0]) <= max(c["dt"] * 30, 1e-9), lambda: f"history starts at age {obh['age'][0]}")
    check(n - k == 1 or np.all(np.diff(obh["age"]) > 0), "ages not increasing")
    if ages[-1] < 1e9 * c["dt"]:
        check(obh["age"][0] == 0.0, "the age is not counted from the start of mass transfer")
    for nm in bh.dtype.names:
        if nm != "age":
            check(np.array_equal(obh[nm], bh[nm][k:]), f"column {nm} changed")


# ---------------------------------------------------------------- stop before C depletion
cd = fixed(n=st.integers(1, 10), k1=st.integers(0, 11), k2=st.integers(0, 11), y=u(0.001, 0.3), xc=u(0.01, 0.5), default=st.booleans(), blip1=st.integers(0, 11), undo=one([0, 0, 0, 1, 2]),
           ages=one(["bh", "star", "both", "none", "h1", "h2", "bh+h1", "bh+h2"]), miss=one([None] * 8 + ["bh", "h1", "h2", "c1", "c2"]), eq=st.booleans())


@sub("P17", "stop-before-C-depletion", cd, quick=2000, thorough=8000)
def s_cd(c):
    n = c["n"]
    Y, XC = (0.01, 0.1) if c["default"] else (c["y"], c["xc"])
    ages = 10.0 + np.cumsum(1.0 + np.arange(n))
    a = c["ages"]
    bh = np.zeros(n, dtype=[("id", "f8")] + ([("age", "f8")] if a in ("bh", "both", "bh+h1", "bh+h2") else []))
    def hist(k, on, cols):
        d = [("id", "f8")] + ([("star_age", "f8")] if on else []) + ([("center_he4", "f8"), ("center_c12", "f8")] if cols else [])
        h = np.zeros(n, dtype=d)
        if on:
            h["star_age"] = ages
        if cols:
            h["center_he4"] = np.where(np.arange(n) >= k, Y * (0.5), Y if c["eq"] else Y * 2)
            h["center_c12"] = np.where(np.arange(n) >= k, XC * 0.5, XC * 0.4 if not c["eq"] else XC * 2)
        h["id"] = np.arange(n)
        return h
    h1 = hist(c["k1"], a in ("star", "both", "h1", "bh+h1"), c["miss"] != "c1")
    h2 = hist(c["k2"], a in ("star", "both", "h2", "bh+h2"), c["miss"] != "c2")
    bh["id"] = np.arange(n)
    if "age" in bh.dtype.names:
        bh["age"] = ages
    if c["undo"] == 1 and c["miss"] != "c1":
        h1["center_he4"][-1] = 2 * Y          # not depleted at the end
    if c["undo"] == 2 and c["miss"] != "c2":
        h2["center_c12"][-1] = 2 * XC
    first = {}
    for nm, h in (("Primary", h1), ("Secondary", h2)):
        if "center_he4" in h.dtype.names and h["center_he4"][-1] < Y and h["center_c12"][-1] < XC:
            first[nm] = next(i for i in range(n) if h["center_he4"][i] < Y and h["center_c12"][i] < XC)
    args = [None if c["miss"] == "bh" else bh, None if c["miss"] == "h1" else h1, None if c["miss"] == "h2" else h2]
    noage = a in ("none", "h1", "h2")
    res = keep_till_central_abundance_He_C(*args) if c["default"] else keep_till_central_abundance_He_C(*args, Ystop=Y, XCstop=XC)
    b, o1, o2, flag = res
    if c["miss"] in ("bh", "h1", "h2") or noage or not first:
        check(flag == "" and all((x is None and y is None) or np.array_equal(x, y) for x, y in zip((b, o1, o2), args)), "histories changed although nothing is to be cut")
        return
    who = min(first, key=lambda w: (first[w], w))
    i = first[who]
    end = i + 1 if i + 2 <= n else i       # up to and including the depletion model, but never the last model of the run
    check(flag == f"{who} got stopped before central carbon depletion", lambda: f"flag {flag!r}, first depleted: {who}")
    for x, nm in ((b, "binary"), (o1, "history1"), (o2, "history2")):
        check(list(x["id"]) == list(range(end)), lambda: f"{nm} history keeps {len(x)} rows, expected {end} (depletion at row {i} of {n})")
    nontrivial(i < n - 1, "cut")
    label("both-depleted", len(first) == 2)
    label("mixed-ages", a in ("bh+h1", "bh+h2"))


# ---------------------------------------------------------------- ignore reason
@sub("P17", "ignore-reason", st.lists(st.integers(0, 9), max_size=7), quick=100, thorough=1000)
def s_ign(c):
    r = IgnoreReason()
    best = None
    check(not r and r.reason is None, "fresh reason is set")
    for k in c:
        if k < len(IGNORE_REASONS_PRIORITY):
            r.reason = IGNORE_REASONS_PRIORITY[k]
            best = k if best is None else min(best, k)
        elif k == 8:
            r.reason = None
            best = None
        else:
            try:
                r.reason = "no such reason"
            except ValueError:
                pass
            else:
                check(False, "unknown reason accepted")
        check(bool(r) == (best is not None) and r.reason == (None if best is None else IGNORE_REASONS_PRIORITY[best]), "not the most important reason")
    nontrivial(len(c) > 2)
