"""P27 population files: reading, selecting and exporting systems."""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import sub, check as core_check, check_close, nontrivial, label, scratch, fixed, one, u
import popfile as pf

PID = "P27"


def check(ok, what, **kw):
    core_check(ok, what if ok or not kw else "%s: %s" % (what, kw))


def _same(a, b, what):
    """Same rows in the same order (index, columns, values)."""
    check(list(a.index) == list(b.index), what + ": systems", got=list(a.index)[:20], expected=list(b.index)[:20])
    check(sorted(a.columns) == sorted(b.columns), what + ": columns", got=list(a.columns), expected=list(b.columns))
    for c in b.columns:
        x, y = a[c].to_numpy(), b[c].to_numpy()
        if y.dtype == object or x.dtype == object:
            nx = [None if pd.isna(v) else v for v in x]
            ny = [None if pd.isna(v) else v for v in y]
            check(nx == ny, what + ": column " + c, got=nx[:10], expected=ny[:10])
        else:
            check(np.array_equal(x, y, equal_nan=True), what + ": column " + c, got=list(x)[:10], expected=list(y)[:10])


def _open(path, chunk):
    from posydon.popsyn.synthetic_population import Population
    return Population(path, chunksize=chunk)


KEYS = ["int", "list", "array", "mask", "maskframe", "slice", "column", "columns", "startstop", "where",
        "head", "tail", "absent"]

read_case = fixed(lay=pf.layout(), chunk=one([1, 2, 3, 5, 100]), table=one(["history", "oneline"]),
                  keys=st.lists(st.tuples(one(KEYS), st.integers(0, 2 ** 31)), min_size=2, max_size=6))


@sub(PID, "read", read_case, quick=60, thorough=900)
def read(c):
    """Every way of reading a table gives exactly the rows it names, whatever the chunk size."""
    with scratch() as d:
        H, O = pf.tables(c["lay"])
        p = pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, (1.0,)))
        pop = _open(p, c["chunk"])
        idx = pf.indices(c["lay"])
        nontrivial(len(O) > c["chunk"] and idx != list(range(len(idx))), "chunked, indices not 0..n-1")
        full, t = (H, pop.history) if c["table"] == "history" else (O, pop.oneline)
        check(len(pop) == len(O) and pop.number_of_systems == len(O), "number of systems")
        check(sorted(int(i) for i in pop.indices) == sorted(idx), "indices of the population")
        check(len(pop.history) == len(H) and len(pop.oneline) == len(O), "lengths of the tables")
        n = H.groupby(level=0).size()
        for i in idx:
            check(int(np.asarray(pop.history_lengths.loc[i]).flatten()[0]) == n[i], "history length", system=i)
        for kind, s in c["keys"]:
            rng = np.random.default_rng(s)
            label("key:" + kind)
            pick = [int(i) for i in rng.permutation(idx)[:rng.integers(0, len(idx) + 1)]]
            if kind == "int":
                i = idx[rng.integers(len(idx))]
                got, want = t[i], full.loc[[i]]
            elif kind == "absent":
                i = max(idx) + 5
                got, want = t[i], full.iloc[:0]
            elif kind in ("list", "array"):
                got = t[pick if kind == "list" else np.array(pick, dtype=int)]
                want = full[full.index.isin(pick)]
                if not pick:
                    check(len(got) == 0, "empty selection is empty")
                    continue
            elif kind in ("mask", "maskframe"):
                m = rng.uniform(size=len(full)) < rng.uniform()
                got = t[m if kind == "mask" else pd.DataFrame({"m": m})]
                want = full[m]
            elif kind == "slice":
                a = None if rng.uniform() < 0.3 else int(rng.integers(0, max(idx) + 2))
                b = None if rng.uniform() < 0.3 else int((a or 0) + rng.integers(0, 8))
                got = t[a:b]
                want = full[(full.index >= (a if a is not None else -1)) & (full.index < (b if b is not None else 10 ** 9))]
            elif kind == "column":
                col = full.columns[rng.integers(len(full.columns))]
                got, want = t[col], full[[col]]
            elif kind == "columns":
                cols = list(rng.permutation(full.columns)[:rng.integers(1, 4)])
                cols = [str(x) for x in cols]
                got, want = t[cols], full[cols]
            elif kind == "startstop":
                a = int(rng.integers(0, len(full) + 1))
                b = int(rng.integers(a, len(full) + 2))
                got, want = t.select(start=a, stop=b), full.iloc[a:b]
            elif kind == "where":
                i = int(rng.integers(0, max(idx) + 2))
                got = t.select(where="index > %d" % i)
                want = full[full.index > i]
            elif kind == "head":
                k = int(rng.integers(1, len(full) + 3))
                got, want = t.head(k), full.head(k)
            else:
                k = int(rng.integers(1, len(full) + 1))
                got, want = t.tail(k), full.tail(k)
            _same(got, want, "%s[%s]" % (c["table"], kind))


export_case = fixed(lays=st.lists(pf.layout(), min_size=1, max_size=2), chunk=one([1, 2, 3, 100]),
                    mets=one([[1.0], [0.1], [0.1, 1.0], [0.0001, 0.01, 2.0]]),
                    mets2=one([[1.0], [0.01], [0.1, 1.0]]),
                    no_met=st.booleans(), channels=st.booleans(),
                    ops=st.lists(fixed(src=st.integers(0, 1), mode=one(["append", "append", "overwrite", "plain"]),
                                       seed=st.integers(0, 2 ** 31), hchunk=one([1, 2, 5, 1000000]),
                                       sort=st.booleans(), kind=one(["list", "array"])),
                                 min_size=1, max_size=4))


@sub(PID, "export", export_case, quick=32, thorough=500)
def export(c):
    """Histories of exports: the file holds exactly the exported systems, renumbered consistently
    in every table, the summed simulated masses and the counts; the source never changes."""
    from posydon.popsyn.synthetic_population import Population
    with scratch() as d:
        src = []
        for k, lay in enumerate(c["lays"]):
            mets = c["mets"] if k == 0 else c["mets2"]
            drop = c["no_met"] and len(mets) == 1
            H, O = pf.tables(lay, mets=mets)
            M = pf.masses(O, mets)
            p = pf.write(os.path.join(d, "s%d.h5" % k), H, O, M, with_met=not drop)
            pop = _open(p, c["chunk"])
            if c["channels"]:
                pop.calculate_formation_channels(mt_history=True)
            ch = pop.formation_channels
            src.append((pop, H, O, M, ch, p))
        out = os.path.join(d, "out.h5")
        model = None
        shuffled = False
        for op in c["ops"]:
            pop, H, O, M, ch, p = src[op["src"] % len(src)]
            rng = np.random.default_rng(op["seed"])
            sel = [int(i) for i in rng.permutation(O.index)[:rng.integers(1, len(O) + 1)]]
            if op["sort"]:
                sel = sorted(sel)
            before = M.copy()
            arg = sel if op["kind"] == "list" else np.array(sel, dtype=int)
            exists = os.path.exists(out)
            kw = {"append": dict(append=True), "overwrite": dict(overwrite=True), "plain": {}}[op["mode"]]
            try:
                pop.export_selection(arg, out, history_chunksize=op["hchunk"], **kw)
                raised = False
            except FileExistsError:
                raised = True
            check(raised == (op["mode"] == "plain" and exists), "an existing file is only replaced on request",
                  mode=op["mode"], exists=exists, raised=raised)
            if raised:
                continue
            if model is None or op["mode"] != "append":
                model = {"rows": [], "mass": None}
            shuffled = shuffled or sel != sorted(sel)
            base = len(model["rows"])
            model["rows"] += [(base + k, H.loc[[i]], O.loc[i], None if ch is None else ch.loc[i])
                              for k, i in enumerate(sel)]
            cnt = O.loc[sel]["metallicity"]
            add = M.copy()
            add["number_of_systems"] = [int((cnt == Z).sum()) for Z in M.index]
            model["mass"] = add if model["mass"] is None else model["mass"].add(add, fill_value=0)
            # source object and file unchanged
            _same(pop.mass_per_metallicity, before, "mass table of the source object")
            _same(pd.read_hdf(p, "mass_per_metallicity"), before, "mass table of the source file")
            _same(pd.read_hdf(p, "history"), H, "history of the source file")
        if model is None:
            return
        nontrivial(len(model["rows"]) >= 3 and (len(c["ops"]) > 1 or shuffled), "several exports or unsorted selection")
        label("multi metallicity", len(model["mass"]) > 1)
        label("no metallicity column", c["no_met"] and len(c["mets"]) == 1)
        got = Population(out, chunksize=c["chunk"])
        gh, go = pd.read_hdf(out, "history"), pd.read_hdf(out, "oneline")
        check(len(got) == len(model["rows"]), "number of exported systems", got=len(got), expected=len(model["rows"]))
        check(sorted(go.index) == list(range(len(model["rows"]))), "systems are numbered consecutively", got=sorted(go.index))
        nh = 0
        for k, h, o, ch in model["rows"]:
            hh = gh.loc[[k]].copy()
            nh += len(hh)
            h = h.copy()
            h.index = hh.index if len(hh) == len(h) else h.index
            _same(hh, h, "exported history")
            oo = go.loc[k]
            for col in o.index:
                same = (pd.isna(oo[col]) and pd.isna(o[col])) or oo[col] == o[col]
                check(same, "exported oneline", column=col, system=k, got=oo[col], expected=o[col])
            check(int(np.asarray(got.history_lengths.loc[k]).flatten()[0]) == len(h), "exported history length", system=k)
            if c["channels"]:
                gc = got.formation_channels.loc[k]
                for col in ch.index:
                    check(gc[col] == ch[col], "exported channel", column=col, system=k, got=gc[col], expected=ch[col])
        check(nh == len(gh), "no other history rows")
        # tables of the file follow the same order of systems (chunked reading relies on it)
        order = list(dict.fromkeys(gh.index))
        check(order == list(go.index), "order of systems in history and oneline", history=order, oneline=list(go.index))
        m = got.mass_per_metallicity
        check(sorted(m.index) == sorted(model["mass"].index), "metallicities of the file", got=sorted(m.index))
        for Z in m.index:
            for col in model["mass"].columns:
                check_close(float(m.loc[Z, col]), float(model["mass"].loc[Z, col]), "summed " + col, rtol=1e-12)
        check(np.allclose(got.metallicities, np.asarray(got.solar_metallicities) * 0.0142), "absolute metallicities")
        for k, v in pf.INI.items():
            check(got.ini_params[k] == v, "ini parameter", key=k, got=got.ini_params.get(k), expected=v)


mass_case = fixed(lay=pf.layout(), single=one([0.0, 0.3, 1.0]), chunk=one([1, 2, 100]), met=one([0.1, 1.0, 2.0]),
                  had=st.booleans())


@sub(PID, "mass", mass_case, quick=12, thorough=150)
def mass(c):
    """Opening a file with a metallicity and an ini file: simulated masses follow from the systems."""
    from posydon.popsyn.synthetic_population import Population
    import posydon
    with scratch() as d:
        H, O = pf.tables(c["lay"], mets=(c["met"],), single=c["single"])
        p = pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, (1.0,)) if c["had"] else None)
        ini = os.path.join(d, "pop.ini")
        src = os.path.join(os.path.dirname(posydon.__file__), "popsyn", "population_params_default.ini")
        if not os.path.exists(src):
            src = os.path.join(os.path.dirname(os.path.dirname(posydon.__file__)), "posydon", "popsyn", "population_params_default.ini")
        open(ini, "w").write(open(src).read())
        pop = Population(p, metallicity=c["met"], ini_file=ini, chunksize=c["chunk"])
        ref = pf.masses(O, (c["met"],))
        s = (O["state_i"] == "initially_single_star").sum()
        nontrivial(0 < s < len(O), "singles and binaries")
        for q in (pop, Population(p)):
            m = q.mass_per_metallicity
            check(list(m.index) == [c["met"]], "metallicity")
            check_close(float(m["simulated_mass_single"].iloc[0]), ref["simulated_mass_single"].iloc[0], "single mass", rtol=1e-12)
            check_close(float(m["simulated_mass_binaries"].iloc[0]), ref["simulated_mass_binaries"].iloc[0], "binary mass", rtol=1e-12)
            check_close(float(m["simulated_mass"].iloc[0]),
                        ref["simulated_mass_single"].iloc[0] + ref["simulated_mass_binaries"].iloc[0], "total mass", rtol=1e-12)
            check(int(m["number_of_systems"].iloc[0]) == len(O), "number of systems")
