"""P28 formation channels, transient populations, their weights and efficiencies."""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import sub, check as core_check, check_close, close, nontrivial, label, scratch, fixed, one, u
import popfile as pf

PID = "P28"
DROP = {"redirect_from_ZAMS", "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS_RLO",
        "redirect_from_CO_HeMS", "CO_contact"}


def check(ok, what, **kw):
    core_check(ok, what if ok or not kw else "%s: %s" % (what, kw))


def _open(path, chunk):
    from posydon.popsyn.synthetic_population import Population
    return Population(path, chunksize=chunk)


def channel_ref(events, cls, mth, mt_history):
    """Formation channel: the sequence of events, with the HMS-HMS overflow after the first."""
    tok = [e for e in events if isinstance(e, str)]
    ins = {"stable_MT": "oRLO1", "stable_reverse_MT": "oRLO1-reverse"}.get(cls)
    if ins:
        tok = tok[:1] + [ins] + tok[1:]
    debug = "_".join(tok)
    tok = tok[:1] + [t for t in tok[1:] if t not in DROP]
    if mt_history and mth == "Stable contact phase" and ins:
        k = 1
        tok[k] = tok[k].replace("oRLO1", "oRLO1-contact")
    return debug[:100], "_".join(tok)[:100]


chan_case = fixed(lay=pf.layout(), chunk=one([1, 2, 3, 100]), mt=st.booleans(), again=st.booleans())


@sub(PID, "channels", chan_case, quick=120, thorough=500)
def channels(c):
    with scratch() as d:
        H, O = pf.tables(c["lay"])
        pop = _open(pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, (1.0,))), c["chunk"])
        if c["again"]:
            pop.calculate_formation_channels(mt_history=not c["mt"])
        pop.calculate_formation_channels(mt_history=c["mt"])
        fc = pop.formation_channels
        idx = pf.indices(c["lay"])
        nontrivial(len(O) > c["chunk"] and idx != sorted(idx), "several chunks, file not sorted")
        label("contact", bool((O["mt_history_HMS_HMS"] == "Stable contact phase").any()) and c["mt"])
        check(sorted(fc.index) == sorted(idx), "one channel per system", got=list(fc.index), expected=idx)
        for i in idx:
            ev = H.loc[[i], "event"].tolist()
            dbg, ch = channel_ref(ev, O.loc[i, "interp_class_HMS_HMS"], O.loc[i, "mt_history_HMS_HMS"], c["mt"])
            check(fc.loc[i, "channel_debug"] == dbg, "debug channel", system=i, got=fc.loc[i, "channel_debug"], expected=dbg)
            check(fc.loc[i, "channel"] == ch, "channel", system=i, got=fc.loc[i, "channel"], expected=ch)
        for name, T in (("history", H), ("oneline", O)):
            got = pd.read_hdf(pop.filename, name)
            check(list(got.index) == list(T.index) and len(got) == len(T), "table %s unchanged" % name)


def select_events(which):
    def f(h, o, fc=None):
        rows = h[h["event"].isin(which)]
        df = pd.DataFrame(index=rows.index)
        df["time"] = rows["time"] * 1e-6
        df["metallicity"] = o["metallicity"].reindex(rows.index) if o.index.is_unique else np.nan
        df["S1_mass"] = rows["S1_mass"]
        df["event"] = rows["event"]
        if "state_i" in o:
            df["state_i"] = o["state_i"].reindex(rows.index)
        df["S1_spin"] = o["S1_spin"].reindex(rows.index)
        if fc is not None:
            df["channel"] = fc["channel"].reindex(rows.index)
        return df
    return f


WHICH = [["ZAMS"], ["CC1", "CC2"], ["oRLO1", "oRLO2", "CC1", "CC2"], ["ZAMS", "CC1", "oCE1", "END"], ["END"], ["CC1", "CO_contact", "redirect_from_ZAMS"],
         ["nothing"]]
trans_case = fixed(lay=pf.layout(), chunk=one([1, 2, 3, 100]), mets=one([[1.0], [0.1, 1.0]]), which=one(WHICH),
                   fc=st.booleans(), cols=st.booleans(), again=st.booleans())


@sub(PID, "transients", trans_case, quick=120, thorough=500)
def transients(c):
    """A transient population is the selection applied to all systems, independent of the chunking."""
    with scratch() as d:
        H, O = pf.tables(c["lay"], mets=c["mets"])
        pop = _open(pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, c["mets"])), c["chunk"])
        fc = None
        if c["fc"]:
            pop.calculate_formation_channels(mt_history=True)
            fc = pop.formation_channels
        f = select_events(c["which"])
        seen = []

        def wrapped(h, o, ch=None):
            seen.append((list(dict.fromkeys(h.index)), list(o.index), None if ch is None else list(ch.index),
                         sorted(h.columns), sorted(o.columns)))
            return f(h, o, ch)
        kw = {}
        if c["cols"]:
            kw = dict(hist_cols=["time", "event", "S1_mass"], oneline_cols=["metallicity", "S1_spin", "state_i"])
        if c["again"]:
            pop.create_transient_population(select_events(["ZAMS"]), "T", **kw)
            pop.create_transient_population(select_events(["ZAMS"]), "other", **kw)
        tp = pop.create_transient_population(wrapped, "T", **kw)
        want = f(H, O, fc)
        idx = pf.indices(c["lay"])
        nontrivial(len(O) > c["chunk"] and idx != sorted(idx) and len(want) > 1, "several chunks, unsorted, several events")
        for hs, os_, cs, hc, oc in seen:
            check(hs == os_, "histories and summaries of a chunk belong to the same systems", history=hs, oneline=os_)
            check(cs is None or cs == os_, "channels of a chunk belong to the same systems", channels=cs, oneline=os_)
            if c["cols"]:
                check(hc == ["S1_mass", "event", "time"] and oc == ["S1_spin", "metallicity", "state_i"], "requested columns", hist=hc, oneline=oc)
        check(sorted(i for x in seen for i in x[1]) == sorted(idx), "every system is offered once to the selection")
        if len(want) == 0:
            check(tp is None, "no selected systems give no transient population")
            return
        for got in (tp.population, pd.read_hdf(pop.filename, "transients/T"), tp.select()):
            check(list(got.index) == list(want.index), "systems of the transient population", got=list(got.index), expected=list(want.index))
            for col in want.columns:
                a, b = got[col].to_numpy(), want[col].to_numpy()
                ok = list(a) == list(b) if b.dtype == object else np.array_equal(a, b, equal_nan=True)
                check(ok, "column %s of the transient population" % col, got=list(a)[:8], expected=list(b)[:8])
        check(sorted(tp.columns) == sorted(want.columns), "columns of the transient population")
        a = len(want) // 2
        check(list(tp.select(start=a).index) == list(want.index[a:]), "partial selection")
        if c["again"]:
            check(list(pd.read_hdf(pop.filename, "transients/other").index) == idx, "other transient population unchanged")


PARS = [dict(), dict(primary_mass_scheme="Salpeter"), dict(binary_fraction_const=0.3), dict(binary_fraction_const=1.0),
        dict(primary_mass_min=5.0, primary_mass_max=200.0, secondary_mass_min=0.1, secondary_mass_max=200.0),
        dict(orbital_period_min=1.0, orbital_period_max=1e3)]
w_case = fixed(lay=pf.layout(), mets=one([[1.0], [0.1, 1.0], [1.0, 0.1]]), which=one(WHICH[:4]), single=one([0.0, 0.3]),
               par=st.lists(st.integers(0, len(PARS) - 1), min_size=1, max_size=2, unique=True),
               sim_given=st.booleans(), twice=st.booleans(), fc=st.booleans())


@sub(PID, "weights", w_case, quick=30, thorough=300)
def weights(c):
    """Each event carries the weight of its own system; efficiencies are their sums."""
    from posydon.popsyn.norm_pop import calculate_model_weights
    pf.cache_mean_mass()
    with scratch() as d:
        H, O = pf.tables(c["lay"], mets=c["mets"], single=c["single"])
        M = pf.masses(O, c["mets"])
        p = pf.write(os.path.join(d, "p.h5"), H, O, M)
        pop = _open(p, 100)
        if c["fc"]:
            pop.calculate_formation_channels(mt_history=True)
        want = select_events(c["which"])(H, O, pop.formation_channels)
        tp = pop.create_transient_population(select_events(c["which"]), "T")
        if tp is None:
            return
        idx = list(want.index)
        nontrivial(idx != sorted(idx) and len(set(want["metallicity"])) == len(c["mets"]), "unsorted, all metallicities")
        label("several events per system", len(set(idx)) < len(idx))
        sim = dict(pf.INI)
        ref = {}
        for k in c["par"]:
            par = dict(pf.INI, **PARS[k])
            par.pop("posydon_version"), par.pop("metallicity")
            name = "w%d" % k
            kw = dict(simulation_parameters=sim) if c["sim_given"] else {}
            try:
                got = tp.calculate_model_weights(name, population_parameters=par, **kw)
            except ValueError as e:      # only binaries/singles simulated but both requested
                one_kind = any(O.loc[list(set(idx))].groupby("metallicity")["state_i"].nunique() < 2) or par["binary_fraction_const"] in (0.0, 1.0)
                core_check(one_kind, "weights are refused: %s" % e)
                continue
            if c["twice"]:
                got = tp.calculate_model_weights(name, population_parameters=par, **kw)
            wt = {}
            for Z in set(want["metallicity"]):
                uniq = sorted(set(want.index[want["metallicity"] == Z]))
                o = O.loc[uniq, ["S1_mass_i", "S2_mass_i", "orbital_period_i", "eccentricity_i", "state_i"]].copy()
                bi = (o["state_i"] != "initially_single_star").to_numpy()
                hi, lo = o[["S1_mass_i", "S2_mass_i"]].max(axis=1), o[["S1_mass_i", "S2_mass_i"]].min(axis=1)
                o.loc[bi, "S1_mass_i"], o.loc[bi, "S2_mass_i"] = hi[bi], lo[bi]
                r = calculate_model_weights(pop_data=o, M_sim=M.loc[Z, "simulated_mass"], simulation_parameters=sim,
                                            population_parameters=par)
                wt.update({(i, Z): float(x) for i, x in zip(uniq, np.asarray(r))})
            exp = [wt[i, Z] for i, Z in zip(idx, want["metallicity"])]
            ref[name] = exp
            check(list(got.index) == idx, "rows of the weights")
            for w in (got[name], tp.model_weights(name)[name], tp.model_weights()[name]):
                for i, x, y in zip(idx, w.to_numpy(), exp):
                    check(close(float(x), y, rtol=1e-9), "model weight", system=i, got=x, expected=y)
            back = tp.model_weight_parameters(name)
            for kk, v in par.items():
                check(back[kk] == v, "stored population parameter", key=kk, got=back[kk], expected=v)
        for name, exp in ref.items():
            e = tp.efficiency(name)
            exp = np.array(exp)
            for Z in c["mets"]:
                m = (want["metallicity"] == Z).to_numpy()
                check_close(float(e.loc[Z, "total"]), float(exp[m].sum()), "efficiency at Z=%g" % Z, rtol=1e-9, atol=1e-300)
            if c["fc"]:
                e = tp.efficiency(name, channels=True)
                for Z in c["mets"]:
                    for ch in set(want["channel"]):
                        m = ((want["metallicity"] == Z) & (want["channel"] == ch)).to_numpy()
                        check_close(float(e.loc[Z, ch]), float(exp[m].sum()), "efficiency of channel", rtol=1e-9, atol=1e-300)
                    check_close(float(e.loc[Z, "total"]), float(sum(e.loc[Z, ch] for ch in set(want["channel"]))),
                                "channels add up to the total", rtol=1e-9, atol=1e-300)
