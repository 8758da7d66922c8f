"""P38: active learning (psy-cris): tables, classifiers, regressors, chains and proposed points."""
import contextlib
import copy
import io as _io
import math
import os
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.interpolate import LinearNDInterpolator, Rbf
from core import sub, u, nontrivial, scratch, seeds
from core import check as _check
from core import label as _label

import matplotlib
matplotlib.use("Agg")
from posydon.active_learning.psy_cris.classify import Classifier
from posydon.active_learning.psy_cris.data import TableData
from posydon.active_learning.psy_cris.regress import Regressor
from posydon.active_learning.psy_cris.sample import Sampler
from posydon.active_learning.psy_cris import utils as pu
from posydon.active_learning.psy_cris.synthetic_data.synth_data_2D import get_output_2D
from posydon.active_learning.psy_cris.synthetic_data.synth_data_3D import get_output_3D

PID = "P38"
LIN = ["linear", "lin", "LinearNDInterpolator", "Linear ND Interpolator", "LINEAR"]
RBF = ["rbf", "RBF", "RadialBasisFunction", "radial basis function"]
CLASSES = {"str": ["A", "B", "stable_MT", "no_MT", "x y"], "int0": [0, 1, 2, 3], "int1": [1, 2, 3, 4], "neg": [-1, 0, 1, 2], "gap": [5, 1, 3, 10], "float": [0.5, 1.0, 2.0, -3.5]}


def check(ok, what, **kw):
    _check(ok, "%s %s", what, kw if not ok else "")


def label(*names):
    for n in names:
        if n:
            _label(n)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(_io.StringIO()), contextlib.redirect_stderr(_io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def table(rng, n, dim, kind, ncls, nout, zeros=0.0, minper=1):
    """Data frame with inputs x0.., class c and outputs y0..; every class has at least minper rows."""
    pool = list(CLASSES[kind])[:max(2, ncls)] if kind == "neg" else list(rng.permutation(np.array(CLASSES[kind], dtype=object)))[:ncls]
    pool = pool[:ncls]
    cl = list(pool) * minper
    cl = (cl + [pool[i] for i in rng.integers(0, len(pool), max(0, n - len(cl)))])
    cl = [cl[i] for i in rng.permutation(len(cl))]
    n = len(cl)
    df = pd.DataFrame({"x%d" % j: rng.uniform(-3, 3, n) * 10.0 ** rng.integers(-1, 2) for j in range(dim)})
    df["c"] = cl if kind == "str" else np.array(cl)
    for j in range(nout):
        v = rng.uniform(0.2, 5, n) * rng.choice([-1, 1], n, p=[0.3, 0.7])
        v[rng.random(n) < zeros] = 0.0
        df["y%d" % j] = v
    return df


def eq(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=1e-10, equal_nan=True))


# ------------------------------------------------------------------ tables
def apc_ref(X, y, k, undef):
    """Average fractional change with respect to the k nearest neighbours (brute force)."""
    out = []
    for i in range(len(X)):
        d = np.sqrt(((X - X[i]) ** 2).sum(1))
        d[i] = -1.0
        nn = np.argsort(d, kind="stable")[1:k + 1]
        out.append((undef if undef is not None else np.nan) if y[i] == 0 else abs(np.mean([y[i] - y[m] for m in nn])) / y[i])
    return np.array(out)


table_st = st.fixed_dictionaries(dict(
    seed=seeds(), n=st.integers(4, 24), dim=st.integers(1, 3), kind=st.sampled_from(sorted(CLASSES)), ncls=st.integers(1, 4), nout=st.integers(0, 2), zeros=st.sampled_from([0.0, 0.0, 0.2, 1.0]),
    files=st.integers(0, 3), omit=st.booleans(), omitcol=st.booleans(), subset=st.booleans(), neigh=st.sampled_from([None, [1], [2, 3], [3, 1], [9, 2], [1, 30, 2]]),
    undef=st.sampled_from([None, None, -1.0, 99.0]), extra=st.booleans(), text=st.booleans()))


@sub(PID, "table", table_st, quick=260, thorough=4000)
def p_table(c):
    rng = np.random.default_rng(c["seed"])
    df = table(rng, c["n"], c["dim"], c["kind"], c["ncls"], c["nout"], c["zeros"])
    if c["text"]:
        df["t"] = ["s%d" % (i % 3) for i in range(len(df))]
    if c["extra"]:
        df["other"] = rng.uniform(0, 1, len(df))
    df["rid"] = np.arange(len(df)) + 1000.25
    if c["omit"]:
        bad = rng.random(len(df)) < 0.2
        col = "other" if c["extra"] else "x0"
        df.loc[bad, col] = -777.0
    inp = ["x%d" % j for j in range(c["dim"])]
    out = ["c"] + ["y%d" % j for j in range(c["nout"])] + (["t"] if c["text"] else []) + ["rid"]
    out = [out[i] for i in rng.permutation(len(out))]
    kw = dict(omit_vals=[-777.0] if c["omit"] else None, omit_cols=["other"] if c["omitcol"] and c["extra"] else None, n_neighbors=c["neigh"], undefined_p_change_val=c["undef"])
    want = df[(df.drop(columns=[k for k in ("c", "t") if k in df]) != -777.0).all(axis=1)] if c["omit"] else df
    if c["subset"]:
        sel = sorted(rng.choice(len(want), max(1, len(want) * 2 // 3), replace=False)) if len(want) else []
        kw["subset_interval"] = np.array(sel)
        want = want.iloc[sel]
    if len(want) < 2:
        return
    with quiet():
        if c["files"]:
            with scratch() as d:
                parts, paths = np.array_split(np.arange(len(df)), c["files"]), []
                for i, p in enumerate(parts):
                    q = df.iloc[p]
                    q = q[[q.columns[j] for j in rng.permutation(len(q.columns))]]
                    paths.append(os.path.join(d, "f%d.csv" % i))
                    q.to_csv(paths[-1], index=False)
                td = TableData(paths, inp, out, "c", **kw)
        else:
            before = df.copy()
            td = TableData(None, inp, out, "c", my_DataFrame=df, **kw)
            check(before.equals(df), "the given data frame is changed")
        X, Y = td.get_data("input", return_df=True), td.get_data("output", return_df=True)
        full = td.get_data("full", return_df=True)
    w = want.reset_index(drop=True)
    check(list(X.columns) == inp and list(Y.columns) == out, "columns", got=(list(X.columns), list(Y.columns)))
    check(eq(X.values, w[inp].values), "input rows differ", got=X.values[:4], want=w[inp].values[:4])
    check(eq(Y["rid"].values, w["rid"].values) and eq(full["rid"].values, w["rid"].values), "rows differ from the table's")
    check("other" not in full.columns if c["omitcol"] else True, "omitted column kept")
    check(eq(td._min_input_vals, w[inp].min().values) and eq(td._max_input_vals, w[inp].max().values), "ranges of the inputs", got=(td._min_input_vals, td._max_input_vals))
    keys = sorted(set(w["c"]))
    col, uniq, ids, mapping, binary = td.get_class_data("full")
    check(list(uniq) == keys and td.num_classes == len(keys), "classes", got=list(uniq), want=keys)
    check(list(col) == list(w["c"]), "class column")
    check([int(i) for i in ids] == [keys.index(k) for k in w["c"]], "ids of the classes", got=list(ids), want=[keys.index(k) for k in w["c"]], keys=keys)
    check(np.asarray(binary).shape == (len(keys), len(w)) and all([int(v) for v in binary[i]] == [int(k == keys[i]) for k in w["c"]] for i in range(len(keys))), "one-hot classes")
    rin, raw, rout = td.get_regr_data("full")
    for k in keys:
        sel = (w["c"] == k).values
        check(eq(rin[k].values, w.loc[sel, inp].values) and eq(raw[k]["rid"].values, w.loc[sel, "rid"].values), "rows of a class", cls=k)
        got = rout[k]
        ys = [o for o in out if o not in ("c", "t")]
        check([q for q in got.columns if not q.startswith("APC")] == ys, "regression columns", got=list(got.columns), want=ys)
        for y in ys:
            check(eq(got[y].values, w.loc[sel, y].values), "outputs of a class", cls=k, col=y)
        Xk = w.loc[sel, inp].values
        wantapc = {}
        for nn in c["neigh"] or []:
            if nn + 1 > len(Xk):
                continue
            for y in ys:
                v = w.loc[sel, y].values
                if (v == 0).all():
                    continue
                wantapc["APC%d_%s" % (nn, y)] = apc_ref(Xk, v, nn, c["undef"])
        check(sorted(q for q in got.columns if q.startswith("APC")) == sorted(wantapc), "average changes which are given", got=list(got.columns), want=sorted(wantapc), n=len(Xk), neigh=c["neigh"])
        for q, v in wantapc.items():
            check(eq(got[q].values, v, 1e-6), "average change of %s" % q, cls=k, got=got[q].values, want=v)
    nontrivial(len(w) >= 4 and len(keys) > 1)
    label("kind:" + c["kind"], bool(c["neigh"]) and "neighbours", c["files"] and "files")


# ------------------------------------------------------------------ classifiers
cls_st = st.fixed_dictionaries(dict(seed=seeds(), n=st.integers(8, 40), dim=st.integers(2, 3), kind=st.sampled_from(sorted(CLASSES)), ncls=st.integers(2, 4), which=st.integers(0, 4), fail=st.booleans()))


def td_of(df, dim, nout, **kw):
    with quiet():
        return TableData(None, ["x%d" % j for j in range(dim)], ["c"] + ["y%d" % j for j in range(nout)], "c", my_DataFrame=df, **kw)


def normed(P):
    return P / P.sum(axis=1)[:, None]


@sub(PID, "classify", cls_st, quick=170, thorough=2500)
def p_classify(c):
    rng = np.random.default_rng(c["seed"])
    df = table(rng, c["n"], c["dim"], c["kind"], c["ncls"], 1, minper=2)
    td = td_of(df, c["dim"], 1)
    X = df[["x%d" % j for j in range(c["dim"])]].values
    keys = sorted(set(df["c"]))
    onehot = np.array([[float(k == q) for q in keys] for k in df["c"]])
    lin, rbf = LIN[c["which"] % len(LIN)], RBF[c["which"] % len(RBF)]
    lo, hi = X.min(0), X.max(0)
    T = np.vstack([X, rng.uniform(lo - 0.2 * (hi - lo), hi + 0.2 * (hi - lo), (30, c["dim"]))])
    with quiet():
        cl = Classifier(td)
        cl.train_everything([lin, rbf])

        def state():
            return [cl.return_probs(nm, T) + cl.get_class_predictions(nm, T, return_ids=False) + cl.get_class_predictions(nm, T) for nm in (lin, rbf)]
        first = state()
        Pl = LinearNDInterpolator(X, onehot)(T)
        Pr = np.array([Rbf(*X.T, onehot[:, i])(*T.T) for i in range(len(keys))]).T
        Pr = np.clip(Pr, 0, 1)
    ok = ~np.isnan(Pl[:, 0])
    for nm, s, want, inside in ((lin, first[0], Pl, ok), (rbf, first[1], Pr, np.ones(len(T), bool))):
        probs, where, pred, mx, wh2, ids, mx2, wh3 = s
        idx = np.where(inside)[0]
        check(list(where) == list(idx) == list(wh2) == list(wh3), "points which are classified", name=nm, got=list(where), want=list(idx))
        tot = want[idx].sum(axis=1)
        fine = tot > 1e-9
        check(eq(np.asarray(probs)[fine], normed(want[idx][fine]), 1e-6), "probabilities differ", name=nm)
        check(bool(np.all(np.asarray(probs)[fine] >= -1e-9)) and eq(np.asarray(probs)[fine].sum(axis=1), np.ones(fine.sum())), "probabilities are not normalised", name=nm)
        srt = np.sort(want[idx], axis=1)
        clear = fine & (srt[:, -1] - srt[:, -2] > 1e-6)
        best = want[idx].argmax(axis=1)
        check(all(pred[i] == keys[best[i]] and ids[i] == best[i] for i in np.where(clear)[0]), "predicted classes", name=nm, got=list(pred)[:8], want=[keys[b] for b in best[:8]], keys=keys)
        check(all(abs(mx[i] - np.asarray(probs)[i].max()) < 1e-12 and mx[i] == mx2[i] for i in np.where(fine)[0]), "probability of the predicted class", name=nm)
        check(all(pred[list(idx).index(i)] == df["c"].iloc[i] for i in range(len(X)) if i in idx), "training points are not classified as given", name=nm)
    one_pt = T[len(X) // 2]
    with quiet():
        a = cl.return_probs(rbf, list(one_pt))[0]
        check(eq(a, np.asarray(first[1][0])[[len(X) // 2]], 1e-7), "a single point gets other probabilities")
        # cross validation keeps the trained classifiers; also if it fails
        np.random.seed(c["seed"] % 2**32)
        alpha = rng.uniform(0.6, 0.9)
        tr, ti, to = cl.get_cross_val_data(alpha)
        check(len(tr) == int(len(X) * alpha) == len(set(tr)) and eq(ti, np.delete(X, tr, axis=0)) and [keys[int(i)] for i in to] == [df["c"].iloc[i] for i in range(len(X)) if i not in set(tr)], "training and test points")
        try:
            pc, tt = cl.cross_validate([lin, rbf], alpha)
            check(len(pc) == len(tt) == 2 and all(np.isnan(p) or -1e-9 <= p <= 100 + 1e-9 for p in pc), "percentages", pc=pc)
            np.random.seed(c["seed"] % 2**32 ^ 5)
            st_ = np.random.get_state()
            tr, ti, to = cl.get_cross_val_data(alpha)
            np.random.set_state(st_)
            pc, _ = cl.cross_validate([rbf], alpha)
            P = np.clip(np.array([Rbf(*X[tr].T, onehot[tr, i])(*ti.T) for i in range(len(keys))]).T, 0, 1)
            s2 = np.sort(P, axis=1)
            if np.all(s2[:, -1] - s2[:, -2] > 1e-6):
                check(abs(pc[0] - 100 * np.mean(P.argmax(1) == to)) < 1e-6, "fraction of correct predictions", got=pc, want=100 * np.mean(P.argmax(1) == to))
                label("cv-checked")
            np.random.set_state(st_)
            pc, _ = cl.cross_validate([lin], alpha)
            P = LinearNDInterpolator(X[tr], onehot[tr])(ti)
            inn = ~np.isnan(P[:, 0])
            s2 = np.sort(P[inn], axis=1)
            if inn.any() and np.all(s2[:, -1] - s2[:, -2] > 1e-6):
                check(abs(pc[0] - 100 * np.mean(P[inn].argmax(1) == to[inn])) < 1e-6, "fraction of correct predictions (linear)", got=pc, want=100 * np.mean(P[inn].argmax(1) == to[inn]))
                label(0 < inn.sum() < len(inn) and "cv-linear-checked")
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            label("cv-refused:" + type(e).__name__)
        if c["fail"]:
            try:
                cl.cross_validate([rbf, lin], 1.0 / len(X) + 1e-9)
            except Exception as e:
                label("cv-failed:" + type(e).__name__)
        again = state()
    for a, b in zip(first, again):
        check(eq(a[0], b[0]) and list(a[2]) == list(b[2]), "predictions are changed by a cross validation")
    nontrivial(len(keys) > 1 and ok.sum() > len(X))


@sub(PID, "classify-gp", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(1, 2), kind=st.sampled_from(sorted(CLASSES)))), quick=8, thorough=60)
def p_gp(c):
    rng = np.random.default_rng(c["seed"])
    df = table(rng, 16, c["dim"], c["kind"], 2, 1, minper=3)
    keys = sorted(set(df["c"]))
    df["x0"] = np.where(df["c"] == keys[0], -2.0, 2.0) + rng.uniform(-0.5, 0.5, len(df))
    td = td_of(df, c["dim"], 1)
    X = df[["x%d" % j for j in range(c["dim"])]].values
    with quiet():
        cl = Classifier(td)
        cl.train("gp", n_restarts=0)
        probs, where = cl.return_probs("gp", X)
        pred, mx, _ = cl.get_class_predictions("GPC", X, return_ids=False)
    check(list(where) == list(range(len(X))) and eq(np.asarray(probs).sum(1), np.ones(len(X))), "probabilities are not normalised")
    check(list(pred) == list(df["c"]), "separated classes are not recognised", got=list(pred), want=list(df["c"]))
    nontrivial()


# ------------------------------------------------------------------ regressors
reg_st = st.fixed_dictionaries(dict(seed=seeds(), n=st.integers(14, 40), dim=st.integers(2, 3), kind=st.sampled_from(sorted(CLASSES)), ncls=st.integers(1, 3), nout=st.integers(1, 2), zeros=st.sampled_from([0.0, 0.2]),
                                    neigh=st.sampled_from([None, [2], [3, 2]]), undef=st.sampled_from([None, 99.0]), small=st.booleans(), noreg=st.booleans(), which=st.integers(0, 4)))


@sub(PID, "regress", reg_st, quick=130, thorough=2000)
def p_regress(c):
    rng = np.random.default_rng(c["seed"])
    df = table(rng, c["n"], c["dim"], c["kind"], c["ncls"], c["nout"], c["zeros"], minper=8)
    keys = sorted(set(df["c"]))
    tiny = None
    if c["kind"] == "str" and c["small"]:
        k2 = pd.DataFrame({q: (["tiny"] * 2 if q == "c" else rng.uniform(0.5, 2, 2)) for q in df.columns})
        df, tiny = pd.concat([df, k2], ignore_index=True), "tiny"
    if c["kind"] == "str" and c["noreg"]:
        k3 = pd.DataFrame({q: (["none"] * 4 if q == "c" else rng.uniform(0.5, 2, 4) if q[0] == "x" else [np.nan] * 4) for q in df.columns})
        df = pd.concat([df, k3], ignore_index=True)
    inp = ["x%d" % j for j in range(c["dim"])]
    lin, rbf = LIN[c["which"] % len(LIN)], RBF[c["which"] % len(RBF)]
    with quiet():
        td = td_of(df, c["dim"], c["nout"], n_neighbors=c["neigh"], undefined_p_change_val=c["undef"])
        rg = Regressor(td)
        rg.train_everything([lin, rbf])
    dfs = td.get_regr_data("output")
    apc = [np.nanmax(np.abs(dfs[k][[q for q in dfs[k].columns if "APC" in q]].values)) for k in dfs if isinstance(dfs[k], pd.DataFrame) and any("APC" in q for q in dfs[k].columns)]
    check((rg.abs_max_APC is None) == (not apc) and (not apc or abs(rg.abs_max_APC - max(apc)) < 1e-12 * max(1, max(apc))), "largest average change", got=rg.abs_max_APC, want=apc)
    if tiny:
        with quiet():
            for nm in (lin, rbf):
                p = rg.get_predictions([nm], [tiny], ["y0"], df.loc[df["c"] == tiny, inp].values)
                p = list(list(p.values())[0].values())[0]["y0"]
                check(p is None or len(p) == 2, "predictions of a class with two points", got=p)
        label("tiny class")
    for k in keys:
        sel = (df["c"] == k).values
        X = df.loc[sel, inp].values
        T = np.vstack([X, rng.uniform(X.min(0), X.max(0), (20, c["dim"]))])
        cols = list(dfs[k].columns)
        with quiet():
            got = rg.get_predictions([lin, rbf], [k], cols, T)
        check(list(got) == ["LinearNDInterpolator", "RBF"], "regressors", got=list(got))
        for col in cols:
            y = dfs[k][col].values.astype(float)
            use = ~np.isnan(y)
            if c["undef"] is not None and use.all():
                use = y != c["undef"]
            if use.sum() < c["dim"] + 2:
                continue
            with quiet():
                wl, wr = LinearNDInterpolator(X[use], y[use])(T), Rbf(*X[use].T, y[use])(*T.T)
            scale = np.abs(y[use]).max()
            gl, gr = got["LinearNDInterpolator"][k][col], got["RBF"][k][col]
            check(np.array_equal(np.isnan(gl), np.isnan(wl)) and np.allclose(gl, wl, rtol=1e-6, atol=1e-7 * scale, equal_nan=True), "linear regression", cls=k, col=col)
            check(np.allclose(gr, wr, rtol=1e-5, atol=1e-5 * scale), "radial-basis regression", cls=k, col=col)
            check(np.allclose(gr[:len(X)][use], y[use], rtol=1e-4, atol=1e-4 * scale), "training values are not reproduced", cls=k, col=col)
        # the largest average change at a point
        pt = X[0]
        with quiet():
            mx, which = rg.get_max_APC_val(rbf, k, pt)
        ac = [q for q in cols if "APC" in q]
        if ac:
            vals = [float(got["RBF"][k][q][0]) for q in ac]
            check(abs(mx - max(vals)) < 1e-5 * max(1, abs(max(vals))) and abs(vals[ac.index(which)] - max(vals)) < 1e-5 * max(1, abs(max(vals))), "largest average change at a point", got=(mx, which), want=dict(zip(ac, vals)))
        else:
            check(mx == 0 and which is None, "average change of a class without any")
        # cross validation
        y = dfs[k]["y0"].values.astype(float)
        np.random.seed(c["seed"] % 2**32)
        alpha = 0.7
        st_ = np.random.get_state()
        ti, to, tr = rg.get_cross_val_data(k, "y0", alpha)
        check(len(tr) == int(len(X) * alpha) == len(set(tr)) and eq(ti, np.delete(X, tr, axis=0)) and eq(to, np.delete(y, tr)), "training and test points", cls=k)
        np.random.set_state(st_)
        with quiet():
            before = rg.get_predictions([rbf], [k], ["y0"], T)["RBF"][k]["y0"]
            pd_, di = rg.cross_validate(rbf, k, "y0", alpha)
            after = rg.get_predictions([rbf], [k], ["y0"], T)["RBF"][k]["y0"]
            want = Rbf(*X[tr].T, y[tr])(*ti.T) if c["undef"] not in y[tr] else None
        check(eq(before, after, 1e-6), "predictions are changed by a cross validation")
        if want is not None:
            sc = np.abs(y).max()
            check(np.allclose(di, want - to, rtol=1e-5, atol=1e-5 * sc), "differences of the cross validation", cls=k)
            nz = to != 0
            check(np.allclose(pd_, (di[nz] / to[nz] * 100), rtol=1e-9), "percentages of the cross validation", cls=k)
    nontrivial(len(keys) > 1 or bool(c["neigh"]))
    label(c["kind"] == "str" and c["noreg"] and "class without outputs", tiny and "tiny")


# ------------------------------------------------------------------ target distributions and chains
def sampler_for(lo, hi):
    s = Sampler()
    s._max_vals_, s._min_vals_ = list(hi), list(lo)
    return s


@sub(PID, "target", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(2, 3), kind=st.sampled_from(sorted(CLASSES)), ncls=st.integers(2, 4), beta=st.sampled_from([1.0, 3.5, 0.5]), tau=u(0, 1), a1=u(0.1, 3))),
     quick=70, thorough=1000)
def p_target(c):
    rng = np.random.default_rng(c["seed"])
    df = table(rng, 30, c["dim"], c["kind"], c["ncls"], 1, minper=6)
    td = td_of(df, c["dim"], 1, n_neighbors=[2, 3])
    X = df[["x%d" % j for j in range(c["dim"])]].values
    keys = sorted(set(df["c"]))
    with quiet():
        cl, rg = Classifier(td), Regressor(td)
        cl.train_everything(["rbf", "linear"])
        rg.train_everything(["rbf"])
        s = Sampler(classifier=cl, regressor=rg)
        pts = rng.uniform(X.min(0), X.max(0), (8, c["dim"]))
        if all(len(set(df.loc[df["c"] == k, "y0"])) > 1 for k in keys):
            for nm in ("rbf", "linear"):
                for p in pts:
                    probs, ok = cl.return_probs(nm, p)
                    got = s.TD_classification(nm, p, TD_BETA=c["beta"])
                    K = len(keys)
                    want = ((1 - np.max(probs)) / (1 - 1 / K)) ** c["beta"] if len(ok) else 1e-16
                    check(np.size(got) == 1 and abs(float(np.squeeze(got)) - want) <= 1e-6 * max(1, want) + 1e-12, "classification target", name=nm, got=got, want=want, outside=not len(ok))
                    if not len(ok):
                        label("outside the hull")
                    got2 = s.TD_classification_regression([nm, "rbf"], p, TD_BETA=c["beta"], TD_TAU=c["tau"], TD_A1=c["a1"])
                    if not len(ok):
                        check(0 <= float(np.squeeze(got2)) <= 1e-10, "target outside the data", got=got2)
                        continue
                    k = keys[int(np.argmax(probs))]
                    apc, _ = rg.get_max_APC_val("rbf", k, p)
                    lg = lambda v: math.log10(c["a1"] * abs(v) + 1)
                    want2 = (c["tau"] * (1 - np.max(probs)) / (1 - 1 / K) + (1 - c["tau"]) * lg(apc) / lg(rg.abs_max_APC)) ** c["beta"]
                    check(abs(float(np.squeeze(got2)) - want2) <= 1e-6 * max(1, want2) + 1e-12, "classification and regression target", name=nm, got=got2, want=want2, cls=k)
    nontrivial()


@sub(PID, "mcmc", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(1, 3), T=st.sampled_from([1.0, 1.0, 2.0, 7.0, 40.0]), n=st.integers(1, 60), width=u(0.1, 1.5), step=u(0.1, 1.0), limit=st.sampled_from([1e4, 1e4, 5]))),
     quick=150, thorough=2000)
def p_mcmc(c):
    rng = np.random.default_rng(c["seed"])
    dim = c["dim"]
    lo, hi = rng.uniform(-2, -0.5, dim), rng.uniform(0.5, 2, dim)
    s = sampler_for(lo, hi)
    mu = rng.uniform(lo, hi)

    def pi(name, x, **kw):
        check(name == "nm" and kw.get("TD_BETA") == 2.0, "arguments of the target distribution", name=name, kw=kw)
        return math.exp(-0.5 * float(np.sum((np.asarray(x) - mu) ** 2)) / c["width"] ** 2)
    x0 = rng.uniform(lo, hi)
    alpha = list(c["step"] * (hi - lo))
    np.random.seed(c["seed"] % 2**32)
    with quiet():
        h, a, r = s.run_MCMC(c["n"], alpha, [x0], pi, "nm", T=c["T"], upper_limit_reject=c["limit"], TD_BETA=2.0)
    check(len(h) == 1 + a and (a + r == c["n"] or r == c["limit"] and a + r < c["n"]) and r <= c["limit"], "number of steps", n=c["n"], acc=a, rej=r, len=len(h))
    check(eq(h[0], x0) and bool(np.all((h >= lo) & (h <= hi))), "a step leaves the ranges of the data")
    check(len(np.unique(h, axis=0)) == len(h), "accepted steps are repeated")
    # acceptance from a point: expectation by quadrature over the proposal (one dimension) or Monte Carlo
    m = 400
    Z = rng.normal(0, 1, (20000, dim)) * np.array(alpha) + x0
    inside = ((Z >= lo) & (Z <= hi)).all(1)
    lp = -0.5 * ((Z - mu) ** 2).sum(1) / c["width"] ** 2 + 0.5 * ((x0 - mu) ** 2).sum() / c["width"] ** 2
    p = float(np.mean(np.where(inside, np.exp(np.minimum(0, lp / c["T"])), 0)))
    acc = 0
    with quiet():
        for _ in range(m):
            acc += s.run_MCMC(1, alpha, [x0], pi, "nm", T=c["T"], TD_BETA=2.0)[1]
    sd = math.sqrt(max(p * (1 - p), 1e-4) * (1 / m + 1 / 20000))
    check(abs(acc / m - p) < 6.5 * sd + 1e-3, "acceptance of steps", got=acc / m, want=p, sd=sd)
    nontrivial(0.03 < p < 0.97)


@sub(PID, "ptmcmc", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(1, 2), Tmax=st.sampled_from([2.0, 10.0, 40.0]), spacing=st.sampled_from([1.2, 1.5, 2.0]), loops=st.integers(1, 8), draws=st.integers(1, 4), flat=st.booleans())),
     quick=120, thorough=1500)
def p_pt(c):
    """Swaps between temperatures with scripted chains; then a real run."""
    rng = np.random.default_rng(c["seed"])
    dim = c["dim"]
    lo, hi = np.full(dim, -1.0), np.full(dim, 1.0)

    def pi(name, x, **kw):
        return 1.0 if c["flat"] else 10.0 ** (-60 * round(float(np.asarray(x)[0]), 6))
    seen = []

    class Scripted(Sampler):
        def run_MCMC(self, *args, **kw):
            start = kw.get("step_history", args[2] if len(args) > 2 else None)
            start = np.atleast_2d(np.asarray(start))[-1]
            end = rng.uniform(0, 1, dim)
            seen.append((start, end, kw.get("T")))
            return np.array([start, end]), 1, 0
    s = Scripted()
    s._max_vals_, s._min_vals_ = list(hi), list(lo)
    init = rng.uniform(-1, 1, dim)
    with quiet():
        hist, Ts = s.run_PTMCMC(c["Tmax"], c["loops"] * c["draws"], pi, "nm", init_pos=list(init), N_draws_per_swap=c["draws"], c_spacing=c["spacing"], alpha=[0.1] * dim)
    Ts = [float(t) for t in Ts]
    want = [c["Tmax"]]
    while want[-1] > 1.3:
        want.append(want[-1] ** (1 / c["spacing"]))
    want.append(1.0)
    check(eq(Ts, want), "temperatures", got=Ts, want=want)
    n = len(Ts)
    check(len(seen) == n * c["loops"] and len(hist) == n and all(eq(hist[i], np.concatenate([[a, b] for a, b, _ in seen[i::n]])) for i in range(n)), "histories of the chains", n=len(seen))
    check(all(t is None or abs(t - Ts[i % n]) < 1e-12 for i, (_, _, t) in enumerate(seen)), "temperatures of the chains")
    cur = [init] * n
    for l in range(c["loops"]):
        row = seen[l * n:(l + 1) * n]
        check(all(eq(row[i][0], cur[i]) for i in range(n)), "a chain does not go on where it should after the swaps", loop=l, flat=c["flat"], got=[list(r[0]) for r in row], want=[list(q) for q in cur])
        cur = [b for _, b, _ in row]
        for i in range(n - 1):
            d = (round(float(cur[i][0]), 6) - round(float(cur[i + 1][0]), 6)) * (0 if c["flat"] else -60) * (1 / Ts[i + 1] - 1 / Ts[i])  # log10 of the ratio
            if not c["flat"] and -8 < d < 0:
                return label("undecided swap")
            if d >= 0:
                cur[i], cur[i + 1] = cur[i + 1], cur[i]
    nontrivial(c["loops"] > 1)
    real = sampler_for(lo, hi)
    np.random.seed(c["seed"] % 2**32)
    f = lambda name, x, **kw: math.exp(-float(np.sum(np.asarray(x) ** 2)) / 0.1)
    with quiet():
        hist, _ = real.run_PTMCMC(c["Tmax"], 60, f, "nm", init_pos=[0.0] * dim, N_draws_per_swap=3, c_spacing=c["spacing"], alpha=[0.4] * dim)
    check(all(bool(np.all((h >= lo) & (h <= hi))) for h in hist.values()), "a chain leaves the ranges of the data")


# ------------------------------------------------------------------ proposals
prop_st = st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(1, 3), ntrain=st.integers(2, 8), nstep=st.integers(1, 60), kappa=u(0.05, 5), npts=st.integers(1, 20), var=st.sampled_from([None, 0.3, 2.0]), add=st.booleans(), train=st.booleans()))


def prop_sampler(rng, dim, n):
    df = pd.DataFrame({"x%d" % j: rng.uniform(-3, 3, n) for j in range(dim)})
    df["c"] = ["a", "b"] * (n // 2) + ["a"] * (n % 2)
    df["y0"] = rng.uniform(1, 2, n)
    td = td_of(df, dim, 1)
    with quiet():
        return Sampler(classifier=Classifier(td)), df[["x%d" % j for j in range(dim)]].values


@sub(PID, "density", prop_st, quick=150, thorough=2500)
def p_density(c):
    rng = np.random.default_rng(c["seed"])
    s, X = prop_sampler(rng, c["dim"], c["ntrain"])
    steps = rng.uniform(-3, 3, (c["nstep"], c["dim"]))
    rep = rng.random(c["nstep"]) < 0.2
    steps[rep] = X[rng.integers(0, len(X), rep.sum())]
    np.random.seed(c["seed"] % 2**32)
    kw = dict(var_mult=c["var"], add_mvns_together=c["add"], include_training_data=c["train"])
    with quiet():
        acc, rej = s.do_simple_density_logic(steps, c["npts"], c["kappa"], **kw)
    A, R = [tuple(a) for a in acc], [tuple(a) for a in rej]
    reach = {0}  # numbers of accepted points among the first steps
    for m, q in enumerate(map(tuple, steps)):
        reach = {i + 1 for i in reach if i < len(A) and A[i] == q} | {i for i in reach if m - i < len(R) and R[m - i] == q}
    check(len(A) + len(R) == len(steps) and len(A) in reach, "accepted and rejected points are not those of the chain in order", acc=len(A), rej=len(R), n=len(steps))
    if c["train"]:
        check(not any(tuple(x) in set(A) for x in X), "a point of the data is proposed again")
    check(len(set(A)) == len(A), "a point is proposed twice")
    # probability of accepting one step next to the accepted ones
    sig = c["kappa"] * 0.5 * c["npts"] ** (-1.0 / c["dim"]) * (c["var"] or 1)
    step = rng.uniform(-3, 3, c["dim"])
    base = X if c["train"] else None
    if c["train"]:
        f = np.exp(-0.5 * ((step - base) ** 2).sum(1) / sig)
        p = max(0.0, 1 - f.sum()) if c["add"] else float(np.prod(1 - f))
        m = 300
        with quiet():
            k = sum(len(s.do_simple_density_logic(step[None, :], c["npts"], c["kappa"], **kw)[0]) for _ in range(m))
        sd = math.sqrt(max(p * (1 - p), 1e-4) / m)
        check(abs(k / m - p) < 6.5 * sd + 1e-3, "acceptance next to the data", got=k / m, want=p)
        nontrivial(0.03 < p < 0.97)
    else:
        check(len(A) > 0 and A[0] == tuple(steps[0]), "first step is not accepted without any data")
        nontrivial(len(R) > 0)
        label("without training data")


@sub(PID, "normalise", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(1, 4), n=st.integers(1, 20))), quick=120, thorough=1500)
def p_norm(c):
    rng = np.random.default_rng(c["seed"])
    lo = rng.uniform(-5, 5, c["dim"])
    hi = lo + rng.uniform(0.1, 9, c["dim"])
    s = sampler_for(lo, hi)
    X = rng.uniform(lo, hi, (c["n"], c["dim"]))
    Y = s.normalize_step_history(X)
    check(eq(Y, (X - lo) / (hi - lo)) and eq(s.undo_normalize_step_history(Y), X), "normalised steps")
    s.save_chain_step_history("k", X)
    try:
        s.save_chain_step_history("k", Y)
        check(False, "a saved chain is overwritten")
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
    check(s.get_saved_chain_step_history("k") is X, "saved chain")
    s.save_chain_step_history("k", Y, overwrite=True)
    check(s.get_saved_chain_step_history("k") is Y and list(s.get_saved_chain_step_history("k", return_all=True)) == ["k"], "saved chain")
    # distances
    P = np.vstack([X, X[:1] + 1e-6, rng.uniform(lo, hi, (5, c["dim"]))])
    thr = 10.0 ** rng.uniform(-7, 0)
    want = [all(math.dist(p, x) >= thr for x in X) for p in P]
    near = any(abs(math.dist(p, x) - thr) < 1e-9 for p in P for x in X)
    check(near or list(pu.check_dist(X, P, threshold=thr)) == want, "points too close to the data")
    # accuracies
    names = np.array(["a", "b", "c"])
    act, pred = rng.choice(names, 30), rng.choice(names, 30)
    cl = np.unique(act)
    M = pu.get_confusion_matrix(pred, act, cl)
    check(eq(M, [[np.mean(pred[act == a] == b) for b in cl] for a in cl]), "confusion matrix")
    d = rng.exponential(1, c["n"])
    cut = [0.5, 0.683, 0.954, 0.997]
    check(eq(pu.calc_regression_accuracy(d), [np.sort(d)[int(q * len(d))] for q in cut]) and pu.calc_regression_accuracy(None) == [1e9] * 4, "accuracy of a regression")
    nontrivial(c["n"] > 2)


@sub(PID, "proposed", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(1, 3), ntrain=st.integers(2, 6), npts=st.integers(2, 8), kappa=u(0.5, 50), rep=st.integers(1, 3), train=st.booleans(), add=st.booleans())),
     quick=50, thorough=600)
def p_proposed(c):
    rng = np.random.default_rng(c["seed"])
    s, X = prop_sampler(rng, c["dim"], c["ntrain"])
    steps = rng.uniform(-3, 3, (120, c["dim"]))
    kw = dict(include_training_data=c["train"], add_mvns_together=c["add"], n_repeats=c["rep"], max_iters=3000)
    with quiet():
        pts, k = s.get_proposed_points(steps.copy(), c["npts"], c["kappa"], seed=c["seed"] % 2**32, **kw)
        pts2, k2 = s.get_proposed_points(steps.copy(), c["npts"], c["kappa"], seed=c["seed"] % 2**32, **kw)
    seen = []

    class Recording(Sampler):
        def do_simple_density_logic(self, *args, **kw):
            r = Sampler.do_simple_density_logic(self, *args, **kw)
            seen.append(np.array(r[0]))
            return r
    rec = Recording(classifier=s._Classifier_)
    with quiet():
        pts3, _ = rec.get_proposed_points(steps.copy(), c["npts"], c["kappa"], seed=c["seed"] % 2**32, **kw)
    check(eq(pts, pts3), "the same seed gives other points")
    spread = lambda q: np.mean([math.dist(a, b) for i, a in enumerate(q) for b in q[:i]])
    good = [spread(q) for q in seen if len(q) == c["npts"]]
    check(len(good) == c["rep"] and spread(pts) >= max(good) - 1e-9, "the best spread proposal is not chosen", got=spread(pts), want=good)
    S = set(map(tuple, steps))
    check(np.shape(pts) == (c["npts"], c["dim"]) and all(tuple(p) in S for p in pts) and len(set(map(tuple, pts))) == c["npts"], "proposed points", got=np.shape(pts))
    check(k > 0 and eq(pts, pts2) and k == k2, "the same seed gives other points")
    nontrivial()
    label(c["train"] and "with training data" or "without training data")


# ------------------------------------------------------------------ queries
def query_kwargs(rng, dim, cl, random_prop, regr):
    inp = ["input_%d" % (i + 1) for i in range(dim)]
    return dict(TableData_kwargs=dict(table_paths=None, input_cols=inp, output_cols=["class", "output_1"], class_col_name="class", n_neighbors=[2, 3] if regr else None),
                Classifier_kwargs=dict(classifier_names=[cl] if cl == "rbf" else ["rbf", cl]),
                Regressor_kwargs=dict(do_regression=regr, regressor_names=["rbf"]),
                Sampler_kwargs=dict(T_max=10, N_tot=60, target_dist="TD_classification_regression" if regr else "TD_classification", classifier_name=["rbf", "rbf"] if regr else "rbf", N_draws_per_swap=3, c_spacing=1.5,
                                    alpha=[0.5] * dim, TD_BETA=1.0, init_pos=None),
                Proposal_kwargs=dict(kappa=10, n_repeats=1, max_iters=5000, pred_classifier_name=cl, cut_fraction=0.1, do_random_proposal=random_prop))


@sub(PID, "query", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(2, 3), n=st.integers(30, 60), new=st.integers(1, 8), cl=st.sampled_from(["rbf", "rbf", "linear"]), rand=st.booleans(), regr=st.booleans(), small=st.booleans())),
     quick=40, thorough=400)
def p_query(c):
    rng = np.random.default_rng(c["seed"])
    np.random.seed(c["seed"] % 2**32)
    import random
    random.seed(c["seed"])
    with quiet():
        df = pu.get_random_grid_df(c["n"], dim=c["dim"])
    cls, cnt = np.unique(df["class"], return_counts=True)
    bad = list(cls[cnt < 4])
    df = df[~df["class"].isin(bad)].reset_index(drop=True)
    if df["class"].nunique() < 2:
        return
    inp = ["input_%d" % (i + 1) for i in range(c["dim"])]
    if c["small"]:
        extra = df.iloc[[0]].copy()
        extra[inp] = rng.uniform(-0.5, 0.5, (1, c["dim"]))
        j = int(rng.integers(0, c["dim"]))
        extra[inp[j]] = df[inp[j]].min() + 0.02 if rng.random() < 0.5 else df[inp[j]].max() - 0.02
        extra["class"] = "small" if c["dim"] == 2 else 77
        df = pd.concat([df, extra], ignore_index=True)
    kw = query_kwargs(rng, c["dim"], c["cl"], c["rand"], c["regr"] and not c["small"])
    scale, shift = rng.uniform(0.2, 1.5, c["dim"]), rng.uniform(-4, 4, c["dim"])
    df[inp] = df[inp].values * scale + shift
    kw["Sampler_kwargs"]["alpha"] = list(0.5 * scale)
    kw["TableData_kwargs"]["my_DataFrame"] = df
    before, dfb = copy.deepcopy({k: v for k, v in kw.items() if k != "TableData_kwargs"}), df.copy()
    for turn in range(2):
        with quiet():
            pts, pred = pu.get_new_query_points(N_new_points=c["new"], **kw)
        check(np.shape(pts) == (c["new"], c["dim"]), "number of proposed points", got=np.shape(pts), want=c["new"])
        check(bool(np.all((pts >= df[inp].min().values) & (pts <= df[inp].max().values))), "a proposed point is outside the data")
        check(not any((np.abs(df[inp].values - p).max(1) == 0).any() for p in pts), "a point of the data is proposed again")
        with quiet():
            ref = Classifier(td_q(df, inp))
            ref.train_everything([c["cl"]])
            probs, ok = ref.return_probs(c["cl"], pts)
            keys = sorted(set(df["class"]))
        check(len(pred) == c["new"], "number of predicted classes", got=pred, small=c["small"], rand=c["rand"])
        for i, j in enumerate(ok):
            if np.sort(probs[i])[-1] - np.sort(probs[i])[-2] > 1e-6:
                check(pred[j] == keys[int(np.argmax(probs[i]))], "predicted class of a proposed point", i=j, got=list(pred), want=[keys[int(np.argmax(q))] for q in probs], where=list(ok), small=c["small"])
        check(df.equals(dfb) and all(kw[k] == before[k] for k in before), "the settings are changed by a query", got={k: kw[k] for k in before if kw[k] != before[k]})
    nontrivial()
    label(c["small"] and "small class" or c["rand"] and "random proposal" or "density proposal", c["regr"] and not c["small"] and "with regression")


def td_q(df, inp):
    return TableData(None, inp, ["class", "output_1"], "class", my_DataFrame=df)


@sub(PID, "dynamic", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(2, 3), start=st.sampled_from([64, 36]), more=st.integers(3, 8), per=st.sampled_from([2, 3, [2, 1]]), jitter=st.booleans())), quick=8, thorough=60)
def p_dynamic(c):
    np.random.seed(c["seed"] % 2**32)
    rng = np.random.default_rng(c["seed"])
    kw = query_kwargs(rng, c["dim"], "rbf", False, False)
    with quiet():
        start = 64 if c["dim"] == 3 else c["start"]
        dfs, preds = pu.do_dynamic_sampling(N_final_points=start + c["more"], new_points_per_iter=c["per"], N_starting_points=start, jitter=c["jitter"], dim=c["dim"], **kw)
    inp = ["input_%d" % (i + 1) for i in range(c["dim"])]
    check(len(dfs[0]) == start and len(dfs[-1]) == start + c["more"] and len(preds) == len(dfs) and preds[0] is None, "number of points", got=[len(d) for d in dfs])
    f = get_output_2D if c["dim"] == 2 else get_output_3D
    for a, b, p in zip(dfs, dfs[1:], preds[1:]):
        check(b.iloc[:len(a)].reset_index(drop=True).equals(a.reset_index(drop=True)), "earlier points are changed")
        check(list(b.index) == list(range(len(b))) and len(b) > len(a) and len(p) >= len(b) - len(a), "new points")
        new = b.iloc[len(a):]
        with quiet():
            want = f(*new[inp].values.T)
        check(list(want["class"]) == list(new["class"]) and eq(want["output_1"], new["output_1"]), "new points are not labelled with the true values")
    nontrivial()


# ------------------------------------------------------------------ settings
vals = st.one_of(st.none(), st.booleans(), st.integers(-99, 99), u(-5, 5), st.text("abcXYZ_ ", max_size=6), st.lists(st.integers(0, 9), max_size=3), st.fixed_dictionaries({"sep": st.just(",")}))


@sub(PID, "inifile", st.fixed_dictionaries(dict(d=st.dictionaries(st.sampled_from(["TableData", "Classifier", "Regressor", "Sampler", "Proposal", "posydon_dynamic_sampling"]),
                                                                  st.dictionaries(st.sampled_from(["T_max", "N_tot", "TD_BETA", "input_cols", "kappa", "verbose", "do_Regression"]), vals, max_size=5), max_size=4))), quick=120, thorough=1000)
def p_ini(c):
    with scratch() as d:
        p = os.path.join(d, "a.ini")
        with open(p, "w") as f:
            for s, kv in c["d"].items():
                f.write("[%s]\n" % s + "".join("%s : %r\n; comment\n" % q for q in kv.items()))
        with quiet():
            got = pu.parse_inifile(p)
        check(got == {s + "_kwargs": kv for s, kv in c["d"].items()}, "settings of the inifile", got=got, want=c["d"])
        try:
            pu.parse_inifile(os.path.join(d, "none.ini"))
            check(False, "missing inifile accepted")
        except ValueError:
            pass
    nontrivial(any(c["d"].values()))


@sub(PID, "coldest", st.fixed_dictionaries(dict(seed=seeds(), dim=st.integers(2, 3), new=st.integers(2, 5), cut=st.sampled_from([0.0, 0.1, 0.5]), rand=st.booleans(), chains=st.integers(2, 4))), quick=60, thorough=600)
def p_coldest(c):
    """New points come from the coldest chain after the burn-in."""
    rng = np.random.default_rng(c["seed"])
    np.random.seed(c["seed"] % 2**32)
    import random
    random.seed(c["seed"])
    with quiet():
        df = pu.get_random_grid_df(40, dim=c["dim"])
    cnt = df["class"].value_counts()
    df = df[df["class"].isin(list(cnt[cnt > 1].index))].reset_index(drop=True)
    if df["class"].nunique() < 2:
        return
    kw = query_kwargs(rng, c["dim"], "rbf", c["rand"], False)
    kw["TableData_kwargs"]["my_DataFrame"] = df
    kw["Proposal_kwargs"]["cut_fraction"] = c["cut"]
    Ts = np.array(sorted(rng.uniform(1.5, 30, c["chains"] - 1))[::-1] + [1.0])
    hist = {i: rng.uniform(-0.9, 0.9, (int(rng.integers(80, 120)), c["dim"])) for i in range(c["chains"])}
    asked = []
    orig = Sampler.run_PTMCMC
    Sampler.run_PTMCMC = lambda self, *a, **k: (asked.append((a, k)), (hist, Ts))[1]
    try:
        with quiet():
            pts, pred = pu.get_new_query_points(N_new_points=c["new"], **kw)
    finally:
        Sampler.run_PTMCMC = orig
    cold = hist[c["chains"] - 1]
    ok = set(map(tuple, cold[int(len(cold) * c["cut"]):]))
    check(len(pts) == c["new"] and all(tuple(p) in ok for p in pts), "a new point is not one of the coldest chain after the burn-in", cut=c["cut"])
    check(len(asked) == 1, "chains are sampled once")
    k = dict(asked[0][1])
    check(getattr(k.get("target_dist"), "__name__", "") == "TD_classification" and all(k.get(q) == v for q, v in kw["Sampler_kwargs"].items() if q != "target_dist"), "settings of the chains", got=k)
    nontrivial()
    label(c["rand"] and "random" or "density")
