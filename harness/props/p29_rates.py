"""P29 cosmic rates: redshift bins, event redshifts, weights, rate densities, observables."""
import math
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import sub, check as core_check, check_close, close, nontrivial, label, scratch, fixed, one, u, lu
import popfile as pf
from props.p30_sfh import CS, csfrd_ref, cdf_ref, fraction_ref

PID = "P29"
ZSUN = 0.0142
C_MPC_YR = 299792.458 * 1e3 / 3.0856775814913674e22 * 3.15576e7     # speed of light [Mpc/yr]


def check(ok, what, **kw):
    core_check(ok, what if ok or not kw else "%s: %s" % (what, kw))


def cosmo():
    from astropy.cosmology import Planck15
    return Planck15


_T = []


def table():
    """Spline tables of age [Gyr] and comoving distance [Mpc] over ln(1+z) from the cosmology itself."""
    if not _T:
        from scipy.interpolate import CubicSpline
        x = np.linspace(0, math.log(140.0), 1500)
        z = np.expm1(x)
        _T.append(CubicSpline(x, np.log(cosmo().age(z).value)))
        _T.append(CubicSpline(x, cosmo().comoving_distance(z).value))
    return _T


def age(z):
    return np.exp(table()[0](np.log1p(np.asarray(z, float))))


def dist(z):
    return table()[1](np.log1p(np.asarray(z, float)))


def speed_up():
    """Memoise the (slow, pure) table of redshift over cosmic time and the redshift bins."""
    import posydon.popsyn.rate_calculation as R
    import posydon.popsyn.synthetic_population as P
    for name in ("redshift_from_cosmic_time_interpolator", "get_redshift_bin_edges", "get_redshift_bin_centers"):
        f = getattr(R, name, None)
        if f is None or getattr(f, "_memo", None) is not None:
            continue

        def g(*a, _f=f, _memo={}):
            if a not in _memo:
                _memo[a] = _f(*a)
            r = _memo[a]
            return r.copy() if isinstance(r, np.ndarray) else r
        g.__defaults__ = (f, {})
        g._memo = True
        g.raw = f
        setattr(R, name, g)
        if hasattr(P, name):
            setattr(P, name, g)


def raw(name):
    import posydon.popsyn.rate_calculation as R
    f = getattr(R, name)
    return getattr(f, "raw", f)


bin_case = fixed(dt=st.one_of(u(120, 3000), one([250.0, 400.0, 100.0, 500.0, 1000.0, 70.0, 2000, 300])))


@sub(PID, "bins", bin_case, quick=20, thorough=300)
def bins(c):
    """Redshift bins: equal steps in cosmic time from today, last bin to z=100, centres inside."""
    e, z = raw("get_redshift_bin_edges")(c["dt"]), raw("get_redshift_bin_centers")(c["dt"])
    e, z = np.asarray(e, dtype=float), np.asarray(z, dtype=float)
    K = cosmo()
    t, tc = K.age(e).value * 1e3, K.age(z).value * 1e3
    nontrivial((t[0] % c["dt"]) < c["dt"] / 2, "short last bin")
    check(e[0] == 0 and e[-1] == 100 and bool(np.all(np.diff(e) > 0)), "edges ordered from 0 to 100", got=list(e[-3:]))
    check(len(z) == len(e) - 1, "one centre per bin")
    check(np.allclose(-np.diff(t)[:-1], c["dt"], rtol=1e-4, atol=1e-3), "equal time steps", got=list(-np.diff(t)[-4:]))
    check(-np.diff(t)[-1] <= c["dt"] * (1 + 1e-6), "last bin is not longer than the others")
    check(bool(np.all((z > e[:-1]) & (z < e[1:]))), "centres inside their bins", got=list(z[-3:]), edges=list(e[-4:]))
    check(np.allclose(tc[:-1], (t[:-2] + t[1:-1]) / 2, rtol=1e-6, atol=1e-3), "centres at the middle of the time step")


vol_case = fixed(a=u(0, 15), b=u(0, 15), c=u(0, 15))


@sub(PID, "volume", vol_case, quick=40, thorough=800)
def volume(c):
    """Comoving volume of shells per source-frame time; distances and times of the cosmology."""
    import posydon.popsyn.rate_calculation as R
    K = cosmo()
    x, y, z = sorted([c["a"], c["b"], c["c"]])
    nontrivial(z - x > 0.1, "wide shell")
    v = [R.get_shell_comoving_volume(p, q) for p, q in ((x, y), (y, z), (x, z))]
    check(close(v[0] + v[1], v[2], rtol=1e-6, atol=1e-9), "volumes add up", got=v)
    g = np.linspace(x, z, 201)
    f = 4 * np.pi * K.differential_comoving_volume(g).value * 1e-9 / (1 + g)
    ref = float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(g)))
    check(close(v[2], ref, rtol=1e-2, atol=1e-6), "volume over time dilation", got=v[2], expected=ref)
    check_close(float(R.get_comoving_distance_from_redshift(y)), float(K.comoving_distance(y).value), "comoving distance", rtol=1e-9)
    check_close(float(R.get_cosmic_time_from_redshift(y)), float(K.age(y).value), "cosmic time", rtol=1e-9)
    speed_up()
    t = float(K.age(y).value)
    if y > 1e-4:
        got = float(R.get_redshift_from_cosmic_time(t))
        check(close(got, y, rtol=1e-5, atol=1e-7), "redshift of a cosmic time", got=got, expected=y)


METS = [[1.0], [0.1], [0.1, 1.0], [1.0, 0.0001, 0.1], [2.0, 0.45, 1.0, 0.2]]
rate_case = fixed(lay=pf.layout(), mets=one(METS), dt=one([400.0, 500.0, 700.0, 1000.0, 2000.0, 3000.0]),
                  model=one(sorted(CS)), sigma=one(["Bavera+20", 0.3, 0.8]), chunk=one([1, 2, 3, 100]),
                  which=one([["ZAMS"], ["ZAMS", "CC1", "CC2", "oRLO1"], ["ZAMS", "END", "CC1", "CC2", "oCE1", "oCE2", "oRLO2"]]),
                  norm=st.booleans(), zmin=one([None, 1e-6]), zmax=one([None, 0.3]),
                  dlogZ=one([None, None, 0.5, [-4.0, -1.5]]), fc=st.booleans(), early=st.booleans())


def met_edges(mets, dlogZ):
    m = np.log10(np.sort(np.array(mets) * ZSUN))
    if len(m) > 1:
        mid = list((m[1:] + m[:-1]) / 2)
        return 10 ** np.array([m[0] - (m[1] - m[0]) / 2] + mid + [m[-1] + (m[-1] - m[-2]) / 2])
    if dlogZ is None:
        return np.array([1e-9, 1.0])
    if isinstance(dlogZ, list):
        return 10 ** np.array(dlogZ)
    return 10 ** np.array([m[0] - dlogZ / 2, m[0] + dlogZ / 2])


@sub(PID, "rates", rate_case, quick=30, thorough=400)
def rates(c):
    """Every event of the transient population is weighted by the star formation of its birth bin and
    metallicity and counted in the redshift bin it happens in; nothing is lost, shared or reordered."""
    from posydon.popsyn.synthetic_population import Population, TransientPopulation, Rates
    from props.p28_transients import select_events
    speed_up()
    with scratch() as d:
        H, O = pf.tables(c["lay"], mets=c["mets"], times=(3, 10.3))
        p = pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, c["mets"]))
        pop = Population(p)
        if c["fc"]:
            pop.calculate_formation_channels(mt_history=True)
        pop.create_transient_population(select_events(c["which"]), "T")
        tp = TransientPopulation(p, "T", chunksize=c["chunk"])
        T = tp.population
        n = len(T)
        # model weights (as stored by calculate_model_weights), distinct for every event
        rng = np.random.default_rng(c["lay"]["seed"])
        W = pd.DataFrame({"w": rng.uniform(1e-4, 1e-2, n)}, index=T.index)
        with pd.HDFStore(p, "a") as s:
            s.put("transients/T/weights/w", W)
        m = {"SFR": c["model"], "sigma": c["sigma"], "delta_t": c["dt"], "normalise": c["norm"], "Z_min": c["zmin"],
             "Z_max": c["zmax"], "dlogZ": c["dlogZ"]}
        if c["early"]:        # another history before: no influence
            tp.calculate_cosmic_weights("before", "w", MODEL_in={"SFR": "Madau+Dickinson14", "sigma": 0.1, "Z_max": 0.5,
                                                                 "Z_min": 1e-3, "normalise": False, "delta_t": 3000.0,
                                                                 "dlogZ": 0.1})
            m = {k: v for k, v in m.items() if v is not None}
        r = tp.calculate_cosmic_weights("S", "w", MODEL_in=m)
        nontrivial(n > len(O) or len(c["mets"]) > 1, "several events per system or metallicities")
        label("more events than systems, several chunks", n > len(O) and n > c["chunk"])
        check_close(float(r.MODEL["delta_t"]), c["dt"], "stored settings", rtol=1e-12)
        e, zb = np.asarray(r.edges_redshift_bins, float), np.asarray(r.centers_redshift_bins, float)
        tb = age(zb)
        birth = r.z_birth
        check(np.allclose(birth["z"], zb) and np.allclose(birth["t"], tb, rtol=1e-6), "birth table")
        me = met_edges(c["mets"], c["dlogZ"])
        check(np.allclose(r.edges_metallicity_bins, me, rtol=1e-9), "metallicity edges", got=list(r.edges_metallicity_bins), expected=list(me))
        check(np.allclose(r.centers_metallicity_bins, np.sort(np.array(c["mets"]) * ZSUN)), "metallicity centres")
        w, ze = r.weights, r.z_events
        for name, tab in (("weights", w), ("z_events", ze)):
            check(list(tab.index) == list(T.index) and tab.shape[1] == len(zb), "%s: one row per event, one column per birth bin" % name,
                  got=list(tab.index), expected=list(T.index), columns=tab.shape)
        w, ze = w.to_numpy(), ze.to_numpy()
        now = age(0)
        sig = {"Bavera+20": 0.5}.get(c["sigma"], c["sigma"])
        sfr = []
        for z in zb:
            f, t = fraction_ref(cdf_ref(c["model"], z, sig), me, c["zmin"], c["zmax"], c["norm"])
            sfr.append(None if c["norm"] and t < 1e-10 else [csfrd_ref(c["model"], z) * x for x in f])
        order = list(np.sort(c["mets"]))
        for i in range(n):
            t = tb + T["time"].iloc[i] * 1e-3
            late = t > now
            close_call = np.abs(t - now) < 1e-5
            check(bool(np.all(np.isnan(ze[i])[late & ~close_call])), "events after today have no redshift")
            check(bool(np.all(np.isfinite(ze[i])[~late & ~close_call])), "events before today have a redshift", z=list(ze[i]), t=list(t))
            ok = np.isfinite(ze[i])
            back = age(np.clip(ze[i][ok], 0, None))
            tol = np.where(t[ok] < 0.1, 5e-2, np.where(t[ok] < 0.6, 1e-3, 1e-6))
            check(bool(np.all(np.abs(back - t[ok]) <= tol * t[ok] + 1e-6)), "event redshift is birth time plus delay",
                  got=list(back), expected=list(t[ok]))
            j = order.index(T["metallicity"].iloc[i])
            D = dist(np.clip(ze[i], 0, None))
            for b in range(len(zb)):
                if not ok[b] or sfr[b] is None:
                    check(not (w[i, b] > 0) or sfr[b] is None, "no weight without event")
                    continue
                exp = 4 * np.pi * C_MPC_YR * D[b] ** 2 * c["dt"] * 1e6 * sfr[b][j] * W["w"].iloc[i]
                big = 4 * np.pi * C_MPC_YR * D[b] ** 2 * c["dt"] * 1e6 * W["w"].iloc[i] * csfrd_ref(c["model"], zb[b])
                check(close(w[i, b], exp, rtol=1e-5, atol=1e-9 * big + 1e-300), "cosmic weight", event=i, bin=b, got=w[i, b], expected=exp)
        # intrinsic rate density
        import posydon.popsyn.rate_calculation as R
        ird = r.calculate_intrinsic_rate_density(channels=c["fc"])
        vol = np.array([R.get_shell_comoving_volume(a, b) for a, b in zip(e[:-1], e[1:])])
        ww = np.where(np.isfinite(w), w, 0.0)
        for k in range(len(e) - 1):
            sel = (ze > e[k]) & (ze <= e[k + 1])
            check(close(float(ird["total"].iloc[k]), float(ww[sel].sum() / vol[k]), rtol=1e-9, atol=1e-300), "rate density", bin=k,
                  got=float(ird["total"].iloc[k]), expected=float(ww[sel].sum() / vol[k]))
            if c["fc"]:
                chs = [x for x in ird.columns if x != "total"]
                check(sorted(chs) == sorted(set(T["channel"])), "channels of the rate density")
                for ch in chs:
                    rows = (T["channel"] == ch).to_numpy()[:, None]
                    check(close(float(ird[ch].iloc[k]), float(ww[sel & rows].sum() / vol[k]), rtol=1e-9, atol=1e-300), "rate density of a channel")
        check(np.allclose(ird.index, e[:-1]), "redshifts of the rate density")
        check(r.intrinsic_rate_density.equals(ird), "stored rate density")
        # observable population
        rr = Rates(p, "T", "S", chunksize=c["chunk"])
        seen = []

        def obs(tpop, z, wt):
            seen.append((list(tpop.index), list(z.index), list(wt.index)))
            return wt.mul(tpop["S1_mass"].to_numpy(), axis=0) * (z < 1)
        rr.calculate_observable_population(obs, "O")
        rr.calculate_observable_population(obs, "O")
        got = rr.observable_population("O")
        check(list(got.index) == list(T.index), "observable population: one row per event", got=list(got.index), expected=list(T.index))
        for a, b, cc in seen:
            check(a == b == cc, "chunks of the observable population belong together")
        exp = w * T["S1_mass"].to_numpy()[:, None] * (ze < 1)
        check(np.allclose(got.to_numpy(), exp, rtol=1e-12, equal_nan=True), "observable weights")
        check(rr.observable_population_names == ["O"], "names of observables")
        for key in ("weights", "z_events"):
            a = n // 2
            check(rr.select_rate_slice(key, start=a).equals({"weights": rr.weights, "z_events": rr.z_events}[key].iloc[a:]), "slice of " + key)


close_case = fixed(model=one(sorted(CS)), met=one([0.1, 1.0]), dt=one([150.0, 200.0]), delay=one([0.01, 30.0, 1000.0]),
                   w=lu(1e-6, 1e-2))


@sub(PID, "closure", close_case, quick=4, thorough=40)
def closure(c):
    """The rate density of one kind of event equals star formation density times weight at birth."""
    from posydon.popsyn.synthetic_population import Population
    from props.p28_transients import select_events
    speed_up()
    with scratch() as d:
        lay = dict(blocks=[1], order=[0, 1, 2], gap=0, start=3, inner="sorted", seed=5)
        H, O = pf.tables(lay, mets=[c["met"]])
        H = H[H["event"] == "ZAMS"].copy()
        H["time"] = c["delay"] * 1e6
        p = pf.write(os.path.join(d, "p.h5"), H, O, pf.masses(O, [c["met"]]))
        tp = Population(p).create_transient_population(select_events(["ZAMS"]), "T")
        ix = tp.population.index
        with pd.HDFStore(p, "a") as s:
            s.put("transients/T/weights/w", pd.DataFrame({"w": [c["w"]]}, index=ix))
        r = tp.calculate_cosmic_weights("S", "w", MODEL_in={"SFR": c["model"], "sigma": 0.5, "delta_t": c["dt"], "normalise": True,
                                                            "Z_min": 1e-12, "Z_max": 1.0})
        R = r.calculate_intrinsic_rate_density()["total"]
        e = np.asarray(r.edges_redshift_bins, float)
        t = age(e)
        nontrivial(True)
        done = 0
        for k in range(len(e) - 1):
            if not (0.2 < e[k] and e[k + 1] < 6.0) or t[k + 1] - c["delay"] * 1e-3 < age(8):
                continue
            # births between t-delay of the bin: average star formation density
            tt = np.linspace(t[k + 1], t[k], 21) - c["delay"] * 1e-3
            zz = np.interp(tt, age(np.linspace(20, 0, 8001)), np.linspace(20, 0, 8001))
            s = csfrd_ref(c["model"], zz)
            lo, hi = s.min() * 1e9 * c["w"], s.max() * 1e9 * c["w"]
            step = c["dt"] * 1e-3
            got = float(R.iloc[k])
            done += 1
            # discrete births: whole bins shift by up to one step; allow the neighbouring range and 12 %
            check(lo * 0.85 <= got <= hi * 1.18 or (c["delay"] not in (0.01,) and lo * 0.8 <= got <= hi * 1.25), "rate density in units of Gpc^-3 yr^-1",
                  bin=k, got=got, between=[lo, hi])
        check(done > 10, "bins compared", n=done)
