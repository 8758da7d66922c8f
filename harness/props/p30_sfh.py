"""P30 star formation histories: rate density and metallicity distribution over redshift."""
import math
import os
import numpy as np
from hypothesis import strategies as st
from core import sub, check as core_check, check_close, close, nontrivial, label, scratch, fixed, one, u, lu

PID = "P30"
ZSUN = 0.0142


def check(ok, what, **kw):
    core_check(ok, what if ok or not kw else "%s: %s" % (what, kw))


CS = {"Madau+Dickinson14": (0.015, 2.7, 2.9, 5.6), "Madau+Fragos17": (0.01, 2.6, 3.2, 6.2),
      "Neijssel+19": (0.01, 2.77, 2.9, 4.7), "Fujimoto+24": (0.01, 2.8, 3.3, 6.6)}
SIG = {"Bavera+20": 0.5, "Neijssel+19": 0.39}


def csfrd_ref(model, z):
    a, b, c, d = CS[model]
    return a * (1 + z) ** b / (1 + ((1 + z) / c) ** d)


def mean_Z(model, z):
    return 0.035 * 10 ** (-0.23 * z) if model == "Neijssel+19" else 10 ** (0.153 - 0.074 * z ** 1.34) * ZSUN


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def cdf_ref(model, z, sigma):
    """Log-normal metallicity distribution whose mean is the model's mean metallicity."""
    m = mean_Z(model, z)
    if model == "Neijssel+19":          # sigma in ln Z
        mu, s = math.log(m) - sigma ** 2 / 2, sigma
    else:                               # sigma in log10 Z
        s = sigma * math.log(10.0)
        mu = math.log(m) - s ** 2 / 2
    return lambda Z: 0.0 if Z <= 0 else phi((math.log(Z) - mu) / s)


def fraction_ref(F, edges, Zmin, Zmax, normalise):
    e = list(edges)
    if Zmax is not None:
        e[-1] = max(e[-1], Zmax)
        e = [min(x, Zmax) for x in e]
    if Zmin is not None:
        e[0] = min(e[0], Zmin)
        e = [max(x, Zmin) for x in e]
    v = [F(e[i + 1]) - F(e[i]) for i in range(len(e) - 1)]
    t = sum(v)
    return [x / t for x in v] if normalise and t > 0 else v, t


bins = st.lists(u(-5.5, -0.3), min_size=2, max_size=7, unique=True)
limits = one([None, None, 1e-9, 1e-5, 1e-3, 0.02, 0.3, 1.0])


def edges_of(c):
    e = sorted(10 ** x for x in c["edges"])
    e = [e[0]] + [b for a, b in zip(e, e[1:]) if b > a * 1.0001]
    if len(e) < 2:
        e = [e[0], e[0] * 2]
    return np.array(e)


an_case = fixed(model=one(sorted(CS)), sigma=st.one_of(one(sorted(SIG)), u(0.05, 1.5)), edges=bins,
                z=st.lists(st.one_of(u(0, 12), one([0.0, 20.0, 50.0, 99.0])), min_size=1, max_size=4),
                zmin=limits, zmax=limits, norm=st.booleans(), on_edge=one(["", "", "min", "max"]))


def limits_of(c, e):
    zmin, zmax = c["zmin"], c["zmax"]
    if c.get("on_edge") == "min":
        zmin = float(e[len(e) // 2])
    elif c.get("on_edge") == "max":
        zmax = float(e[len(e) // 2])
    if zmin is not None and zmax is not None and zmin >= zmax:
        zmin = None
    return zmin, zmax


@sub(PID, "analytic", an_case, quick=1500, thorough=40000)
def analytic(c):
    """Star formation per metallicity bin is rate density times the share of the distribution."""
    from posydon.popsyn.star_formation_history import SFR_per_met_at_z, get_SFH_model
    e = edges_of(c)
    zmin, zmax = limits_of(c, e)
    m = {"SFR": c["model"], "sigma": c["sigma"], "Z_min": zmin, "Z_max": zmax, "normalise": c["norm"]}
    z = np.array(c["z"])
    got = SFR_per_met_at_z(z, e, dict(m))
    s = SIG.get(c["sigma"], c["sigma"])
    check(got.shape == (len(z), len(e) - 1), "shape", got=got.shape)
    nontrivial(zmin is not None or zmax is not None, "metallicity limits")
    label("limit outside of the bins", (zmin is not None and zmin >= e[-1]) or (zmax is not None and zmax <= e[0]))
    model = get_SFH_model(dict(m))
    for i, zi in enumerate(z):
        f, t = fraction_ref(cdf_ref(c["model"], zi, s), e, zmin, zmax, c["norm"])
        cs = csfrd_ref(c["model"], zi)
        check_close(float(np.asarray(model.CSFRD(np.array([zi])))[0]), cs, "rate density", rtol=1e-9)
        check_close(float(np.asarray(model.mean_metallicity(np.array([zi])))[0]), mean_Z(c["model"], zi), "mean metallicity", rtol=1e-9)
        if c["norm"] and t < 1e-12:
            check(bool(np.all(np.isfinite(got[i]))), "finite where (almost) nothing forms", got=list(got[i]))
            continue
        tol = 1e-7 if not c["norm"] else max(1e-7, 1e-14 / t)
        for k in range(len(f)):
            check(close(got[i, k], cs * f[k], rtol=tol, atol=(1e-14 if not c["norm"] else 1e-14 / t) * cs),
                  "star formation in bin", z=zi, bin=k, got=got[i, k], expected=cs * f[k])
        if c["norm"]:
            check_close(float(got[i].sum()), cs, "normalised: all star formation is distributed", rtol=1e-9)


mean_case = fixed(model=one(sorted(CS)), sigma=u(0.05, 0.8), z=u(0, 8))


@sub(PID, "mean", mean_case, quick=100, thorough=2000)
def mean(c):
    """The distribution over fine bins has the model's mean metallicity and is complete."""
    from posydon.popsyn.star_formation_history import get_SFH_model
    m = get_SFH_model({"SFR": c["model"], "sigma": c["sigma"]})
    z = np.array([c["z"]])
    mz = float(np.asarray(m.mean_metallicity(z))[0])
    e = mz * np.logspace(-8, 8, 6001)
    f = m.fSFR(z, e)[0]
    nontrivial(c["sigma"] > 0.2, "broad distribution")
    check_close(float(f.sum()), 1.0, "complete", rtol=1e-6)
    check_close(float((f * np.sqrt(e[1:] * e[:-1])).sum()), mz, "mean of the distribution", rtol=2e-3)


data_case = fixed(model=one(["IllustrisTNG", "Chruslinska+21", "Zavala+21"]), seed=st.integers(0, 2 ** 31), nz=st.integers(2, 8),
                  edges=bins, norm=st.booleans(), zmin=limits, zmax=limits, on_edge=one(["", "min", "max"]),
                  zq=st.lists(u(0, 1.2), min_size=1, max_size=4), empty=st.booleans(), sub_model=one(["min", "max"]),
                  peak=st.booleans(), scale=one(["Asplund09", "AndersGrevesse89", "GrevesseSauval98", "Villante14"]))


@sub(PID, "data", data_case, quick=400, thorough=8000)
def data(c):
    """Tabulated histories: values of the table at its redshifts, distribution of the epoch before."""
    import posydon.popsyn.star_formation_history as S
    rng = np.random.default_rng(c["seed"])
    nz = c["nz"]
    e = edges_of(c)
    zmin, zmax = limits_of(c, e)
    m = {"SFR": c["model"], "Z_min": zmin, "Z_max": zmax, "normalise": c["norm"]}
    with scratch() as d:
        os.makedirs(os.path.join(d, "SFR", "Chruslinska+21"))
        red = np.sort(rng.uniform(0.01, 12, nz))        # ascending
        red += 0.01 * np.arange(nz)
        if c["model"] == "IllustrisTNG":
            red[0] = 0.0
            mets = np.logspace(-9, -1.1, 40)
            M = rng.uniform(0, 1, (nz, 40)) * (rng.uniform(size=(nz, 40)) < 0.5)
            if c["peak"]:
                M[:] = 0
                M[np.arange(nz), rng.integers(1, 40, nz)] = 1.0
            if c["empty"] and nz > 2:
                M[nz // 2] = 0
            sfr = rng.uniform(0.01, 1, nz)
            np.savez(os.path.join(d, "SFR", "IllustrisTNG.npz"), SFR=sfr[::-1], redshifts=red[::-1], mets=mets, M=M[::-1])
            grid, dist, total = mets, M, sfr
        elif c["model"] == "Chruslinska+21":
            FOH = np.linspace(5.3, 9.7, 200)
            zs, fs = {"Asplund09": (0.0134, 8.69), "AndersGrevesse89": (0.017, 8.83), "GrevesseSauval98": (0.0201, 8.93),
                      "Villante14": (0.019, 8.85)}[c["scale"]]
            grid = zs * 10 ** (FOH - fs)
            dT = rng.uniform(10, 500, nz)
            M = rng.uniform(0, 1, (nz, 200)) * 1e6 * (rng.uniform(size=(nz, 200)) < 0.5)
            if c["peak"]:
                M[:] = 0
                M[np.arange(nz), rng.integers(1, 200, nz)] = 1e6
            if c["empty"] and nz > 2:
                M[nz // 2] = 0
            np.savetxt(os.path.join(d, "SFR", "Chruslinska+21", "Time_redshift_deltaT.dat"),
                       np.c_[np.arange(nz), red[::-1], dT[::-1]])
            np.savetxt(os.path.join(d, "SFR", "Chruslinska+21", "mod.dat"), M[::-1])
            m.update(sub_model="mod", Z_solar_scaling=c["scale"])
            dist, total = M, M.sum(axis=1) / (1e6 * dT)
        else:
            lo = rng.uniform(0.001, 0.1, nz)
            hi = lo * 2
            with open(os.path.join(d, "SFR", "Zavala+21.txt"), "w") as f:
                f.write("z min max\n")
                for k in range(nz):
                    f.write("%.17g %.17g %.17g\n" % (red[k], lo[k], hi[k]))
            m.update(sub_model=c["sub_model"], sigma=0.5)
            total = lo if c["sub_model"] == "min" else hi
            dist = None
        import posydon.config
        old = S.PATH_TO_POSYDON_DATA if hasattr(S, "PATH_TO_POSYDON_DATA") else None
        oldc = posydon.config.PATH_TO_POSYDON_DATA
        try:
            posydon.config.PATH_TO_POSYDON_DATA = d
            if old is not None:
                S.PATH_TO_POSYDON_DATA = d
            model = S.get_SFH_model(dict(m))
            z = np.array([red[0] + q * (red[-1] - red[0]) for q in c["zq"]] + [red[nz // 2]])
            cs = np.asarray(model.CSFRD(z))
            got = S.SFR_per_met_at_z(z, e, dict(m))
            raw = model.fSFR(z, e)
            mean = np.asarray(model.mean_metallicity(z))
        finally:
            posydon.config.PATH_TO_POSYDON_DATA = oldc
            if old is not None:
                S.PATH_TO_POSYDON_DATA = old
        nontrivial(nz > 2 and dist is not None, "several epochs")
        label(c["model"])
        for i, zi in enumerate(z):
            check_close(float(cs[i]), float(np.interp(zi, red, total)), "rate density", rtol=1e-9, atol=1e-300)
            check(np.allclose(got[i], cs[i] * raw[i], rtol=1e-9), "product of rate and share")
            if dist is None:
                f, _ = fraction_ref(cdf_ref("Madau+Fragos17", zi, 0.5), e, zmin, zmax, c["norm"])
                check(np.allclose(raw[i], f, rtol=1e-5, atol=1e-12), "share per bin", got=list(raw[i]), expected=f)
                continue
            k = int(np.searchsorted(red, zi, side="right") - 1)
            w = dist[k]
            if w.sum() == 0:
                check(bool(np.all(raw[i] == 0)), "no star formation in an empty epoch")
                continue
            lx, cum = np.append(np.log10(grid), 0.0), np.append(np.cumsum(w) / w.sum(), 1.0)
            F = lambda Z: float(np.interp(math.log10(Z) if Z > 0 else -99.0, lx, cum))
            f, t = fraction_ref(F, e, zmin, zmax, c["norm"])
            if c["norm"] and t < 1e-9:
                check(bool(np.all(np.isfinite(raw[i]))), "finite where (almost) nothing forms")
                continue
            check(np.allclose(raw[i], f, rtol=1e-7, atol=1e-12), "share per bin", z=zi, got=list(raw[i]), expected=f)
            # interpolated mean metallicity lies between the means of the neighbouring epochs
            kk = [k, min(k + 1, nz - 1)]
            if all(dist[q].sum() > 0 for q in kk):
                mm = [float((grid * dist[q]).sum() / dist[q].sum()) for q in kk]
                check(min(mm) * (1 - 1e-9) <= mean[i] <= max(mm) * (1 + 1e-9), "mean metallicity", got=mean[i], between=mm)


bad_case = fixed(model=one(sorted(CS) + ["nonsense"]), what=one(["order", "zmin", "zmax", "swap", "sigma", "name"]), x=u(0.01, 0.5))


@sub(PID, "invalid", bad_case, quick=25, thorough=100)
def invalid(c):
    """Contradictory settings are refused."""
    from posydon.popsyn.star_formation_history import SFR_per_met_at_z
    m = {"SFR": c["model"], "sigma": 0.5}
    e = np.array([1e-4, 1e-3, 1e-2])
    if c["what"] == "order":
        e = e[::-1]
    elif c["what"] == "zmin":
        m["Z_min"] = -c["x"]
    elif c["what"] == "zmax":
        m["Z_max"] = 1 + c["x"]
    elif c["what"] == "swap":
        m.update(Z_min=c["x"], Z_max=c["x"] / 2)
    elif c["what"] == "sigma":
        m.pop("sigma")
    else:
        m["SFR"] = "unknown"
    nontrivial(True)
    try:
        SFR_per_met_at_z(np.array([0.5]), e, m)
        ok = False
    except ValueError:
        ok = True
    check(ok, "invalid settings are refused", settings=m)
