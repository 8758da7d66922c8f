"""P01 orbital mechanics relations."""
import math

import numpy as np

from core import *
import phys

from posydon.utils import common_functions as cf
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar

M = lu(0.05, 300.0)
MW = lu(1e-3, 1e4)          # whole range of masses a point-mass formula has to accept
P = lu(1e-3, 1e7)
A = lu(1e-2, 1e7)


@sub("P01", "kepler", fixed(m1=MW, m2=MW, P=P, a=A, arr=st.booleans()), quick=2400, thorough=40000)
def kepler(c):
    """period<->separation: Kepler III, mutual inverses, star symmetric, arrays = scalars.
    Every case is non-trivial."""
    m1, m2, p, a = c["m1"], c["m2"], c["P"], c["a"]
    sep = cf.orbital_separation_from_period(p, m1, m2)
    check_close(sep, phys.kepler_a(p, m1, m2), "separation(P)", 1e-6)
    per = cf.orbital_period_from_separation(a, m1, m2)
    check_close(per, phys.kepler_P(a, m1, m2), "period(a)", 2e-4)
    check_close(cf.orbital_separation_from_period(per, m1, m2), a, "a->P->a", 3e-4)
    check_close(cf.orbital_period_from_separation(sep, m1, m2), p, "P->a->P", 3e-4)
    check_close(cf.orbital_separation_from_period(p, m2, m1), sep, "swap symmetry of a", 1e-12)
    check_close(cf.orbital_period_from_separation(a, m2, m1), per, "swap symmetry of P", 1e-12)
    if c["arr"]:
        arr = cf.orbital_separation_from_period([p, 2 * p], [m1, m2], [m2, m1])
        check(np.allclose(arr, [sep, sep * 2 ** (2 / 3)], rtol=1e-12), "array result differs")
        arr = cf.orbital_period_from_separation(np.array([a, 2 * a]), np.array([m1, m2]),
                                                np.array([m2, m1]))
        check(np.allclose(arr, [per, per * 2 ** 1.5], rtol=1e-12), "array result differs")
    nontrivial()


@sub("P01", "constructor",
     fixed(m1=M, m2=M, P=P, a=A, e=u(0, 0.99), given=one(["P", "a", "both", "none"])),
     quick=1200, thorough=20000)
def constructor(c):
    """A binary constructed with only P or only a has the other by Kepler III; a given pair is kept.
    Non-trivial: exactly one of the two is given."""
    kw = {}
    if c["given"] in ("P", "both"):
        kw["orbital_period"] = c["P"]
    if c["given"] in ("a", "both"):
        kw["separation"] = c["a"]
    b = BinaryStar(star_1=SingleStar(mass=c["m1"]), star_2=SingleStar(mass=c["m2"]),
                   eccentricity=c["e"], **kw)
    if c["given"] == "P":
        check(b.orbital_period == c["P"], "given period changed")
        check_close(b.separation, phys.kepler_a(c["P"], c["m1"], c["m2"]), "derived separation", 3e-4)
        nontrivial(label="P")
    elif c["given"] == "a":
        check(b.separation == c["a"], "given separation changed")
        check_close(b.orbital_period, phys.kepler_P(c["a"], c["m1"], c["m2"]), "derived period", 3e-4)
        nontrivial(label="a")
    elif c["given"] == "both":
        check(b.separation == c["a"] and b.orbital_period == c["P"], "given P and a changed")
    check(b.eccentricity == c["e"], "eccentricity changed")


@sub("P01", "roche", fixed(m1=MW, m2=MW, a=A, r1=u(0, 2.0), r2=u(0, 2.0), arr=st.booleans()),
     quick=2400, thorough=40000)
def roche(c):
    """Roche lobe = Eggleton fit, scales with a, depends on q only; RLO check is exact and symmetric.
    Non-trivial: one star within 2x of its lobe (all cases)."""
    m1, m2, a = c["m1"], c["m2"], c["a"]
    rl = cf.roche_lobe_radius(m1, m2, a)
    check_close(rl, phys.eggleton(m1 / m2) * a, "Roche lobe", 1e-9)
    check(0 < rl < a, "Roche lobe not inside the orbit")
    check_close(cf.roche_lobe_radius(3 * m1, 3 * m2, 5 * a), 5 * rl, "scaling", 1e-9)
    rl2 = cf.roche_lobe_radius(m2, m1, a)
    check((rl > rl2) == (m1 > m2) or close(m1, m2, 1e-9), "heavier star must have larger lobe")
    if c["arr"]:
        arr = cf.roche_lobe_radius(np.array([m1, m2, -1.0]), np.array([m2, m1, 1.0]),
                                   np.array([a, a, a]))
        check(np.allclose(arr[:2], [rl, rl2], rtol=1e-12) and np.isnan(arr[2]), "array Roche lobe")
    r1, r2 = c["r1"] * rl, c["r2"] * rl2
    tol = 1e-8
    over = max(r1 - rl, r2 - rl2)
    got = cf.check_for_RLO(m1, r1, m2, r2, a, tol)
    if abs(over - tol) > 1e-7 * a:
        check(bool(got) == (over >= tol), "check_for_RLO disagrees with the lobes")
    check(bool(got) == bool(cf.check_for_RLO(m2, r2, m1, r1, a, tol)), "check_for_RLO not symmetric")
    nontrivial(label="RLO" if got else "detached")


@sub("P01", "wind_and_mt",
     fixed(md=M, ma=M, P=P, f=u(0.01, 1.0), alpha=one([0.0, 0.2, 0.5, 0.9, 1.0]) | u(0, 1),
           beta=one([0.0, 0.3, 0.5, 0.9, 1.0]) | u(0, 0.98), split=u(0.05, 0.95)),
     quick=1600, thorough=30000)
def wind_and_mt(c):
    """Mass-loss orbit laws against ODE/closed-form oracles: fast wind keeps a*(m1+m2), conservative
    MT keeps P*(m1 m2)^3, non conservative MT obeys the angular-momentum ODE (integrated numerically
    here).  Non-trivial: the donor actually loses mass."""
    md, ma, p = c["md"], c["ma"], c["P"]
    mf = md * c["f"]
    # Jeans mode
    pf = cf.period_evol_wind_loss(mf, md, ma, p)
    check_close(pf * (mf + ma) ** 2, p * (md + ma) ** 2, "Jeans mode P M^2", 1e-9)
    a = phys.kepler_a(p, md, ma)
    af = cf.separation_evol_wind_loss(mf, md, ma, a)
    check_close(af * (mf + ma), a * (md + ma), "Jeans mode a M", 1e-9)
    check_close(phys.kepler_P(af, mf, ma), pf, "Jeans P and a consistent", 1e-6)
    # stable MT
    al, be = c["alpha"], c["beta"]
    pm = cf.period_change_stable_MT(p, md, mf, ma, alpha=al, beta=be)
    if al == 0 and be == 0:
        maf = ma + (md - mf)
        check_close(pm, p * (md * ma / (mf * maf)) ** 3, "conservative MT", 1e-9)
        label("conservative")
    check_close(cf.period_change_stable_MT(p, md, md, ma, alpha=al, beta=be), p, "no MT, no change",
                1e-12)
    if be == 1.0 and pm > 1e-200:
        # isotropic re-emission limit of the beta<1 formula
        near = cf.period_change_stable_MT(p, md, mf, ma, alpha=al, beta=1 - 1e-7)
        check_close(pm, near, "beta->1 limit", 1e-4 * (1 + 3 * (md - mf) / ma))
        label("beta=1")
    # composition: two consecutive phases = one phase
    mmid = md - c["split"] * (md - mf)
    macc_mid = ma + (1 - be) * (1 - al) * (md - mmid)
    p1 = cf.period_change_stable_MT(p, md, mmid, ma, alpha=al, beta=be)
    p2 = cf.period_change_stable_MT(p1, mmid, mf, macc_mid, alpha=al, beta=be)
    if (al == 0 or be == 1.0) and min(p1, p2, pm) > 1e-200:
        check_close(p2, pm, "MT in two phases differs from one phase", 1e-6)
    # angular momentum ODE oracle: dlnJ = alpha*(ma/md)/(M) + (1-alpha)*beta*(md/ma)/M  dmd
    if be < 0.99 and (md - mf) / md < 0.98 and al == 0:
        n = 2000
        ms = np.linspace(md, mf, n + 1)
        mm = 0.5 * (ms[1:] + ms[:-1])
        dm = np.diff(ms)
        acc = ma + (1 - be) * (md - mm)
        dlnJ = be * (mm / acc) / (mm + acc) * dm
        lnJ = dlnJ.sum()
        maf = ma + (1 - be) * (md - mf)
        # J ~ m1 m2 (M)^(-1/3) P^(1/3)
        lnP = 3 * (lnJ - math.log(mf * maf / (md * ma))) + math.log((mf + maf) / (md + ma))
        check(abs(lnP - math.log(pm / p)) < 1e-3 * (1 + abs(lnP)), lambda:
              f"MT period {pm} disagrees with angular momentum integration {p * math.exp(lnP)}")
        label("ODE")
    nontrivial(c["f"] < 0.999)


@sub("P01", "inspiral", fixed(m1=lu(0.1, 200), m2=lu(0.1, 200), a=lu(1e-2, 1e3),
                              e=one([0.0, 1e-4]) | u(0.0, 0.99)), quick=1600, thorough=30000)
def inspiral(c):
    """Merger time: Peters (independent quadrature), a^4 scaling, swap symmetric, decreasing in e.
    Non-trivial: e > 0."""
    m1, m2, a, e = c["m1"], c["m2"], c["a"], c["e"]
    t = cf.inspiral_timescale_from_separation(m1, m2, a, e)
    check_close(t, phys.peters_time_myr(m1, m2, a, e), "Peters merger time", 1e-5)
    check_close(cf.inspiral_timescale_from_separation(m2, m1, a, e), t, "swap symmetry", 1e-10)
    check_close(cf.inspiral_timescale_from_separation(m1, m2, 2 * a, e), 16 * t, "a^4 scaling", 1e-8)
    check(t <= cf.inspiral_timescale_from_separation(m1, m2, a, 0.0) * (1 + 1e-6),
          "eccentric orbit must merge sooner")
    p = phys.kepler_P(a, m1, m2)
    check_close(cf.inspiral_timescale_from_orbital_period(m1, m2, p, e), t, "period version", 1e-5)
    nontrivial(e > 0)


@sub("P01", "inspiral_rejects", fixed(m1=one([1.0, 0.0, -1.0]), m2=one([1.0, 0.0, -2.0]),
                                      a=one([1.0, 0.0, -3.0]), e=one([0.0, 0.5, -0.1, 1.0, 1.5])),
     quick=200, thorough=400)
def inspiral_rejects(c):
    """Unphysical inspiral arguments are rejected with ValueError, physical ones accepted.
    Non-trivial: an unphysical argument is present."""
    bad = c["m1"] <= 0 or c["m2"] <= 0 or c["a"] <= 0 or not (0 <= c["e"] < 1)
    try:
        cf.inspiral_timescale_from_separation(c["m1"], c["m2"], c["a"], c["e"])
    except ValueError:
        check(bad, "physical arguments rejected")
    else:
        check(not bad, "unphysical arguments accepted")
    nontrivial(bad)


@sub("P01", "compact_objects",
     fixed(M=lu(0.1, 100), t=one(["BH", "NS", "WD"]), spin=u(0, 1), k=u(0.9, 3.0)),
     quick=1200, thorough=20000)
def compact_objects(c):
    """Compact-object radii and accretion spin-up: Schwarzschild radius, WD M^-1/3, spin stays within
    [0, 1], grows with accreted mass.  Non-trivial: black hole, mass accreted."""
    r = cf.CO_radius(c["M"], c["t"])
    if c["t"] == "BH":
        rs = 2 * phys.G * c["M"] * phys.MSUN / phys.C ** 2 / phys.RSUN
        check_close(r, rs, "Schwarzschild radius", 1e-3)
    elif c["t"] == "NS":
        check_close(r, cf.CO_radius(2.0, "NS"), "NS radius must not depend on mass", 1e-12)
        check(0.9e6 < r * phys.RSUN < 1.5e6, "NS radius off")
    else:
        check_close(cf.CO_radius(8 * c["M"], "WD"), r / 2, "WD mass-radius", 1e-9)
    s = cf.spin_stable_mass_transfer(c["spin"], c["M"], c["M"] * c["k"])
    if c["k"] < 1:
        check(s != s, "BH losing mass must give NaN spin")
    else:
        check(-1e-9 <= s <= 1 + 1e-9, lambda: f"spin {s} out of [0,1]")
        same_ = cf.spin_stable_mass_transfer(c["spin"], c["M"], c["M"])
        check_close(same_, c["spin"], "no accretion must keep the spin", 1e-6, 1e-6)
        check(s >= c["spin"] - 1e-9, "accretion lowered the spin")
        s2 = cf.spin_stable_mass_transfer(c["spin"], c["M"], c["M"] * c["k"] * 1.1)
        check(s2 >= s - 1e-9, "spin not monotonic in accreted mass")
        # two-stage accretion composes
        mid = cf.spin_stable_mass_transfer(c["spin"], c["M"], c["M"] * math.sqrt(c["k"]))
        if mid < 0.999 and s < 0.999:
            s3 = cf.spin_stable_mass_transfer(mid, c["M"] * math.sqrt(c["k"]), c["M"] * c["k"])
            check_close(s3, s, "two-stage accretion spin", 1e-6, 1e-7)
            nontrivial(c["k"] > 1.0)
