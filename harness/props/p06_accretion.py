"""P06 accretion onto compact objects: Eddington limit, wind accretion, beaming."""
import math

import numpy as np

from core import *
import phys

from posydon.utils import common_functions as cf
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar

row = fixed(macc=lu(1.1, 50), mdon=lu(0.5, 150), a=lu(5, 5000), e=u(0, 0.8), lgmdot=u(-12, -3.5),
            logR=u(-0.3, 3.0), logL=u(0, 6.3), h1=one([0.0, 0.005, 0.01, 0.3, 0.39, 0.4, 0.7]) | u(0, 0.75),
            hc=one([0.0, 0.5]))


def co_type(m, t):
    return "BH" if m > 2.5 else "NS"


def build(rows, swap=False, cotype=None):
    acc = SingleStar(mass=10.0, state="BH")
    don = SingleStar(mass=10.0, state="H-rich_Core_H_burning")
    b = BinaryStar(star_1=don if swap else acc, star_2=acc if swap else don, state="detached", event=None,
                   time=0.0, orbital_period=10.0)
    acc, don = (b.star_2, b.star_1) if swap else (b.star_1, b.star_2)
    first = True
    for r in rows:
        if not first:
            b.append_state()
        acc.mass, don.mass = r["macc"], r["mdon"]
        acc.state = cotype or co_type(r["macc"], None)
        b.separation, b.eccentricity = r["a"], r["e"]
        don.lg_wind_mdot, don.log_R, don.log_L = r["lgmdot"], r["logR"], r["logL"]
        don.surface_h1, don.he_core_radius = r["h1"], r["hc"]
        if first:
            # make the first history entry equal to the first row
            for obj, ks in ((b, ("separation", "eccentricity")), (acc, ("mass", "state")),
                            (don, ("mass", "lg_wind_mdot", "log_R", "log_L", "surface_h1", "he_core_radius"))):
                for k in ks:
                    setattr(obj, k + "_history", [getattr(obj, k)])
            if len(rows) == 1:
                pass
            for obj in (b, acc, don):
                pass
            first = False
            # drop the initial entry again: the first row will be appended as history below
            from posydon.binary_evol.binarystar import BINARYPROPERTIES
            from posydon.binary_evol.singlestar import STARPROPERTIES
            for k in BINARYPROPERTIES:
                setattr(b, k + "_history", [])
            for s in (acc, don):
                for k in STARPROPERTIES:
                    setattr(s, k + "_history", [])
    return b, acc, don


def edd(m, h1, t):
    """Eddington accretion rate Msun/yr."""
    if t == "BH":
        eta = 1 - math.sqrt(1 - (1.0 / 3.0) ** 2)
    else:
        r = 1.25e6 if t == "NS" else 2.9e8 * m ** (-1 / 3)
        eta = phys.G * m * phys.MSUN / (r * phys.C ** 2)
    h = 0.7155 if h1 is None or h1 != h1 else h1
    kappa = 0.2 * (1 + h)
    return 4 * math.pi * phys.G * m * phys.MSUN / (kappa * eta * phys.C) / (phys.MSUN / phys.YR), eta


@sub("P06", "eddington", fixed(rows=st.lists(row, min_size=1, max_size=5), swap=st.booleans(),
                               t=one(["BH", "NS"])), quick=900, thorough=15000)
def eddington(c):
    """Eddington rate against 4 pi G M/(kappa eta c) for BH/NS accretors (WD: known finding) as either star, for single
    entries, lists and slices of the history.  Non-trivial: >=2 rows."""
    rows = c["rows"]
    b, acc, don = build(rows, c["swap"], c["t"])
    n = len(rows)
    want = [edd(r["macc"], r["h1"], c["t"]) for r in rows]
    for i in list(range(n)) + [-1]:
        got = cf.eddington_limit(b, idx=i)
        check_close(got[0], want[i][0], f"Eddington rate of entry {i}", 1e-3)
        check_close(got[1], want[i][1], f"efficiency of entry {i}", 1e-3)
    if n >= 2:
        g, e_ = cf.eddington_limit(b, idx=slice(-n, None))
        check(np.shape(np.atleast_1d(g)) == (n,), lambda: f"slice of {n} entries gives {np.shape(g)} values")
        check(np.allclose(g, [w[0] for w in want], rtol=1e-3), "Eddington rates of a slice differ from entries")
        check(np.allclose(e_, [w[1] for w in want], rtol=1e-3), "efficiencies of a slice differ from entries")
    nontrivial(n >= 2, c["t"])


@sub("P06", "wind", fixed(rows=st.lists(row, min_size=1, max_size=5), swap=st.booleans(),
                          scheme=one(["Hurley+2002", "Kudritzki+2000"]), disk=st.booleans(),
                          seed=seeds()), quick=1200, thorough=20000)
def wind(c):
    """Bondi-Hoyle wind accretion: evaluating a stretch of history equals evaluating each entry with the
    same random phases, matches an independent re-derivation, never exceeds the Eddington rate and is
    zero without an accretion disk when one is demanded.  Non-trivial: >=2 rows, some accretion."""
    rows = c["rows"]
    b, acc, don = build(rows, c["swap"])
    n = len(rows)
    kw = dict(wind_disk_criteria=c["disk"], scheme=c["scheme"])
    arr = np.atleast_1d(cf.bondi_hoyle(b, acc, don, idx=slice(-n, None),
                                       RNG=np.random.default_rng(c["seed"]), **kw))
    check(arr.shape == (n,), f"{arr.shape} results for {n} entries")
    rng = np.random.default_rng(c["seed"])
    phases = np.random.default_rng(c["seed"]).random(n)
    some = False
    for i, r in enumerate(rows):
        one_ = float(cf.bondi_hoyle(b, acc, don, idx=i, RNG=rng, **kw))
        check_close(arr[i], one_, f"entry {i} of the slice vs the entry alone", 1e-6)
        t = co_type(r["macc"], None)
        ed = edd(r["macc"], r["h1"], t)[0]
        check(0 <= one_ <= ed * (1 + 1e-3), lambda: f"accretion {one_} above Eddington {ed}")
        want = oracle(r, phases[i], c["scheme"], c["disk"])
        if want is not None:
            check_close(one_, min(want, ed), f"entry {i} accretion rate", 2e-3, 1e-98)
        some |= one_ > 1e-90
    nontrivial(n >= 2 and some, c["scheme"])


def oracle(r, ph, scheme, disk):
    """SI re-derivation of the wind accretion rate [Msun/yr]."""
    G, MS, RS = phys.G * 1e-3, phys.MSUN * 1e-3, phys.RSUN * 1e-2
    R, L = 10 ** r["logR"], 10 ** r["logL"]
    sig = 5.670400e-5
    Teff = (L * 3.8418e33 / (4 * math.pi * (R * phys.RSUN) ** 2 * sig)) ** 0.25
    m, h1 = r["mdon"], r["h1"]
    if abs(Teff / 21000 - 1) < 2e-3 or abs(Teff / 1e4 - 1) < 2e-3:
        return None
    if scheme == "Hurley+2002":
        if h1 <= 0.01:
            beta = 7.0 if m > 120 else 0.125 if m < 10 else 0.125 + (m - 10) / 110 * 6.875
        else:
            beta = 7.0 if m > 120 else 0.5 if m < 1.4 else 0.5 + (m - 1.4) / 118.6 * 6.5
        f = math.sqrt(beta)
    else:
        f = 2.65 if Teff >= 21000 else 1.0 if Teff <= 10000 else 1.4
    vw = f * math.sqrt(2 * G * m * MS / (R * RS))
    if h1 < 0.4 and Teff > 1e4:
        x = r["lgmdot"]
        vw = 10 ** (3.25 + ((3.7 - 3.25) / 2.75 if x >= -5.25 else (3.25 - 3.75) / 2.0) * (x + 5.25)) * 1e3
    Ma = 2 * math.pi * ph
    e, a = r["e"], r["a"] * RS
    # Kepler's equation by bisection
    lo, hi = 0.0, 2 * math.pi
    for _ in range(200):
        E = 0.5 * (lo + hi)
        if E - e * math.sin(E) > Ma:
            hi = E
        else:
            lo = E
    rr = a * (1 - e * math.cos(E))
    v2 = G * (m + r["macc"]) * MS * (2 / rr - 1 / a)
    v = math.sqrt(v2)
    # cosine between radius and velocity directions
    bb = a * math.sqrt(1 - e * e)
    rx, ry = a * (math.cos(E) - e), bb * math.sin(E)
    vx, vy = -a * math.sin(E), bb * math.cos(E)
    k = (rx * vx + ry * vy) / (math.hypot(rx, ry) * math.hypot(vx, vy))
    vrel = math.sqrt(v2 + vw * vw + 2 * v * vw * k)
    md = 1.5 * (G * r["macc"] * MS) ** 2 / (2 * vrel ** 3 * vw * rr ** 2) * 10 ** r["lgmdot"]
    if disk:
        q = m / r["macc"]
        crit = 2 / 3 * ((1 / 3) / (1 + q)) ** 2 * (v / 2.99792458e8) ** -2 * (1 + (vw / v) ** 2) ** -4
        if abs(crit - 1) < 2e-2:
            return None
        if crit <= 1:
            return 10 ** -99.0
    return md


@sub("P06", "beaming", fixed(row=row, lg=u(-14, -1) | u(-8, -4) | st.none(), swap=st.booleans()), quick=600, thorough=8000)
def beaming(c):
    """Beamed accretion: below Eddington the rate is unchanged and unbeamed, above it grows
    logarithmically; factor in (0, 1].  Non-trivial: super-Eddington."""
    b, acc, don = build([c["row"]], c["swap"])
    b.lg_mtransfer_rate = c["lg"]
    md, bf = cf.beaming(b)
    ed = edd(c["row"]["macc"], c["row"]["h1"], co_type(c["row"]["macc"], None))[0]
    if c["lg"] is None:
        check(md != md and bf == 1, "no mass transfer must give NaN, 1")
        return
    x = 10 ** c["lg"] / ed
    label("x>1", x > 1)
    if abs(x - 1) < 1e-2 or abs(x - 8.5) < 1e-1:
        return
    if x < 1:
        check_close(md, 10 ** c["lg"], "sub-Eddington rate", 1e-9)
        check(bf == 1, "sub-Eddington beaming")
    else:
        wb = 73 / x ** 2 if x > 8.5 else 1.0
        check_close(bf, wb, "beaming factor", 5e-3)
        check_close(md, ed * (1 + math.log(x)) / wb, "beamed rate", 1e-2)
        nontrivial()


@known("P06", "wd-eddington")
def wd_eddington():
    r = dict(macc=1.1, mdon=0.5, a=5.0, e=0.0, lgmdot=-12.0, logR=-0.3, logL=0.0, h1=0.0, hc=0.0)
    b, acc, don = build([r], False, "WD")
    return not close(cf.eddington_limit(b, idx=0)[0], edd(1.1, 0.0, "WD")[0], 1e-3)
