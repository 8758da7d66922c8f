"""P07 supernova kicks: the post-supernova orbit obeys energy and angular-momentum conservation."""
import math

import numpy as np

from core import *
import phys

from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar

KM = 1e5
CC = ["H-rich_Core_C_depleted", "stripped_He_Core_C_depleted", "H-rich_Core_He_depleted"]
MECH = [("Fryer+12-rapid", ""), ("Fryer+12-delayed", ""), ("direct", ""), ("Couch+20-engine", "1.23")]


def exploding(c, **kw):
    he = c["mstar"] * (1.0 if c["stripped"] else c["fhe"])
    he = max(he, 2.2)
    co = max(he * c["fco"], 1.5)
    return SingleStar(mass=c["mstar"], state=CC[1] if c["stripped"] else CC[0], he_core_mass=he, co_core_mass=co,
                      metallicity=0.1, log_total_angular_momentum=50.5, center_h1=0.0, center_he4=0.0,
                      center_c12=0.0, center_o16=0.2, center_n14=0.0, surface_h1=0.0 if c["stripped"] else 0.6,
                      surface_he4=0.9 if c["stripped"] else 0.3,
                      log_R=0.5, log_LH=-10.0, log_LHe=-10.0, log_Lnuc=-10.0, **kw)


def companion(kind, m):
    if kind == "star":
        return SingleStar(mass=m, state="H-rich_Core_H_burning", center_h1=0.6, center_he4=0.3, center_c12=0.0,
                          surface_h1=0.7, surface_he4=0.28, he_core_mass=0.0, co_core_mass=0.0, log_LH=3.0,
                          log_LHe=-10.0, log_Lnuc=3.0, log_R=0.8, metallicity=0.1)
    if kind == "cdep":
        return SingleStar(mass=m, state=CC[1], center_h1=0.0, center_he4=0.0, center_c12=0.0, surface_h1=0.0,
                          surface_he4=0.9, he_core_mass=m, co_core_mass=m * 0.8, log_LH=-10.0, log_LHe=-10.0,
                          log_Lnuc=-10.0, log_R=0.3, metallicity=0.1)
    return SingleStar(mass=m, state=kind, log_R=-4.0, spin=0.1, metallicity=0.1, center_h1=0.0, center_he4=0.0)


geom = dict(mstar=lu(3.0, 60), stripped=st.booleans(), fhe=u(0.4, 0.95), fco=u(0.55, 0.9), mcomp=lu(1.2, 60),
            a=lu(3, 3000), e=one([0.0, 0.0]) | u(0, 0.9), which=one([1, 2]), mech=st.integers(0, 3),
            vk=one([0.0]) | lu(0.5, 800), phi=u(0, 2 * math.pi), theta=u(0, math.pi),
            M=one([0.0]) | u(0, 2 * math.pi), neut=one([0.0, 0.5]))


def make_sn(c, **kw):
    mech, eng = MECH[c["mech"]]
    d = dict(mechanism=mech, engine=eng, PISN=None, use_interp_values=False, use_profiles=False,
             max_neutrino_mass_loss=c["neut"], RNG=np.random.default_rng(7))
    d.update(kw)
    return StepSN(**d)


def build(c, comp_kind="star", state="detached", **kick):
    ex = exploding(c, **kick)
    co = companion(comp_kind, c["mcomp"])
    s1, s2 = (ex, co) if c["which"] == 1 else (co, ex)
    b = BinaryStar(star_1=s1, star_2=s2, state=state, event="CC%d" % c["which"], time=1e7, separation=c["a"],
                   eccentricity=c["e"])
    return (b, b.star_1, b.star_2) if c["which"] == 1 else (b, b.star_2, b.star_1)


def solve_kepler(M, e):
    E = M if e < 0.8 else math.pi
    lo, hi = 0.0, 2 * math.pi
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid - e * math.sin(mid) < M:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def reference(m0, m1, mc, a, e, M, vk, theta, phi):
    """Post-SN (energy, h vector, V_sys, tilt) per reduced mass, cgs: position along +x, orbital momentum along z'."""
    E = solve_kepler(M, e)
    mt0, mt1 = (m0 + mc) * phys.MSUN, (m1 + mc) * phys.MSUN
    A = a * phys.RSUN
    r = A * (1 - e * math.cos(E))
    # velocity from the time derivative of the eccentric-anomaly parametrisation
    n = math.sqrt(phys.G * mt0 / A ** 3)
    Ed = n / (1 - e * math.cos(E))
    vr = A * e * math.sin(E) * Ed                      # radial
    vt = A * A * math.sqrt(1 - e * e) * n / r          # h / r
    v = math.hypot(vr, vt)
    return E, mt0, mt1, r, vr, vt, v


@sub("P07", "orbit", fixed(**geom), quick=2400, thorough=60000,
     examples=[dict(mstar=8.0, stripped=True, fhe=.5, fco=.8, mcomp=10.0, a=50.0, e=0.0, which=1, mech=2, vk=0.0,
                    phi=0.0, theta=0.0, M=0.0, neut=0.0)])
def orbit(c):
    """Given kick and mass loss, the new orbit has the energy and angular momentum of the kicked relative motion;
    unbound motion <=> disrupted; systemic velocity from momentum conservation; tilt between the two orbital angular
    momenta.  Non-trivial: kick or mass loss non-zero."""
    sn = make_sn(c)
    b, ex, co = build(c, natal_kick_velocity=c["vk"], natal_kick_azimuthal_angle=c["phi"],
                      natal_kick_polar_angle=c["theta"], natal_kick_mean_anomaly=c["M"])
    m0, mc, vk = c["mstar"], c["mcomp"], c["vk"] * KM
    sn(b)
    m1 = ex.mass
    check(0 < m1 <= m0 * (1 + 1e-12), lambda: f"remnant {m1} heavier than the star {m0}")
    check(ex.state in ("NS", "BH"), "no compact object left")
    check(co.mass == mc, "companion mass changed")
    check(b.event is None and b.time == 1e7, lambda: f"event {b.event} time {b.time} after the supernova")
    for nme, val in (("velocity", c["vk"]), ("azimuthal_angle", c["phi"]), ("mean_anomaly", c["M"]), ("polar_angle", c["theta"])):
        check_close(getattr(ex, "natal_kick_" + nme), val, "given natal kick " + nme, 1e-12)
    E, mt0, mt1, r, vr, vt, v = reference(m0, m1, mc, c["a"], c["e"], c["M"], vk, c["theta"], c["phi"])
    en = 0.5 * (v * v + vk * vk + 2 * v * vk * math.cos(c["theta"])) - phys.G * mt1 / r
    scale = phys.G * mt1 / r
    # orientation of the kick: polar angle from the pre-SN relative velocity; the code keeps sin(psi) to 5 decimals, so
    # evaluate the kick components over that interval
    s0 = vt / v
    sgn = -1.0 if E > math.pi else 1.0
    hs, Vs, tl = [], [], []
    for s in (s0, s0 - 6e-6, s0 + 6e-6, s0 - 3e-6, s0 + 3e-6):
        s = min(1.0, max(0.0, s))
        cpsi = sgn * math.sqrt(1 - s * s)
        ct, stt = math.cos(c["theta"]), math.sin(c["theta"])
        kx = vk * (stt * math.sin(c["phi"]) * s + ct * cpsi)
        ky = vk * (-stt * math.sin(c["phi"]) * cpsi + ct * s)
        kz = vk * stt * math.cos(c["phi"])
        ux, uy, uz = v * cpsi + kx, v * s + ky, kz
        hs.append(r * math.hypot(uy, uz))
        Vs.append(((m1 / (m1 + mc)) * ux - m0 / (m0 + mc) * v * cpsi, (m1 / (m1 + mc)) * uy - m0 / (m0 + mc) * v * s,
                   (m1 / (m1 + mc)) * uz))
        # signed angle between the orbital angular momenta (both perpendicular to x)
        tl.append(math.atan2(kz, uy))
    hmin, hmax = min(hs), max(hs)
    slack = 1e-9 * hmax + 0.5 * (hmax - hmin)
    hmin, hmax = max(0.0, hmin - slack), hmax + slack
    # radial-plunge and marginal cases are not decided (rounding)
    if abs(en) < 1e-6 * scale:
        return
    nontrivial(c["vk"] > 0 or m1 < m0, "bound" if en < 0 else "unbound")
    label("eccentric", c["e"] > 0)
    if en > 0:
        check(b.state == "disrupted", lambda: f"unbound orbit kept: state {b.state}")
        for k in ("separation", "eccentricity", "orbital_period"):
            check(getattr(b, k) != getattr(b, k), lambda: f"{k} = {getattr(b, k)} of a disrupted binary")
        check(b.inspiral_time != b.inspiral_time if hasattr(b, "inspiral_time") else True, "inspiral time of a disrupted binary")
        return
    A1 = -phys.G * mt1 / (2 * en)
    e2 = sorted((1 - h * h / (phys.G * mt1 * A1)) for h in (hmin, hmax))
    if e2[0] < 1e-9 and e2[1] < -1e-7:
        raise CheckError("reference orbit inconsistent")
    if e2[1] > 1 - 1e-9:
        return                                    # radial orbit, rounding decides
    check(b.state == "detached", lambda: f"bound orbit (E/E0={en / scale:.4g}) ended as {b.state}")
    check_close(b.separation, A1 / phys.RSUN, "post-SN separation (energy)", 1e-7)
    lo, hi = max(0.0, e2[0] - 1e-7), max(0.0, e2[1] + 1e-7)
    check(lo <= b.eccentricity ** 2 <= hi, lambda: f"post-SN e^2 {b.eccentricity ** 2} not in [{lo}, {hi}] (angular momentum)")
    check(0 <= b.eccentricity < 1, "eccentricity outside [0, 1)")
    check_close(b.orbital_period, phys.kepler_P(b.separation, b.star_1.mass, b.star_2.mass), "post-SN period", 1e-3)
    r1 = r / phys.RSUN
    check(b.separation * (1 - b.eccentricity) <= r1 * (1 + 2e-3) and r1 <= b.separation * (1 + b.eccentricity) * (1 + 2e-3),
          "the new orbit does not pass through the explosion site")
    vs = [float(x) * KM for x in b.V_sys]
    for i in range(3):
        lo, hi = min(x[i] for x in Vs), max(x[i] for x in Vs)
        d = 0.5 * (hi - lo) + 1e-6 * (v + vk)
        check(lo - d <= vs[i] <= hi + d, lambda: f"systemic velocity component {i}: {vs[i]} not in [{lo}, {hi}]")
    t = ex.spin_orbit_tilt_first_SN
    check(co.spin_orbit_tilt_first_SN == t, "tilts of the two stars differ after the first supernova")
    if hmin > 1e-3 * r * (v + vk):
        ok = any(abs(t - x) < 1e-6 or abs(abs(t - x) - 2 * math.pi) < 1e-6 for x in tl) or min(tl) - 1e-2 * (max(tl) - min(tl)) - 1e-6 <= t <= max(tl) + 1e-2 * (max(tl) - min(tl)) + 1e-6
        check(ok, lambda: f"spin-orbit tilt {t}, expected about {tl[0]}")


@sub("P07", "second", fixed(**{**geom, "vk2": one([0.0]) | lu(0.5, 200), "t1": u(-3.1, 3.1), "n1": u(-3.1, 3.1)}),
     quick=900, thorough=20000)
def second(c):
    """Second supernova: the exploding star gets the tilt of this kick, the other one the combination of both; a double
    compact object that stays bound gets its Peters merger time.  Non-trivial: stays bound."""
    sn = make_sn(c)
    b, ex, co = build(c, "NS" if c["mcomp"] < 2.4 else "BH", natal_kick_velocity=c["vk2"], natal_kick_azimuthal_angle=c["phi"],
                      natal_kick_polar_angle=c["theta"], natal_kick_mean_anomaly=c["M"])
    first = build(dict(c), "star", natal_kick_velocity=c["vk2"], natal_kick_azimuthal_angle=c["phi"],
                  natal_kick_polar_angle=c["theta"], natal_kick_mean_anomaly=c["M"])
    sn(first[0])                           # same kick as a first supernova, with a star as the companion
    b.first_SN_already_occurred = True
    for s_ in (ex, co):
        s_.spin_orbit_tilt_first_SN = c["t1"]
    b.true_anomaly_first_SN = c["n1"]
    sn(b)
    check(b.state == first[0].state, "fate depends on which supernova it is")
    check(ex.spin_orbit_tilt_first_SN == c["t1"] and co.spin_orbit_tilt_first_SN == c["t1"], "first tilt overwritten")
    if b.state != "detached":
        check(b.inspiral_time != b.inspiral_time, "inspiral time of a disrupted binary")
        return
    check_close(b.separation, first[0].separation, "separation", 1e-12)
    check_close(b.eccentricity, first[0].eccentricity, "eccentricity", 1e-12)
    t2 = first[1].spin_orbit_tilt_first_SN
    check_close(ex.spin_orbit_tilt_second_SN, t2, "tilt of the exploding star", 1e-9)
    # combined tilt: rotate L0 by t1 about x, then by t2 about the new line of nodes
    L0 = np.array([0.0, 0.0, 1.0])
    x1 = np.array([1.0, 0.0, 0.0])
    L1 = rot(x1, c["t1"], L0)
    dn = b.true_anomaly_second_SN - c["n1"]
    x2 = rot(L1, dn, x1)
    L2 = rot(x2, t2, L1)
    want = math.acos(max(-1.0, min(1.0, float(L2[2]))))
    got = co.spin_orbit_tilt_second_SN
    check(abs(math.cos(got) - math.cos(want)) < 1e-9 and 0 <= got <= math.pi, lambda: f"combined tilt {got}, expected {want}")
    want = phys.peters_time_myr(ex.mass, co.mass, b.separation, b.eccentricity)
    if b.eccentricity < 0.999:
        check_close(b.inspiral_time, want, "inspiral time of the double compact object", 2e-3)
    nontrivial(True, "bound")


def rot(axis, ang, v):
    """Rodrigues rotation."""
    k = axis / np.linalg.norm(axis)
    return v * math.cos(ang) + np.cross(k, v) * math.sin(ang) + k * np.dot(k, v) * (1 - math.cos(ang))


@sub("P07", "other_paths", fixed(**{**geom, "kind": one(["nokick", "wd", "disrupted", "merged", "initially_single_star",
                                                         "pisn", "chain"]), "wdm": u(0.5, 1.3)}),
     quick=900, thorough=15000)
def other_paths(c):
    """No-kick option, white-dwarf formation, explosion in an already disrupted/merged/single system, pair-instability
    disruption, and immediate collapse of a carbon-depleted companion.  Non-trivial: always."""
    k = c["kind"]
    nontrivial(True, k)
    w = c["which"]
    if k == "nokick":
        b, ex, co = build(c)
        make_sn(c, kick=False)(b)
        check_close(b.separation, c["a"] * (c["mstar"] + c["mcomp"]) / (ex.mass + c["mcomp"]), "separation without a kick", 1e-9)
        check_close(b.orbital_period, phys.kepler_P(b.separation, ex.mass, co.mass), "period without a kick", 1e-3)
        check(b.event is None and b.state == "detached", "event/state without a kick")
    elif k == "wd":
        b, ex, co = build(c)
        ex.co_core_mass = ex.co_core_mass_history[-1] = c["wdm"]
        ex.he_core_mass = ex.he_core_mass_history[-1] = c["wdm"] * 1.02
        make_sn(c)(b)
        check(ex.state == "WD", lambda: f"core of {c['wdm']} became {ex.state}")
        check_close(ex.mass, c["wdm"], "white-dwarf mass", 1e-12)
        check_close(b.separation, c["a"] * (c["mstar"] + c["mcomp"]) / (ex.mass + c["mcomp"]), "separation after WD formation", 1e-9)
        check_close(b.eccentricity, c["e"], "eccentricity after WD formation", 1e-12)
        check_close(b.orbital_period, phys.kepler_P(b.separation, ex.mass, co.mass), "period after WD formation", 1e-3)
        check(b.event is None and b.state == "detached" and b.time == 1e7, "event/state/time after WD formation")
    elif k in ("disrupted", "merged", "initially_single_star"):
        b, ex, co = build(c, state=k)
        make_sn(c)(b)
        check(b.state == k and b.event is None, lambda: f"{k} system became {b.state}/{b.event}")
        check(ex.state in ("NS", "BH") and 0 < ex.mass <= c["mstar"], "remnant")
        for q in ("separation", "eccentricity", "orbital_period"):
            v = getattr(b, q)
            check(v != v, lambda: f"{q}={v} in a {k} system")
        check(b.time == 1e7, "time lost")
    elif k == "pisn":
        c = dict(c, mstar=90.0 + c["mstar"] / 10, stripped=True)
        b, ex, co = build(c)
        make_sn(dict(c, mech=1), PISN="Marchant+19")(b)
        check(ex.state == "massless_remnant" and ex.mass == 0.0, lambda: f"pair instability left {ex.state} of {ex.mass}")
        check(b.state == "disrupted" and b.event is None, "pair instability leaves a binary")
        check(co.mass == c["mcomp"], "companion mass changed")
    else:
        b, ex, co = build(c, "cdep", natal_kick_velocity=0.0, natal_kick_azimuthal_angle=0.0, natal_kick_polar_angle=0.0,
                          natal_kick_mean_anomaly=0.0)
        make_sn(c)(b)
        if b.state == "detached":
            check(b.event == "CC%d" % (3 - w), lambda: f"carbon-depleted companion gets event {b.event}")


kick_cfg = fixed(seed=seeds(), which=one([1, 2]), stripped=st.booleans(), mstar=lu(3, 60), fhe=u(0.4, 0.95), fco=u(0.55, 0.9),
                 mcomp=u(5, 20), sig=lu(10, 500), norm=one(["one_over_mass", "one_minus_fallback",
                 "NS_one_minus_fallback_BH_one", "one", "zero"]), mech=one([0, 1, 1, 2, 3]), neut=one([0.5]), a=one([50.0]), e=one([0.0]))


@sub("P07", "kick_draws", kick_cfg, quick=480, thorough=6000)
def kick_draws(c):
    """Drawn kicks: same seed same kick, proportional to the dispersion and the fallback/mass normalisation, with
    the dispersion chosen by remnant type; angles in range; drawn once and remembered.  Non-trivial: non-zero kick."""
    def go(norm, sns, sbh, seed=c["seed"]):
        sn = make_sn(c, kick_normalisation=norm, sigma_kick_CCSN_NS=sns, sigma_kick_CCSN_BH=sbh,
                     RNG=np.random.default_rng(seed))
        b, ex, co = build(c)
        sn(b)
        return ex, b
    ex, b = go(c["norm"], c["sig"], 2 * c["sig"])
    ref, _ = go("one", 1.0, 1.0)
    s = c["sig"] * (2 if ex.state == "BH" else 1)
    f = ex.f_fb
    check(0 <= f <= 1 + 1e-12, lambda: f"fallback fraction {f}")
    n = dict(one_over_mass=1.4 / ex.mass if ex.state == "BH" else 1.0, one_minus_fallback=1 - f,
             NS_one_minus_fallback_BH_one=1.0 if ex.state == "BH" else 1 - f, one=1.0, zero=0.0)[c["norm"]]
    check_close(ex.natal_kick_velocity, ref.natal_kick_velocity * s * n, "kick magnitude", 1e-9, 1e-12)
    check(0 <= ex.natal_kick_polar_angle <= math.pi, "polar angle range")
    check(0 <= ex.natal_kick_azimuthal_angle <= 2 * math.pi and 0 <= ex.natal_kick_mean_anomaly <= 2 * math.pi, "angle range")
    ex2, b2 = go(c["norm"], c["sig"], 2 * c["sig"])
    for k in ("velocity", "azimuthal_angle", "polar_angle", "mean_anomaly"):
        check(getattr(ex2, "natal_kick_" + k) == getattr(ex, "natal_kick_" + k), "same seed, other kick")
    nontrivial(ex.natal_kick_velocity > 0, ex.state)


@sub("P07", "kick_statistics", fixed(seed=seeds(), pres=one(["maxwellian", "log_normal"])), quick=8, thorough=80)
def kick_statistics(c):
    """600 drawn kicks: Maxwellian (or log-normal) speed, isotropic direction, uniform phase, within 6 standard errors.
    Non-trivial: always."""
    kw = {} if c["pres"] == "maxwellian" else dict(kick_prescription="log_normal", sigma_kick_CCSN_NS=0.68,
                                                   mean_kick_CCSN_NS=200.0)
    sn = make_sn(dict(mech=0, neut=0.5), kick_normalisation="one", RNG=np.random.default_rng(c["seed"]), **kw)
    d = dict(mstar=4.0, stripped=True, fhe=1, fco=0.6, mcomp=10.0, a=50.0, e=0.0, which=1)
    out = []
    for _ in range(600):
        b, ex, co = build(d)
        sn(b)
        out.append((ex.natal_kick_velocity, math.cos(ex.natal_kick_polar_angle), ex.natal_kick_azimuthal_angle,
                    ex.natal_kick_mean_anomaly))
    v, ct, phi, M = np.array(out).T
    nontrivial()
    if c["pres"] == "maxwellian":
        mom = (2 * 265 * math.sqrt(2 / math.pi), 265 * math.sqrt(3 - 8 / math.pi))
        check(abs(np.mean(v) - mom[0]) < 6 * mom[1] / math.sqrt(600), lambda: f"mean kick {np.mean(v)}")
        check(abs(np.mean(v ** 2) - 3 * 265 ** 2) < 6 * 265 ** 2 * math.sqrt(6) / math.sqrt(600), "mean square kick")
    else:
        check(abs(np.mean(np.log(v)) - math.log(200)) < 6 * 0.68 / math.sqrt(600), "log-normal kick")
        check(abs(np.std(np.log(v)) - 0.68) < 6 * 0.68 / math.sqrt(1200), "log-normal kick dispersion")
    for x, lo, hi in ((ct, -1, 1), (phi, 0, 2 * math.pi), (M, 0, 2 * math.pi)):
        z = (x - lo) / (hi - lo)
        check(abs(np.mean(z) - 0.5) < 6 / math.sqrt(12 * 600), "direction/phase not uniform (mean)")
        check(abs(np.mean((z - 0.5) ** 2) - 1 / 12) < 6 * math.sqrt(1 / 180 / 600), "direction/phase not uniform (variance)")


@sub("P07", "kick_by_type", fixed(seed=seeds(), which=one([1, 2]), kind=one(["ecsn", "linear", "asym_ej"]), mstar=lu(3, 40),
                                  stripped=st.booleans(), fhe=u(0.4, 0.95), fco=u(0.55, 0.9), mcomp=u(5, 20), sig=lu(5, 100),
                                  mec=u(1.371, 1.429)), quick=320, thorough=4000)
def kick_by_type(c):
    """Electron-capture supernovae use their own dispersion; the linear and asymmetric-ejecta prescriptions give their
    published formula from the pre-supernova core and the remnant.  Non-trivial: always."""
    d = dict(c, a=50.0, e=0.0, mech=1, neut=0.5)
    nontrivial(True, c["kind"])
    if c["kind"] == "ecsn":
        out = []
        for sig in (c["sig"], 1.0):
            b, ex, co = build(d)
            ex.co_core_mass = ex.co_core_mass_history[-1] = c["mec"]
            make_sn(d, sigma_kick_ECSN=sig, sigma_kick_CCSN_NS=777.0, RNG=np.random.default_rng(c["seed"]))(b)
            check(ex.state == "NS" and ex.SN_type == "ECSN", lambda: f"core {c['mec']}: {ex.state}, {ex.SN_type}")
            out.append(ex.natal_kick_velocity)
        check_close(out[0], out[1] * c["sig"], "electron-capture kick", 1e-9)
        check(out[1] < 8.0, "electron-capture kick does not use its own dispersion")
        return
    b, ex, co = build(d)
    mco = ex.co_core_mass
    make_sn(d, kick_prescription=c["kind"], kick_normalisation="one")(b)
    if c["kind"] == "linear":
        want = 115 * (mco - ex.mass) / ex.mass + 15
    else:
        bary = ((1 + 3 * ex.mass / 20) ** 2 - 1) / 0.3
        want = 211 * math.sqrt(0.01) * 0.1 * abs(c["mstar"] - bary) / 0.1 / (ex.mass / 1.5)
    check_close(ex.natal_kick_velocity, want, c["kind"] + " kick", 1e-9)
