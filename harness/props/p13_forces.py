"""P13 right-hand side and events of the detached-binary equations."""
import math
import warnings

import numpy as np

from core import *
import phys

from posydon.binary_evol.DT.step_detached import detached_evolution
import posydon.utils.constants as const

KEYS = ["mass", "R", "L", "inertia", "mdot", "Idot", "surface_h1", "mass_conv_reg_fortides", "thickness_conv_reg_fortides", "radius_conv_reg_fortides",
        "conv_mx1_top_r", "conv_mx1_bot_r", "conv_env_turnover_time_l_b"]


class Interp:
    """What the ODE asks of a star's track: keys and values at a time (here constant, or linear in time for the radius)."""
    keys = KEYS + ["omega"]

    def __init__(self, v):
        self.v = v

    def __call__(self, t):
        d = {k: self.v.get(k, 0.0) for k in self.keys}
        if np.ndim(t):
            d = {k: x * np.ones(len(t)) for k, x in d.items()}
        return d


class Star:
    co = False

    def __init__(self, v, tmax=1e7, toff=0.0):
        self.interp1d, self.t_max, self.t_offset = Interp(v), tmax, toff


MODES = ["RVJ83", "M15", "G18", "CARB"]
ON = ["do_tides", "do_gravitational_radiation", "do_magnetic_braking", "do_wind_loss", "do_stellar_evolution_and_spin_from_winds"]


def evo(c, on, swap=False, mode=None):
    ev = detached_evolution(**{k: k in on for k in ON}, magnetic_braking_mode=mode or c["mode"])
    s, p = Star(values(c["s"])), Star(values(c["p"]))
    ev.set_stars(s if swap else p, p if swap else s, t0=0.0)
    return ev


def values(c):
    v = {"mass": c["m"], "R": c["R"], "L": c["L"], "inertia": c["k"] * c["m"] * c["R"] ** 2, "mdot": -c["md"], "Idot": c["Id"] * c["k"] * c["m"] * c["R"] ** 2,
         "surface_h1": c["X"], "mass_conv_reg_fortides": c["env"] * c["m"], "thickness_conv_reg_fortides": c["env"] * c["R"],
         "radius_conv_reg_fortides": (1 - 0.5 * c["env"]) * c["R"], "conv_mx1_top_r": c["top"] * c["R"], "conv_mx1_bot_r": c["bot"] * c["R"],
         "conv_env_turnover_time_l_b": c["tau"]}
    return v


body = fixed(m=lu(0.2, 100), R=lu(0.1, 1000), L=lu(0.05, 1e6), k=lu(0.005, 0.3), md=one([0.0]) | lu(1e-14, 1e-4), Id=u(-1e-6, 1e-6), X=u(0, 0.75),
             env=one([0.0, 0.0]) | u(0.001, 0.8), top=u(0, 1.2), bot=one([0.0, 0.0]) | u(0, 0.5), tau=lu(1e-3, 1.0), w=u(0, 0.7))
light = fixed(m=u(0.3, 1.7), R=lu(0.3, 5), L=lu(0.05, 100), k=lu(0.02, 0.3), md=one([0.0]) | lu(1e-14, 1e-9), Id=u(-1e-6, 1e-6), X=u(0, 0.75),
              env=u(0.001, 0.8), top=u(0, 1.2), bot=u(0, 0.3), tau=lu(1e-3, 1.0), w=lu(1e-5, 0.5))
anyb = body | light
case = fixed(s=anyb, p=anyb, x=lu(1.0, 300.0), e=one([0.0]) | u(1e-3, 0.9), mode=one(MODES))


def orbit(c):
    """Separation: x times the sum of the radii over (1-e)."""
    return c["x"] * (c["s"]["R"] + c["p"]["R"]) / (1 - c["e"])


def wcrit(s):
    return math.sqrt(phys.G * s["m"] * phys.MSUN / (s["R"] * phys.RSUN) ** 3) * phys.YR


def vec(c):
    return [orbit(c), c["e"], c["s"]["w"] * wcrit(c["s"]), c["p"]["w"] * wcrit(c["p"])]


def rhs(ev, y):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [float(v) for v in ev(0.0, list(y))]


def hut(star, other, a, e, w):
    """(da, de, dOmega) raised by tides in `star` (Hut 1981 eqs 9-11; Hurley+02 and Qin+18 time scales), per year."""
    s = values(star)
    m, R, q = s["mass"], s["R"], other["m"] / star["m"]
    P = math.sqrt((a / const.aursun) ** 3 / (star["m"] + other["m"]))
    n = 2 * math.pi / P
    conv = 0.0
    if s["mass_conv_reg_fortides"] > 0:
        tau = 0.431 * (s["mass_conv_reg_fortides"] * s["thickness_conv_reg_fortides"] * s["radius_conv_reg_fortides"] / (3 * s["L"])) ** (1 / 3)
        rate = abs(n - w) / (2 * math.pi)
        f = 1.0 if rate == 0 else min(1.0, (1 / rate / (2 * tau)) ** 2)
        conv = 2.0 / 21 * f / tau * s["mass_conv_reg_fortides"] / m
    core = s["conv_mx1_top_r"] - s["conv_mx1_bot_r"]
    if core > R or core <= 0 or s["conv_mx1_bot_r"] / R > 0.1:
        E2 = 1.592e-9 * m ** 2.84
    elif s["surface_h1"] > 0.4:
        E2 = 10 ** -0.42 * (core / R) ** 7.5
    else:
        E2 = 10 ** -0.93 * (core / R) ** 6.7
    rad = math.sqrt(phys.G * m * phys.MSUN / (R * phys.RSUN) ** 3) * (R / a) ** 2.5 * (1 + q) ** (5 / 6) * E2 * phys.YR
    k = max(conv, rad)
    b = math.sqrt(1 - e * e)
    f1 = 1 + 31 / 2 * e ** 2 + 255 / 8 * e ** 4 + 185 / 16 * e ** 6 + 25 / 64 * e ** 8
    f2 = 1 + 15 / 2 * e ** 2 + 45 / 8 * e ** 4 + 5 / 16 * e ** 6
    f3 = 1 + 15 / 4 * e ** 2 + 15 / 8 * e ** 4 + 5 / 64 * e ** 6
    f4 = 1 + 3 / 2 * e ** 2 + 1 / 8 * e ** 4
    f5 = 1 + 3 * e ** 2 + 3 / 8 * e ** 4
    W = w / n
    da = -6 * k * q * (1 + q) * (R / a) ** 8 * a / b ** 15 * (f1 - b ** 3 * f2 * W)
    de = -27 * k * q * (1 + q) * (R / a) ** 8 * e / b ** 13 * (f3 - 11 / 18 * b ** 3 * f4 * W)
    dO = 3 * k * q * q * m * R * R / s["inertia"] * (R / a) ** 6 * n / b ** 12 * (f2 - b ** 3 * f5 * W)
    scale = (6 * k * q * (1 + q) * (R / a) ** 8 * a / b ** 15 * (f1 + b ** 3 * f2 * W), 27 * k * q * (1 + q) * (R / a) ** 8 / b ** 13 * (f3 + f4 * W),
             3 * k * q * q * m * R * R / s["inertia"] * (R / a) ** 6 * n / b ** 12 * (f2 + b ** 3 * f5 * W))
    return (da, de, dO), scale


def zero_except(got, idx):
    check(all(g == 0 for i, g in enumerate(got) if i not in idx), lambda: f"other derivatives affected: {got}")


@sub("P13", "tides", case, quick=2500, thorough=60000)
def tides(c):
    """Tidal derivatives: conservation of total angular momentum, direction towards synchronism, and Hut's equations.
    Non-trivial: the orbital change is not negligible (above 1e-16 per year)."""
    y = vec(c)
    got = rhs(evo(c, ["do_tides"]), y)
    a, e, w2, w1 = y
    (da2, de2, dO2), sc2 = hut(c["s"], c["p"], a, e, w2)
    (da1, de1, dO1), sc1 = hut(c["p"], c["s"], a, e, w1)
    nontrivial(abs(got[0]) > 1e-16 * a, "acting")
    label("eccentric", e > 0)
    for i, (g, w, s) in enumerate(zip(got, (da2 + da1, de2 + de1, dO2, dO1), (sc2[0] + sc1[0], sc2[1] + sc1[1], sc2[2], sc1[2]))):
        check(abs(g - w) <= 1e-3 * s + 1e-300, lambda: f"tidal derivative {i}: {g}, expected {w}")
    # angular momentum: J_orb ~ mu n a^2 sqrt(1-e^2)
    m1, m2 = c["p"]["m"], c["s"]["m"]
    n = 2 * math.pi / math.sqrt((a / const.aursun) ** 3 / (m1 + m2))
    J = m1 * m2 / (m1 + m2) * n * a * a * math.sqrt(1 - e * e)
    dJ = J * (got[0] / (2 * a) - e * got[1] / (1 - e * e))
    I2, I1 = values(c["s"])["inertia"], values(c["p"])["inertia"]
    size = J * (sc1[0] + sc2[0]) / (2 * a) + J * e * (sc1[1] + sc2[1]) / (1 - e * e) + I2 * sc2[2] + I1 * sc1[2]
    check(abs(dJ + I2 * got[2] + I1 * got[3]) <= 1e-9 * size, "tides do not conserve the total angular momentum")
    if e == 0:
        for s, dO, w, k in ((c["s"], got[2], w2, 2), (c["p"], got[3], w1, 1)):
            if abs(w / n - 1) > 1e-6 and dO != 0:
                check((dO > 0) == (w < n), "tides drive the spin away from synchronism")
    zero = rhs(evo(c, ["do_tides"], swap=True), [a, e, w1, w2])
    check(all(abs(p - q) <= 1e-12 * max(abs(p), abs(q), s) for p, q, s in zip(zero, [got[0], got[1], got[3], got[2]],
                                                                      (sc2[0] + sc1[0], sc2[1] + sc1[1], sc1[2], sc2[2]))), "the labelling of the stars matters for tides")


@sub("P13", "winds", case, quick=1200, thorough=30000)
def winds(c):
    """Orbit under non-conservative winds (a (m1+m2) constant) and spins under mass loss and structural change.
    Non-trivial: at least one star loses mass."""
    y = vec(c)
    got = rhs(evo(c, ["do_wind_loss"]), y)
    M = c["s"]["m"] + c["p"]["m"]
    want = y[0] * (c["s"]["md"] + c["p"]["md"]) / M
    nontrivial(want > 0, "mass loss")
    check(abs(got[0] - want) <= 1e-9 * y[0] * (c["s"]["md"] / c["s"]["m"] + c["p"]["md"] / c["p"]["m"]), lambda: f"wind widening {got[0]}, expected {want}")
    zero_except(got, [0])
    got = rhs(evo(c, ["do_stellar_evolution_and_spin_from_winds"]), y)
    zero_except(got, [2, 3])
    for g, s, w in ((got[2], c["s"], y[2]), (got[3], c["p"], y[3])):
        v = values(s)
        loss = -2.0 / 3 * v["R"] ** 2 * w * s["md"]
        shape = min(-w * v["Idot"], 100 * v["inertia"])
        check(abs(g * v["inertia"] - loss - shape) <= 1e-9 * (abs(loss) + abs(shape)), "angular momentum of the star and its wind")


def brake(mode, s, w):
    """Torque over moment of inertia (rad/yr^2) of one star, in cgs inside."""
    m, R, I = s["m"] * phys.MSUN, s["R"] * phys.RSUN, values(s)["inertia"] * phys.MSUN * phys.RSUN ** 2
    W, tau = w / phys.YR, s["tau"] * phys.YR
    if mode == "RVJ83":
        T = 3.8e-30 * m * R ** 4 * W ** 3
    elif mode == "M15":
        g = math.sqrt(1 + (w / wcrit(s) / 0.072) ** 2)
        T0 = 1.4e30 * s["R"] ** 3.1 * s["m"] ** 0.5 * g ** (-0.44)
        Ro = 2 * math.pi / W / tau
        if Ro < 0.14:
            T = T0 * (2.0 / 0.14) ** 2.6 * (W / 2.6e-6)
        else:
            T = T0 * (tau / (12.9 * phys.YR / 365.25)) ** 2.6 * (W / 2.6e-6) ** 3.6
        if abs(Ro / 0.14 - 1) < 1e-3:
            return None
    elif mode == "G18":
        Ro = 2 * math.pi / W / tau
        n = 0.03 / Ro + 0.5 * Ro + 1
        T = 3e41 * W ** 3 * tau * 4.05 * math.exp(-1.4 * n)
    else:
        md = s["md"] * phys.MSUN / phys.YR
        if md == 0:
            return 0.0
        v2 = 2 * phys.G * m / R + 2 * (W * R) ** 2 / 0.07 ** 2
        Ra = R * (R ** 4 * (W / 3e-6) ** 4 * (tau / 2.8e6) ** 4 / (md ** 2 * v2)) ** (1 / 3)
        T = 2.0 / 3 * W * md * Ra ** 2
    return -T / I * phys.YR ** 2 * min(max((1.5 - s["m"]) / 0.2, 0), 1)


@sub("P13", "braking", fixed(s=light, p=light | body, x=lu(1.0, 300.0), e=u(0, 0.5), mode=one(MODES)), quick=3000, thorough=60000)
def braking(c):
    """Magnetic braking by every published law, evaluated in cgs, for both stars.  Non-trivial: braking acts on both stars."""
    y = vec(c)
    got = rhs(evo(c, ["do_magnetic_braking"]), y)
    zero_except(got, [2, 3])
    acting = 0
    for g, s, w, who in ((got[2], c["s"], y[2], "secondary"), (got[3], c["p"], y[3], "primary")):
        check(g <= 0, "braking spins a star up")
        if s["m"] >= 1.5:
            check(g == 0, lambda: f"a {s['m']} Msun star is braked")
        if w <= 0:
            continue
        want = brake(c["mode"], s, w)
        if want is None:
            continue
        acting += want < 0
        check(abs(g - want) <= 2e-3 * abs(want) + 1e-300, lambda: f"{c['mode']} braking of the {who}: {g}, expected {want}")
    nontrivial(acting == 2, c["mode"])


@sub("P13", "gravitational", fixed(s=body, p=body, x=lu(1.0, 300), e=one([0.0]) | u(1e-3, 0.95), mode=one(MODES), la=u(-3, 4)), quick=1500, thorough=40000)
def gravitational(c):
    """Orbital decay by gravitational radiation with its 1PN correction (Junker & Schaefer 1992), any separation above
    1e-3 Rsun.  Non-trivial: eccentric orbits."""
    y = vec(c)
    m1, m2 = c["p"]["m"], c["s"]["m"]
    a = 10 ** c["la"]
    g = phys.G * (m1 + m2) * phys.MSUN / (a * phys.RSUN * phys.C ** 2)
    if g > 2e-2:
        return
    y[0] = a
    got = rhs(evo(c, ["do_gravitational_radiation"]), y)
    zero_except(got, [0, 1])
    nu, e = m1 * m2 / (m1 + m2) ** 2, c["e"]
    A = (96 + 292 * e ** 2 + 37 * e ** 4) * (1 - e * e)
    Ac = (14008 + 4704 * nu + (80124 + 21560 * nu) * e ** 2 + (17325 + 10458 * nu) * e ** 4 - 0.5 * (5501 - 1036 * nu) * e ** 6) / 28
    da = -2 / 15 * phys.C * nu / (1 - e * e) ** 4.5 * g ** 3 * (A - g * Ac) * phys.YR / phys.RSUN
    B = (304 + 121 * e ** 2) * (1 - e * e)
    Bc = (8 * (16705 + 4676 * nu) + 12 * (9082 + 2807 * nu) * e ** 2 - (25211 - 3388 * nu) * e ** 4) / 56
    de = -1 / 15 * nu * phys.C / (a * phys.RSUN) * g ** 3 * e / (1 - e * e) ** 3.5 * (B - g * Bc) * phys.YR
    nontrivial(e > 0, "eccentric")
    label("relativistic", g > 1e-4)
    check(abs(got[0] - da) <= 1e-7 * abs(da), lambda: f"gravitational-wave da/dt {got[0]}, expected {da}")
    check(abs(got[1] - de) <= 1e-7 * abs(de), lambda: f"gravitational-wave de/dt {got[1]}, expected {de}")


@sub("P13", "combination", fixed(s=anyb, p=anyb, x=lu(1.0, 300.0), e=one([0.0, 1e-4, 9e-4, 1.1e-3]) | u(0, 0.9), mode=one(MODES), on=st.lists(one(ON), unique=True),
                                 bad=one([None, None, None, "neg_e", "neg_w", "nan"])), quick=1500, thorough=30000)
def combination(c):
    """Switches: the derivatives are the sum of the processes switched on; exchanging the two stars exchanges the result;
    tiny eccentricities count as circular; negative integrator excursions and undefined stellar quantities give finite
    derivatives.  Non-trivial: at least two processes are on."""
    y = vec(c)
    cc = c
    if c["bad"] == "neg_e":
        y[1] = -1e-3
    elif c["bad"] == "neg_w":
        y[2], y[3] = -1.0, -1.0
    got = rhs(evo(c, c["on"]), y)
    nontrivial(len(c["on"]) > 1, "several")
    check(all(math.isfinite(g) for g in got), "a derivative is not finite")
    total = [0.0] * 4
    mag = [0.0] * 4
    for k in c["on"]:
        part = rhs(evo(c, [k]), y)
        total = [t + p for t, p in zip(total, part)]
        mag = [t + abs(p) for t, p in zip(mag, part)]
    check(all(abs(g - t) <= 1e-12 * m for g, t, m in zip(got, total, mag)), lambda: f"not the sum of {c['on']}: {got} vs {total}")
    sw = rhs(evo(c, c["on"], swap=True), [y[0], y[1], y[3], y[2]])
    sw = [sw[0], sw[1], sw[3], sw[2]]
    check(all(abs(g - t) <= 1e-9 * m + 1e-300 for g, t, m in zip(got, sw, mag)), lambda: f"exchanging the stars changes {got} to {sw} ({c['on']}, {c['mode']})")
    if y[1] < 1e-3:
        label("tiny eccentricity")
        circ = rhs(evo(c, c["on"]), [y[0], 0.0, y[2], y[3]])
        check(all(abs(g - t) <= 1e-12 * m + 1e-300 for g, t, m in zip(got, circ, mag)), "a negligible eccentricity is not treated as circular")
    if c["bad"] == "nan":
        ev = evo(c, c["on"])
        ev.secondary.interp1d.v.update({k: float("nan") for k in KEYS if k not in ("mass", "R")})
        res = rhs(ev, y)
        check(all(math.isfinite(g) for g in res), "undefined stellar quantities poison the integration")
    if "do_magnetic_braking" in c["on"]:
        res = rhs(evo(c, ["do_magnetic_braking"], mode="none-such"), y)
        check(all(r == 0 for r in res), "an unknown braking law brakes")


@sub("P13", "events", fixed(s=anyb, p=anyb, x=lu(0.3, 30.0), e=u(0, 0.9), mode=one(MODES), t=u(0, 2e7), t1=u(1, 2e7), t2=u(1, 2e7), o1=u(-1e6, 1e6), o2=u(-1e6, 1e6)),
     quick=1200, thorough=30000)
def events(c):
    """Event functions: zero when a star fills 95 per cent of its Roche lobe at periastron, or reaches the end of its track;
    the relative overflow reported is (R-RL)/RL at periastron.  Non-trivial: one star overflows."""
    ev = evo(c, [])
    ev.primary.t_max, ev.primary.t_offset, ev.secondary.t_max, ev.secondary.t_offset = c["t1"], c["o1"], c["t2"], c["o2"]
    a = orbit(c)
    y = [a, c["e"], 1.0, 1.0]
    peri = a * (1 - c["e"])
    lobe = {"s": phys.eggleton(c["s"]["m"] / c["p"]["m"]) * peri, "p": phys.eggleton(c["p"]["m"] / c["s"]["m"]) * peri}
    nontrivial(any(c[k]["R"] > 0.95 * lobe[k] for k in "sp"), "overflow")
    for f, rel, k in ((ev.ev_rlo1, ev.ev_rel_rlo1, "s"), (ev.ev_rlo2, ev.ev_rel_rlo2, "p")):
        g = float(f(c["t"], y))
        over = c[k]["R"] - 0.95 * lobe[k]
        if abs(over) > 1e-6 * lobe[k]:
            check((g > 0) == (over > 0), lambda: f"Roche-lobe event of {k}: {g}, R={c[k]['R']}, 0.95 lobe={0.95 * lobe[k]}")
        check_close(float(rel(c["t"], y)), (c[k]["R"] - lobe[k]) / lobe[k], "relative overflow", 1e-6, 1e-6)
        check(f.terminal and f.direction == 1, "overflow must end the step when the star grows into its lobe")
    for f, tm in ((ev.ev_max_time1, c["t2"] + c["o2"]), (ev.ev_max_time2, c["t1"] + c["o1"])):
        g = float(f(c["t"], y))
        if abs(tm - c["t"]) > 1:
            check((g > 0) == (c["t"] < tm), "end-of-track event")
        check(f.terminal and f.direction == -1, "the end of the track must end the step")
