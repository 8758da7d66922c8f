"""P10 common envelope: alpha-lambda energy balance, fate and post-CE binary."""
import math

import numpy as np

from core import *
import phys

import posydon.utils.constants as const
from posydon.utils import common_functions as cf
from posydon.binary_evol.CE.step_CEE import StepCEE
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.track_match import TrackMatcher

G, MO, RO = const.standard_cgrav, const.Msun, const.Rsun
GIANT = ["H-rich_Shell_H_burning", "H-rich_Core_He_burning", "H-rich_Core_He_depleted", "H-rich_Core_C_depleted", "H-rich_non_burning"]
HEG = ["stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted", "stripped_He_non_burning"]
MS = ["H-rich_Core_H_burning", "stripped_He_Core_He_burning"]

giant = fixed(m=lu(2, 60), f=u(0.2, 0.75), logR=u(0.5, 3.2), rc=lu(0.02, 5), s=one(GIANT + HEG), lam=lu(0.03, 2), g=u(0.8, 1.3),
              fco=u(0.3, 0.9), Z=one([1.0, 0.1, 1e-4]))
case = fixed(d=giant, c=giant, kind=one(["MS", "NS", "BH", "giant", "giant"]), mc=lu(1.2, 40), rMS=lu(0.5, 30), P=lu(0.5, 3000), which=one([1, 2]),
             alpha=lu(0.05, 10), lopt=one(["default_lambda", "lambda_from_grid_final_values", "lambda_from_grid_final_values"]), ldef=lu(0.05, 2), hfrac=one([0.01, 0.1, 0.3]),
             after=one(["two_phases_stableMT", "two_phases_windloss", "one_phase_variable_core_definition"]),
             hg=one(["optimistic", "pessimistic"]), nan=one([False] * 9 + [True]), e=one([0.0, 0.3]), rnew=u(0.1, 1.2), tol=one([0.001]))


def mkgiant(g, nan=False):
    he = "stripped" in g["s"]
    m, f = g["m"], g["f"]
    d = dict(mass=m, log_R=g["logR"], state=g["s"], metallicity=g["Z"], log_LH=2.0, log_LHe=2.5, log_Lnuc=3.0, center_h1=0.0,
             center_he4=0.0 if "depleted" in g["s"] or "non" in g["s"] else 0.5, center_c12=0.0 if "C_depl" in g["s"] else 0.3, center_n14=0.0, center_o16=0.2,
             surface_h1=0.0 if he else 0.6, surface_he4=0.98 if he else 0.38)
    mc = m * f
    if he:
        d.update(he_core_mass=m, he_core_radius=10 ** g["logR"], co_core_mass=mc, co_core_radius=g["rc"] * 0.8)
    else:
        d.update(he_core_mass=mc, he_core_radius=g["rc"] * 0.8, co_core_mass=mc * g["fco"], co_core_radius=g["rc"] * 0.2)
    # core definitions: mass grows with the hydrogen threshold
    b = mc * g["g"]
    for i, k in enumerate(("1cent", "10cent", "30cent")):
        d["m_core_CE_" + k] = min(b * (1 + 0.05 * i), 0.97 * m)
        d["r_core_CE_" + k] = g["rc"] * (1 + 0.2 * i)
        d["lambda_CE_" + k] = math.nan if nan else g["lam"] * (1 - 0.2 * i)
    d["m_core_CE_pure_He_star_10cent"] = min(b, 0.97 * m)
    d["r_core_CE_pure_He_star_10cent"] = g["rc"]
    d["lambda_CE_pure_He_star_10cent"] = math.nan if nan else g["lam"]
    return SingleStar(**d), d


def core(c, d):
    """(lambda, core mass, core radius, post mass, post radius, type)."""
    he = "stripped" in d["state"]
    own = ("co_core_mass", "co_core_radius") if he else ("he_core_mass", "he_core_radius")
    if c["lopt"] == "default_lambda":
        return c["ldef"], d[own[0]], d[own[1]], min(d[own[0]], d[own[0]]), d[own[1]], he
    t = "pure_He_star_10cent" if he else {0.01: "1cent", 0.1: "10cent", 0.3: "30cent"}[c["hfrac"]]
    mc = d["m_core_CE_" + t]
    return d["lambda_CE_" + t], mc, d["r_core_CE_" + t], min(d[own[0]], mc), d[own[1]], he


class Matcher(TrackMatcher):
    """Matches the stars it is asked to match to a track of the given radius."""

    def __init__(self, which, R):
        self.which, self.R, self.calls = which, R, 0
        self.matched = []

    def do_matching(self, binary, step_name="step_match", match_secondary=True, match_primary=True):
        self.calls += 1
        R = self.R
        pri, sec, co = self.determine_star_states(binary)
        for s, m in ((pri, match_primary), (sec, match_secondary)):
            if m:
                s.interp1d = lambda t: {"R": R}
                self.matched.append(s)
        return pri, sec, co


def overflows(m1, r1, m2, r2, a, tol):
    d1, d2 = r1 - phys.eggleton(m1 / m2) * a, r2 - phys.eggleton(m2 / m1) * a
    if min(abs(d1 - tol), abs(d2 - tol)) < 1e-6 * a:
        return None
    return not (d1 < tol and d2 < tol)


def period_after(P, mdi, mdf, ma, wind):
    """wind: fast isotropic from the donor (a M const -> P M^2 const); else isotropic re-emission from the accretor:
    integrate dlna = -2 dlnMd ... by the closed angular-momentum law h = m2/m1 ratio integral."""
    if wind:
        return P * ((mdi + ma) / (mdf + ma)) ** 2
    # J = mu sqrt(G M a); dJ/J = (Md/Ma)/M dMd  (specific angular momentum of the accretor)
    n = 4000
    x, w = np.polynomial.legendre.leggauss(60)
    md = 0.5 * (mdi - mdf) * x + 0.5 * (mdi + mdf)
    dlnJ = -0.5 * (mdi - mdf) * float(np.sum(w * md / ma / (md + ma)))
    ai = 1.0
    mu = lambda a, b: a * b / (a + b)
    Jr = math.exp(dlnJ)
    a = (Jr * mu(mdi, ma) * math.sqrt((mdi + ma) * ai) / mu(mdf, ma)) ** 2 / (mdf + ma)
    return P * math.sqrt(a ** 3 / (mdf + ma) * (mdi + ma))


def setup(c, profile=False):
    donor, dd = mkgiant(c["d"], c["nan"])
    dbl = c["kind"] == "giant"
    if dbl:
        comp, cd = mkgiant(c["c"])
    elif c["kind"] == "MS":
        cd = dict(mass=c["mc"], log_R=math.log10(c["rMS"]), state="H-rich_Core_H_burning")
        comp = SingleStar(center_h1=0.5, center_he4=0.3, center_c12=0.0, surface_h1=0.7, surface_he4=0.28, log_LH=3.0, log_LHe=-10.0, log_Lnuc=3.0,
                          he_core_mass=0.0, metallicity=1.0, **cd)
    else:
        cd = dict(mass=min(c["mc"], 2.4) if c["kind"] == "NS" else max(3.0, c["mc"]), log_R=-4.5, state=c["kind"])
        comp = SingleStar(metallicity=1.0, **cd)
    w = c["which"]
    s1, s2 = (donor, comp) if w == 1 else (comp, donor)
    b = BinaryStar(star_1=s1, star_2=s2, state="contact" if dbl else "RLO%d" % w, event=("oDoubleCE%d" if dbl else "oCE%d") % w, time=5e6,
                   orbital_period=c["P"], eccentricity=c["e"])
    b.mass_transfer_case = "case_C"
    donor, comp = (b.star_1, b.star_2) if w == 1 else (b.star_2, b.star_1)
    return b, donor, comp, dd, cd, dbl


def mkstep(c, tm=None, **kw):
    return StepCEE(prescription="alpha-lambda", common_envelope_efficiency=c["alpha"], common_envelope_lambda_default=c["ldef"],
                   common_envelope_option_for_lambda=c["lopt"], common_envelope_option_for_HG_star=c["hg"],
                   core_definition_H_fraction=c["hfrac"], core_definition_He_fraction=0.1, CEE_tolerance_err=c["tol"],
                   common_envelope_option_after_succ_CEE=c["after"], track_matcher=tm, **kw)


@sub("P10", "alpha_lambda", case, quick=2400, thorough=60000)
def alpha_lambda(c):
    """Fate, orbit, masses and radii after a (single or double) common envelope against an independent energy balance and
    Roche test.  Non-trivial: the envelope is ejected."""
    b, donor, comp, dd, cd, dbl = setup(c)
    tm = Matcher(c["which"], None)
    l1, mc1, rc1, mf1, rf1, he1 = core(c, dd)
    m1, m2, R1, R2 = dd["mass"], cd["mass"], 10 ** dd["log_R"], 10 ** cd["log_R"]
    eb = 0.0 if l1 != l1 else -G * m1 * (m1 - mc1) * MO ** 2 / (l1 * R1 * RO)
    if dbl:
        l2, mc2, rc2, mf2, rf2, he2 = core(c, cd)
        eb += -G * m2 * (m2 - mc2) * MO ** 2 / (l2 * R2 * RO)
    else:
        mc2, rc2, mf2, rf2 = m2, R2, m2, R2
    a_i = cf.orbital_separation_from_period(c["P"], m1, m2)
    ei = -0.5 * G * m1 * m2 * MO ** 2 / (a_i * RO)
    ef = ei + eb / c["alpha"]
    a_p = -0.5 * G * mc1 * mc2 * MO ** 2 / ef / RO
    undecided = False
    if c["kind"] == "MS":
        d1 = rc1 - phys.eggleton(mc1 / mc2) * a_p
        d2 = rc2 - phys.eggleton(mc2 / mc1) * a_p
        undecided = min(abs(d1 - c["tol"]), abs(d2 - c["tol"])) < 1e-6 * a_p
        tm.R = c["rnew"] * phys.eggleton(mc2 / mc1) * a_p
        if d1 < c["tol"] and d2 > c["tol"]:
            rc2 = rf2 = tm.R
            label("companion radius from single star")
    if undecided:
        return
    sn = mkstep(c, tm)
    sn(b)
    w = c["which"]
    check(not any(s is donor for s in tm.matched), "the donor was matched to a single star instead of its companion")
    if dd["state"] in MS or (c["hg"] == "pessimistic" and dd["state"] == "H-rich_Shell_H_burning"):
        check(b.state == "merged" and b.event == "oMerging%d" % w, lambda: f"donor {dd['state']} did not merge: {b.state}/{b.event}")
        label("HG merger")
        return
    if c["after"] == "one_phase_variable_core_definition":
        mg = overflows(mc1, rc1, mc2, rc2, a_p, c["tol"])
        m1f, r1f, m2f, r2f, P = mc1, rc1, mc2, rc2, phys.kepler_P(a_p, mc1, mc2)
    else:
        mg = overflows(mc1, rf1, mc2, rf2, a_p, c["tol"])
        if mg is None:
            return
        m1f, r1f, m2f, r2f = mf1, rf1, mf2, rf2
        P = cf.orbital_period_from_separation(a_p, mc1, mc2)
        wind = c["after"] == "two_phases_windloss" or dbl
        if not mg:
            P = period_after(P, mc1, mf1, mc2, wind)
            if dbl:
                P = period_after(P, mc2, mf2, mf1, True)
            mg = overflows(mf1, rf1, mf2, rf2, cf.orbital_separation_from_period(P, mf1, mf2), c["tol"])
    if mg is None:
        return
    if mg:
        check(b.state == "merged" and b.event == "oMerging%d" % w, lambda: f"cores overfill their Roche lobes but the binary is {b.state}/{b.event}")
        check(donor.mass == m1 and comp.mass == m2, "a merger without ejection changed the masses")
        label("merger")
        return
    nontrivial(True, "double" if dbl else "single")
    label(c["after"])
    check(b.state == "detached", lambda: f"successful ejection ended as {b.state}/{b.event}")
    check_close(b.orbital_period, P, "post-CE period", 1e-3)
    check_close(b.separation, phys.kepler_a(b.orbital_period, m1f, m2f), "post-CE separation", 1e-3)
    check(b.eccentricity == 0.0, "post-CE orbit not circular")
    check(b.event == ("CC%d" % w if dd["state"] == "stripped_He_Core_He_depleted" else None), lambda: f"post-CE event {b.event}")
    check(b.time == 5e6, "time changed")
    todo = [(donor, dd, m1f, r1f, he1)] + ([(comp, cd, m2f, r2f, he2)] if dbl else [])
    for s, old, m, r, he in todo:
        check_close(s.mass, m, "post-CE core mass", 1e-9)
        check_close(10 ** s.log_R, r, "post-CE core radius", 1e-6)
        check_close(s.he_core_mass, m, "post-CE He core mass", 1e-9)
        check_close(s.he_core_radius, r, "post-CE He core radius", 1e-6)
        one_ph = c["after"].startswith("one_phase")
        if he:
            check_close(s.co_core_mass, m, "post-CE CO core mass", 1e-9)
            check(s.surface_h1 == 0.0 and close(s.surface_he4, 0.1), "post-CE surface composition of a CO core")
        else:
            h = c["hfrac"] if one_ph else 0.01
            check_close(s.surface_h1, h, "post-CE surface hydrogen", 1e-12)
            check_close(s.surface_he4, 1 - h - old["metallicity"] * 0.0142, "post-CE surface helium", 1e-9)
        check("stripped_He" in s.state or s.state.startswith("H-rich") and s.surface_h1 > 0.01, lambda: f"stripped core in state {s.state}")
        check(s.center_he4 == old["center_he4"] and s.metallicity == old["metallicity"], "centre composition or metallicity changed")
    if not dbl:
        check(comp.mass == cd["mass"] and comp.state == cd["state"], "companion changed by the common envelope")


@sub("P10", "refuses", fixed(c=case, what=one(["event", "prescription", "hfrac", "after", "co_donor", "ms"])), quick=240, thorough=2000)
def refuses(cc):
    """Calls without a common-envelope event, unknown options and compact donors are errors; main-sequence donors always
    merge.  Non-trivial: always."""
    c = dict(cc["c"], nan=False, kind="BH", hg="optimistic")
    c["d"] = dict(c["d"], s="H-rich_Core_He_burning")
    w = cc["what"]
    nontrivial(True, w)
    if w == "ms":
        c["d"] = dict(c["d"], s=MS[c["which"] - 1])
    b, donor, comp, dd, cd, dbl = setup(c)
    kw = {}
    if w == "event":
        b.event = None
    elif w == "co_donor":
        donor.state = "BH"
    st_ = mkstep(c)
    if w == "prescription":
        st_.prescription = "gamma"
    elif w == "hfrac":
        st_.core_definition_H_fraction = 0.5
    elif w == "after":
        st_.common_envelope_option_after_succ_CEE = "nonsense"
    try:
        st_(b)
    except ValueError:
        check(w != "ms", "main-sequence donor refused")
        return
    check(w == "ms", lambda: f"{w} accepted")
    check(b.state == "merged" and b.event == "oMerging%d" % c["which"], "main-sequence donor did not merge")


prof = fixed(M=lu(2, 40), R=lu(5, 1500), n=st.integers(20, 90), fcore=u(0.15, 0.7), gam=u(1.5, 5), eps=u(0.0, 0.8), thr=one([0.01, 0.1, 0.3]),
             opt=one(["lambda_from_profile_gravitational", "lambda_from_profile_gravitational_plus_internal"]), th=u(0, 1), dm=st.booleans(), w=u(0.01, 0.08))


def profile(c):
    n = c["n"]
    x = np.linspace(1.0, 1.0 / n, n)                          # surface -> centre
    m = c["M"] * x
    r = c["R"] * (1e-3 * x + (1 - 1e-3) * x ** c["gam"])
    H = 0.7 / (1 + np.exp(-(x - c["fcore"]) / c["w"]))
    dm = np.concatenate((-np.diff(m), [m[-1]]))
    e = c["eps"] * G * m * MO / (r * RO)
    cols = dict(mass=m, radius=r, x_mass_fraction_H=H, y_mass_fraction_He=0.98 - H, z_mass_fraction_metals=0.02 + 0 * H, energy=e + 1e13)
    if c["dm"]:
        cols["dm"] = dm * MO
    out = np.zeros(n, dtype=[(k, float) for k in cols])
    for k in cols:
        out[k] = cols[k]
    return out, dm


@sub("P10", "lambda_profile", prof, quick=600, thorough=10000)
def lambda_profile(c):
    """Envelope binding-energy parameter from a profile: lambda = G M M_env / (R |E_bind|) with E_bind summed independently
    down to the abundance threshold; internal energy can only raise it.  Non-trivial: core boundary inside the star."""
    p, dm = profile(c)
    f = lambda opt, th: cf.calculate_lambda_from_profile(profile=p.copy(), donor_star_state="H-rich_Core_He_burning", m1_i=c["M"], radius1=c["R"],
                                                         common_envelope_option_for_lambda=opt, core_element_fraction_definition=c["thr"],
                                                         common_envelope_alpha_thermal=th)
    H = p["x_mass_fraction_H"]
    if not (H[-1] < c["thr"] < H[0]):
        return
    try:
        lam, mc, rc = f(c["opt"], c["th"])
    except ValueError as ex:
        check("negative" in str(ex), lambda: f"refused: {ex}")
        return
    # continuous piecewise-linear reference in H
    below = np.where(H <= c["thr"])[0]
    k = int(below[0])                                       # first cell inside the core
    wgt = (c["thr"] - H[k - 1]) / (H[k] - H[k - 1])
    check_close(mc, p["mass"][k - 1] + wgt * (p["mass"][k] - p["mass"][k - 1]), "core mass", 1e-6)
    check_close(rc, p["radius"][k - 1] + wgt * (p["radius"][k] - p["radius"][k - 1]), "core radius", 1e-6)
    u_ = 0.0
    if c["opt"].endswith("internal"):
        h2 = 35999.582894 * const.inversecm2erg / (2.0 * const.H_weight) * const.avo * H
        u_ = c["th"] * (p["energy"] - h2)
    cell = (-G * p["mass"] * MO / (p["radius"] * RO) + u_) * dm * MO
    E = np.sum(cell[:k - 1]) + wgt * cell[k - 1]
    check_close(lam, -G * c["M"] * (c["M"] - mc) * MO ** 2 / (E * c["R"] * RO), "lambda", 1e-6)
    g = f("lambda_from_profile_gravitational", 1.0)[0]
    if E < 0:
        check(lam >= g * (1 - 1e-12) or isinstance(u_, float) or np.any(np.asarray(u_) < 0), "internal energy lowers lambda")
    nontrivial(True, c["opt"][20:])


@sub("P10", "partial_ejection", fixed(c=case, p=prof, p2=prof, has=st.booleans()), quick=700, thorough=12000)
def partial_ejection(cc):
    """Merging systems with partial ejection: each star loses between nothing and its envelope, nothing without a profile,
    and the ejected layers' binding energy matches the orbital energy released.  Non-trivial: mass is ejected."""
    c = dict(cc["c"], nan=False, hg="optimistic")
    c["d"] = dict(c["d"], m=cc["p"]["M"], logR=math.log10(cc["p"]["R"]))
    c["c"] = dict(c["c"], m=cc["p2"]["M"], logR=math.log10(cc["p2"]["R"]))
    if c["kind"] == "MS":
        c["kind"] = "BH"
    b, donor, comp, dd, cd, dbl = setup(c)
    if cc["has"]:
        donor.profile = profile(dict(cc["p"], dm=True))[0]
        if dbl:
            comp.profile = profile(dict(cc["p2"], dm=True))[0]
    l1, mc1, rc1, mf1, rf1, he1 = core(c, dd)
    mkstep(c, mass_loss_during_CEE_merged=True)(b)
    if b.state != "merged":
        return
    pairs = [(donor, dd, mc1)]
    if dbl:
        pairs.append((comp, cd, core(c, cd)[1]))
    else:
        check(comp.mass == cd["mass"], "a compact companion lost mass")
    for s, d, mc in pairs:
        lost = d["mass"] - s.mass
        check(-1e-9 <= lost <= d["mass"] - mc + 1e-6, lambda: f"lost {lost} of an envelope of {d['mass'] - mc}")
        if not cc["has"]:
            check(lost == 0.0, "mass ejected without a profile")
        nontrivial(lost > 0, "double" if dbl else "single")
    if cc["has"]:
        m2 = cd["mass"]
        mc2, rc2 = core(c, cd)[1:3] if dbl else (m2, 10 ** cd["log_R"])
        a0 = cf.orbital_separation_from_period(c["P"], dd["mass"], m2)
        a1 = max(rc1 / phys.eggleton(mc1 / mc2), rc2 / phys.eggleton(mc2 / mc1))
        dE = c["alpha"] * 0.5 * G * MO ** 2 / RO * (mc1 * mc2 / a1 - dd["mass"] * m2 / a0)
        if dE <= 0:
            return
        # the released energy is shared in proportion to the masses of the envelopes
        w = (dd["mass"] - mc1) / (dd["mass"] - mc1 + m2 - mc2) if dbl else 1.0
        label("companion's core sets the last orbit", dbl and a1 != rc1 / phys.eggleton(mc1 / mc2))
        energy_sets(donor, dd, mc1, rc1, w * dE)
        if dbl:
            energy_sets(comp, cd, mc2, rc2, (1 - w) * dE)


def energy_sets(star, d, mc, rc, dE):
    """The star lost the layers that this energy unbinds."""
    p = star.profile
    h2 = 35999.582894 * const.inversecm2erg / (2.0 * const.H_weight) * const.avo * p["x_mass_fraction_H"]
    cell = (-G * p["mass"] * MO / (p["radius"] * RO) + p["energy"] - h2) * p["dm"]
    cum = np.abs(np.cumsum(cell))
    k = int(np.argmax(cum >= dE)) if np.any(cum >= dE) else len(cum) - 1
    lost = d["mass"] - star.mass
    if np.any(np.cumsum(cell) > 0) or abs(cum[k] - dE) < 1e-9 * dE:
        return
    want = p["mass"][0] - p["mass"][k]
    if p["mass"][k] < mc or p["radius"][k] < rc:
        want = p["mass"][0] - mc
    label("ejected mass predicted", want > 0)
    check(abs(lost - want) < 1e-6 or abs(lost - want) < 0.0101 and want >= d["mass"] - mc - 1e-9,
          lambda: f"ejected {lost}, the released orbital energy unbinds {want}")
