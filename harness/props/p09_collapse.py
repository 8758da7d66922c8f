"""P09 collapse of a stellar profile into a black hole: mass and angular-momentum bookkeeping."""
import math

import numpy as np

from core import *

import posydon.utils.constants as const
from posydon.binary_evol.SN import profile_collapse as pc
from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.singlestar import SingleStar

G, C, MO, RO = const.standard_cgrav, const.clight, const.Msun, const.Rsun

prof = fixed(M=u(5, 45), n=st.integers(30, 160), R=lu(0.3, 300), gam=u(1.2, 4), om=one([0.0]) | lu(1e-7, 1.0), omp=u(0, 2),
             xh=u(0, 0.6), he=u(0, 0.9), frac=u(0.5, 1.3), nu=u(0, 0.5), cen=u(2.0, 3.2), he_cols=st.booleans())


def profile(c):
    """Surface-to-centre structured array with consistent mass, radius and density."""
    n = c["n"]
    x = np.linspace(1.0 / n, 1.0, n)
    m = c["M"] * x ** 1.3
    r = c["R"] * (0.003 * x + 0.997 * x ** c["gam"])
    dm = np.diff(m, prepend=0.0) * MO
    rr = r * RO
    vol = 4 / 3 * math.pi * (rr ** 3 - np.concatenate(([0.0], rr[:-1])) ** 3)
    rho = dm / vol
    # Omega(r): rigid core falling outwards, scaled so that the surface can reach a good fraction of critical
    crit = np.sqrt(G * m * MO / rr ** 3)
    om = c["om"] * crit * (0.02 + 0.98 * x) ** c["omp"]
    cols = ["mass", "radius", "logRho", "omega", "x_mass_fraction_H", "y_mass_fraction_He"] + (["he3", "he4"] if c["he_cols"] else [])
    out = np.zeros(n, dtype=[(k, float) for k in cols])
    out["mass"], out["radius"], out["logRho"], out["omega"] = m[::-1], r[::-1], np.log10(rho)[::-1], om[::-1]
    out["x_mass_fraction_H"], out["y_mass_fraction_He"] = c["xh"], c["he"]
    if c["he_cols"]:
        out["he3"], out["he4"] = 1e-6, c["he"]
    return out


def isco(a, M):
    """Kerr ISCO from Bardeen, Press & Teukolsky: radius [GM/c^2], j = 2/(3 sqrt 3)(1 + 2 sqrt(3r-2)), E = sqrt(1-2/3r)."""
    z1 = 1 + (1 - a * a) ** (1 / 3) * ((1 + a) ** (1 / 3) + (1 - a) ** (1 / 3))
    z2 = math.sqrt(3 * a * a + z1 * z1)
    r = 3 + z2 - math.sqrt((3 - z1) * (3 + z1 + 2 * z2))
    return r, 2 / (3 * math.sqrt(3)) * (1 + 2 * math.sqrt(3 * r - 2)) * G * M / C, math.sqrt(1 - 2 / (3 * r))


def reference(p, mcoll, mcen, nu):
    """Shell-by-shell collapse written independently: returns M, a, m_acc, m_rad [Msun]."""
    m, r = p["mass"][::-1] * MO, p["radius"][::-1] * RO
    rho, om = 10 ** p["logRho"][::-1], p["omega"][::-1]
    top = len(m)
    for k in range(len(m)):
        if m[k] / MO > mcoll:
            top = k + 1
            break
    i0 = int(np.argmin(np.abs(m[:top] - mcen * MO)))
    M = m[i0] - nu * MO
    from scipy.integrate import simpson
    J = 8 * math.pi / 3 * simpson(rho[:i0 + 1] * om[:i0 + 1] * r[:i0 + 1] ** 4, x=r[:i0 + 1]) * M / m[i0]
    a = J * C / (G * M * M)
    if a > 0.99:
        a = 0.99
        J = a * G * M * M / C
    acc = rad = 0.0
    disk = False
    for k in range(i0 + 1, top):
        dm = m[k] - m[k - 1]
        ri, ji, eff = isco(a, M)
        j = om[k] * r[k] ** 2
        w = 4 * math.pi * om[k] * rho[k] * (r[k] ** 5 - r[k - 1] ** 5) / 5
        if j < ji:
            J += w * 2 / 3
            M += dm
        else:
            disk = True
            th = math.asin(math.sqrt(ji / j))
            J += w * 4 / 3 * (2 + math.cos(th)) * math.sin(th / 2) ** 4 + ji * dm * math.cos(th)
            M += dm * (1 - math.cos(th)) + dm * math.cos(th) * eff
            acc += dm * math.cos(th) * eff
            rad += dm * math.cos(th) * (1 - eff)
        a = J * C / (G * M * M)
        if a > 1:
            return None
    return M / MO, a, acc / MO, rad / MO, m[top - 1] / MO, disk, i0


@sub("P09", "collapse", prof, quick=1200, thorough=25000)
def collapse(c):
    """BH mass + radiated mass = collapsing mass - neutrino loss; spin from the angular momentum that fell in, within
    [0, 1]; disk masses; against an independent shell-by-shell integration.  Non-trivial: rotating and several shells."""
    p = profile(c)
    s = SingleStar(mass=c["M"])
    s.profile = p
    mcoll = min(c["frac"], 1.3) * c["M"]
    if mcoll < 3.5:
        return
    ref = reference(p, mcoll, c["cen"], c["nu"])
    try:
        out = pc.do_core_collapse_BH(star=s, mass_collapsing=mcoll, mass_central_BH=c["cen"], neutrino_mass_loss=c["nu"],
                                     max_neutrino_mass_loss=0.5)
    except ValueError as ex:
        check(ref is None, lambda: f"collapse refused: {ex}")
        return
    check(ref is not None, "spin above 1 accepted")
    M, a, acc, rad, mtop, disk, i0 = ref
    check_close(out["M_BH_total"] + out["m_disk_radiated"], mtop - c["nu"], "black-hole mass + radiated mass", 1e-9)
    check(0 <= out["a_BH_total"] <= 1, lambda: f"spin {out['a_BH_total']}")
    check_close(out["M_BH_total"], M, "black-hole mass", 1e-7)
    check_close(out["a_BH_total"], a, "black-hole spin", 1e-6, 1e-9)
    check_close(out["m_disk_accreted"], acc, "mass accreted through the disk", 1e-6, 1e-9)
    check_close(out["m_disk_radiated"], rad, "mass radiated by the disk", 1e-6, 1e-9)
    check(out["m_disk_accreted"] >= 0 and out["m_disk_radiated"] >= 0, "negative disk mass")
    nontrivial(c["om"] > 0 and i0 < c["n"] - 2, "disk" if disk else "direct")
    label("partial", mcoll < c["M"])
    if c["om"] == 0.0:
        check(out["a_BH_total"] == 0 and out["m_disk_accreted"] == 0, "non-rotating star makes a spinning black hole")


@sub("P09", "isco", fixed(a=one([0.0, 1.0, 0.998]) | u(0, 1), m=lu(2, 200)), quick=600, thorough=6000)
def isco_(c):
    """ISCO radius, angular momentum and energy: 6GM/c^2 to GM/c^2, Bardeen's identities.  Non-trivial: spin > 0."""
    M = c["m"] * MO
    r, j, e = pc.compute_isco_properties(c["a"], M)
    if c["a"] > 0.999999:
        return
    r0, j0, e0 = isco(c["a"], M)
    check_close(r, r0 * G * M / C ** 2, "ISCO radius", 1e-9)
    check_close(j, j0, "ISCO angular momentum", 1e-6)
    check_close(e, e0, "ISCO energy", 1e-9)
    nontrivial(c["a"] > 0)


@sub("P09", "ejecta", fixed(p=prof, rem=u(0.05, 1.1)), quick=600, thorough=8000)
def ejecta(c):
    """Ejected hydrogen and helium: the abundance times the mass above the remnant (to one shell), zero if everything
    collapses.  Non-trivial: something is ejected."""
    p = profile(c["p"])
    s = SingleStar(mass=c["p"]["M"])
    s.profile = p
    rem = c["rem"] * c["p"]["M"]
    h, he = pc.get_ejecta_element_mass_at_collapse(s, rem, False)
    m = p["mass"][::-1]
    if rem >= m[-1]:
        check(h == 0 and he == 0, "ejecta although everything collapsed")
        return
    above = m[-1] - rem
    shell = float(np.max(np.diff(m)))
    for got, X, nme in ((h, c["p"]["xh"], "hydrogen"), (he, c["p"]["he"], "helium")):
        check(X * (above - shell) - 1e-9 <= got <= X * above + 1e-9,
              lambda: f"ejected {nme} {got}, abundance {X}, mass above the remnant {above}, shell {shell}")
    nontrivial(h > 0)


@sub("P09", "star", fixed(p=prof, henv=st.booleans(), mech=one(["direct", "Fryer+12-delayed", "Fryer+12-rapid"]), neut=one([0.0, 0.5, 0.2])),
     quick=500, thorough=8000)
def star_(c):
    """Through the supernova step with a profile: remnant + radiated + neutrino loss = collapsing mass to one shell; spin
    within [0, 1]; neutron stars below the limit do not spin.  Non-trivial: a black hole forms."""
    q = c["p"]
    p = profile(q)
    he = q["M"] * 0.7
    s = SingleStar(mass=q["M"], he_core_mass=he, co_core_mass=he * 0.8, state="H-rich_Core_C_depleted", metallicity=0.1,
                   log_total_angular_momentum=50.0, center_h1=0.0, center_he4=0.0)
    s.profile = p
    sn = StepSN(mechanism=c["mech"], engine="", PISN=None, use_interp_values=False, use_profiles=True, conserve_hydrogen_envelope=c["henv"],
                max_neutrino_mass_loss=c["neut"], RNG=np.random.default_rng(1))
    ref = SingleStar(mass=q["M"], he_core_mass=he, co_core_mass=he * 0.8, state="H-rich_Core_C_depleted", metallicity=0.1,
                     log_total_angular_momentum=50.0, center_h1=0.0, center_he4=0.0)
    sn0 = StepSN(mechanism=c["mech"], engine="", PISN=None, use_interp_values=False, use_profiles=False, conserve_hydrogen_envelope=c["henv"],
                 max_neutrino_mass_loss=c["neut"], RNG=np.random.default_rng(1))
    sn0.collapse_star(ref)
    try:
        err = sn.collapse_star(s)
    except ValueError:
        label("spin>1 refused")
        return
    check(err is None, lambda: f"collapse refused: {err}")
    check(s.state == ref.state, lambda: f"state {s.state} with profile, {ref.state} without")
    check(0 <= s.spin <= 1, lambda: f"spin {s.spin}")
    if s.state == "NS":
        check(s.spin == 0 and close(s.mass, ref.mass) and s.m_disk_accreted == 0, "neutron star with a disk or spin")
        return
    shell = float(np.max(np.diff(p["mass"][::-1])))
    # ref.mass = collapsing mass - neutrino loss; the profile is cut at the next shell above it
    d = s.mass + s.m_disk_radiated - ref.mass
    check(-1e-9 <= d <= shell + 1e-9, lambda: f"remnant {s.mass} + radiated {s.m_disk_radiated} vs collapsing mass - neutrinos {ref.mass} (shell {shell})")
    nontrivial(True, "disk" if s.m_disk_accreted > 0 else "direct")


@sub("P09", "poor_profile", fixed(p=prof, drop=one(["omega", "logRho", "radius", "mass"])), quick=60, thorough=400)
def poor_profile(c):
    """A profile that lacks a needed column yields the initial black hole with an undefined spin.  Non-trivial: always."""
    from numpy.lib import recfunctions as rf
    p = rf.drop_fields(profile(c["p"]), c["drop"], usemask=False)
    s = SingleStar(mass=c["p"]["M"])
    s.profile = np.array(p)
    out = pc.do_core_collapse_BH(star=s, mass_collapsing=c["p"]["M"], mass_central_BH=c["p"]["cen"], neutrino_mass_loss=c["p"]["nu"],
                                 max_neutrino_mass_loss=0.5)
    check_close(out["M_BH_total"], c["p"]["cen"] - c["p"]["nu"], "black-hole mass from an incomplete profile", 1e-9)
    check(out["a_BH_total"] != out["a_BH_total"], "spin from an incomplete profile")
    nontrivial()
