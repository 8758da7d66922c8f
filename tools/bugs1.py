SN = "posydon/binary_evol/SN/step_SN.py"
CE = "posydon/binary_evol/CE/step_CEE.py"
PC = "posydon/binary_evol/SN/profile_collapse.py"
FC = "posydon/binary_evol/flow_chart.py"

bug("k01_inbound_kick", "P07", [(SN, "if E_ma > np.pi: cos_psi *= -1", "if true_anomaly > np.pi: cos_psi *= -1")],
    "an eccentric pre-supernova orbit, a kick with a component along the line between the stars and an explosion on the inbound half of the orbit",
    "true_anomaly lies in (-pi, pi], so the radial velocity never changes sign: post-SN eccentricity, tilt and systemic velocity are wrong for half of the orbit",
'''
import numpy as np
from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
import posydon.utils.constants as const

def run(M):
    s1 = SingleStar(mass=8.0, state="stripped_He_Core_C_depleted", metallicity=1.0)
    s2 = SingleStar(mass=12.0, state="H-rich_Core_H_burning", metallicity=1.0)
    b = BinaryStar(star_1=s1, star_2=s2, state="detached", event="CC1", time=1e6, separation=60.0, eccentricity=0.6)
    b.append_state() if False else None
    for s in (b.star_1, b.star_2):
        for p in ("state", "mass"):
            setattr(s, p + "_history", [getattr(s, p)])
    b.time_history = [1e6]; b.eccentricity_history = [0.6]; b.separation_history = [60.0]
    a = b.star_1
    a.mass = 6.0; a.state = "BH"; a.SN_type = "CCSN"
    a.natal_kick_velocity, a.natal_kick_azimuthal_angle, a.natal_kick_polar_angle, a.natal_kick_mean_anomaly = 150.0, 0.9, 2.0, M
    sn = StepSN(RNG=np.random.default_rng(0))
    sn.orbital_kick(b)
    return b

def expect(M):
    e, A, m1, m2, mf = 0.6, 60 * const.Rsun, 8 * const.Msun, 12 * const.Msun, 6 * const.Msun
    G = const.standard_cgrav
    E = M
    for _ in range(300):
        E = M + e * np.sin(E)
    r = A * (1 - e * np.cos(E))
    v = np.sqrt(G * (m1 + m2) * (2 / r - 1 / A))
    s = np.sqrt(G * (m1 + m2) * A * (1 - e * e)) / (r * v)
    c = np.sqrt(1 - s * s) * (1 if np.sin(E) > 0 else -1)
    th, ph, k = 2.0, 0.9, 150e5
    kick = k * np.array([np.sin(th) * np.sin(ph) * s + np.cos(th) * c, -np.sin(th) * np.sin(ph) * c + np.cos(th) * s, np.sin(th) * np.cos(ph)])
    w = kick + v * np.array([c, s, 0])
    h2 = r * r * (w[1] ** 2 + w[2] ** 2)
    a = 1 / (2 / r - w @ w / (G * (mf + m2)))
    return a / const.Rsun, np.sqrt(1 - h2 / (G * (mf + m2) * a))

for M in (0.7, 5.2):
    b = run(M)
    a, e = expect(M)
    print(M, b.state, b.separation, a, b.eccentricity, e)
    assert abs(b.separation / a - 1) < 1e-3 and abs(b.eccentricity - e) < 1e-3
''')

bug("k02_double_ce_wind", "P10", [(CE, """                orbital_period_f, Mdon_i=mc2_i, Mdon_f=mc2_f,
                Macc_i=mc1_f, alpha=1.0, beta=0.0)
        if verbose:
            print("during the assumed windloss""", """                orbital_period_f, Mdon_i=mc2_i, Mdon_f=mc2_f,
                Macc_i=mc1_i, alpha=1.0, beta=0.0)
        if verbose:
            print("during the assumed windloss""")],
    "a double common envelope that survives, with the two-phase wind-loss option and a donor whose CE core is more massive than its final core",
    "the wind of the second star widens the orbit against the donor's mass before instead of after the first wind: wrong post-CE period",
'''
from posydon.binary_evol.CE.step_CEE import StepCEE
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.utils.common_functions import orbital_period_from_separation as per

def star(m, mc, k):
    d = {}
    for t in ("1cent", "10cent", "30cent"):
        d["m_core_CE_" + t], d["r_core_CE_" + t], d["lambda_CE_" + t] = mc * k, 0.5, 1.0
    return SingleStar(mass=m, log_R=2.0, state="H-rich_Core_He_burning", metallicity=1.0, he_core_mass=mc, he_core_radius=0.3, co_core_mass=0.2, co_core_radius=0.1,
                      center_h1=0., center_he4=0.5, center_c12=0.2, surface_h1=0.6, surface_he4=0.38, log_LH=2., log_LHe=2.5, log_Lnuc=3., **d)

def run(opt, k1, k2):
    b = BinaryStar(star_1=star(8., 2., k1), star_2=star(7., 1.8, k2), state="contact", event="oDoubleCE1", time=1e6, orbital_period=400., eccentricity=0.)
    StepCEE(prescription="alpha-lambda", common_envelope_efficiency=5.0, common_envelope_option_for_lambda="lambda_from_grid_final_values",
            common_envelope_option_for_HG_star="optimistic", core_definition_H_fraction=0.1, core_definition_He_fraction=0.1, CEE_tolerance_err=0.001,
            common_envelope_option_after_succ_CEE=opt)(b)
    assert b.state == "detached", b.state
    return b

one = run("one_phase_variable_core_definition", 1.25, 1.3)
two = run("two_phases_windloss", 1.25, 1.3)
# fast winds: period * (total mass)^2 is conserved
x = one.orbital_period * (2. * 1.25 + 1.8 * 1.3) ** 2
y = two.orbital_period * (2. + 1.8) ** 2
print(x, y)
assert abs(x / y - 1) < 1e-3
''')

bug("k03_disk_mass", "P09", [(PC, "M_BH = M_BH + dm_disk * eff + dm_direct", "M_BH = M_BH + (dm_disk + dm_direct) * eff")],
    "a profile rotating fast enough that some shells form a disk and only partly collapse directly",
    "the directly collapsing part of a disk-forming shell loses rest mass too: black-hole mass plus radiated mass no longer equals the collapsing mass",
'''
import numpy as np
from posydon.binary_evol.SN.profile_collapse import do_core_collapse_BH
from posydon.binary_evol.singlestar import SingleStar
n = 120
x = np.linspace(1, 0.01, n)
m = 20 * x
r = 10 * x
dens = np.interp(x, x[::-1], (1.0 * np.ones(n))[::-1])
vol = 4 / 3 * np.pi * (r * 6.957e10) ** 3
dmass = -np.diff(np.append(m, 0)) * 1.98841e33
dvol = -np.diff(np.append(vol, 0))
p = np.zeros(n, dtype=[(k, float) for k in ("mass", "radius", "logRho", "omega", "he4", "x_mass_fraction_H", "y_mass_fraction_He")])
p["mass"], p["radius"], p["logRho"], p["omega"] = m, r, np.log10(dmass / dvol), 3e-5
s = SingleStar(state="stripped_He_Core_C_depleted", mass=20., metallicity=1.0)
s.profile = p
o = do_core_collapse_BH(s, 20., mass_central_BH=2.5, neutrino_mass_loss=0.)
print(o["M_BH_total"], o["m_disk_radiated"], o["m_disk_accreted"])
assert o["m_disk_accreted"] > 0.1
assert abs(o["M_BH_total"] + o["m_disk_radiated"] - 20.) < 1e-6
''')

bug("k04_redirect_mirror", "P04", [(FC, """        POSYDON_FLOW_CHART[(s2, s1, 'detached', "redirect_from_CO_HeMS")] = 'step_detached'""",
     """        POSYDON_FLOW_CHART[(s2, s1, 'detached', "redirect_from_CO_HeMS")] = 'step_CO_HeMS'""")],
    "a compact object as star 1 with a stripped helium star that fell outside the grid and was redirected",
    "the redirected binary is sent back to the grid step instead of the detached step when the compact object is star 1",
'''
from posydon.binary_evol.flow_chart import flow_chart
f = flow_chart()
for co in ("NS", "BH", "WD"):
    a = f.get(("stripped_He_Core_He_burning", co, "detached", "redirect_from_CO_HeMS"))
    b = f.get((co, "stripped_He_Core_He_burning", "detached", "redirect_from_CO_HeMS"))
    assert a == b == "step_detached", (a, b)
''')
