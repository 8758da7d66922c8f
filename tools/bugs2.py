MG = "posydon/binary_evol/DT/step_merged.py"
DC = "posydon/binary_evol/DT/double_CO.py"
SD = "posydon/binary_evol/DT/step_detached.py"
BP = "posydon/popsyn/binarypopulation.py"
GR = "posydon/popsyn/GRB.py"
MO = "posydon/popsyn/Moes_distributions.py"
SM = "posydon/binary_evol/MESA/step_mesa.py"
SN = "posydon/binary_evol/SN/step_SN.py"

bug("k05_end_of_primary", "P14", [(SD, "return self.primary.t_max - t + self.primary.t_offset", "return self.primary.t_max - t + self.secondary.t_offset")],
    "two stars matched at different ages (different time offsets) where the primary's track ends before overflow, the secondary's end and the maximum time",
    "the detached step does not stop at the end of the primary's track but at another time given by the offset of the other star",
'''
from types import SimpleNamespace as NS
from posydon.binary_evol.DT.step_detached import detached_evolution
evo = detached_evolution()
evo.primary, evo.secondary = NS(t_max=3e6, t_offset=1e6), NS(t_max=9e6, t_offset=-5e5)
y = [100.0, 0.0, 0.0, 0.0]
ends = [f for f in (evo.ev_max_time1, evo.ev_max_time2)]
zero = sorted(t for f in ends for t in (4e6, 8.5e6, 2.5e6) if abs(f(t, y)) < 1)
print(zero)
assert zero == [4e6, 8.5e6]
''')

bug("k06_dco_late", "P12", [(DC, "tau_max = (self.max_time - t0_phys) / t_scale", "tau_max = self.max_time / t_scale")],
    "a double compact object formed late, whose inspiral would end between the maximum time and the maximum time plus its birth time",
    "the inspiral continues beyond the maximum time and a merger is recorded that does not happen within it",
'''
import numpy as np
from posydon.binary_evol.DT.double_CO import DoubleCO, double_CO_evolution
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
def star(m):
    s = SingleStar(mass=m, state="BH", metallicity=1.0, spin=0.0)
    s.omega0 = 0.0
    return s
step = DoubleCO.__new__(DoubleCO)
step.evo = double_CO_evolution()
p = SimulationProperties()
p.max_simulation_time = p.max_time = 1.38e10
b = BinaryStar(star_1=star(30.), star_2=star(20.), state="detached", event=None, time=9e9, separation=36.0, eccentricity=0.0, properties=p)
b.star_1.omega0 = b.star_2.omega0 = 0.0
# Peters: time to merge from 36 Rsun
G, c, Ms, Rs = 6.674e-8, 2.998e10, 1.989e33, 6.957e10
t = 5 / 256 * c ** 5 * (36 * Rs) ** 4 / (G ** 3 * 600 * 50 * Ms ** 3) / 3.15576e7
print("inspiral", t)
assert 4.8e9 < t < 1.3e10
r = step.solve_ODEs(b, b.star_1, b.star_2)
print(r.status, r.t[-1])
assert r.t[-1] <= 1.38e10 * (1 + 1e-9)
''')

bug("k07_merger_surface", "P11", [(MG, """                                                                                mass_weight1="mass",
                                                                                mass_weight2="H-rich_envelope_mass",))""", """                                                                                mass_weight1="mass",
                                                                                mass_weight2="mass",))""")],
    "an H-burning donor merging into an evolved companion with a massive helium core and a different surface composition",
    "the helium core of the companion takes part in the mixing of the envelopes, so that the surface composition of the product is wrong",
'''
from posydon.binary_evol.DT.step_merged import MergedStep
from posydon.binary_evol.singlestar import SingleStar
def star(m, he, state, **k):
    d = dict(mass=m, he_core_mass=he, co_core_mass=0.0, c_core_mass=0.0, o_core_mass=0.0, state=state, metallicity=1.0, log_R=1.0, center_gamma=0.5,
             center_h1=0.4, center_he4=0.58, center_c12=1e-3, center_n14=1e-3, center_o16=1e-3, surface_h1=0.7, surface_he4=0.28, surface_c12=1e-3,
             surface_n14=1e-3, surface_o16=1e-3, log_LH=4., log_LHe=-5., log_LZ=-9., log_Lnuc=4., avg_c_in_c_core=0.)
    d.update(k)
    return SingleStar(**d)
m = MergedStep.__new__(MergedStep)
m.merger_critical_rot, m.rel_mass_lost_HMS_HMS, m.verbose = 0.4, 0.1, False
a = star(10., 0., "H-rich_Core_H_burning")
b = star(9., 4., "H-rich_Core_He_burning", center_h1=0., center_he4=0.5, center_c12=0.2, center_o16=0.28, log_LH=3., log_LHe=4.2, log_LZ=0.5, surface_h1=0.3, surface_he4=0.68)
p, r = m.merged_star_properties(a, b)
print(p.mass, p.surface_h1, (10 * 0.7 + 5 * 0.3) / 15)
assert abs(p.surface_h1 - (10 * 0.7 + 5 * 0.3) / 15) < 1e-9
''')

bug("k08_grb_small_disks", "P31", [(GR, "sel = df[f'S{i}_m_disk_radiated'] > 0.", "sel = df[f'S{i}_m_disk_radiated'] >= 0.001")],
    "a collapsing star with a small accretion disk, radiating less than 0.001 Msun",
    "gamma-ray bursts of small disks get no energy and are not flagged although no threshold is requested",
'''
import pandas as pd
from posydon.popsyn.GRB import get_GRB_properties
df = pd.DataFrame({"S1_m_disk_radiated": [0.05, 0.0004, 0.0], "S2_m_disk_radiated": [0.0, 0.0, 0.0002]})
o = get_GRB_properties(df, 0.1, 0.5)
print(o[["GRB1", "GRB2", "S1_E_GRB", "S2_E_GRB"]])
assert list(o["GRB1"]) == [True, True, False] and list(o["GRB2"]) == [False, False, True]
assert o["S1_E_GRB"].iloc[1] > 0
''')

bug("k09_reload_failed", "P26", [(BP, "if bool(oneline.loc[[i]]['FAILED'].values[-1]):", "if bool(oneline['FAILED'].values[-1]):")],
    "reading back several systems at once of which some failed and others did not",
    "all systems read together get the failure state of the last of them",
'''
import numpy as np, pandas as pd
from posydon.popsyn.binarypopulation import PopulationManager
rows, one = [], []
for i in range(3):
    for ev, t in (("ZAMS", 0.), ("END", 1e6)):
        rows.append(dict(binary_index=i, state="detached", event=ev, time=t, orbital_period=10.0, eccentricity=0., S1_state="H-rich_Core_H_burning",
                         S1_mass=10. + i, S2_state="H-rich_Core_H_burning", S2_mass=5.))
    one.append(dict(binary_index=i, FAILED=int(i == 1), WARNING=0))
with pd.HDFStore("p.h5", "w") as s:
    s.append("history", pd.DataFrame(rows).set_index("binary_index"))
    s.append("oneline", pd.DataFrame(one).set_index("binary_index"))
m = PopulationManager(file_name="p.h5", RNG=np.random.default_rng(0), entropy=1)
ev = [b.event for b in m.from_hdf([0, 1, 2])]
print(ev)
assert ev == ["END", "FAILED", "END"]
''')

bug("k10_moe_massive", "P24", [(MO, "gl_6 = -1.4 - 0.3 * (mylogP-2.0)", "gl_6 = -1.4 - 0.3 * (mylogP-1.0)")],
    "Moe+17 sampling of massive primaries with periods between 100 and 10000 days",
    "the mass-ratio distribution of massive binaries at intermediate periods is too steep",
'''
import numpy as np
from posydon.popsyn.Moes_distributions import Moe_17_PsandQs
g = Moe_17_PsandQs(n_M1=2, n_logP=5, orbital_period_min=10 ** 2.3, orbital_period_max=10 ** 2.4, RNG=np.random.default_rng(3))
c = np.interp([0.3, 0.6], g.qv, g.cumqdist[:, 0, -1])
a, b = 1 - c
# power law of slope about -1.49 above 0.3 (no twins at these periods)
s = -1.4 - 0.3 * 0.3
want = (0.6 ** (s + 1) - 1) / (0.3 ** (s + 1) - 1)
print(a, b, b / a, want)
assert abs(b / a - want) < 0.02
''')
