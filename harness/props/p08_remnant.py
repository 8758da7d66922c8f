"""P08 core collapse: remnant type, mass and spin for every collapse prescription."""
import copy
import json
import math
import os

import numpy as np

from core import *

from posydon.utils.common_functions import CO_radius

from posydon.binary_evol.SN import step_SN
from posydon.binary_evol.SN.step_SN import StepSN
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar, STARPROPERTIES
from posydon.config import PATH_TO_POSYDON_DATA as DATA

STATES = ["H-rich_Core_C_depleted", "stripped_He_Core_C_depleted", "H-rich_Core_He_depleted", "stripped_He_non_burning"]
ENG = {"Fryer+12-rapid": [""], "Fryer+12-delayed": [""], "direct": [""], "direct_he_core": [""],
       "Sukhbold+16-engine": ["N20", "S19.8", "W15", "W18", "W20"],
       "Patton&Sukhbold20-engine": ["N20", "S19.8", "W15", "W18", "W20", "Ertl2020"],
       "Couch+20-engine": ["1.0", "1.2", "1.23", "1.25", "1.27", "1.3", "1.4"], "Maltsev+25-engine": ["M16"]}
MECHS = [(m, e) for m in ENG for e in ENG[m]]
MECHS += [x for x in MECHS if x[0].startswith("Fryer")] * 3

cores = one([1.37, 1.43, 2.5, 3.5, 6.0, 7.0, 10.0, 11.0, 38.0, 114.0, 1.36, 1.4, 34.8]) | lu(0.4, 120) | lu(2, 12) | lu(1.2, 1.6)
prog = dict(co=cores, fhe=u(1.02, 1.6) | u(1.02, 4.0), fenv=one([1.0]) | u(1.0, 3.0), xc=u(0.05, 0.5), lgJ=u(47, 53), state=one(STATES),
            Z=one([1.0, 0.1, 1e-4]), he4=one([0.0, 0.0, 0.005, 0.5]))
conf = dict(mech=one(MECHS).map(list), PISN=one([None, "Marchant+19", "Hendriks+23", "Hendriks+23", 35.0, 52.0]),
            shift=one([0.0, None, -5.0]), extra=one([-20.0, 0.0, None, 10.0]), ECSN=one(["Tauris+15", "Podsiadlowski+04", None]),
            henv=st.booleans(), hppi=st.booleans(), neut=one([0.5, 0.0, 0.1, None]), nsmax=one([2.5, 2.0, 3.0]),
            core=one([True, True, False]), approx=st.booleans())

_cache = {}


def step(c, **kw):
    mech, eng = c["mech"]
    d = dict(mechanism=mech, engine=eng, PISN=c["PISN"], PISN_CO_shift=c["shift"], PPI_extra_mass_loss=c["extra"],
             ECSN=c["ECSN"], conserve_hydrogen_envelope=c["henv"], conserve_hydrogen_PPI=c["hppi"],
             max_neutrino_mass_loss=c["neut"], max_NS_mass=c["nsmax"], use_interp_values=False, use_profiles=False,
             use_core_masses=c["core"], allow_spin_None=not c["core"], approx_at_he_depletion=c["approx"])
    d.update(kw)
    k = repr(sorted((a, b) for a, b in d.items()))
    if k not in _cache:
        if len(_cache) > 400:
            _cache.clear()
        _cache[k] = StepSN(**d, RNG=np.random.default_rng(0))
    _cache[k].RNG = np.random.default_rng(3)
    return _cache[k]


def masses(c):
    co = c["co"]
    he = co * c["fhe"]
    m = he * c["fenv"]
    return co, he, m


def star(c):
    co, he, m = masses(c)
    return SingleStar(mass=m, he_core_mass=he, co_core_mass=co, state=c["state"], metallicity=c["Z"], log_total_angular_momentum=c["lgJ"],
                      avg_c_in_c_core_at_He_depletion=c["xc"], co_core_mass_at_He_depletion=co, center_h1=0.0, center_he4=c["he4"],
                      center_c12=0.1, center_n14=0.0, center_o16=0.3, surface_h1=0.1)


# ---------------------------------------------------------------- reference
def table_patton(name):
    L = [l.split() for l in list(open(os.path.join(DATA, "Patton+Sukhbold20", name)))[6:]]
    L = [l for l in L if l and l[0][0] != "#"]
    mco = [float(x) for x in L[0][1:]]
    pts = [(float(r[0]), m, float(v)) for r in L[1:] for m, v in zip(mco, r[1:])]
    return np.array(pts)


_T = {}


def knn5(name, x, m):
    if name not in _T:
        _T[name] = table_patton(f"Kepler_{name}_table.dat")
    t = _T[name]
    d = np.hypot(t[:, 0] - x, t[:, 1] - m)
    i = np.argsort(d, kind="stable")
    if d[i[5]] - d[i[4]] < 1e-9:
        return None                                    # a tie decides the neighbours
    i = i[:5]
    if d[i[0]] == 0:
        return float(t[i[0], 2])
    w = 1 / d[i]
    return float(np.sum(w * t[i, 2]) / np.sum(w))


def sukhbold(eng):
    k = "S" + eng
    if k not in _T:
        rows = [l.strip().split(",") for l in open(os.path.join(DATA, "Sukhbold+16", f"results_{eng}_table.csv"))]
        h = {n: i for i, n in enumerate(rows[0])}
        out = [(float(r[h["He_c_mass"]]), float(r[h["Rem_mass"]]), float(r[h["stellar_state"]])) for r in rows[1:]
               if float(r[h["stellar_state"]]) == 13 or (float(r[h["stellar_state"]]) == 14 and float(r[h["fallback_mass"]]) == 0)]
        _T[k] = np.array(out)
    return _T[k]


def couch(eng):
    k = "C" + eng
    if k not in _T:
        d = json.load(open(os.path.join(DATA, "Couch+2020", "explDatsSTIR2.json")))[eng]
        rows = [l.strip().split(",") for l in open(os.path.join(DATA, "Couch+2020", "Sukhbold_Mzams_He_c_core.csv"))][1:]
        rows = [r for r in rows if r[0].strip() and r[1].strip()]
        mz, he = np.array([float(r[0]) for r in rows]), np.array([float(r[1]) for r in rows])
        o = np.argsort(mz)
        _T[k] = np.array([(np.interp(float(m), mz[o], he[o]), 14 if v["Eexp"] == 0.0 else 13) for m, v in d.items()])
    return _T[k]


UNDECIDED = object()
ERTL = {"N20": (0.194, 0.058), "S19.8": (0.274, 0.047), "W15": (0.225, 0.0495), "W20": (0.284, 0.0393), "W18": (0.283, 0.043),
        "Ertl2020": (0.182, 0.0608)}


def nearest_state(t, he):
    d = np.abs(t[:, 0] - he)
    lab = t[d <= d.min() + 1e-9][:, -1]
    return UNDECIDED if len(set(lab)) > 1 else int(lab[0])


def baryonic(c, co, he, m):
    """Reference (type, baryonic remnant, fallback, engine state) before pair instability."""
    ec = c["ECSN"]
    x = he if ec == "Podsiadlowski+04" else co
    lo, hi = {"Tauris+15": (1.37, 1.43), "Podsiadlowski+04": (1.4, 2.5), None: (1.37, -1)}[ec]
    if x < lo:
        return "WD", co, 1.0, "WD"
    if x <= hi:
        typ = "ECSN"
    else:
        typ = "CCSN"
    mech, eng = c["mech"]
    M = m if c["henv"] else he
    if mech == "direct":
        return typ, M, 1.0, None
    if mech == "direct_he_core":
        return typ, he, 1.0, None
    if typ == "ECSN":
        return typ, 1.38 if ec == "Podsiadlowski+04" else co, 0.0, "NS" if mech in ENG and ENG[mech] != [""] else None
    if mech == "Fryer+12-rapid":                              # Fryer et al. 2012 eqs 15-17
        p = 1.1
        if co < 2.5:
            fb = 0.2
        elif co < 6:
            fb = 0.286 * co - 0.514
        elif co < 7:
            fb = M - p
        elif co < 11:
            a1 = 0.25 - 1.275 / (M - p)
            fb = (a1 * co + 1 - 11 * a1) * (M - p)
        else:
            fb = M - p
        return typ, p + fb, fb / (M - p), None
    if mech == "Fryer+12-delayed":                            # eqs 18-20
        p = 1.2 if co < 3.5 else 1.3 if co < 6 else 1.4 if co < 11 else 1.6
        if co < 2.5:
            fb = 0.2
        elif co < 3.5:
            fb = 0.5 * co - 1.05
        elif co < 11:
            a2 = 0.133 - 0.093 / (M - p)
            fb = (a2 * co + 1 - 11 * a2) * (M - p)
        else:
            fb = M - p
        return typ, p + fb, fb / (M - p), None
    if mech == "Sukhbold+16-engine":
        t = sukhbold(eng)
        s = nearest_state(t, he)
        if s is UNDECIDED:
            return UNDECIDED
        r = t[t[:, 2] == s]
        r = r[np.argsort(r[:, 0])]
        if s == 13:
            return typ, float(np.interp(he, r[:, 0], r[:, 1])), 0.0, "NS"
        return typ, (M if M > r[-1, 0] else float(np.interp(M, r[:, 0], r[:, 1]))), 1.0, "BH"
    if mech == "Couch+20-engine":
        s = nearest_state(couch(eng), he)
        if s is UNDECIDED:
            return UNDECIDED
        return (typ, 1.4, 0.0, "NS") if s == 13 else (typ, M, 1.0, "BH")
    x = c["xc"]
    if c["approx"]:
        x = 0.2 / co + 0.15 if "H-rich" in c["state"] else -0.084 * math.log(co) + 0.4
    if co <= 2.5:
        return typ, 1.25, 0.0, "NS"
    if co >= 10:
        return typ, M, 1.0, "BH"
    M4, mu4 = knn5("M4", x, co), knn5("mu4", x, co)
    if M4 is None or mu4 is None:
        return UNDECIDED
    if mech.startswith("Patton"):
        k1, k2 = ERTL[eng]
        d = k1 * mu4 * M4 + k2 - mu4
        if abs(d) < 1e-12:
            return UNDECIDED
        return (typ, M, 1.0, "BH") if d < 0 else (typ, M4, 0.0, "NS")
    xi, sc = knn5("Xi", x, co), knn5("sc", x, co)
    if xi is None or sc is None:
        return UNDECIDED
    fails, works = xi > 0.544 or sc > 1.169, xi < 0.314 or sc < 0.988
    if fails == works:
        q = mu4 * M4
        boom = False if q > 0.421 else True if q < 0.247 else not (0.005 + 0.42 * q - mu4 > 0)
    else:
        boom = works
    if not boom:
        return typ, M, 1.0, "BH"
    if xi <= 0.04 or (xi < 1.75 * mu4 * M4 - 0.044 and xi <= 0.4) or M4 / co > 0.6:
        return typ, M4, 0.0, "NS"
    return typ, ("either", (M4, 0.0, "NS"), (M, 0.99, "BH")), None, None


def reference(c):
    """(type, list of acceptable (baryonic remnant or None, fallback, engine state))."""
    co, he, m = masses(c)
    r = baryonic(c, co, he, m)
    if r is UNDECIDED:
        return r
    typ, rb, fb, es = r
    if typ == "WD":
        return [("WD", rb, fb, es)]
    opts = list(rb[1:]) if isinstance(rb, tuple) else [(rb, fb, es)]
    P = c["PISN"]
    M = m if c["henv"] else he
    cap = None
    if P == "Marchant+19":
        if 31.99 <= he <= 61.10:
            co_ = (-6.29429263e5, 1.15957797e5, -9.28332577e3, 4.21856189e2, -1.19019565e1, 2.13499267e-1, -2.37814255e-3,
                   1.50408118e-5, -4.13587235e-8)
            cap = sum(k * he ** i for i, k in enumerate(co_))
        elif 61.10 < he < 124.12:
            cap = math.nan
        else:
            cap = M
    elif P == "Hendriks+23":
        s, x = c["shift"] or 0.0, c["extra"] or 0.0
        cap = M
        if 38 + s <= co <= 114 + s:
            y = co - s - 34.8
            d = (0.0006 * math.log10(max(c["Z"], 1e-4) * 0.0142) + 0.0054) * y ** 3 - 0.0013 * y ** 2 + x
            if d > 0:
                cap = (m if c["hppi"] else he) - d
                if cap < 0:
                    cap = math.nan
                else:
                    c2 = dict(c)
                    r2 = baryonic(c2, min(co, cap), min(he, cap), cap)
                    if r2 is UNDECIDED or isinstance(r2[1], tuple):
                        return UNDECIDED
                    rb2 = r2[1] if r2[0] == "WD" else min(r2[1], cap)
                    if abs(rb2 - 10) < 1e-9:
                        return UNDECIDED
                    cap = math.nan if rb2 < 10 else rb2
    elif P is not None:
        cap = P if he > P else None
    out = []
    for rb, fb, es in opts:
        if cap is None:
            out.append((typ, rb, fb, es))
        elif cap != cap:
            out.append(("PISN", None, fb, es))
        elif abs(rb - cap) < 1e-9 * cap:
            out += [(typ, rb, fb, es), ("PPISN", cap, fb, es)]
        elif rb > cap:
            out.append(("PPISN", cap, fb, es))
        else:
            out.append((typ, rb, fb, es))
    return out


def white_dwarf(s, c):
    """A white dwarf is a bare core: of carbon and oxygen if its helium was exhausted; its composition and radius are known."""
    check(s.he_core_mass == s.mass and s.co_core_mass == (s.mass if c["he4"] < 0.01 else 0.0), lambda: f"white-dwarf core masses {s.he_core_mass}, {s.co_core_mass} of {s.mass}, centre he4={c['he4']}")
    check(s.center_he4 == c["he4"] and s.center_c12 == 0.1 and s.center_o16 == 0.3 and s.log_L is None and s.surface_h1 is None, "composition of a white dwarf")
    want = math.log10(CO_radius(s.mass, "WD"))
    check(s.log_R is not None and abs(s.log_R - want) < 1e-9, lambda: f"log_R {s.log_R} of a white dwarf of {s.mass}")


@sub("P08", "prescriptions", fixed(**prog, **conf), quick=4000, thorough=80000)
def prescriptions(c):
    """Remnant of every collapse mechanism/engine/pair-instability/ECSN option against an independent re-statement of the
    published rules (and the tabulated engine data).  Non-trivial: a neutron star or black hole forms."""
    s = star(c)
    co, he, m = masses(c)
    sn = step(c)
    err = sn.collapse_star(s)
    if err is not None and c["PISN"] is not None:
        raise Violation(f"collapse refused: {err}")
    check(err is None, lambda: f"collapse refused: {err}")
    ref = reference(c)
    check(s.mass is not None and 0 <= s.mass <= m * (1 + 1e-9) or "Sukhbold" in c["mech"][0],
          lambda: f"remnant of {s.mass} from a star of {m}")
    check(s.state in ("WD", "NS", "BH", "massless_remnant"), lambda: f"state after collapse {s.state}")
    check((s.state == "massless_remnant") == (s.mass == 0), "massless remnant with mass")
    check(s.spin is None or s.spin != s.spin or 0 <= s.spin <= 1, lambda: f"spin {s.spin}")
    if ref is UNDECIDED:
        return
    nu = c["neut"] or 0.0
    found, texts = False, []
    for typ, rb, fb, es in ref:
        if typ == "WD":
            want = ("WD", rb, 0.0)
        elif typ == "PISN":
            want = ("massless_remnant", 0.0, None)
        else:
            g = 20 / 3 * (math.sqrt(1 + 0.3 * rb) - 1)
            g = max(g, rb - nu)
            if abs(g - c["nsmax"]) < 1e-9:
                return
            if g >= c["nsmax"]:
                want = ("BH", g, min(1.0, 10 ** c["lgJ"] * 2.99792458e10 / (6.67428e-8 * (g * 1.9892e33) ** 2)) if c["core"] else None)
            else:
                want = ("NS", g, 0.0 if c["core"] else None)
        texts.append((typ,) + want)
        ok = s.state == want[0] and close(s.mass, want[1], 1e-6, 1e-9)
        if typ not in ("PISN",):
            ok = ok and s.SN_type == typ and close(s.f_fb, fb, 1e-6, 1e-9)
            ok = ok and (close(s.spin, want[2], 1e-3, 1e-12) if want[2] is not None else s.spin is None)
        found = found or ok
    check(found, lambda: f"collapse gave {s.SN_type}, {s.state}, {s.mass}, f_fb={s.f_fb}, spin={s.spin}; rules give {texts} (fb {[r[2] for r in ref]})")
    nontrivial(s.state in ("NS", "BH"), s.state)
    label(str(s.SN_type) if s.state != "massless_remnant" else "PISN")
    label(c["mech"][0])
    # the pre-collapse interior is forgotten, radius set
    if s.state in ("NS", "BH"):
        for k in ("log_L", "center_h1", "surface_h1", "he_core_mass", "log_total_angular_momentum"):
            check(getattr(s, k) is None, lambda: f"{k} = {getattr(s, k)} of a compact object")
        R = 2 * 6.67428e-8 * s.mass * 1.9892e33 / 2.99792458e10 ** 2 if s.state == "BH" else 1.25e6
        check(s.log_R is not None and abs(s.log_R - math.log10(R / 6.9598e10)) < 1e-3, lambda: f"log_R {s.log_R} of a {s.state}")
    if s.state == "WD":
        white_dwarf(s, c)


@sub("P08", "invalid", fixed(**prog, what=one(["mech", "engine", "PISN", "ECSN", "state", "nocore"])), quick=240, thorough=2000)
def invalid(c):
    """Unknown prescriptions, engines, pair-instability/ECSN options, non-collapsing stars and missing core masses are
    refused instead of producing a remnant.  Non-trivial: always."""
    nontrivial(True, c["what"])
    base = dict(mech=["Fryer+12-delayed", ""], PISN=None, shift=0.0, extra=0.0, ECSN="Tauris+15", henv=False, hppi=False, neut=0.5,
                nsmax=2.5, core=True, approx=False)
    s = star(dict(c, co=max(c["co"], 1.5)))
    try:
        w = c["what"]
        if w == "mech":
            StepSN(mechanism="Fryer+11", use_interp_values=False)
        elif w == "engine":
            for m in ("Sukhbold+16-engine", "Couch+20-engine"):
                try:
                    StepSN(mechanism=m, engine="X", use_interp_values=False)
                except ValueError:
                    continue
                check(False, "unknown engine accepted")
            r = step(dict(base, mech=["Patton&Sukhbold20-engine", "X"])).collapse_star(s)
        elif w == "PISN":
            r = step(dict(base, PISN="nonsense")).collapse_star(s)
        elif w == "ECSN":
            r = step(dict(base, ECSN="nonsense")).collapse_star(s)
        elif w == "state":
            s.state = "H-rich_Core_H_burning"
            r = step(base).collapse_star(s)
            check(r is not None, "a core-hydrogen burning star collapsed")
            return
        else:
            s.co_core_mass = None
            r = step(base).collapse_star(s)
    except Exception:
        return
    check(False, "invalid input accepted")


interp = fixed(**prog, m=u(1.2, 30), spin=u(0, 1), match=one([True, True, False]), nanmass=one([False] * 4 + [True]), use_core=st.booleans())


@sub("P08", "interpolated", interp, quick=600, thorough=6000)
def interpolated(c):
    """With interpolated remnant properties: they are used exactly when they are consistent with the progenitor's
    supernova type and complete, otherwise the core-mass prescription decides.  Non-trivial: interpolated values used."""
    c = dict(c, co=max(c["co"], 1.0), mech=["Fryer+12-delayed", ""], PISN="Hendriks+23", shift=0.0, extra=-20.0, ECSN="Tauris+15",
             henv=False, hppi=False, neut=0.5, nsmax=2.5, core=True, approx=False)
    co, he, m = masses(c)
    s, ref = star(c), star(c)
    typ = "WD" if co < 1.37 else "ECSN" if co <= 1.43 else "CCSN"
    mi = math.nan if c["nanmass"] else c["m"]
    st_ = "BH" if c["m"] >= 2.5 else "NS"
    tag = typ if c["match"] and typ != "ECSN" else {"CCSN": "WD", "WD": "CCSN", "ECSN": "CCSN"}[typ]
    if tag == "WD":
        st_ = "WD"
    d = dict(state=st_, SN_type=tag, f_fb=0.5, mass=mi, spin=c["spin"], m_disk_accreted=0.1, m_disk_radiated=0.05, M4=1.0, mu4=0.1,
             h1_mass_ej=0.2, he4_mass_ej=0.3)
    s.SN_MODEL_v2_01 = dict(d)
    sn = step(c, use_interp_values=True)
    err = sn.collapse_star(s)
    check(err is None, lambda: f"collapse refused: {err}")
    step(c).collapse_star(ref)
    used = c["match"] and typ != "ECSN" and not c["nanmass"]
    nontrivial(used, "used")
    label("fallback", not used)
    if used:
        check(s.state == st_ and close(s.mass, mi) and close(s.spin, c["spin"]) and s.SN_type == tag and close(s.f_fb, 0.5),
              lambda: f"interpolated remnant {d} not used: {s.state}, {s.mass}, {s.spin}")
        if st_ == "WD":
            white_dwarf(s, c)
    else:
        check(s.state == ref.state and close(s.mass, ref.mass) and close(s.spin, ref.spin) and s.SN_type == ref.SN_type,
              lambda: f"inconsistent interpolated values {d} used: {s.state} {s.mass} instead of {ref.state} {ref.mass}")


@known("P08", "max-ns-mass")
def max_ns_mass():
    """A configured maximum neutron-star mass other than 2.5 Msun is undone at the end of the supernova step."""
    sn = StepSN(mechanism="direct", engine="", PISN=None, use_interp_values=False, use_profiles=False, max_NS_mass=2.0,
                max_neutrino_mass_loss=0.0)
    kw = dict(state=STATES[1], metallicity=1.0, log_total_angular_momentum=50.0, center_h1=0.0, center_he4=0.0, center_c12=0.0)
    b = BinaryStar(star_1=SingleStar(mass=2.2, he_core_mass=2.2, co_core_mass=1.8, **kw), star_2=SingleStar(mass=10.0),
                   state="detached", event="CC1", time=0.0, separation=100.0, eccentricity=0.0)
    sn(b)
    return b.star_1.state == "NS"
