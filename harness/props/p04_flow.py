"""P04 the flow chart: which step follows which total state."""
from core import *

from posydon.binary_evol.flow_chart import flow_chart, initial_eccentricity_flow_chart
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import SingleStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.utils.posydonerror import FlowError

CO = ["WD", "NS", "BH"]
H = ["H-rich_Core_H_burning", "H-rich_Core_He_burning", "H-rich_Shell_H_burning",
     "H-rich_Core_He_depleted", "H-rich_Shell_He_burning", "H-rich_Core_C_burning",
     "H-rich_Core_C_depleted", "H-rich_non_burning"]
ACC = ["accreted_He_Core_H_burning", "accreted_He_Shell_H_burning", "accreted_He_non_burning",
       "accreted_He_Core_He_burning"]
HE = ["stripped_He_Core_He_burning", "stripped_He_Core_He_depleted",
      "stripped_He_Core_C_depleted", "stripped_He_non_burning"]
NORMAL = H + ACC + HE
ALL = CO + ["massless_remnant"] + NORMAL
BIN = ["initially_single_star", "detached", "RLO1", "RLO2", "contact", "disrupted", "merged",
       "initial_RLOF"]
EV = [None, "CC1", "CC2", "ZAMS", "oRLO1", "oRLO2", "oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2",
      "CO_contact", "redirect_from_ZAMS", "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS",
      "redirect_from_CO_HeMS_RLO", "MaxTime_exceeded", "maxtime", "oMerging1", "oMerging2",
      "Match1", "Match2", "Match12"]
# star families
HRICH = set(H) | {"accreted_He_Core_H_burning", "accreted_He_Shell_H_burning",
                  "accreted_He_non_burning"}
HERICH = set(HE) | {"accreted_He_Core_He_burning", "accreted_He_non_burning",
                    "H-rich_non_burning"}
EVOLV_H = {s for s in HRICH if "C_depleted" not in s}
EVOLV_HE = {s for s in HERICH if "C_depleted" not in s}
COLLAPSE = {"H-rich_Core_C_depleted", "H-rich_Core_He_depleted", "stripped_He_Core_He_depleted",
            "stripped_He_Core_C_depleted", "stripped_He_non_burning", "H-rich_non_burning",
            "H-rich_Shell_H_burning", "accreted_He_Shell_H_burning", "accreted_He_non_burning"}
SWAP_B = {"RLO1": "RLO2", "RLO2": "RLO1"}
SWAP_E = {}
for a_ in ("CC", "oRLO", "oCE", "oDoubleCE", "oMerging", "Match"):
    SWAP_E[a_ + "1"], SWAP_E[a_ + "2"] = a_ + "2", a_ + "1"
NM = "massless_remnant"


def oracle(s1, s2, b, e):
    """The documented order of rules, as predicates; None: no step defined."""
    co1, co2 = s1 in CO, s2 in CO
    # nothing left that can evolve
    if (s1 == NM and s2 == NM) or (co1 and s2 == NM) or (s1 == NM and co2):
        return "step_end"
    if e in ("maxtime", "MaxTime_exceeded", "CO_contact"):
        return "step_end"
    if b == "merged" and e in ("oMerging1", "oMerging2"):
        return "step_merged"
    if b == "disrupted" and e not in ("CC1", "CC2"):
        return "step_end" if co1 and co2 else "step_disrupted"
    if b == "disrupted" and co1 and co2:
        return "step_end"
    if b == "initially_single_star" and e == "ZAMS":
        return "step_initially_single"
    if b == "initial_RLOF":
        return "step_end"
    if e == "CC1" and s1 in COLLAPSE or e == "CC2" and s2 in COLLAPSE:
        return "step_SN"
    if b == "detached" and e is None:
        if co1 and co2:
            return "step_dco"
        if s1 in NORMAL and s2 in NORMAL:
            return "step_detached"
        if co1 or co2:
            s = s2 if co1 else s1
            if s in EVOLV_HE:
                return "step_CO_HeMS"
            if s in HRICH:
                return "step_detached"
        return None
    if b == "detached" and s1 == s2 == "H-rich_Core_H_burning":
        if e == "ZAMS":
            return "step_HMS_HMS"
        if e == "redirect_from_ZAMS":
            return "step_detached"
    if b == "detached" and co1 != co2:
        s = s2 if co1 else s1
        if e == "redirect_from_CO_HMS_RLO" and s in HRICH:
            return "step_detached"
        if e in ("redirect_from_CO_HeMS", "redirect_from_CO_HeMS_RLO") and s in HERICH:
            return "step_detached"
    if (b, e) in (("RLO1", "oRLO1"), ("RLO2", "oRLO2")):
        d, a = (s1, s2) if b == "RLO1" else (s2, s1)
        if a in CO:
            if d in EVOLV_HE:
                return "step_CO_HeMS_RLO"
            if d in EVOLV_H:
                return "step_CO_HMS_RLO"
        elif d in HERICH and a in HERICH:
            return "step_merged"
        return None
    if b == "RLO1" and e in ("oCE1", "oDoubleCE1") and s1 in NORMAL:
        return "step_CE"
    if b == "RLO2" and e in ("oCE2", "oDoubleCE2") and s2 in NORMAL:
        return "step_CE"
    if b == "contact" and e in ("oCE1", "oCE2", "oDoubleCE1", "oDoubleCE2"):
        if s1 in NORMAL and s2 in NORMAL:
            return "step_CE"
        return "any"          # contact with a non-star never arises; not specified
    return None


def oracle_ecc(s1, s2, b, e):
    ev = EVOLV_H | EVOLV_HE
    if (b, e) in (("RLO1", "oRLO1"), ("RLO2", "oRLO2")) and s1 in ev and s2 in ev:
        return "step_HMS_HMS_RLO"
    if b == "detached" and e == "ZAMS":
        r = oracle(s1, s2, b, e)
        return "step_detached" if r is not None else None
    return oracle(s1, s2, b, e)


@sub("P04", "transition_table", [dict(s1=s1, s2=s2) for s1 in ALL for s2 in ALL])
def transition_table(c):
    """Complete enumeration: for every pair of star states and every binary state and event, the
    default and the initial-eccentricity chart agree with the documented rules and are symmetric under
    swapping the stars.  Non-trivial: all (each case covers 176 total states)."""
    ch, ce = flow_chart(), initial_eccentricity_flow_chart()
    s1, s2 = c["s1"], c["s2"]
    for b in BIN:
        for e in EV:
            for chart, orc, nm in ((ch, oracle, "default"), (ce, oracle_ecc, "eccentric")):
                want = orc(s1, s2, b, e)
                got = chart.get((s1, s2, b, e))
                if want != "any":
                    check(got == want, lambda: f"{nm} chart: {(s1, s2, b, e)} -> {got}, expected {want}")
                    sw = chart.get((s2, s1, SWAP_B.get(b, b), SWAP_E.get(e, e)))
                    check(sw == got, lambda: f"{nm} chart not symmetric at {(s1, s2, b, e)}: "
                                             f"{got} vs swapped {sw}")
    nontrivial()


STEPS = ["step_HMS_HMS", "step_detached", "step_CO_HeMS", "step_SN", "step_CE", "step_end", "my_step"]
key_st = st.tuples(one(ALL), one(ALL), one(BIN), one(EV)).map(list)


@sub("P04", "customisation",
     st.lists(fixed(fn=one(["default", "ecc"]),
                    base=one(["none", "copy", "small"]),
                    change=st.lists(st.tuples(key_st, one(STEPS)).map(list), max_size=4)),
              min_size=1, max_size=4), quick=96, thorough=1500,
     rule="histories of chart constructions with user changes; non-trivial: a change hits a defined "
          "total state and the chart is rebuilt afterwards")
def customisation(ops):
    """A user change alters exactly the listed, already defined total states, and no chart built later
    is affected by changes made to an earlier one."""
    pristine = dict(flow_chart())
    hit = False
    for op in ops:
        change = {tuple(k): v for k, v in op["change"]}
        kw = dict(CHANGE_FLOW_CHART=change) if change else {}
        if op["base"] == "copy":
            kw["FLOW_CHART"] = dict(pristine)
        elif op["base"] == "small":
            kw["FLOW_CHART"] = {k: pristine[k] for k in list(pristine)[::997]}
        base = dict(kw.get("FLOW_CHART", pristine))
        fn = flow_chart if op["fn"] == "default" else initial_eccentricity_flow_chart
        got = fn(**kw)
        want = {k: change.get(k, v) for k, v in base.items()}
        hit |= any(k in base for k in change)
        if op["fn"] == "ecc":
            ev = EVOLV_H | EVOLV_HE
            for k in want:
                if k[3] == "ZAMS" and k[2] == "detached":
                    want[k] = "step_detached"
            for a in ev:
                for b in ev:
                    want[(a, b, "RLO1", "oRLO1")] = "step_HMS_HMS_RLO"
                    want[(a, b, "RLO2", "oRLO2")] = "step_HMS_HMS_RLO"
        if got != want:
            d = [(k, got.get(k), want.get(k)) for k in set(got) | set(want)
                 if got.get(k) != want.get(k)][:5]
            check(False, f"chart differs from request at {d}")
        # vandalise the returned chart; later ones must not notice
        for k in list(got)[:50]:
            got[k] = "vandal"
        check(flow_chart() == pristine, "a chart built later is affected by an earlier one")
    nontrivial(hit)


class Recorder:
    def __init__(self, name, out):
        self.name, self.out = name, out

    def __call__(self, binary):
        self.out.append(self.name)
        binary.event = "END"


SP = {}


@sub("P04", "dispatch", fixed(s1=one(ALL), s2=one(ALL), b=one(BIN), e=one(EV)) |
     fixed(s1=one(NORMAL + CO), s2=one(NORMAL + CO), b=one(["detached", "RLO1", "RLO2", "contact"]),
           e=one([None, "oRLO1", "oRLO2", "oCE1", "oCE2", "CC1", "CC2", "oDoubleCE1", "oDoubleCE2",
                  "maxtime"])),
     quick=1200, thorough=20000)
def dispatch(c):
    """A binary in a total state runs exactly the step the chart names; an undefined total state is
    refused with an error and no step runs.  Non-trivial: a step is defined."""
    if "p" not in SP:
        p = SimulationProperties()
        p.flow = flow_chart()
        SP["p"], SP["log"] = p, []
        for name in set(p.flow.values()):
            setattr(p, name, Recorder(name, SP["log"]))
    log = SP["log"]
    log.clear()
    b = BinaryStar(star_1=SingleStar(mass=10.0, state="H-rich_Core_H_burning"),
                   star_2=SingleStar(mass=8.0), state=c["b"], event=c["e"], time=0.0,
                   orbital_period=10.0, properties=SP["p"])
    b.star_1.state, b.star_2.state = c["s1"], c["s2"]
    want = oracle(c["s1"], c["s2"], c["b"], c["e"])
    if want == "any":
        return
    undefined = (c["s1"] in CO and c["s2"] == "H-rich_Core_H_burning"
                 and c["b"] in ("disrupted", "detached") and c["e"] == "CC2")
    try:
        b.evolve()
        err = None
    except (ValueError, FlowError) as ex:
        err = ex
    if want is None or undefined:
        check(err is not None, "undefined total state accepted")
        check(log == [], f"a step ran on an undefined total state: {log}")
        label("undefined")
    else:
        check(err is None, lambda: f"defined total state refused: {err}")
        check(log == [want], lambda: f"steps run {log}, expected [{want}]")
        nontrivial(label=want)
