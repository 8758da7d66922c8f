"""P03 the evolution loop of a binary: follows the flow, records everything, always comes back."""
import signal

import numpy as np

from core import *

from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.simulationproperties import (EvolveHooks, SimulationProperties,
                                                      StepNamesHooks, TimingHooks)
from posydon.utils.posydonerror import FlowError

S = ["H-rich_Core_H_burning", "H-rich_Core_He_burning", "NS", "BH", "WD", "massless_remnant"]
B = ["detached", "RLO1", "RLO2", "contact", "disrupted", "merged", "initial_RLOF"]
E = [None, "ZAMS", "CC1", "CC2", "oRLO1", "oCE1", "redirect_from_ZAMS", "redirect_from_CO_HeMS",
     "maxtime", "END", "FAILED", "oRLO2"]
STEPN = ["step_HMS_HMS", "step_detached", "step_SN", "step_CE", "step_end", "step_merged"]

total = st.tuples(one(S), one(S), one(B), one(E)).map(list)
outcome = fixed(to=total | st.tuples(one(S), one(S), one(B), one(E[:9])).map(list),
                rows=one([0, 0, 0, 1, 3]), dt=lu(1, 1e7), dm=u(0, 1), fail=one([0] * 12 + [1]))


class Boom(Exception):
    pass


class LogHooks(EvolveHooks):
    def __init__(self, log=None, tag=""):
        self.log, self.tag = log, tag

    def pre_evolve(self, binary):
        self.log.append(("pre_evolve", self.tag))
        return binary

    def pre_step(self, binary, step_name):
        self.log.append(("pre_step", self.tag, step_name, binary.get_total_state()))
        return binary

    def post_step(self, binary, step_name):
        self.log.append(("post_step", self.tag, step_name, len(binary.event_history)))
        return binary

    def post_evolve(self, binary):
        self.log.append(("post_evolve", self.tag))
        return binary


def set_total(b, t):
    b.star_1.state, b.star_2.state, b.state, b.event = t


def make_step(name, script, calls, log):
    def step(binary):
        i = len(calls)
        calls.append((name, binary.get_total_state()))
        if i >= len(script):
            binary.event = "END"
            return
        o = script[i]
        t0, m0 = binary.time, binary.star_1.mass
        for r in range(o["rows"]):
            # a step that writes its own evolution into the histories
            binary.time = t0 + o["dt"] * (r + 1) / (o["rows"] + 1)
            for k in BINARYPROPERTIES:
                getattr(binary, k + "_history").append(getattr(binary, k))
            for s_ in (binary.star_1, binary.star_2):
                for k in STARPROPERTIES:
                    getattr(s_, k + "_history").append(getattr(s_, k))
        binary.time = t0 + o["dt"]
        binary.star_1.mass = m0 * (1 - 0.1 * o["dm"])
        if o["fail"]:
            raise Boom(f"call {i}")
        set_total(binary, o["to"])
    return step


def simulate(start, flow, script, end_events, end_states, max_n, verbose):
    """Reference execution: (calls, recorded rows [(total, nrows)], outcome)."""
    undefined = lambda t: (t[0] in ("NS", "BH", "WD") and t[1] == S[0]
                           and t[2] in ("disrupted", "detached") and t[3] == "CC2")
    cur = list(start)
    calls, rows, names, post = [], [("init", list(start))], ["initial_cond"], []
    n = 0
    while True:
        if cur[3] in ("END", "FAILED") or cur[3] in end_events or cur[2] in end_states:
            return calls, rows, names, post, "end", cur
        key = tuple(cur)
        if undefined(key):
            return calls, rows, names, post, "flow", cur
        if key not in flow:
            return calls, rows, names, post, "noflow", cur
        step = flow[key]
        if step == "missing_step":
            return calls, rows, names, post, "nostep", cur
        i = len(calls)
        calls.append((step, key))
        if i >= len(script):
            nxt, nr, fail = cur[:3] + ["END"], 0, False
        else:
            nxt, nr, fail = script[i]["to"], script[i]["rows"], script[i]["fail"]
        rows += [("inner", list(cur))] * nr
        if fail:
            return calls, rows, names, post, "boom", cur
        cur = list(nxt)
        if not verbose and cur[3] is not None and "redirect" in cur[3]:
            pass
        else:
            rows.append(("row", list(cur)))
            names.append(step)
            names += [None] * (len(rows) - len(names))
            post.append((step, len(rows)))
        n += 1
        if max_n is not None and n > max_n:
            return calls, rows, names, post, "max", cur


case_st = fixed(start=st.tuples(one(S[:4]), one(S[:4]), one(B[:3]), one(E[:6])).map(list),
                script=st.lists(outcome, min_size=1, max_size=9),
                steps=st.lists(one(STEPN + ["missing_step"] if False else STEPN), min_size=10, max_size=10),
                hole=st.integers(-14, 9), nostep=st.integers(-14, 9),
                end_events=st.lists(one(E[1:]), max_size=1), end_states=st.lists(one(B[1:]), max_size=1),
                max_n=one([100, 100, 100, 100, 3, 1, None]), verbose=st.booleans(), hooks=one([0, 1, 2]),
                late=one([0] * 12 + [1]), rep=one([1] * 12 + [2, 15]))


def the_script(c):
    """The outcomes of the calls, in long evolutions over and over again."""
    return c["script"] * c["rep"]


def run(c):
    script = the_script(c)
    flow, order = {}, []
    for t, s in zip([c["start"]] + [o["to"] for o in script], c["steps"]):
        if tuple(t) not in flow:
            flow[tuple(t)] = s
            order.append(tuple(t))
    if 0 <= c["hole"] < len(order):
        flow.pop(order[c["hole"]])
    if 0 <= c["nostep"] < len(order) and order[c["nostep"]] in flow:
        flow[order[c["nostep"]]] = "missing_step"
    log, calls = [], []
    extra = [(LogHooks, dict(log=log, tag="A")), (StepNamesHooks, {})]
    if c["hooks"] >= 1:
        extra.append((LogHooks, dict(log=log, tag="B")))
    if c["hooks"] >= 2:
        extra.append((TimingHooks, {}))
        extra.append(("extra_post_step", lambda b, n: log.append(("extra", n))))
    p = SimulationProperties(extra_hooks=extra, end_events=c["end_events"], end_states=c["end_states"],
                             max_n_steps_per_binary=c["max_n"], max_simulation_time=1e10)
    p.flow = flow
    for nme in STEPN:
        setattr(p, nme, make_step(nme, script, calls, log))
    b = BinaryStar(star_1=SingleStar(mass=20.0), star_2=SingleStar(mass=10.0), index=3,
                   state=c["start"][2], event=c["start"][3], time=2e10 if c["late"] else 0.0,
                   orbital_period=10.0, properties=p, history_verbose=c["verbose"])
    b.star_1.state, b.star_2.state = c["start"][0], c["start"][1]
    b.star_1.state_history, b.star_2.state_history = [c["start"][0]], [c["start"][1]]
    return b, p, flow, log, calls


def lengths(b):
    out = {k: len(getattr(b, k + "_history")) for k in BINARYPROPERTIES}
    for i, s in ((1, b.star_1), (2, b.star_2)):
        out.update({f"S{i}_{k}": len(getattr(s, k + "_history")) for k in STARPROPERTIES})
    return out


@sub("P03", "loop", case_st, quick=2400, thorough=20000, terminates=True)
def loop(c):
    """Scripted evolutions (random flow, outcomes, redirects, multi-row steps, failing steps, step
    limits, end conditions) against a reference execution of the loop.  Non-trivial: >=2 steps run."""
    b, p, flow, log, calls = run(c)
    want_calls, rows, names, post, how, cur = simulate(
        c["start"], flow, the_script(c), c["end_events"], c["end_states"], c["max_n"], c["verbose"])
    label("more than 50 steps", len(want_calls) > 50)
    try:
        b.evolve()
        err = None
    except Exception as ex:
        err = ex
    check(signal.getitimer(signal.ITIMER_REAL)[0] == 0.0, "a time-limit alarm is left pending")
    if c["late"]:
        check(isinstance(err, ValueError), "birth after the maximum simulation time accepted")
        check(calls == [], "step ran although the binary is born too late")
        return
    check(calls == want_calls, lambda: f"steps run: {calls}; flow prescribes {want_calls}")
    kinds = dict(end=type(None), flow=FlowError, noflow=ValueError, nostep=ValueError, boom=Boom,
                 max=RuntimeError)
    check(isinstance(err, kinds[how]), lambda: f"outcome {err!r}, expected {how}")
    # recorded history
    L = set(lengths(b).values())
    check(L == {len(rows)}, lambda: f"history lengths {L}, expected {len(rows)} rows")
    got = list(zip(b.star_1.state_history, b.star_2.state_history, b.state_history, b.event_history))
    for i, (kind, t) in enumerate(rows):
        check(list(got[i]) == list(t), lambda: f"history row {i} is {got[i]}, expected {t}")
    th = b.time_history
    check(all(th[i] <= th[i + 1] for i in range(len(th) - 1)), "time goes backwards in the history")
    # hooks
    check(b.step_names == names, lambda: f"step_names {b.step_names}, expected {names}")
    if c["hooks"] >= 2:
        check(len(b.step_times) == len(names), "step_times not aligned with the history")
        check([e[1] for e in log if e[0] == "extra"] == [s for s, _ in post], "extra post-step function calls")
    for tag in ["A"] + (["B"] if c["hooks"] else []):
        pre = [(e[2], e[3]) for e in log if e[0] == "pre_step" and e[1] == tag]
        check(pre == want_calls, lambda: f"pre-step hook calls {pre} differ from steps {want_calls}")
        po = [(e[2], e[3]) for e in log if e[0] == "post_step" and e[1] == tag]
        check(po == post, lambda: f"post-step hook calls {po}, expected {post}")
        check(sum(e[0] == "pre_evolve" and e[1] == tag for e in log) == 1, "pre_evolve hook count")
        check(sum(e[0] == "post_evolve" and e[1] == tag for e in log) == (1 if how == "end" else 0),
              "post_evolve hook count")
    nontrivial(len(want_calls) >= 2, how)
    label("redirect", any(o["to"][3] and "redirect" in o["to"][3] for o in c["script"][:len(want_calls)]))


@sub("P03", "rerun", fixed(c=case_st, i=st.integers(0, 8)), quick=800, thorough=6000, terminates=True)
def rerun(cc):
    """Restoring to any recorded entry truncates binary, star and hook columns together, and evolving
    again from the initial entry reproduces the same history.  Non-trivial: >=2 recorded rows."""
    c = cc["c"]
    if c["late"]:
        return
    b, p, flow, log, calls = run(c)

    def ev():
        calls.clear()
        try:
            b.evolve()
        except Exception as ex:
            return type(ex).__name__
        return None
    e1 = ev()
    h1 = [list(b.event_history), list(b.state_history), list(b.time_history),
          list(b.star_1.mass_history), list(b.star_1.state_history)]
    names1 = list(b.step_names)
    n = len(b.event_history)
    i = min(cc["i"], n - 1, len(b.step_names) - 1)
    b.restore(i)
    check(set(lengths(b).values()) == {i + 1}, "restore does not truncate all columns")
    check(len(b.step_names) == i + 1 and b.step_names == names1[:i + 1], "restore leaves hook column long")
    check(b.event == h1[0][i] and b.state == h1[1][i] and same(b.time, h1[2][i]), "restore: wrong values")
    b.restore(0)
    e2 = ev()
    h2 = [list(b.event_history), list(b.state_history), list(b.time_history),
          list(b.star_1.mass_history), list(b.star_1.state_history)]
    check(e1 == e2 and same(h1, h2), "evolving again from the start gives another history")
    check(b.step_names == names1, lambda: f"step names differ on rerun: {b.step_names} vs {names1}")
    nontrivial(n >= 3)
