"""Property-based testing driver.

A property module under harness/props registers *subchecks* with @sub.  A
subcheck is an executable statement `body(case)` over generated plain-data
cases (JSON-able dicts / lists; histories are lists of operations).  Cases are
drawn and shrunk by Hypothesis; a failing case is stored as a replay file which
re-runs `body` directly, without Hypothesis.
"""
import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st
import hypothesis.errors as herr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
NPROC = min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 150


class Violation(AssertionError):
    """The property is broken for this case."""


class Hang(Exception):
    """A case did not come back."""


class CheckError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


# --------------------------------------------------------------- body helpers
_ctx = {"nt": None, "labels": None}


def nontrivial(cond=True, label=None):
    """Mark the running case as non-trivial (and label it)."""
    if cond:
        _ctx["nt"] = True
        if label is not None:
            _ctx["labels"].add(str(label))


def label(name, cond=True):
    if cond:
        _ctx["labels"].add(str(name))


def check(cond, msg="property violated", *args):
    if not cond:
        if callable(msg):
            msg = msg()
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=0.0):
    """NaN-aware closeness of scalars (None only equals None)."""
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(a, b, what, rtol=1e-9, atol=0.0):
    check(close(a, b, rtol, atol),
          lambda: f"{what}: got {a!r}, expected {b!r} (rtol={rtol}, atol={atol})")


def same(a, b):
    """Structural equality, NaN equal to NaN, 1 == 1.0."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    try:
        return bool(a == b)
    except Exception:
        return a is b


@contextlib.contextmanager
def scratch(prefix="vp_"):
    """A scratch directory that is removed afterwards."""
    import shutil
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix=prefix, suffix="_d", dir=base)
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------- generators
_D = st.integers(0, 127)
_UNIT = st.tuples(_D, _D, _D).map(lambda t: (t[0] * 16384 + t[1] * 128 + t[2]) / 2097151.0)


def u(lo, hi):
    """Uniform float in [lo, hi], shrinking to lo (large integer ranges are not uniform in Hypothesis)."""
    return _UNIT.map(lambda x: float(lo) if x == 0 else float(hi) if x == 1 else lo + (hi - lo) * x)


def lu(lo, hi):
    """Log-uniform float in [lo, hi], shrinking to lo."""
    a, b = math.log10(lo), math.log10(hi)
    return _UNIT.map(lambda x: float(lo) if x == 0 else float(hi) if x == 1 else 10 ** (a + (b - a) * x))


def seeds():
    return st.tuples(_D, _D, _D).map(lambda t: t[0] * 16384 + t[1] * 128 + t[2])


def fixed(**kw):
    return st.fixed_dictionaries(kw)


one = st.sampled_from

# --------------------------------------------------------------- registry
_SUBS = {}

# the quick tier generates this many times the cases a subcheck asks for (about half a minute per property)
_QUICK = dict(P01=2, P04=6, P05=4, P06=3, P07=2, P08=2, P09=4, P10=3, P11=3, P12=3, P13=2, P14=2, P16=2, P17=4,
              P18=5, P19=6, P20=2, P21=3, P22=6, P25=2, P31=2)


class Sub:
    def __init__(self, pid, name, strategy, quick, thorough, body, examples, rule, terminates):
        self.pid, self.name, self.strategy = pid, name, strategy
        self.n = {"quick": quick * _QUICK.get(pid, 1), "thorough": max(thorough, quick * _QUICK.get(pid, 1))}
        self.body, self.examples, self.rule = body, examples, rule
        self.terminates = terminates


def sub(pid, name, strategy=None, quick=200, thorough=None, examples=(), rule="",
        terminates=False):
    """Register a subcheck.  strategy: Hypothesis strategy, or a list (all enumerated)."""
    def deco(f):
        _SUBS.setdefault(pid, []).append(
            Sub(pid, name, strategy, quick, thorough or quick * 20, f, list(examples),
                rule or (f.__doc__ or "").strip(), terminates))
        return f
    return deco


_KNOWN = {}


def known(pid, key):
    """Register the probe of a known finding: returns True while the listed input still fails."""
    def deco(f):
        _KNOWN.setdefault(pid, {})[key] = f
        return f
    return deco


def report_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        pre = f"known: property={pid} "
        if line.startswith(pre):
            key, text = line[len(pre):].strip().split(" ", 1)
            probe = _KNOWN.get(pid, {}).get(key.strip("[]"))
            try:
                with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
                        contextlib.redirect_stderr(io.StringIO()):
                    warnings.simplefilter("ignore")
                    bad = probe is None or bool(probe())
            except Exception:
                bad = True
            if bad:
                print(f"KNOWN-FINDING: property={pid} {key} {text}")


def _norm(case):
    return json.loads(json.dumps(case))


def _fresh():
    random.seed(12345)
    np.random.seed(12345)


def _alarm(signum, frame):
    raise Hang(f"case did not finish within {CASE_TIMEOUT} s of CPU time")


def _short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = []
    for fr in tb[-6:]:
        out.append(f"{os.path.basename(fr.filename)}:{fr.lineno} {fr.name}: {fr.line}")
    return out


def run_case(s, case):
    """Run one case.  Returns (nontrivial, labels); raises on violation."""
    _ctx["nt"], _ctx["labels"] = False, set()
    _fresh()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            s.body(case)
    return _ctx["nt"], _ctx["labels"]


def _shard(s, tier, seed, shard, nshards, deadline, q):
    """Worker process: run one shard of a subcheck; result through the queue."""
    res = dict(sub=s.name, shard=shard, evals=0, hashes=[], labels={}, samples=[],
               fail=None, error=None, stopped=False, wall=0.0)
    t0 = time.time()
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    signal.signal(signal.SIGVTALRM, _alarm)
    hashes = set()
    state = {"first": None}
    import logging
    logging.disable(logging.CRITICAL)

    def one_case(case):
        now = time.time()
        if state["first"] is None and now > deadline:
            res["stopped"] = True
            return
        if state["first"] is not None and now > state["first"] + 40:
            return
        case = _norm(case)
        res["evals"] += 1
        sys.stdout.seek(0)
        sys.stdout.truncate()
        sys.stderr.seek(0)
        sys.stderr.truncate()
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_TIMEOUT)
        try:
            nt, labels = run_case(s, case)
        except (CheckError, MemoryError):
            raise
        except Hang as e:
            if not s.terminates:
                raise CheckError(f"hang in {s.name}: {json.dumps(case)[:300]}")
            res["fail"] = dict(case=case, error=f"Hang: {e}", tb=_short_tb(e))
            state["first"] = state["first"] or time.time() - 60
            raise
        except (herr.HypothesisException, KeyboardInterrupt):
            raise
        except BaseException as e:
            if isinstance(e, SystemExit) or isinstance(e, Exception):
                res["fail"] = dict(case=case, error=f"{type(e).__name__}: {e}"[:2000],
                                   tb=_short_tb(e))
                state["first"] = state["first"] or time.time()
                if isinstance(e, SystemExit):
                    raise Violation("SystemExit") from e
            raise
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for l in labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if nt:
            h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                                digest_size=8).hexdigest()
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 2 or (len(hashes) % 97 == 0 and len(res["samples"]) < 3):
                    res["samples"].append(case)

    try:
        if shard == 0:
            for c in s.examples:
                one_case(c)
        if isinstance(s.strategy, (list, tuple)):
            for c in s.strategy[shard::nshards]:
                one_case(c)
        else:
            n = max(1, s.n[tier] // nshards)
            hs = int(hashlib.blake2b(f"{seed}/{s.pid}/{s.name}/{shard}".encode(),
                                     digest_size=6).hexdigest(), 16)

            @hypothesis.seed(hs)
            @settings(max_examples=n, deadline=None, database=None,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False, print_blob=False,
                      verbosity=hypothesis.Verbosity.quiet)
            @given(case=s.strategy)
            def prop(case):
                one_case(case)
            prop()
    except BaseException as e:
        if res["fail"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    res["hashes"] = list(hashes)
    res["wall"] = round(time.time() - t0, 2)
    q.put(json.dumps(res))


def main(pid, tier, seed, nproc=NPROC, only=None, verbose=False):
    t0 = time.time()
    subs = [s for s in _SUBS.get(pid, []) if only is None or s.name in only]
    if not subs:
        print(f"no subchecks for {pid}")
        return 2
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "5400"))
    deadline = t0 + budget
    tasks = []
    for s in subs:
        total = len(s.strategy) if isinstance(s.strategy, (list, tuple)) else s.n[tier]
        k = max(1, min(nproc, total // 10))
        for i in range(k):
            tasks.append((s, i, k))
    # interleave: shard 0 of each sub first
    tasks.sort(key=lambda t: t[1])
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    running, results, failed = {}, [], False
    pending = list(tasks)

    def drain(timeout):
        try:
            r = json.loads(q.get(timeout=timeout))
            results.append(r)
            running.pop((r["sub"], r["shard"]), None)
            return r
        except Exception:
            return None

    while pending or running:
        while pending and len(running) < nproc and not failed:
            s, i, k = pending.pop(0)
            p = ctx.Process(target=_shard, args=(s, tier, seed, i, k, deadline, q), daemon=False)
            p.start()
            running[(s.name, i)] = (p, s)
        r = drain(0.5)
        if r is not None and verbose:
            print(f"  {r['sub']}[{r['shard']}] evals={r['evals']} nt={len(r['hashes'])} "
                  f"{r['wall']}s {'FAIL' if r['fail'] else ''}{'ERR' if r['error'] else ''}",
                  flush=True)
        if r is not None and r["fail"] and not failed:
            failed = True
            pending = []
            # give the others a moment, then stop them
            tstop = time.time() + 2
            while running and time.time() < tstop:
                drain(0.2)
            for p, s in running.values():
                p.kill()
            running.clear()
        for key, (p, s) in list(running.items()):
            if not p.is_alive():
                r2 = drain(2)
                if r2 is None and key in running:
                    running.pop(key)
                    results.append(dict(sub=key[0], shard=key[1], evals=0, hashes=[], labels={},
                                        samples=[], fail=None, stopped=False, wall=0,
                                        error=f"worker died, exit code {p.exitcode}"))
    wall = time.time() - t0
    # ---------------------------------------------------------------- evidence
    per, samples, nt_total, ev_total, stopped = {}, [], 0, 0, []
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        hs = set()
        labels = {}
        for r in rs:
            hs.update(r["hashes"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        ev = sum(r["evals"] for r in rs)
        per[s.name] = dict(evaluations=ev, distinct_nontrivial=len(hs),
                           rule=s.rule.split("\n\n")[0].replace("\n", " ")[:600],
                           labels=dict(sorted(labels.items())))
        if any(r["stopped"] for r in rs):
            stopped.append(s.name)
            per[s.name]["stopped_by_time_budget"] = True
        nt_total += len(hs)
        ev_total += ev
        for r in rs[:1]:
            for c in r["samples"][:1]:
                txt = json.dumps(c)
                samples.append({"subcheck": s.name,
                                "case": c if len(txt) < 1500 else txt[:1500] + "..."})
    fails = [r for r in results if r["fail"]]
    errors = [r for r in results if r["error"]]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=ev_total, distinct_nontrivial=nt_total,
                            rule="Cases are generated by Hypothesis strategies per subcheck "
                                 "(see subchecks[*].rule); a case is non-trivial when it reaches "
                                 "the state the subcheck is about (its body marks it), and is "
                                 "counted once per distinct case content.",
                            samples=samples, subchecks=per),
              wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(EVID, exist_ok=True)
    if only is None:
        tmp = os.path.join(EVID, f".{pid}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    print(f"{pid} tier={tier} seed={seed}: {ev_total} cases, {nt_total} distinct non-trivial, "
          f"{len(subs)} subchecks, {wall:.1f} s" + (f"; time budget hit in {stopped}" if stopped else ""))
    if fails:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        seen = set()
        for r in fails:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            path = os.path.join(EVID, "replay", f"{pid}-{r['sub']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=r["sub"], seed=seed, **r["fail"]), f, indent=1)
            print(f"[{r['sub']}] {r['fail']['error']}")
            for line in r["fail"]["tb"]:
                print("    " + line)
            print("    case: " + json.dumps(r["fail"]["case"])[:800])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for r in errors:
            print(f"CHECK ERROR in {pid}/{r['sub']}[{r['shard']}]:\n{r['error']}")
        return 2
    empty = [n for n, p in per.items() if p["distinct_nontrivial"] == 0]
    if empty and only is None:
        print(f"CHECK ERROR: vacuous subchecks (no non-trivial case): {empty}")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    subs = [s for s in _SUBS[r["property"]] if s.name == r["sub"]]
    try:
        run_case(subs[0], _norm(r["case"]))
    except Exception as e:
        traceback.print_exc()
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("replay: property holds on this case")
    return 0
