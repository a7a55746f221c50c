"""Exploration engine shared by all checks.

A property module provides
  ID, LEVEL, BOUNDS, ASSUME      what is claimed
  cases(tier)                    the complete bounded space, as JSON values
  check(case, out)               explores one case on the real code
  setup() (optional)             imports done once before forking

Every case is visited exactly once; VERIF_SEED only permutes the order.
"""
import collections
import ctypes
import fnmatch
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = REPO + "/stokesian_dynamics"
SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
CASE_LIMIT = {"quick": 240, "thorough": 1800}
STOP_AFTER_VIOLATION = {"quick": 100, "thorough": 600}


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def _feed(h, x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            h.update(np.char.mod("%.7e", np.asarray(x, float).ravel() + 0.0)
                     .astype("S16").tobytes())
        else:
            h.update(repr(x.tolist()).encode())
        h.update(repr(x.shape).encode())
    elif isinstance(x, float):
        h.update(b"%.7e" % (x + 0.0))
    elif isinstance(x, (list, tuple)):
        h.update(b"(")
        for y in x:
            _feed(h, y)
            h.update(b",")
        h.update(b")")
    else:
        h.update(repr(x).encode())


def digest(*parts):
    h = hashlib.blake2b(digest_size=10)
    _feed(h, parts)
    return h.digest()


class Out:
    """Collects what was explored and what went wrong."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.viol = []
        self.counts = collections.Counter()
        self.maxerr = {}
        self.error = None

    def state(self, *parts):
        self.states.add(digest(*parts))

    def outcome(self, *parts):
        self.outcomes.add(digest(*parts))

    def edge(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] += n

    def merge(self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        self.counts.update(o.counts)
        self.viol += o.viol
        for k, v in o.maxerr.items():
            self.maxerr[k] = max(self.maxerr.get(k, 0), v)

    def fail(self, key, msg):
        if len(self.viol) < 40:
            self.viol.append((key, str(msg)[:4000]))
        else:
            self.counts["further violations"] += 1

    def ok(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, key, got, want, rtol=1e-9, atol=1e-12, scale=None, msg=""):
        """got equals want up to rtol of the largest entry (or scale)."""
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            self.fail(key, f"shape {got.shape} instead of {want.shape} {msg}")
            return False
        if got.size == 0:
            return True
        ref = scale if scale is not None else np.max(np.abs(want))
        bad = ~np.isfinite(got)
        err = np.where(bad, np.inf, np.abs(got - want))
        e = float(np.max(err))
        lim = atol + rtol * ref
        k = key.split("|")[0]
        if np.isfinite(e):
            r = e / (ref if ref > 0 else 1.0)
            self.maxerr[k] = max(self.maxerr.get(k, 0.0), r)
        if not e <= lim:
            i = np.unravel_index(int(np.argmax(err)), err.shape)
            self.fail(key, f"entry {tuple(int(q) for q in i)}: got {got[i]!r} want "
                      f"{want[i]!r} (|diff| {e:.3g} > {lim:.3g}) {msg}")
            return False
        return True


def in_repo(tb):
    return any(f.filename.startswith(REPO + "/")
               for f in traceback.extract_tb(tb))


def repo_site(tb):
    fs = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + "/")]
    f = fs[-1]
    return os.path.relpath(f.filename, REPO) + ":" + f.name


def _alarm(*_):
    raise CaseTimeout()


_MOD = None
_TIER = "quick"


def run_case(case):
    out = Out()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(_MOD, "CASE_LIMIT", CASE_LIMIT[_TIER]))
    try:
        _MOD.check(case, out)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = e.__traceback__
        if in_repo(tb):
            out.fail(f"exception|{type(e).__name__}@{repo_site(tb)}",
                     "".join(traceback.format_exception(type(e), e, tb))[-3000:])
        elif isinstance(e, CaseTimeout):
            out.fail("timeout", "case did not finish")
        else:
            out.error = "".join(traceback.format_exception(type(e), e, tb))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return case, out


def _worker(cases):
    return [run_case(c) for c in cases]


def known():
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: property="):
                head, what = line[len("finding: property="):].split(" | ", 1)
                pid, key = head.split(" key=", 1)
                res.append((pid, key.strip(), what))
    return res


def die_with_parent():
    """Have this process killed when the one that made it ends."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def main(mode):
    """Exit status of the check; an error of the check itself is 2."""
    try:
        return _main(mode)
    except Exception:
        traceback.print_exc()
        return 2


def _main(mode):
    global _MOD, _TIER
    arg = os.environ["MC_ARG"]
    if mode == "replay":
        art = json.load(open(arg))
        pid, tier = art["property"], art["tier"]
    else:
        pid, tier = arg.upper(), os.environ["MC_TIER"]
    _TIER = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    _MOD = mod = importlib.import_module("mc.props." + pid.lower())
    if hasattr(mod, "setup"):
        try:
            mod.setup()
        except BaseException as e:
            if not in_repo(e.__traceback__):
                raise
            if mode == "replay":
                traceback.print_exc()
                return 1
            tot = Out()
            tot.fail(f"exception|{type(e).__name__}@{repo_site(e.__traceback__)}",
                     "importing the code under test failed: " + traceback.format_exc())
            return finish(mod, pid, tier, seed, t0, tot, [("import", tot)], 0, False)
    if mode == "replay":
        case, out = run_case(art["case"])
        if out.error:
            print(out.error)
            return 2
        for k, m in out.viol:
            print(f"{k}: {m}")
        print("violations:", len(out.viol))
        return 1 if out.viol else 0

    cases = list(mod.cases(tier))
    random.Random(seed).shuffle(cases)
    if hasattr(mod, "cost"):
        cases.sort(key=mod.cost, reverse=True)
    n = len(cases)
    nproc = min(getattr(mod, "NPROC", 8), os.cpu_count() or 1)
    chunk = max(1, min(getattr(mod, "CHUNK", 64), n // (nproc * 6) or 1))
    chunks = [cases[i:i + chunk] for i in range(0, n, chunk)]
    tot, bad, done = Out(), [], 0
    exhaustive = True
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    err, fresh = None, False
    kn = [k for p, k, _ in known() if p == pid]
    with ctx.Pool(nproc, die_with_parent) as pool:
        for res in pool.imap_unordered(_worker, chunks):
            for case, out in res:
                done += 1
                tot.merge(out)
                tot.viol = []
                if out.error:
                    err = (case, out.error)
                if out.viol:
                    bad.append((case, out))
                    fresh |= any(not any(fnmatch.fnmatchcase(key, k) for k in kn)
                                 for key, _ in out.viol)
            if err:
                break
            if fresh and time.time() - t0 > STOP_AFTER_VIOLATION[tier] and done < n:
                exhaustive = False
                break
        pool.terminate()
    if err and not fresh:
        print("harness error on case", json.dumps(err[0]))
        print(err[1])
        return 2
    return finish(mod, pid, tier, seed, t0, tot, bad, done, exhaustive, cases[:3])


def finish(mod, pid, tier, seed, t0, tot, bad, done, exhaustive, sample=()):
    kn = [(k, w) for p, k, w in known() if p == pid]
    hit, new = {}, []
    for case, out in bad:
        for key, msg in out.viol:
            for k, w in kn:
                if fnmatch.fnmatchcase(key, k):
                    hit[k] = w
                    break
            else:
                new.append((case, key, msg))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    cov = {
        "states": len(tot.states), "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "distinct_outcomes": len(tot.outcomes), "cases_explored": done,
        "exhaustive": bool(exhaustive), "bounds": mod.BOUNDS[tier]
        if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "max_relative_difference": {k: float("%.3g" % v)
                                    for k, v in sorted(tot.maxerr.items())},
        "counts": dict(sorted(tot.counts.items())),
        "samples": [c if len(json.dumps(c)) < 2000 else json.dumps(c)[:2000]
                    for c in sample],
    }
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUME", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if hasattr(mod, "evidence"):
        mod.evidence(ev, tot)
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for k, w in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={pid} {w}")
    print(f"{pid} {tier}: {done} cases, {len(tot.states)} states, "
          f"{tot.transitions} transitions, {tot.traces} traces, "
          f"{len(tot.outcomes)} outcomes, {len(new)} violations, "
          f"{time.time() - t0:.1f}s")
    if tot.maxerr:
        print("  largest relative differences:",
              ", ".join(f"{k}={v:.2g}" for k, v in sorted(tot.maxerr.items())))
    if tot.counts:
        print("  counts:", dict(sorted(tot.counts.items())))
    if not new:
        if getattr(mod, "MIN_OUTCOMES", 2) > len(tot.outcomes) or not tot.states:
            print("exploration is vacuous")
            return 2
        return 0
    seen = set()
    for case, key, msg in new:
        if key in seen or len(seen) >= 12:
            continue
        seen.add(key)
        name = f"{pid}-{digest(json.dumps(case, sort_keys=True), key).hex()[:12]}.json"
        path = os.path.join(EVID, "replay", name)
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "key": key,
                       "message": msg, "case": case}, f, indent=1)
        print(f"  {key}: {msg[-1500:]}")
        print(f"VIOLATION property={pid} replay=evidence/replay/{name}")
    print(f"  ({len(new)} violations, {len(set(k for _, k, _ in new))} kinds)")
    return 1
