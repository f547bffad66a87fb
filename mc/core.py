"""Bounded exhaustive exploration of the real code in /repo, against reference models.

A check enumerates *every* element of a stated finite space (inputs, operation histories,
environment answers), drives the real implementation with it and compares each observation with an
independently written reference.  This module keeps the books: distinct states, transitions (calls
into the implementation whose result was compared), complete traces, distinct outcomes, known
findings, evidence and replay files.
"""
import contextlib
import ctypes
import fcntl
import gc
import hashlib
import io
import itertools
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = None


class Violation(Exception):
    """A property violation; `what` is human readable, `replay` is a JSON-able counterexample."""

    def __init__(self, what, replay=None, key=None):
        super().__init__(what)
        self.what = what
        self.replay = replay
        self.key = key


class Raised:
    """The outcome 'the call raised this kind of exception' (compared by kind)."""

    def __init__(self, exc):
        self.exc = exc
        self.kind = type(exc).__name__

    def __repr__(self):
        return "Raised(%s: %s)" % (self.kind, str(self.exc)[:200])


def call(func, *args, **kwargs):
    """Call into the implementation; an exception is an outcome, not a crash of the check."""
    try:
        return func(*args, **kwargs)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as exc:  # noqa: even SystemExit is an outcome
        return Raised(exc)


def jsonable(obj, depth=0):
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    if depth > 8:
        return repr(obj)[:300]
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:200]}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(obj)[:400]]
    if isinstance(obj, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in obj), key=repr)
    return repr(obj)[:600]


class Check:
    def __init__(self, pid, rule, bounds, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.bounds = dict(bounds)
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.start = time.time()
        self.state_hashes = set()
        self.outcome_hashes = set()
        self.transitions = 0
        self.traces = 0
        self.since = 0
        self.samples = []
        self.parts = {}
        self.part = None
        self.part_name = None
        self.known = load_known(pid)
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- bookkeeping -------------------------------------------------------------------------
    def section(self, name):
        self.part = self.parts.setdefault(name, {"transitions": 0, "traces": 0, "states": 0})
        self.part_name = name
        return self

    def state(self, *key):
        h = hash_key((self.part_name,) + key)
        if h not in self.state_hashes:
            self.state_hashes.add(h)
            if self.part is not None:
                self.part["states"] += 1

    def step(self, n=1):
        self.transitions += n
        if self.part is not None:
            self.part["transitions"] += n

    def trace(self, sample=None, outcome=None, n=1):
        """n complete enumerated behaviours have been compared with the reference."""
        self.traces += n
        self.since += 1
        if self.since >= 200:
            self.since = 0
            tidy()
        if self.part is not None:
            self.part["traces"] += n
            if sample is not None and self.part.get("_sampled", 0) < 2:
                self.part["_sampled"] = self.part.get("_sampled", 0) + 1
                if len(self.samples) < 40:
                    self.samples.append(jsonable(sample))
        if outcome is not None and len(self.outcome_hashes) < 2000000:
            self.outcome_hashes.add(hash_key(outcome))

    def merge(self, stats):
        """Merge the statistics returned by a worker process (see `stats`)."""
        self.transitions += stats["transitions"]
        self.traces += stats["traces"]
        self.state_hashes |= stats["states"]
        self.outcome_hashes |= stats["outcomes"]
        for s in stats["samples"]:
            if len(self.samples) < 40:
                self.samples.append(s)
        for name, part in stats["parts"].items():
            mine = self.parts.setdefault(name, {"transitions": 0, "traces": 0, "states": 0})
            for k in ("transitions", "traces", "states"):
                mine[k] += part[k]
        for k, v in stats["known_hit"].items():
            self.known_hit.setdefault(k, v)

    def stats(self):
        return {
            "transitions": self.transitions,
            "traces": self.traces,
            "states": self.state_hashes,
            "outcomes": self.outcome_hashes,
            "samples": self.samples[:6],
            "parts": self.parts,
            "known_hit": self.known_hit,
        }

    # ---- verdicts ----------------------------------------------------------------------------
    def fail(self, what, replay=None, key=None):
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, what)
            return False
        raise Violation(what, replay, key)

    def expect(self, cond, what, replay=None, key=None):
        if not cond:
            return self.fail(what() if callable(what) else what,
                             replay() if callable(replay) else replay, key)
        return True

    def equal(self, got, want, what, replay=None, key=None):
        self.step()
        if not same(got, want):
            label = what() if callable(what) else what
            rep = replay() if callable(replay) else replay
            return self.fail("%s: got %s, expected %s" % (label, short(got), short(want)),
                             {"case": rep, "got": jsonable(got), "expected": jsonable(want)}, key)
        return True

    def raises(self, got, kinds, what, replay=None, key=None):
        self.step()
        if not (isinstance(got, Raised) and isinstance(got.exc, kinds)):
            label = what() if callable(what) else what
            rep = replay() if callable(replay) else replay
            return self.fail("%s: got %s, expected an exception of %s" % (label, short(got), kinds),
                             {"case": rep, "got": jsonable(got)}, key)
        return True

    # ---- output ------------------------------------------------------------------------------
    def evidence(self, violations):
        for part in self.parts.values():
            part.pop("_sampled", None)
        cov = {
            "states": len(self.state_hashes),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "distinct_outcomes": len(self.outcome_hashes),
            "samples": self.samples or ["(none)"],
            "exhaustive": violations == 0,
            "rule": self.rule,
            "bounds": jsonable(self.bounds),
            "sections": self.parts,
            "known_findings_reproduced": sorted(self.known_hit),
        }
        data = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 3),
            "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(data, f, indent=1, sort_keys=True)
        os.replace(tmp, path)


def short(obj):
    s = repr(obj)
    return s if len(s) < 400 else s[:400] + "..."


def same(a, b):
    """Structural equality that understands numpy and NaN."""
    if isinstance(a, Raised) or isinstance(b, Raised):
        return False
    if type(a) is type(b) and type(a) in (int, str, bool):
        return a == b
    import numpy as np

    if type(a) is list and type(b) is list:
        try:
            if len(a) == len(b) and a == b:
                return True
        except Exception:
            pass

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a1, b1 = np.asarray(a), np.asarray(b)
        except Exception:
            return False
        if a1.shape != b1.shape:
            return False
        return all(same(x, y) for x, y in zip(a1.ravel().tolist(), b1.ravel().tolist()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        r = a == b
        return bool(r)
    except Exception:
        return False


def close(a, b, tol=1e-9):
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except Exception:
        return False


def hash_key(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def load_known(pid):
    """Known (unrepaired) findings of this property: {key: description}."""
    path = os.path.join(VERIF, "known", "findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e["what"] for e in data.get("known", []) if e["property"] == pid}


def setup_imports(stubs=False):
    """Make the implementation importable from /repo's working tree (never from a copy)."""
    sys.dont_write_bytecode = True
    if stubs:
        sys.path.insert(0, os.path.join(VERIF, "stubs"))
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        import music21  # noqa: F401  (prints a banner about optional packages)
    except Exception:
        pass
    finally:
        sys.stderr = err


def python_csv():
    """pandas' C parser does not work under the installed PyPy; use its Python parser."""
    import pandas as pd

    real = getattr(pd.read_csv, "real", pd.read_csv)

    def read_csv(*args, **kwargs):
        kwargs.pop("low_memory", None)
        kwargs["engine"] = "python"
        return real(*args, **kwargs)

    read_csv.real = real
    pd.read_csv = read_csv


@contextlib.contextmanager
def quiet():
    old = sys.stderr, sys.stdout
    sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stderr, sys.stdout = old


def run(check, body):
    """Run `body(check)`; print the verdict; write the evidence; return the exit status."""
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="mc_%s_" % check.pid)
    tempfile.tempdir = SCRATCH      # whatever a killed worker leaves behind goes with it
    try:
        return _run(check, body)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _run(check, body):
    try:
        with limited(check):
            body(check)
    except Violation as v:
        return report(check, v.what, v.replay, v.key)
    except (MemoryError, HarnessError):
        raise
    except (Exception, OutOfTime) as exc:
        # The harness drives only documented entry points with values of its own making, so an
        # exception that escapes here was raised by the implementation on an in-domain input (or
        # by an interface that no longer behaves as documented).
        tb = traceback.format_exc()
        return report(check, "unexpected %s: %s" % (type(exc).__name__, exc),
                      {"traceback": tb}, None)
    check.evidence(0)
    for key in sorted(check.known_hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (check.pid, check.known[key], key))
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs" % (
        check.pid, check.tier, len(check.state_hashes), check.transitions, check.traces,
        len(check.outcome_hashes), time.time() - check.start))
    return 0


def report(check, what, replay, key):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", check.pid + ".json")
    with open(path, "w") as f:
        json.dump({"property": check.pid, "what": what, "key": key, "tier": check.tier,
                   "counterexample": jsonable(replay),
                   "how_to_replay": "VERIF_TIER=%s python mc/run.py %s re-enumerates in the same "
                                    "order and stops at this case" % (check.tier, check.pid)},
                  f, indent=1)
    check.evidence(1)
    print("property %s is violated: %s" % (check.pid, what))
    print("VIOLATION property=%s replay=%s" % (check.pid, path))
    return 1


class OutOfTime(BaseException):
    """A job used far more processor time than any job of a correct tree does."""


JOB_CPU = 300       # seconds of processor time; the longest job of any quick check needs under 40


def _alarm(signum, frame):
    raise OutOfTime("no end after %d s of processor time" % JOB_CPU)


@contextlib.contextmanager
def limited(check):
    """Turn an endless loop of the implementation into an outcome (quick tier only)."""
    if check.thorough:
        yield
        return
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, JOB_CPU, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def parallel(check, worker, jobs, procs=None):
    """Run worker(subcheck, job) for each job in forked processes; merge; re-raise violations.

    Jobs are handed out in order, and once one fails only earlier ones are completed, so the
    violation reported is always the first one in job order.
    """
    procs = procs or min(8, os.cpu_count() or 1)
    jobs = list(jobs)
    if procs == 1 or len(jobs) == 1:
        for job in jobs:
            worker(check, job)
        return

    tmp = tempfile.mkdtemp(prefix="mc_", dir=SCRATCH)
    counter = os.path.join(tmp, "counter")
    with open(counter, "w") as f:
        f.write("0 %d" % len(jobs))          # next job, end
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    try:
        for k in range(min(procs, len(jobs))):
            pid = os.fork()
            if pid == 0:
                status = 3
                try:
                    _work(check, worker, jobs, counter, os.path.join(tmp, "out%d" % k))
                    status = 0
                finally:
                    os._exit(status)
            pids.append(pid)
        bad = [st for st in [os.waitpid(p, 0)[1] for p in list(pids)] if st]
        pids = []
        if bad:
            raise HarnessError("worker processes ended with status %s" % bad)
        results = []
        for name in sorted(os.listdir(tmp)):
            if name.startswith("out"):
                with open(os.path.join(tmp, name), "rb") as f:
                    results += pickle.load(f)
    finally:
        for p in pids:
            os.kill(p, signal.SIGKILL)
        shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda r: r[0])
    for _, status, payload in results:
        if status == "ok":
            check.merge(payload)
        else:
            raise Violation(*payload)


class HarnessError(Exception):
    """The check itself could not run (for instance, a worker was ended from outside)."""


def _take(counter, end=None):
    with open(counter, "r+") as f:
        fcntl.lockf(f, fcntl.LOCK_EX)
        nxt, stop = map(int, f.read().split())
        out = nxt if nxt < stop else None
        if end is not None:
            stop = min(stop, end)
        elif out is not None:
            nxt += 1
        f.seek(0)
        f.truncate()
        f.write("%d %d" % (nxt, stop))
        f.flush()
    return out


def _work(check, worker, jobs, counter, path):
    sys.stderr = open(os.devnull, "w")  # progress bars
    out = []
    while True:
        tidy()
        i = _take(counter)
        if i is None:
            break
        result = _run_job(check, worker, jobs[i])
        out.append((i,) + result)
        if result[0] != "ok":
            _take(counter, end=i)
    with open(path, "wb") as f:
        pickle.dump(out, f)


def resident():
    """Resident memory of this process in MB."""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 1e6


_limit = 600


def tidy():
    """Give memory back: arrays are not counted by PyPy's own collector."""
    global _limit
    if resident() > _limit:
        for _ in range(4):              # objects shared with C are freed one round later
            gc.collect()
        try:
            ctypes.CDLL(None).malloc_trim(0)
        except (OSError, AttributeError):
            pass
        _limit = max(600, 1.3 * resident())


def _run_job(c, worker, job):
    sub = Check(c.pid, c.rule, c.bounds)
    sub.known = c.known
    sub.tier = c.tier
    try:
        with limited(c):
            worker(sub, job)
        return "ok", sub.stats()
    except Violation as v:
        return "violation", (v.what, jsonable(v.replay), v.key)
    except (Exception, OutOfTime) as exc:
        return "violation", ("unexpected %s: %s" % (type(exc).__name__, exc),
                             {"traceback": traceback.format_exc()}, None)


product = itertools.product
