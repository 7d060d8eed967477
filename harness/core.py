"""Shared machinery of every check: case bookkeeping, verdict discipline, evidence.

A check module defines PID, RULE and run(ctx).  It drives the real code of the repository
and reports what its monitors saw through the context:

* ctx.case(group, **desc)      one workload case (a with block); its description is the replay
* ctx.ok(cond, mech, msg)      one oracle evaluation; a false one is a violation of mechanism `mech`
* ctx.observe(name, n)         counts observed events (reported as evidence)
* ctx.need(name, n)            a monitor that must have seen n events, else the run is inconclusive

Verdicts are three-valued: violated, held, inconclusive.  An exception raised by the code of
the repository inside a case is a violation (the workload only uses it validly); one raised by
a stand-in for a missing library because the code asks something it does not model, or an
import error, is inconclusive.
"""
import contextlib
import io
import json
import os
import signal
import sys
import threading
import time
import traceback
import zlib

import numpy as np

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, mech, msg):
        super().__init__(msg)
        self.mech = mech
        self.msg = msg


class Inconclusive(Exception):
    pass


class Unmodelled(Exception):
    """Raised by a stand-in library: the code asked for something it does not model."""


class Stop(Exception):
    pass


class Hang(BaseException):
    """A case did not end: the code under test loops or waits forever."""


HANG = 240      # seconds; cases take a few at most


def hang(signum, frame):
    raise Hang("no end after %d s" % HANG)


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {"shape": list(x.shape), "dtype": str(x.dtype), "head": jsonable(x.ravel()[:16].tolist())}
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        l = list(x)
        out = [jsonable(v, depth + 1) for v in l[:64]]
        return out + ["... %d more" % (len(l) - 64)] if len(l) > 64 else out
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:200]


def load_known(pid):
    """Mechanisms listed as known findings for this property: {mechanism: what fails}."""
    known = {}
    path = os.path.join(HOME, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            rest = line[len("known:"):].strip()
            head, _, what = rest.partition(" :: ")
            kv = dict(p.split("=", 1) for p in head.split())
            if kv.get("property") == pid:
                known[kv["mechanism"]] = what
    return known


class Case:
    def __init__(self, ctx, group, desc):
        self.ctx, self.group, self.desc = ctx, group, desc

    def __enter__(self):
        self.ctx._current = self
        self.extra = {}
        self.began = time.time()
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, hang)
            signal.setitimer(signal.ITIMER_REAL, HANG)
        return self

    def note(self, **kw):
        self.extra.update(kw)

    def __exit__(self, et, ev, tb):
        self.ctx._current = None
        self.ctx.slowest = max(self.ctx.slowest, (time.time() - self.began, self.group))
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, 0)
        if et is None:
            return False
        if issubclass(et, Hang):
            where = [f.filename for f in traceback.extract_tb(tb)]
            if not any(os.path.abspath(f).startswith(REPO + os.sep) for f in where):
                raise Inconclusive("the check itself did not end")
            self.ctx._record("%s/never-ends" % self.group, "the code did not come back: " + "".join(traceback.format_tb(tb))[-1500:], self)
            raise Stop()
        if issubclass(et, (Stop, Inconclusive, KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        if issubclass(et, Violation):
            self.ctx._record(ev.mech, ev.msg, self)
            return True
        where = classify(tb, ev)
        text = "".join(traceback.format_exception(et, ev, tb))[-3000:]
        if where == "inconclusive":
            self.ctx.inconclusive.append("%s in case %s: %s" % (et.__name__, self.group, text))
            if len(self.ctx.inconclusive) > 20:
                raise Inconclusive(text)
            return True
        self.ctx._record("%s/exception-%s" % (self.group, et.__name__),
                         "the code raised %s on a valid use: %s\n%s" % (et.__name__, ev, text), self)
        return True


def classify(tb, exc):
    if isinstance(exc, (Unmodelled, ImportError)):
        return "inconclusive"
    c = exc
    while c is not None:      # an Unmodelled hidden behind a re-raise
        if isinstance(c, Unmodelled):
            return "inconclusive"
        c = c.__cause__ or c.__context__
    if isinstance(exc, TypeError) and ("required positional argument" in str(exc) or "unexpected keyword argument" in str(exc)
                                       or "required keyword-only" in str(exc)):
        inner = traceback.extract_tb(tb)[-1].filename
        if os.path.abspath(inner).startswith((os.path.join(HOME, "checks"), os.path.join(HOME, "harness"))):
            return "inconclusive"      # the check called the code with a signature it does not have
    last = None
    for f in traceback.extract_tb(tb):
        fn = os.path.abspath(f.filename)
        if fn.startswith(REPO + os.sep):
            last = "repo"
        elif fn.startswith(os.path.join(HOME, "stubs") + os.sep):
            last = "stub"
    # the last relevant frame decides: a stand-in called with arguments or attributes it does not
    # model says nothing about the repository
    frames = [os.path.abspath(f.filename) for f in traceback.extract_tb(tb)]
    inner = frames[-1] if frames else ""
    if last == "stub" and isinstance(exc, (TypeError, AttributeError, NotImplementedError)) and \
            inner.startswith(os.path.join(HOME, "stubs") + os.sep):
        return "inconclusive"
    if isinstance(exc, AttributeError) and last == "repo":
        # a stand-in module or object without the attribute the code asks for
        obj = getattr(exc, "obj", None)
        mod = getattr(type(obj), "__module__", "") if not hasattr(obj, "__file__") else None
        if mod is None:
            f = getattr(obj, "__file__", "") or ""
            if f.startswith(os.path.join(HOME, "stubs") + os.sep):
                return "inconclusive"
        else:
            m = sys.modules.get(mod)
            f = getattr(m, "__file__", "") or ""
            if f.startswith(os.path.join(HOME, "stubs") + os.sep) and isinstance(obj, object) \
                    and not f.endswith("pydantic/__init__.py"):
                return "inconclusive"
    return "violation"


class Ctx:
    MAX_MECH = 6

    def __init__(self, pid, tier, seed, rule):
        self.pid, self.tier, self.seed, self.rule = pid, tier, seed, rule
        self.thorough = tier == "thorough"
        self.rng = np.random.default_rng([zlib.crc32(pid.encode()), seed, 1 if self.thorough else 0])
        self.t0 = time.time()
        self.cases = {}
        self.checks = {}
        self.events = {}
        self.needs = {}
        self.seen = set()
        self.slowest = (0.0, "")
        self.evaluations = 0
        self.samples = []
        self.violations = {}
        self.known = load_known(pid)
        self.known_hit = {}
        self.inconclusive = []
        self.assumptions = []
        self.maxima = {}
        self._current = None
        self.budget = 600 if self.thorough else 200

    # ---- workload -------------------------------------------------------------------------
    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def loop(self, quick, thorough=None, share=None):
        """Yield case numbers, stopping early when the time budget is used up."""
        total = self.n(quick, thorough)
        end = None if share is None else time.time() + share * self.budget
        for i in range(total):
            if self.time_left() <= 0 or (end is not None and time.time() > end and i > 0):
                self.observe("loops-cut-by-time")
                return
            yield i

    def case(self, group, **desc):
        self.cases[group] = self.cases.get(group, 0) + 1
        self.evaluations += 1
        key = zlib.crc32(repr((group, jsonable(desc))).encode())
        if desc.get("trivial") is not True and key not in self.seen:
            self.seen.add(key)
            if self.cases[group] <= 2 and len(self.samples) < 40:
                self.samples.append({"group": group, **jsonable(desc)})
        return Case(self, group, desc)

    # ---- oracles --------------------------------------------------------------------------
    def ok(self, cond, mech, msg="", **detail):
        self.checks[mech] = self.checks.get(mech, 0) + 1
        if not bool(cond):
            if callable(msg):
                msg = msg()
            if detail:
                msg = "%s %s" % (msg, json.dumps(jsonable(detail)))
            raise Violation(mech, msg)

    def fail(self, mech, msg="", **detail):
        self.ok(False, mech, msg, **detail)

    def same(self, a, b, mech, msg="", **detail):
        a, b = np.asarray(a), np.asarray(b)
        self.ok(a.shape == b.shape, mech, "%s: shapes %s and %s differ" % (msg, a.shape, b.shape), **detail)
        eq = (a == b) | ((a != a) & (b != b))
        self.ok(np.all(eq), mech, lambda: "%s: differ at %s: %s vs %s" % (
            msg, np.argwhere(~eq)[:3].tolist(), a[~eq][:3] if a.ndim else a, b[~eq][:3] if b.ndim else b), **detail)

    def close(self, a, b, tol, mech, msg="", **detail):
        a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
        self.ok(a.shape == b.shape, mech, "%s: shapes %s and %s differ" % (msg, a.shape, b.shape), **detail)
        d = np.abs(a - b)
        good = (d <= tol) | (a == b)
        if d.size:
            m = float(np.nanmax(d)) if np.isfinite(d).any() else float("nan")
            if np.isfinite(m):
                self.maxima[mech] = max(self.maxima.get(mech, 0.0), m)
        self.ok(np.all(good), mech, lambda: "%s: differ by more than %s at %s: got %s expected %s" % (
            msg, np.max(tol), np.argwhere(~good)[:3].tolist(),
            a[~good][:3] if a.ndim else a, b[~good][:3] if b.ndim else b), **detail)

    def observe(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def need(self, name, n=1):
        self.needs[name] = n

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # ---- verdicts -------------------------------------------------------------------------
    def _record(self, mech, msg, case):
        if mech in self.known:
            self.known_hit[mech] = self.known_hit.get(mech, 0) + 1
            return
        v = self.violations.setdefault(mech, {"count": 0})
        v["count"] += 1
        if v["count"] == 1:
            v.update(mechanism=mech, message=msg, group=case.group,
                     case=jsonable({**case.desc, **case.extra}))
            sys.__stderr__.write("[%s] %s: %s\n" % (self.pid, mech, msg[:1500]))
        if len(self.violations) >= self.MAX_MECH or sum(v["count"] for v in self.violations.values()) > 60:
            raise Stop()

    def finish(self):
        wall = time.time() - self.t0
        if self.events.get("loops-cut-by-time"):      # a slow machine: fewer cases, so proportionally fewer events are due
            self.needs = {k: max(1, n // 10) for k, n in self.needs.items()}
        missing = ["%s: saw %d, needs %d" % (k, self.events.get(k, 0) + self.checks.get(k, 0) + self.cases.get(k, 0), n)
                   for k, n in self.needs.items()
                   if self.events.get(k, 0) + self.checks.get(k, 0) + self.cases.get(k, 0) < n]
        out = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.seen),
                "rule": self.rule,
                "samples": self.samples[:24],
                "cases_per_group": self.cases,
                "oracle_evaluations": self.checks,
                "observed_events": self.events,
                "largest_deviation_seen": self.maxima,
                "known_findings_seen": self.known_hit,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": sum(v["count"] for v in self.violations.values()),
        }
        ev = os.path.join(HOME, "evidence")
        os.makedirs(ev, exist_ok=True)
        replay = os.path.join(ev, "replay-%s.json" % self.pid)
        if self.violations:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                       "rerun": "VERIF_SEED=%d bash run.sh %s %s" % (self.seed, self.pid, self.tier),
                       "violations": list(self.violations.values())}, open(replay, "w"), indent=1)
        elif os.path.exists(replay):
            os.unlink(replay)
        tmp = os.path.join(ev, ".%s.tmp" % self.pid)
        json.dump(out, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(ev, "%s.json" % self.pid))
        w = sys.__stdout__.write
        for mech, what in self.known.items():
            if mech in self.known_hit:
                w("KNOWN-FINDING: property=%s %s (%s, seen %d times)\n" % (self.pid, what, mech, self.known_hit[mech]))
        if self.violations:
            for m, v in self.violations.items():
                w("VIOLATION property=%s replay=%s\n" % (self.pid, replay))
                w("  mechanism=%s count=%d %s\n" % (m, v["count"], v["message"][:600].replace("\n", " ")))
            rc = 1
        elif self.inconclusive or missing:
            for m in self.inconclusive[:5] + missing:
                w("INCONCLUSIVE property=%s %s\n" % (self.pid, m))
            rc = 2
        else:
            w("HELD property=%s evaluations=%d distinct=%d wall=%.1fs slowest=%.1fs (%s)\n" % (
                self.pid, self.evaluations, len(self.seen), wall, *self.slowest))
            rc = 0
        sys.__stdout__.flush()
        return rc
