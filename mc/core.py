"""Bounded exhaustive-exploration engine used by every check in /verif.

A check module (mc/checks/<id>.py) provides

    PROPERTY  = "C01"
    def units(tier):  -> list of (unit_name, kwargs)   finite, deterministic, no randomness
    UNITS = {unit_name: function(ctx, **kwargs)}       enumerates a bounded space
    CASES = {case_name: function(ctx, params)}         decides ONE point of that space

A unit walks its (finite) space and calls ``ctx.case(case_name, params)`` on every point.  A case
runs the *real* code from /repo and compares it with the reference model in mc/ref.py; it raises
``Violation`` when they disagree.  Any exception that escapes from the code under test for an input
inside the stated space is a violation too.

Whatever a case needs to be replayed is in ``params`` (JSON), so a violation is written to
replays/<property>-<n>.json and can be re-run alone with ``run.py --replay FILE``.
"""

from __future__ import annotations

import collections
import contextlib
import hashlib
import importlib
import io
import json
import mmap
import multiprocessing
import multiprocessing.connection
import os
import signal
import struct
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


class Violation(Exception):
    """The property does not hold at this point of the explored space."""


class CaseTimeout(BaseException):
    """Not an Exception, so that the code under test does not swallow it."""


class Skip(Exception):
    """The point is outside the property's domain (counted, not decided)."""


def require(cond, message):
    if not cond:
        raise Violation(message() if callable(message) else message)


def jsonable(obj):
    import numpy as np

    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, np.ndarray):
        return jsonable(obj.tolist())
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, np.integer):
        return int(obj)
    if isinstance(obj, np.floating):
        return float(obj)
    if isinstance(obj, np.bool_):
        return bool(obj)
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    return str(obj)


def params_key(case, params):
    return case + " " + json.dumps(jsonable(params), sort_keys=True, separators=(",", ":"))


class Context:
    """Bookkeeping of one unit of exploration (lives in one worker process)."""

    MAX_VIOLATIONS_PER_UNIT = 40

    def __init__(self, cases, tier, case_timeout, known=(), beat=None, report=None):
        self.cases = cases
        self.tier = tier
        self.case_timeout = case_timeout
        self.known = set(known)
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.per_case = collections.Counter()
        self.full = False
        self.beat = beat  # called before every case (liveness)
        self.report = report  # called on every violation
        self.slowest = 0.0

    # -- accounting ------------------------------------------------------------------------
    def state(self, key):
        """Record a (canonical) state; True if it was not seen before in this unit."""
        digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if digest in self.states:
            return False
        self.states.add(digest)
        return True

    def trans(self, n=1):
        """Record n operations of the real implementation that were compared with the model."""
        self.transitions += n

    # -- running one point ------------------------------------------------------------------
    def case(self, name, params, state=None):
        if len(self.violations) >= self.MAX_VIOLATIONS_PER_UNIT:
            self.full = True
            return False
        func = self.cases[name]
        self.per_case[name] += 1
        self.state((name, params) if state is None else state)
        if self.beat:
            self.beat(name, params)
        error = None
        begin = time.time()
        try:
            with case_alarm(self.case_timeout):
                func(self, **params)
            self.traces += 1
        except Skip:
            self.skipped += 1
        except Violation as exc:
            error = f"{exc}"
        except CaseTimeout:
            error = f"no answer within {self.case_timeout} s"
        except MemoryError:
            raise
        except Exception as exc:  # noqa: BLE001  (escaped from the code under test)
            tb = traceback.extract_tb(exc.__traceback__)
            where = " <- ".join(
                f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:])
            )
            error = f"unexpected {type(exc).__name__}: {exc} ({where})"
        self.slowest = max(self.slowest, time.time() - begin)
        if len(self.samples) < 2:
            self.samples.append({"case": name, "params": jsonable(params)})
        if error is None:
            return True
        key = params_key(name, params)
        if key in self.known:
            self.known_hits.append(key)
            return False
        found = {"case": name, "params": jsonable(params), "key": key, "message": error[:2000]}
        self.violations.append(found)
        if self.report:
            self.report(found)
        return False

    def result(self):
        return {
            "states": len(self.states) + self.nstates,
            "transitions": self.transitions,
            "traces": self.traces,
            "skipped": self.skipped,
            "samples": self.samples,
            "violations": self.violations,
            "known_hits": self.known_hits,
            "per_case": dict(self.per_case),
            "full": self.full,
            "slowest": self.slowest,
        }


@contextlib.contextmanager
def case_alarm(seconds):
    if not seconds:
        yield
        return

    def handler(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds, 10)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------------------------------------
# worker plumbing

_MODULE = None
_TIER = "quick"
_KNOWN: list = []


def load_known(prop):
    """Entries of the known-findings file that belong to this property (never written at run time)."""
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        data = json.load(fh)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def _run_unit(job, beat=None, report=None):
    index, name, kwargs = job
    start = time.time()
    if os.environ.get("MC_TRACE"):
        print(f"      start {index} {name} {str(jsonable(kwargs))[:90]}", file=sys.stderr, flush=True)
    keys = [k for e in _KNOWN for k in e["keys"]]
    ctx = Context(_MODULE.CASES, _TIER, case_timeout(), keys, beat, report)
    error = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                _MODULE.UNITS[name](ctx, **kwargs)
    except (Exception, CaseTimeout) as exc:  # noqa: BLE001
        # the unit's own enumeration relies on public constructors of the code under test
        tb = traceback.extract_tb(exc.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
        error = {
            "case": "unit:" + name,
            "params": jsonable(kwargs),
            "key": params_key("unit:" + name, kwargs),
            "message": f"exploration unit stopped: {type(exc).__name__}: {exc} ({where})"[:2000],
        }
    res = ctx.result()
    if error:
        res["violations"].append(error)
    res["unit"] = name
    res["index"] = index
    res["kwargs"] = jsonable(kwargs)
    res["wall"] = time.time() - start
    return res


def case_timeout():
    """Seconds for one case: generous, since a timeout is a violation (thorough cases may be larger)."""
    return getattr(_MODULE, "CASE_TIMEOUT", 120) * (1 if _TIER == "quick" else 4)


class _Worker:
    """A forked process that runs one unit at a time; the parent sees deaths, hangs and violations at once."""

    TEXT = 4000

    def __init__(self, mp):
        self.map = mmap.mmap(-1, 16 + self.TEXT)
        self.conn, child = mp.Pipe()
        self.proc = mp.Process(target=self._serve, args=(child, self.conn), daemon=True)
        self.proc.start()
        child.close()
        self.job = None

    def _serve(self, conn, parent_end):
        parent_end.close()
        os.setpgid(0, 0)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            try:
                job = conn.recv()
            except EOFError:
                break
            if job is None:
                break
            self._beat("unit:" + job[1], job[2])
            res = _run_unit(job, self._beat, lambda v: conn.send(("violation", v)))
            conn.send(("done", res))
        os._exit(0)

    def _beat(self, name, params):
        text = f"{name} {params!r}".encode()[: self.TEXT]
        self.map[:16] = struct.pack("dq", time.time(), len(text))
        self.map[16 : 16 + len(text)] = text

    def give(self, job):
        self._beat("unit:" + job[1], job[2])
        self.job = job
        self.conn.send(job)

    def last(self):
        when, size = struct.unpack("dq", self.map[:16])
        return when, self.map[16 : 16 + size].decode(errors="replace")

    def stop(self, kill=False):
        if kill:
            for end in (lambda: os.killpg(self.proc.pid, signal.SIGKILL), self.proc.kill):
                with contextlib.suppress(OSError):
                    end()
        else:
            with contextlib.suppress(OSError):
                self.conn.send(None)
        self.proc.join(10)
        self.conn.close()


def _unit_violation(job, message):
    return {
        "case": "unit:" + job[1],
        "params": jsonable(job[2]),
        "key": params_key("unit:" + job[1], job[2]),
        "message": message[:2000],
    }


def _schedule(todo, jobs, verbose):
    """Run all units on forked workers.  Returns (results, violations of unfinished units, completed?)."""
    mp = multiprocessing.get_context("fork")
    start = time.time()
    quick = _TIER == "quick"
    deadline = start + (780 if quick else 36000)
    grace = 60 if quick else 300
    hang = case_timeout() * 1.25 + 30
    results, extra, retried = [], [], set()
    live = {}  # violations reported by units that have not finished
    queue = list(reversed(todo))
    first = None
    workers = []
    try:
        while True:
            workers = [w for w in workers if w is not None]
            for w in workers:
                if w.job is None and queue:
                    w.give(queue.pop())
            while queue and len(workers) < jobs:
                w = _Worker(mp)
                workers.append(w)
                w.give(queue.pop())
            busy = [w for w in workers if w.job is not None]
            if not busy:
                break
            multiprocessing.connection.wait([x for w in busy for x in (w.conn, w.proc.sentinel)], timeout=5)
            now = time.time()
            for i, w in enumerate(workers):
                if w.job is None:
                    continue
                dead = not w.proc.is_alive()
                try:
                    while w.job is not None and w.conn.poll():
                        kind, value = w.conn.recv()
                        if kind == "violation":
                            live.setdefault(w.job[0], []).append(value)
                            first = first or now
                        else:
                            live.pop(value["index"], None)
                            results.append(value)
                            if value["violations"]:
                                first = first or now
                            if verbose:
                                print(
                                    f"  {value['unit']} {str(value['kwargs'])[:100]} wall={value['wall']:.1f}"
                                    f" traces={value['traces']} viol={len(value['violations'])}",
                                    file=sys.stderr,
                                    flush=True,
                                )
                            w.job = None
                except (EOFError, OSError):
                    dead = True
                if w.job is None:
                    continue
                when, text = w.last()
                if dead:
                    job, status = w.job, w.proc.exitcode
                    w.stop(kill=True)
                    workers[i] = None
                    if job[0] in retried:  # a single death may have an outside cause
                        extra.append(_unit_violation(job, f"the process died (status {status}) in {text}"))
                        first = first or now
                    else:
                        retried.add(job[0])
                        live.pop(job[0], None)
                        queue.append(job)
                elif now - when > hang:
                    extra.append(_unit_violation(w.job, f"no answer within {now - when:.0f} s in {text}"))
                    first = first or now
                    w.stop(kill=True)
                    workers[i] = None
            if first is not None and now > first + grace:
                break
            if now > deadline:
                if first is None:
                    for w in workers:
                        if w is not None and w.job is not None:
                            extra.append(_unit_violation(w.job, f"not finished after {now - start:.0f} s: {w.last()[1]}"))
                break
        complete = not queue and not any(w is not None and w.job is not None for w in workers)
    finally:
        for w in workers:
            if w is not None:
                w.stop(kill=w.job is not None)
    return results, [v for vs in live.values() for v in vs] + extra, complete


def run_check(prop, tier, jobs=None, only=None, verbose=False):
    global _MODULE, _TIER, _KNOWN
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _TIER = tier
    _KNOWN = load_known(prop)
    _MODULE = importlib.import_module(f"mc.checks.{prop.lower()}")
    if hasattr(_MODULE, "warmup"):
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), case_alarm(100):
                warnings.simplefilter("ignore")
                _MODULE.warmup()
        except (Exception, CaseTimeout):  # noqa: BLE001  (only compiles things; the units decide)
            pass
    units = [(n, k) for n, k in _MODULE.units(tier) if only is None or only in n]
    jobs = jobs or int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    todo = [(i, n, k) for i, (n, k) in enumerate(units)]

    results, unfinished, complete = _schedule(todo, min(jobs, len(todo)), verbose)
    results.sort(key=lambda r: r["index"])

    states = sum(r["states"] for r in results)
    transitions = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    violations = [v for r in results for v in r["violations"]] + unfinished
    known_hits = [k for r in results for k in r["known_hits"]]
    per_case = collections.Counter()
    for r in results:
        per_case.update(r["per_case"])
    samples, seen = [], set()
    for r in results:
        for s in r["samples"]:
            if s["case"] not in seen and len(samples) < 12:
                seen.add(s["case"])
                samples.append(s)

    rdir = os.path.join(ROOT, "replays")
    replay_paths = []
    if violations:
        os.makedirs(rdir, exist_ok=True)
        # write a handful of replayable counterexamples, one per case kind first
        order, done = [], set()
        for v in violations:
            if v["case"] not in done:
                done.add(v["case"])
                order.append(v)
        order += [v for v in violations if v not in order]
        for i, v in enumerate(order[:10]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "tier": tier, **v}, fh, indent=1)
            replay_paths.append((path, v))

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples,
            "points_by_case": dict(per_case),
            "points_outside_domain": sum(r["skipped"] for r in results),
            "units": len(results),
            "bounds": getattr(_MODULE, "BOUNDS", {}).get(tier, ""),
            "known_finding_hits": len(known_hits),
            "exhaustive": complete and not violations,
            "slowest_case_s": round(max((r["slowest"] for r in results), default=0), 2),
        },
        "assumptions": getattr(_MODULE, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(tmp, os.path.join(edir, f"{prop}.json"))

    hits = set(known_hits)
    for entry in _KNOWN:
        if hits & set(entry["keys"]):
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    print(
        f"{prop} [{tier}] states={states} transitions={transitions} traces={traces}"
        f" violations={len(violations)} wall={evidence['wall_s']}s"
    )
    for path, v in replay_paths:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"    {v['case']} {json.dumps(v['params'])[:300]}: {v['message'][:600]}")
    sys.stdout.flush()
    return 1 if violations else 0


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    module = importlib.import_module(f"mc.checks.{rec['property'].lower()}")
    ctx = Context(module.CASES, rec.get("tier", "quick"), 0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rec["case"].startswith("unit:"):
            try:
                module.UNITS[rec["case"][5:]](ctx, **rec["params"])
            except Exception as exc:  # noqa: BLE001
                traceback.print_exc()
                ctx.violations.append({"message": str(exc)})
        else:
            ctx.case(rec["case"], rec["params"])
    for v in ctx.violations:
        print(f"VIOLATION property={rec['property']} replay={path}")
        print("   ", v["message"])
    if not ctx.violations:
        print("replay: the property holds at this point")
    return 1 if ctx.violations else 0
