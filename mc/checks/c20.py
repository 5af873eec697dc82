"""C20: the disk cache never changes results."""

import itertools
import os
import pickle
import sqlite3
import sys
import threading
import types
from unittest import mock

import diskcache
import galois
import numpy as np
import qldpc.cache
from qldpc import abstract, circuits, external

from mc.core import Violation, require
from mc.fakegap import World, in_fork, read, scratch

PROPERTY = "C20"
ASSUMPTIONS = [
    "the cached function is a function of its arguments (1, True, 1.0 and '1' are different arguments), its results can be pickled, and functions that share a cache name are not mixed",
    "diskcache and SQLite execute each of their statements atomically; a process dies between two statements or while the cached function runs",
    "other processes may remove entries at any time (eviction of the 1 GB store, clearing), and do not write to the store except through the library",
    "key functions given by the caller are injective",
]
BOUNDS = {
    "quick": "decorator: 8 signatures, all ordered pairs (a, b, a, b) of 8-26 calls each that collide under naive keys (keyword order, keyword pairs vs tuples, 1/True/1.0, nested tuples); all sequences of 3 calls over 2 argument lists x 4 outcomes (returns, raises, interrupted, caching disabled); 22 kinds of values x 4 storage modes; interleavings: all schedules of 2 concurrent callers (same or different arguments, one failing, one interrupted) and of a caller with an evicting process, at the granularity of the store operations; all schedules with at most 2 preemptions of 2 callers with 2 calls each; every crash point (SQL statement and body of the function) of 1 call x 3 values x 2 prior states; library functions: all sequences of 2 calls of 10 calls with working sources, all sequences of 2 calls of the same function x 3 states of the external sources (working, failing, absent)",
    "thorough": "sequences of 4 calls with outcomes, 3 preemptions, crash points of 2 calls, sequences of 3 library calls",
}
CASE_TIMEOUT = 300


# -- functions whose value describes their arguments --------------------------------------------------------------


def enc(v):
    """Text that identifies a value including its type."""
    if isinstance(v, tuple):
        return "t(" + ",".join(map(enc, v)) + ")"
    if isinstance(v, list):
        return "l[" + ",".join(map(enc, v)) + "]"
    if isinstance(v, frozenset):
        return "fs{" + ",".join(sorted(map(enc, v))) + "}"
    if isinstance(v, abstract.GroupMember):
        return "gm" + str(v.array_form)
    return type(v).__name__ + ":" + repr(v)


def f_any(*args, **kwargs):
    return "any " + enc(args) + " " + ",".join(f"{k}={enc(v)}" for k, v in sorted(kwargs.items()))


def f_xy(x="dx", y="dy"):
    return f"x={enc(x)} y={enc(y)}"


def f_kwonly(x, *, y=0, z=None):
    return f"x={enc(x)} y={enc(y)} z={enc(z)}"


def f_mixed(x, y=0, *rest, **opts):
    return f"x={enc(x)} y={enc(y)} rest={enc(rest)} " + ",".join(f"{k}={enc(v)}" for k, v in sorted(opts.items()))


P = lambda *a: (a, ())
K = lambda **k: ((), tuple(k.items()))
M = lambda args, **k: (tuple(args), tuple(k.items()))

ANY = [
    P(), P(()), P(((),)), P(None), P(1), P(True), P(1.0), P("1"), P(b"1"), P(0), P(False), P(-1),
    P(1, 2), P((1, 2)), P(((1, 2),)), P(("x", 1)), K(x=1), P(("x", 1), ("y", 2)), K(x=1, y=2), K(y=2, x=1), P("x", 1),
    M([("x", 1)], y=2), M([1], x=1), P(1, ("x", 1)), M([], x=("y", 2)), P(("x", ("y", 2))),
]
ANY2 = [
    P("a", "a"), P("aa"), P(("a", "a")), P(2**70), P(float(2**70)), P(1e-300), P(frozenset({1, 2})), P((1,), (("x", 2),)), M([1], x=2), P(((1,), (("x", 2),))),
    M([1], x=2, y=3), M([1], y=3, x=2), P((1,), (("x", 2), ("y", 3))), P((1,), ("x", "y"), (2, 3)), P("x", 2, "y", 3), P(1, "x", 2), P(1, None, ("x", 2)), P(1, (), ("x", 2)), P(1, ("x", 2)), P(1, (("x", 2),)), P(1, frozenset({("x", 2)})), P(1, frozenset({("x", 2), ("y", 3)})),
]
XY = [P(), P(1), K(x=1), K(y=1), P(1, 2), M([1], y=2), K(x=1, y=2), K(y=2, x=1), P("dx"), P("dx", "dy"), P("dx", 1), P(("x", 1)), P(("y", 1)), P(("x", 1), ("y", 2)), P(("y", 2), ("x", 1)), P(1, ("y", 2)), P(2, 1)]
KWONLY = [P(1), M([1], y=0), M([1], y=1), M([1], z=1), M([1], y=1, z=2), M([1], z=2, y=1), K(x=1, y=1), K(y=1, x=1), K(x=("y", 1)), P(("y", 1)), M([1], y=2, z=1), M([2], y=1)]
MIXED = [P(1), K(x=1), P(1, 0), P(1, 2), M([1], y=2), P(1, 2, 3), M([1, 2], z=3), P(1, 2, ("z", 3)), M([1], z=3), P(1, ("z", 3)), K(x=1, z=3), K(z=3, x=1), M([1, 2, 3], z=4), P(1, 2, 3, ("z", 4)), P(1, 2, ("a", 1), ("b", 2)), M([1, 2], a=1, b=2), M([1, 2], b=2, a=1), M([1, 2], a=("b", 2))]


def key_encode(*args, **kwargs):
    return f_any(*args, **kwargs)


def key_nested(*args, **kwargs):
    return (args, tuple(sorted(kwargs.items())))


FUNCS = {  # name -> (function, key function, calls)
    "any": (f_any, None, ANY),
    "any2": (f_any, None, ANY2),
    "xy": (f_xy, None, XY),
    "kwonly": (f_kwonly, None, KWONLY),
    "mixed": (f_mixed, None, MIXED),
    "keyed": (f_any, key_encode, ANY[::2]),
    "keyed_tuple": (f_any, key_nested, ANY[::3]),
    "keyed_int": (lambda x: f"{x!r}", lambda x: x, [P(i) for i in range(-2, 6)]),
}


class Boom(Exception):
    pass


class Cached:
    """A cached function with a switchable outcome."""

    def __init__(self, fname, root, mode):
        self.function, key_func, self.calls = FUNCS[fname]
        self.runs, self.outcome = 0, "ok"
        self.tag = ""

        def target(*args, **kwargs):
            self.runs += 1
            if self.outcome == "raise":
                raise Boom("failed")
            if self.outcome == "interrupt":
                raise KeyboardInterrupt
            return self.function(*args, **kwargs) + self.tag

        kw = {} if key_func is None else {"key_func": key_func}
        if mode == "dir":
            kw["cache_dir"] = os.path.join(root, "explicit")
        os.environ["XDG_CACHE_HOME"] = os.path.join(root, "xdg")
        self.cached = qldpc.cache.use_disk_cache("mc_test", **kw)(target)

    def call(self, i, outcome="ok"):
        args, kwargs = self.calls[i]
        kwargs = dict(kwargs)
        self.outcome = outcome
        want = self.function(*args, **kwargs)
        try:
            got = self.cached(*args, **kwargs)
        except Boom:
            require(outcome == "raise", f"failed without reason: call {i}")
            return
        except KeyboardInterrupt:
            require(outcome == "interrupt", f"interrupted without reason: call {i}")
            return
        require(got == want + self.tag and type(got) is str, f"call {args} {kwargs} returned {got!r} instead of {want + self.tag!r}")


def case_pair(ctx, fname, a, b, mode):
    with scratch() as root:
        one = Cached(fname, root, mode)
        for i in (a, b, a, b):
            one.call(i)
        two = Cached(fname, root, mode)  # restart: everything but the files is new
        for i in (b, a):
            two.call(i)
    ctx.trans(6)


def disabled():
    return mock.patch.dict(sys.modules, {"pytest": types.ModuleType("pytest")})


def snapshot(root):
    out = {}
    for base, _, files in os.walk(root):
        out[base] = None
        for name in files:
            path = os.path.join(base, name)
            with open(path, "rb") as fh:
                out[path] = fh.read()
    return out


def case_outcomes(ctx, fname, pair, steps, mode):
    """Sequence of (which of the two calls, outcome)."""
    with scratch() as root:
        one = Cached(fname, root, mode)
        for which, outcome in steps:
            if outcome == "disabled":
                before = snapshot(root)
                runs, one.tag = one.runs, " fresh"
                with disabled():
                    one.call(pair[which])
                one.tag = ""
                require(one.runs == runs + 1, "with caching disabled, the function was not executed")
                require(snapshot(root) == before, "with caching disabled, the store was modified")
            else:
                one.call(pair[which], outcome)
        two = Cached(fname, root, mode)
        for which in (0, 1):
            two.call(pair[which])
    ctx.trans(len(steps) + 2)


def case_disabled_at_definition(ctx, fname, mode):
    """A function defined while caching is disabled never touches the store."""
    with scratch() as root:
        enabled = Cached(fname, root, mode)
        enabled.tag = " stale"
        for i in range(len(enabled.calls)):
            enabled.call(i)
        before = snapshot(root)
        with disabled():
            one = Cached(fname, root, mode)
            for i in range(len(one.calls)):
                one.call(i)
                one.call(i)
            require(one.runs == 2 * len(one.calls), "with caching disabled, the function was not executed")
            cache = qldpc.cache.get_disk_cache("mc_test")
            require(len(cache) == 0, "with caching disabled, the store is not empty")
            cache["key"] = 1
            require(len(qldpc.cache.get_disk_cache("mc_test")) == 0, "with caching disabled, entries are kept")
        require(snapshot(root) == before, "with caching disabled, the store was modified")
    ctx.trans(2 * len(one.calls))


# -- values ---------------------------------------------------------------------------------------------------------

VALUES = {
    "none": lambda: None,
    "false": lambda: False,
    "true": lambda: True,
    "zero": lambda: 0,
    "one": lambda: 1,
    "fzero": lambda: 0.0,
    "nzero": lambda: -0.0,
    "big": lambda: 2**80,
    "float": lambda: 0.1 + 0.2,
    "inf": lambda: float("inf"),
    "empty": lambda: "",
    "text": lambda: "Gr\u00f6\u00dfe \u2713",
    "bytes": lambda: b"\x00\xff",
    "bytesbig": lambda: bytes(range(256)) * 400,
    "textbig": lambda: "\u00e4b\n" * 40000,
    "tuple": lambda: ((), (1, (2, "x")), None),
    "list": lambda: [[(0, 1), (2,)], []],
    "listbig": lambda: [[(i, i + 1)] for i in range(20000)],
    "dict": lambda: {"a": [1], 2: None},
    "galois": lambda: galois.GF(4)([[0, 1], [2, 3]]),
    "array": lambda: np.arange(6).reshape(2, 3),
    "perm": lambda: abstract.GroupMember([1, 2, 0]),
}


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(np.asarray(a) == np.asarray(b)))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return repr(a) == repr(b) and a == b


def spoil(v):
    if isinstance(v, list):
        v.append("spoiled")
        if v and isinstance(v[0], list):
            v[0].append("spoiled")
    elif isinstance(v, dict):
        v["spoiled"] = 1
    elif isinstance(v, np.ndarray):
        v[...] = 1


def case_value(ctx, value, mode):
    make = VALUES[value]
    with scratch() as root:
        os.environ["XDG_CACHE_HOME"] = os.path.join(root, "xdg")
        kw = {"cache_dir": os.path.join(root, "d")} if mode % 2 else {}
        if mode >= 2:
            kw["key_func"] = lambda x: x if mode == 2 else None

        def build():
            return qldpc.cache.use_disk_cache("values", **kw)(lambda x: make())

        func = build()
        for i in range(4):
            got = func(0)
            require(same(got, make()), f"call {i}: {type(got).__name__} {got!r:.100}")
            spoil(got)
        res = in_fork(lambda: same(build()(0), make()))
        require(res == ("ok", True), f"after a restart: {res}")
    ctx.trans(6)


def case_names(ctx, names):
    """Functions with different cache names and the same arguments."""
    with scratch() as root:
        os.environ["XDG_CACHE_HOME"] = os.path.join(root, "xdg")
        dirs = (None, os.path.join(root, "a"), os.path.join(root, "b"))
        funcs = []
        for name in names:
            for d in dirs:
                funcs.append((name, d, qldpc.cache.use_disk_cache(name, cache_dir=d)(lambda x, n=name, d=d: (n, d, x))))
        for _ in range(2):
            for name, d, func in funcs:
                for x in (0, "0"):
                    require(func(x) == (name, d, x), f"{name} in {d} returned {func(x)}")
    ctx.trans(len(funcs) * 4)


# -- interleavings --------------------------------------------------------------------------------------------------


class Scheduler:
    """Runs one thread at a time; at each point the next thread is taken from a list of choices."""

    def __init__(self, choices):
        self.choices = list(choices)
        self.taken, self.options = [], []
        self.cond = threading.Condition()
        self.waiting, self.alive, self.running = set(), set(), None
        self.started = False

    def point(self):
        me = threading.current_thread()
        name = getattr(me, "mc_name", None)
        if name is None:
            return
        with self.cond:
            self.waiting.add(name)
            if self.running == name:
                self.running = None
            self.pick()
            while self.running != name:
                if not self.cond.wait(60):
                    raise RuntimeError("scheduler stuck")
            self.waiting.discard(name)

    def pick(self):
        if not self.started or self.running is not None or not self.alive or self.waiting != self.alive:
            return
        options = sorted(self.waiting)
        i = len(self.taken)
        choice = self.choices[i] if i < len(self.choices) else self.default(options)
        if choice not in options:
            choice = options[0]
        self.taken.append(choice)
        self.options.append(options)
        self.running = choice
        self.cond.notify_all()

    def default(self, options):
        last = self.taken[-1] if self.taken else None
        return last if last in options else options[0]

    def run(self, bodies):
        threads = []
        errors = []

        def wrap(name, body):
            try:
                self.point()
                body()
            except BaseException as exc:  # noqa: BLE001
                errors.append((name, exc))
            finally:
                with self.cond:
                    self.alive.discard(name)
                    self.waiting.discard(name)
                    if self.running == name:
                        self.running = None
                    self.pick()

        for name, body in bodies.items():
            t = threading.Thread(target=wrap, args=(name, body), daemon=True)
            t.mc_name = name
            self.alive.add(name)
            threads.append(t)
        self.started = True
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise RuntimeError("deadlock under the scheduler")
        return errors


def preemptions(taken, options):
    return sum(1 for i in range(1, len(taken)) if taken[i] != taken[i - 1] and taken[i - 1] in options[i])


def instrument(sched):
    """Patch the store so that its operations are scheduling points."""
    real = diskcache.Cache
    names = ["__contains__", "__getitem__", "get", "__setitem__", "set", "add", "pop", "__delitem__", "delete", "read", "touch", "peekitem", "incr"]
    depth = threading.local()

    def make(name):
        orig = getattr(real, name)

        def method(self, *args, **kwargs):
            if getattr(depth, "n", 0):
                return orig(self, *args, **kwargs)
            sched.point()
            depth.n = 1
            try:
                return orig(self, *args, **kwargs)
            finally:
                depth.n = 0

        return mock.patch.object(real, name, method)

    return [make(n) for n in names]


BODIES = {
    # name -> list of (thread, list of (argument, outcome) or ("evict",))
    "same": {"A": [(0, "ok")], "B": [(0, "ok")]},
    "different": {"A": [(0, "ok")], "B": [(1, "ok")]},
    "evict": {"A": [(0, "ok"), (0, "ok")], "E": ["evict"]},
    "evict2": {"A": [(0, "ok"), (0, "ok")], "E": ["evict", "evict"]},
    "fails": {"A": [(0, "raise")], "B": [(0, "ok")]},
    "interrupted": {"A": [(0, "interrupt")], "B": [(0, "ok")], "C": [(1, "ok")]},
    "two_calls": {"A": [(0, "ok"), (1, "ok")], "B": [(0, "ok"), (1, "ok")]},
    "crossed": {"A": [(0, "ok"), (1, "ok")], "B": [(1, "ok"), (0, "ok")]},
    "three": {"A": [(0, "ok")], "B": [(0, "ok")], "C": [(1, "ok")], "E": ["evict"]},
}


def execute(which, choices):
    """One execution under a schedule; returns (problems, taken, options)."""
    sched = Scheduler(choices)
    problems = []
    with scratch() as root:
        cache_dir = os.path.join(root, "d")
        outcome = threading.local()

        def target(x):
            sched.point()
            if getattr(outcome, "v", "ok") == "raise":
                raise Boom
            if getattr(outcome, "v", "ok") == "interrupt":
                raise KeyboardInterrupt
            return ["value of", x]

        func = qldpc.cache.use_disk_cache("inter", cache_dir=cache_dir)(target)
        if which.startswith("evict") or which == "three":
            func(0)
        else:
            qldpc.cache.get_disk_cache("inter", cache_dir=cache_dir).close()

        def body(ops):
            def run():
                for op in ops:
                    if op == "evict":
                        sched.point()
                        with diskcache.Cache(os.path.join(cache_dir, "inter")) as c:
                            for key in list(c):
                                c.delete(key)
                        continue
                    x, out = op
                    outcome.v = out
                    try:
                        got = func(x)
                    except Boom:
                        if out != "raise":
                            problems.append(f"call {x} failed")
                        continue
                    except KeyboardInterrupt:
                        if out != "interrupt":
                            problems.append(f"call {x} was interrupted")
                        continue
                    if got != ["value of", x]:
                        problems.append(f"call {x} returned {got}")

            return run

        patches = instrument(sched)
        for p in patches:
            p.start()
        try:
            errors = sched.run({n: body(ops) for n, ops in BODIES[which].items()})
        finally:
            for p in patches:
                p.stop()
        for name, exc in errors:
            problems.append(f"caller {name}: {type(exc).__name__}: {exc}")
        for x in (0, 1):
            got = func(x)
            if got != ["value of", x]:
                problems.append(f"later, call {x} returned {got}")
    return problems, sched.taken, sched.options


def case_schedule(ctx, which, choices):
    problems, taken, options = execute(which, choices)
    require(not problems, f"schedule {''.join(taken)}: {problems}")
    ctx.trans(len(taken))
    return taken, options


def explore_schedules(ctx, which, bound=None, part=0, parts=1):
    """All schedules (with at most `bound` preemptions), by extending prefixes of choices."""
    stack = [()]
    done = 0
    while stack:
        prefix = stack.pop()
        info = {}

        def run(ctx2, which, choices):
            info["t"], info["o"] = case_schedule(ctx2, which, choices)

        # the default continuation never preempts
        try:
            taken, options = None, None
            problems, taken, options = execute(which, prefix)
        except BaseException:
            ctx.case("schedule", {"which": which, "choices": list(prefix)})
            raise
        done += 1
        ctx.state(("schedule", which, tuple(taken)))
        ctx.trans(len(taken))
        ctx.traces += 1
        if problems:
            ctx.case("schedule", {"which": which, "choices": taken})
        for i in range(len(prefix), len(taken)):
            for alt in options[i]:
                if alt != taken[i]:
                    new = tuple(taken[:i]) + (alt,)
                    if bound is None or preemptions(list(new), options) <= bound:
                        if len(new) > 3 or parts == 1 or hash_part(new, parts) == part:
                            stack.append(new)


def hash_part(prefix, parts):
    return sum(ord(c) * (i + 1) for i, c in enumerate("".join(prefix))) % parts


# -- crash points ---------------------------------------------------------------------------------------------------

CRASH_VALUES = {"small": lambda x: ["v", x], "large": lambda x: ["v" * 50000, x], "text": lambda x: "t" * 40000 + str(x)}


class Crash:
    """Counts SQL statements (and other points) and ends the process at a given one."""

    def __init__(self, at):
        self.at, self.count = at, 0

    def hit(self, *_):
        if self.count == self.at:
            os._exit(9)
        self.count += 1

    def install(self):
        real = sqlite3.connect

        def connect(*args, **kwargs):
            self.hit()
            con = real(*args, **kwargs)
            con.set_trace_callback(self.hit)
            return con

        sqlite3.connect = connect
        import diskcache.core

        diskcache.core.sqlite3.connect = connect
        orig = diskcache.core.Disk._write

        def write(disk, *args, **kwargs):
            self.hit()
            out = orig(disk, *args, **kwargs)
            self.hit()
            return out

        diskcache.core.Disk._write = write


def crash_run(cache_dir, value, calls, at):
    crash = Crash(at)
    crash.install()

    def target(x):
        crash.hit()
        out = CRASH_VALUES[value](x)
        crash.hit()
        return out

    func = qldpc.cache.use_disk_cache("crash", cache_dir=cache_dir)(target)
    for x in calls:
        func(x)
    return crash.count


def case_crash(ctx, value, prior, calls, at):
    with scratch() as root:
        cache_dir = os.path.join(root, "d")
        func = qldpc.cache.use_disk_cache("crash", cache_dir=cache_dir)(CRASH_VALUES[value])
        if prior:
            in_fork(func, 5)
        res = in_fork(crash_run, cache_dir, value, calls, at)
        require(res[0] in ("ok", "died"), f"the crashing process: {res}")
        for _ in range(2):
            for x in (0, 1, 5):
                got = in_fork(func, x) if x == 5 else ("ok", func(x))
                require(got == ("ok", CRASH_VALUES[value](x)), f"after a crash at point {at}, call {x} gave {str(got)[:100]}")
    ctx.trans(7)
    return res


def unit_crash(ctx, value, prior, calls):
    at = 0
    while True:
        params = {"value": value, "prior": prior, "calls": calls, "at": at}
        ctx.case("crash", params)
        with scratch() as root:
            cache_dir = os.path.join(root, "d")
            if prior:
                in_fork(qldpc.cache.use_disk_cache("crash", cache_dir=cache_dir)(CRASH_VALUES[value]), 5)
            res = in_fork(crash_run, cache_dir, value, calls, at)
        if res[0] == "ok":
            break
        at += 1
        require(at < 2000, "reference: the number of crash points is not bounded")


# -- the functions of the library -------------------------------------------------------------------------------------

GEN_REPLY = "(1,2,3)\n(1,2)(3,4)\n"
CODE_REPLY = "GF(2)\n[ 1, 0, 1 ]\n[ 0, 1, 1 ]\n"
IDEM_REPLY = "[ (Z(2)^0)*()+(Z(2)^0)*(1,2,3)+(Z(2)^0)*(1,3,2) ]"
GEN = [[(0, 1, 2)], [(0, 1), (2, 3)]]
LIB = [
    # (function, arguments, value, match for gap, reply, answer without gap)
    ("get_generators", ("Thing",), GEN, "GeneratorsOfGroup", GEN_REPLY, None),
    ("get_code", ("Thing",), ([[1, 0, 1], [0, 1, 1]], 2), "CheckMat", CODE_REPLY, None),
    ("get_small_group_number", (8,), 5, "NumberSmallGroups(8)", "5", None),
    ("get_small_group_number", (16,), 14, "NumberSmallGroups(16)", "14", None),
    ("get_small_group_structure", (8, 3), "D8", "SmallGroup(8,3)", "D8", "SmallGroup(8,3)"),
    ("get_small_group_structure", (8, 4), "Q8", "SmallGroup(8,4)", "Q8", "SmallGroup(8,4)"),
    ("get_primitive_central_idempotents", ("Thing", 2), (((1, ((),)), (1, ((0, 1, 2),)), (1, ((0, 2, 1),))),), "GroupRing(GF(2)", IDEM_REPLY, None),
    ("get_primitive_central_idempotents", ("Thing", 4), (((1, ((),)),),), "GroupRing(GF(4)", "[ (Z(2)^0)*() ]", None),
    ("get_generators", ("SmallGroup(8,3)",), [[(0, 1, 2, 3)]], "SmallGroup(8,3)", "(1,2,3,4)\n", None),
    ("get_code", ("SmallGroup(8,3)",), ([[1, 1]], 3), "code := SmallGroup(8,3)", "GF(3)\n[ 1, 1 ]\n", None),
]


def lib_function(name):
    if name == "get_code":
        return external.codes.get_code
    return getattr(external.groups, name)


def lib_world(state):
    if state == "absent":
        return World(gap=None)
    if state == "failing":
        return World(gap=[("", "", "Error, out of memory")])
    replies = []
    for name, args, value, match, reply, _ in LIB:
        if name == "get_generators":
            match = f"group := {args[0]}; iso"
        elif name == "get_code":
            match = f"code := {args[0]};"
        elif name == "get_small_group_structure":
            match = f"StructureDescription(SmallGroup({args[0]},{args[1]}))"
        replies.append((match, reply, ""))
    return World(gap=replies)


def lib_call(root, state, index):
    lib_world(state).enter(root)
    name, args, *_ = LIB[index]
    return lib_function(name)(*args)


def case_library(ctx, steps):
    with scratch() as root:
        for state, index in steps:
            name, args, want, _, _, fallback = LIB[index]
            got = in_fork(lib_call, root, state, index)
            if got[0] == "ok":
                ok = got[1] == want or (state == "absent" and fallback is not None and got[1] == fallback)
                require(ok, f"{name}{args} with {state} sources returned {got[1]}")
            else:
                require(got[0] == "raised" and state != "working", f"{name}{args} with {state} sources: {got}")
                require(got[1] == "ValueError", f"{name}{args} with {state} sources: {got}")
        for index in dict.fromkeys(i for _, i in steps):
            name, args, want, *_ = LIB[index]
            got = in_fork(lib_call, root, "working", index)
            require(got == ("ok", want), f"finally, {name}{args} gave {got}")
    ctx.trans(len(steps))


def intersection(root, xs, ys):
    os.environ["XDG_CACHE_HOME"] = os.path.join(root, "cache")
    ga = abstract.Group(*[abstract.GroupMember(list(x)) for x in xs])
    gb = abstract.Group(*[abstract.GroupMember(list(y)) for y in ys])
    gens = circuits._sympy_group_intersection_generators(ga, gb)
    group = abstract.Group(*[abstract.GroupMember(list(g)) for g in gens])
    return sorted(tuple(g.array_form) for g in group.generate())


PERMS4 = [(1, 0, 2, 3), (0, 2, 1, 3), (1, 2, 3, 0), (1, 0, 3, 2), (0, 1, 3, 2)]


def members(gens, n=4):
    ident = tuple(range(n))
    seen, todo = {ident}, [ident]
    while todo:
        g = todo.pop()
        for h in gens:
            c = tuple(h[i] for i in g)
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def case_intersections(ctx, first, second):
    """Two requests for intersections of permutation groups, in both orders, with a shared store."""
    if not hasattr(circuits, "_sympy_group_intersection_generators"):
        return  # an internal function: nothing to decide if the library is organised differently
    with scratch() as root:
        for xs, ys in (first, second, first, second):
            xs, ys = [tuple(x) for x in xs], [tuple(y) for y in ys]
            got = in_fork(intersection, root, xs, ys)
            want = sorted(members(xs) & members(ys))
            require(got == ("ok", want), f"intersection of <{xs}> and <{ys}>: {got}")
    ctx.trans(4)


CASES = {
    "pair": case_pair,
    "outcomes": case_outcomes,
    "disabled_at_definition": case_disabled_at_definition,
    "value": case_value,
    "names": case_names,
    "schedule": case_schedule,
    "crash": case_crash,
    "library": case_library,
    "intersections": case_intersections,
}


# -- units ----------------------------------------------------------------------------------------------------------


def unit_pairs(ctx, fname, part, parts):
    n = len(FUNCS[fname][2])
    i = 0
    for a, b in itertools.combinations(range(n), 2):
        i += 1
        if i % parts == part:
            ctx.case("pair", {"fname": fname, "a": a, "b": b, "mode": ("dir", "xdg")[i // parts % 2]})


def unit_outcomes(ctx, depth, part, parts):
    steps = [(w, o) for w in (0, 1) for o in ("ok", "raise", "interrupt", "disabled")]
    i = 0
    for seq in itertools.product(steps, repeat=depth):
        i += 1
        if i % parts == part:
            fname = ("any", "keyed", "mixed")[i // parts % 3]
            ctx.case("outcomes", {"fname": fname, "pair": (3, 5), "steps": seq, "mode": ("dir", "xdg")[i // parts % 2]})


def unit_values(ctx):
    for value in VALUES:
        for mode in range(4):
            ctx.case("value", {"value": value, "mode": mode})
    for fname in FUNCS:
        for mode in ("dir", "xdg"):
            ctx.case("disabled_at_definition", {"fname": fname, "mode": mode})
    ctx.case("names", {"names": ["a", "b", "a_b", "codes", "code"]})


def unit_schedules(ctx, which, bound=None, part=0, parts=1):
    explore_schedules(ctx, which, bound, part, parts)


def unit_library(ctx, depth, part, parts, every=True):
    steps = [(s, i) for i in range(len(LIB)) for s in ("working", "failing", "absent")]
    i = 0
    for seq in itertools.product(steps, repeat=depth):
        if not every and not all(s == "working" for s, _ in seq) and len({LIB[k][0] for _, k in seq}) > 1:
            continue
        i += 1
        if i % parts == part:
            ctx.case("library", {"steps": seq})


def unit_intersections(ctx, part, parts):
    gens = [(), *[(p,) for p in PERMS4], (PERMS4[0], PERMS4[1]), (PERMS4[3], PERMS4[4])]
    reqs = [(a, b) for a in gens if a for b in gens if b]
    i = 0
    for j, first in enumerate(reqs):
        for second in (reqs[(j + 1) % len(reqs)], (first[1], first[0]), (first[0], reqs[(j * 3 + 1) % len(reqs)][1])):
            i += 1
            if i % parts == part:
                ctx.case("intersections", {"first": first, "second": second})


UNITS = {
    "pairs": unit_pairs,
    "outcomes": unit_outcomes,
    "values": unit_values,
    "schedules": unit_schedules,
    "crash": unit_crash,
    "library": unit_library,
    "intersections": unit_intersections,
}


def units(tier):
    th = tier == "thorough"
    out = [("values", {})]
    for which in BODIES:
        big = which in ("two_calls", "crossed", "three", "interrupted", "evict2")
        out.append(("schedules", {"which": which, "bound": (3 if th else 2) if big else None}))
    for fname in FUNCS:
        for p in range(2):
            out.append(("pairs", {"fname": fname, "part": p, "parts": 2}))
    for p in range(4):
        out.append(("outcomes", {"depth": 4 if th else 3, "part": p, "parts": 4}))
    for value in CRASH_VALUES:
        for prior in (False, True):
            out.append(("crash", {"value": value, "prior": prior, "calls": [0, 1, 0] if th else [0]}))
    for p in range(8):
        out.append(("library", {"depth": 2, "part": p, "parts": 8, "every": th}))
    if th:
        for p in range(60):
            out.append(("library", {"depth": 3, "part": p, "parts": 600}))
    for p in range(2):
        out.append(("intersections", {"part": p, "parts": 2}))
    return out
