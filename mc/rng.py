"""A controlled random source: every random draw becomes an enumerated choice point.

``explore(fn)`` runs ``fn`` once for every possible sequence of outcomes of the random draws it
makes (depth-first, stateless re-execution), up to a bound on the number of draws in one run.  Runs
that exceed the bound (repeat-until-success loops that keep rejecting) are cut and counted.
"""

from __future__ import annotations

import contextlib
import itertools
import random as _random

import galois
import numpy as np
import sympy.core.random as _sympy_random


class PathCut(BaseException):
    """This path makes more draws than the bound allows."""


class Script:
    def __init__(self, prefix, max_draws, max_arity):
        self.prefix = list(prefix)
        self.trace = []
        self.max_draws = max_draws
        self.max_arity = max_arity
        self.capped = False
        self.log = []
        self.prob = 1.0  # probability of this path

    def choose(self, arity, weights=None):
        arity = int(arity)
        if arity <= 0:
            raise ValueError("empty range for a random draw")
        c = self._choose(arity)
        self.prob *= 1 / arity if weights is None else weights[c] / sum(weights)
        return c

    def _choose(self, arity):
        if arity == 1:
            return 0
        if len(self.trace) >= self.max_draws:
            raise PathCut()
        limit = arity
        if arity > self.max_arity:
            self.capped = True
            limit = self.max_arity
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, limit))
        return c


def _shape(shape):
    if shape is None or shape == ():
        return ()
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


@contextlib.contextmanager
def controlled(script):
    """Route the random sources used by the library to the script."""

    def field_random(cls, shape=(), low=0, high=None, seed=None, dtype=None):
        high = cls.order if high is None else high
        shape = _shape(shape)
        size = int(np.prod(shape)) if shape else 1
        base = high - low
        index = script.choose(base**size)
        digits = []
        for _ in range(size):
            digits.append(low + index % base)
            index //= base
        script.log.append(("field", tuple(digits)))
        return cls(np.array(digits, dtype=int).reshape(shape))

    def np_choice(a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        weights = None if p is None else [float(x) for x in p]
        live = [i for i in range(len(pool)) if weights is None or weights[i] > 0]
        shape = _shape(size)
        n = int(np.prod(shape)) if size is not None else 1
        if not pool and n:
            raise ValueError("a cannot be empty unless no samples are taken")
        out = []
        for _ in range(n):
            k = live[script.choose(len(live), None if weights is None else [weights[i] for i in live])]
            out.append(pool[k])
            if not replace:
                live.remove(k)
        script.log.append(("choice", tuple(out)))
        return out[0] if size is None else np.array(out, dtype=None if out else int).reshape(shape)

    def np_randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        shape = _shape(size)
        n = int(np.prod(shape)) if size is not None else 1
        out = [low + script.choose(high - low) for _ in range(n)]
        script.log.append(("randint", tuple(out)))
        return out[0] if size is None else np.array(out, dtype=dtype).reshape(shape)

    def np_permutation(x):
        pool = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        out = []
        while pool:
            out.append(pool.pop(script.choose(len(pool))))
        return np.array(out)

    def randbelow(n):
        k = script.choose(n)
        script.log.append(("below", n, k))
        return k

    missing = object()
    saved_field = galois.FieldArray.__dict__.get("Random", missing)
    saved_np = {k: getattr(np.random, k) for k in ("choice", "randint", "permutation")}
    insts = [_random._inst, _sympy_random.rng]
    saved_inst = [inst.__dict__.get("_randbelow", missing) for inst in insts]
    try:
        type.__setattr__(galois.FieldArray, "Random", classmethod(field_random))
        np.random.choice = np_choice
        np.random.randint = np_randint
        np.random.permutation = np_permutation
        for inst in insts:
            inst._randbelow = randbelow
        yield
    finally:
        if saved_field is missing:
            type.__delattr__(galois.FieldArray, "Random")
        else:
            type.__setattr__(galois.FieldArray, "Random", saved_field)
        for k, v in saved_np.items():
            setattr(np.random, k, v)
        for inst, old in zip(insts, saved_inst):
            if old is missing:
                del inst._randbelow
            else:
                inst._randbelow = old


class Stats:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.capped = False
        self.draws = 0


def explore(fn, *, max_draws=6, max_arity=100000, max_paths=None, stats=None):
    """Yield (result, script) for every path of random outcomes of fn()."""
    stats = stats if stats is not None else Stats()
    prefix = []
    while True:
        script = Script(prefix, max_draws, max_arity)
        try:
            with controlled(script):
                result = fn()
        except PathCut:
            stats.cut += 1
            result = PathCut
        stats.paths += 1
        stats.draws += len(script.trace)
        stats.capped |= script.capped
        if result is not PathCut:
            yield result, script
        trace = list(script.trace)
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        prefix = [c for c, _ in trace[:-1]] + [trace[-1][0] + 1]
        if max_paths is not None and stats.paths >= max_paths:
            stats.capped = True
            return


def seeds(n):
    return range(n)


def product_index(bases):
    return itertools.product(*[range(b) for b in bases])
