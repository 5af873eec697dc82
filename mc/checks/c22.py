"""C22: estimated logical error rates are consistent with the sampled errors."""

import itertools
import math
import random

import galois
import numpy as np
from qldpc import codes, decoders
from qldpc.objects import Pauli

from mc import rng
from mc.core import require
from mc.ref import gf, tup

PROPERTY = "C22"
ASSUMPTIONS = [
    "the declared maximum error rate is between zero and one, and at least one sample is requested",
    "decoders explain the syndrome they are given, the zero syndrome by no error",
    "an X, Y and Z error of a qudit are drawn with the stated relative probabilities, the nonzero field elements of an X-type or Z-type part uniformly (for qudits of dimension larger than two: the X-type and the Z-type part of a Y error independently)",
    "errors heavier than the heaviest sampled weight count as failures (an upper bound)",
    "random numbers come from the standard library's and numpy's global generators",
]
BOUNDS = {
    "quick": "every outcome of all draws of the estimator for 9 classical codes of length 1..4 over GF(2), GF(3), GF(4) and 7 CSS codes (stabilizer and subsystem, 2..4 qudits, GF(2), GF(3)) with best-case, worst-case and library decoders, 6 Pauli biases, budgets that sample weights up to 1..3; all budgets 1..60 (every third from 20) x lengths 1..12, 20, 40 x 8 maximum rates with real draws; rates on a grid of 8 points",
    "thorough": "larger budgets (two and three samples of a weight), four-qubit codes up to weight 3",
}
CASE_TIMEOUT = 600
GRID = (0.0, 1e-9, 0.001, 0.03, 0.1, 0.25, 0.5, 1.0)


# -- reference -----------------------------------------------------------------------------------------------


def syndrome_table(f, rows, n, worst):
    """Map syndromes to errors of minimal (or maximal) weight, and the zero syndrome to no error."""
    table = {(0,) * len(rows): ((math.inf if worst else -1), (0,) * n)}
    for e in itertools.product(range(f.q), repeat=n):
        s = tuple(f.dot(r, e) for r in rows)
        key = sum(map(bool, e)), e
        if s not in table or (key > table[s] if worst else key < table[s]):
            table[s] = key
    return {s: e for s, (_, e) in table.items()}


def residual(f, rows, table, error):
    s = tuple(f.dot(r, error) for r in rows)
    return tuple(f.sub(a, b) for a, b in zip(error, table[s]))


class Recorder(decoders.DirectDecoder):
    """A decoder of words that remembers what it was asked."""

    def __init__(self, f, rows, n, worst, log, kind):
        self.f, self.rows, self.log, self.kind, self.n = f, rows, log, kind, n
        self.table = syndrome_table(f, rows, n, worst)

    def decode(self, word):
        error = tuple(int(v) for v in word)
        require(len(error) == self.n, "a word of the wrong length was decoded")
        out = residual(self.f, self.rows, self.table, error)
        self.log.append((self.kind, error, out))
        return np.array(out, dtype=int)


def choose_probability(n, k, p):
    return math.comb(n, k) * p**k * (1 - p) ** (n - k)


def expected(n, p, fidelities, variances):
    """Rate and standard error from the fidelities of the weights 0..K."""
    probs = [choose_probability(n, k, p) for k in range(len(fidelities))]
    return 1 - math.fsum(a * b for a, b in zip(probs, fidelities)), math.sqrt(math.fsum(a * a * b for a, b in zip(probs, variances)))


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9


def check_function(ctx, func, n, max_rate, stats):
    """stats: weight -> (samples, failures)."""
    top = max(stats, default=0)
    require(sorted(stats) == list(range(1, top + 1)), f"weights that were sampled: {sorted(stats)}")
    fid, var = [1.0], [0.0]
    for k in range(1, top + 1):
        size, fails = stats[k]
        fid.append(1 - fails / size)
        var.append(fails / size * (1 - fails / size) / size)
    rates = [p for p in GRID if p <= max_rate] + [max_rate]
    for p in rates:
        rate, error = func(p)
        want_rate, want_error = expected(n, p, fid, var)
        require(close(rate, want_rate), f"rate {rate} at p={p} instead of {want_rate}, samples and failures by weight: {stats}")
        require(close(error, want_error), f"standard error {error} at p={p} instead of {want_error}, samples and failures by weight: {stats}")
        require(-1e-9 <= rate <= 1 + 1e-9, f"rate {rate}")
        if p == 0:
            require(rate == 0 and error == 0, f"rate {rate} +- {error} without physical errors")
    array = func(rates)
    require(np.shape(array[0]) == (len(rates),) and all(close(r, func(p)[0]) and close(e, func(p)[1]) for r, e, p in zip(array[0], array[1], rates)), "rates of a list")
    for bad in (max_rate * 1.0001 + 1e-6, max_rate + 0.5, 2.0, [0.0, max_rate + 0.01], [max_rate + 0.01, 0.0]):
        try:
            out = func(bad)
        except ValueError:
            continue
        require(False, f"a rate above the maximum {max_rate} was accepted: {bad} -> {out}")
    ctx.trans(len(rates))


# -- classical codes ---------------------------------------------------------------------------------------------

CLASSICAL = {
    "rep1": (2, [[0]]),
    "rep2": (2, [[1, 1]]),
    "rep3": (2, [[1, 1, 0], [0, 1, 1]]),
    "line3": (2, [[1, 1, 1]]),
    "full4": (2, [[1, 1, 0, 0], [0, 0, 1, 1], [1, 0, 1, 0], [0, 1, 0, 1]]),
    "free3": (2, [[0, 0, 1]]),
    "tern2": (3, [[1, 1]]),
    "tern3": (3, [[1, 1, 1], [0, 1, 2]]),
    "quat2": (4, [[1, 2]]),
    "nokernel": (3, [[1, 0], [1, 1]]),
}


def weights_fail(f, rows, n, table):
    """Fraction of the errors of each weight that are not corrected."""
    total, bad = [0] * (n + 1), [0] * (n + 1)
    for e in itertools.product(range(f.q), repeat=n):
        w = sum(map(bool, e))
        total[w] += 1
        bad[w] += any(residual(f, rows, table, e))
    return [b / t for b, t in zip(bad, total)]


def case_classical(ctx, name, budget, max_rate, worst):
    q, rows = CLASSICAL[name]
    f, n = gf(q), len(rows[0])
    code = codes.ClassicalCode(galois.GF(q)(np.array(rows)))
    log = []
    decoder = Recorder(f, rows, n, worst, log, "word")
    fails = weights_fail(f, rows, n, decoder.table)

    def run():
        del log[:]
        return code.get_logical_error_rate_func(budget, max_rate, decoder_constructor=lambda matrix: decoder)

    total, mean, shape = 0.0, {p: 0.0 for p in GRID if p <= max_rate}, None
    tally = [{} for _ in range(n + 1)]
    stats_rng = rng.Stats()
    for func, script in rng.explore(run, max_draws=400, stats=stats_rng):
        stats = {}
        for _, error, out in log:
            w = sum(map(bool, error))
            require(w > 0, "the zero word was sampled")
            size, bad = stats.get(w, (0, 0))
            stats[w] = (size + 1, bad + any(out))
            tally[w][error] = tally[w].get(error, 0.0) + script.prob
        require(shape is None or shape == [s[0] for s in stats.values()], "the allocation of samples depends on their outcomes")
        shape = [s[0] for s in stats.values()]
        require(sum(shape) >= budget, f"{sum(shape)} samples instead of {budget}")
        check_function(ctx, func, n, max_rate, stats)
        total += script.prob
        for p in mean:
            mean[p] += script.prob * float(func(p)[0])
        ctx.state((name, budget, max_rate, worst, tuple(log)))
    require(close(total, 1) and not stats_rng.cut, f"total probability {total}")
    for w in range(1, len(shape) + 1):
        count = math.comb(n, w) * (q - 1) ** w
        require(len(tally[w]) == count, f"{len(tally[w])} of {count} errors of weight {w} can be sampled")
        require(all(close(v, shape[w - 1] / count) for v in tally[w].values()), f"errors of weight {w} are not equally likely: {tally[w]}")
    for p in mean:
        want = expected(n, p, [1 - x for x in fails[: len(shape) + 1]], [0] * n)[0]
        require(close(mean[p], want), f"mean rate {mean[p]} at p={p} instead of the exact {want}")


def case_classical_library(ctx, name, args, budget, max_rate):
    """The decoders of the library, without a recorder."""
    q, rows = CLASSICAL[name]
    f, n = gf(q), len(rows[0])
    code = codes.ClassicalCode(galois.GF(q)(np.array(rows)))
    decoder = decoders.get_decoder(code.matrix, **args)
    fid = [0.0] * (n + 1)
    for e in itertools.product(range(q), repeat=n):
        s = np.array([f.dot(r, e) for r in rows])
        guess = tuple(int(v) for v in decoder.decode(s))
        require(tuple(f.dot(r, guess) for r in rows) == tuple(s), f"decoder {args} does not explain a syndrome")
        w = sum(map(bool, e))
        fid[w] += (guess == e) / (math.comb(n, w) * (q - 1) ** w)
    allocation = probe_allocation(n, budget, max_rate)
    mean = {p: 0.0 for p in GRID if p <= max_rate}
    total = 0.0
    for func, script in rng.explore(lambda: code.get_logical_error_rate_func(budget, max_rate, **args), max_draws=400):
        total += script.prob
        for p in mean:
            rate, error = func(p)
            require(-1e-9 <= rate <= 1 + 1e-9 and error >= 0, f"rate {rate} +- {error}")
            mean[p] += script.prob * float(rate)
        ctx.trans()
    require(close(total, 1), f"total probability {total}")
    for p in mean:
        want = expected(n, p, fid[: len(allocation) + 1], [0] * (n + 1))[0]
        require(close(mean[p], want), f"mean rate {mean[p]} at p={p} instead of the exact {want}")
    ctx.state((name, str(args), budget, max_rate))


def probe_allocation(n, budget, max_rate):
    """Number of samples of each weight, observed with a trivial binary code."""
    seen = {}

    class Probe(decoders.DirectDecoder):
        def __init__(self):
            pass

        def decode(self, word):
            w = int(np.count_nonzero(word))
            seen[w] = seen.get(w, 0) + 1
            return np.zeros(n, dtype=int)

    codes.ClassicalCode(np.ones((1, n), dtype=int)).get_logical_error_rate_func(budget, max_rate, decoder_constructor=lambda matrix: Probe())
    require(sorted(seen) == list(range(1, max(seen) + 1)), f"sampled weights {seen}")
    return [seen[w] for w in sorted(seen)]


def case_sweep(ctx, n, budgets, rates):
    """Real draws, all budgets."""
    for budget in budgets:
        for max_rate in rates:
            random.seed(budget)
            np.random.seed(budget)
            stats, state = {}, [budget]

            class Probe(decoders.DirectDecoder):
                def __init__(self):
                    pass

                def decode(self, word):
                    w = int(np.count_nonzero(word))
                    state[0] = (state[0] * 1103515245 + 12345) % 2**31
                    fail = (state[0] >> 16) % 3 == 0
                    size, bad = stats.get(w, (0, 0))
                    stats[w] = (size + 1, bad + fail)
                    return np.array([int(fail)] * n)

            code = codes.ClassicalCode(np.ones((1, n), dtype=int))
            func = code.get_logical_error_rate_func(budget, max_rate, decoder_constructor=lambda matrix: Probe())
            require(max_rate == 0 or sum(s[0] for s in stats.values()) >= budget, f"{stats}: fewer than {budget} samples")
            check_function(ctx, func, n, max_rate, stats)
            sizes = [stats[w][0] for w in sorted(stats)]
            require(sizes == sorted(sizes, reverse=True), f"samples by weight {sizes} are not decreasing")


# -- CSS codes ------------------------------------------------------------------------------------------------------

CSS = {
    "one2": (2, [[1, 1]], [[0, 0]]),
    "flip3": (2, [[0, 0, 0]], [[1, 1, 0], [0, 1, 1]]),
    "phase3": (2, [[1, 1, 0], [0, 1, 1]], [[0, 0, 0]]),
    "c4": (2, [[1, 1, 1, 1]], [[1, 1, 1, 1]]),
    "bs4": (2, [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 0, 1, 0], [0, 1, 0, 1]]),
    "sub3": (2, [[1, 0, 0], [0, 1, 1]], [[1, 0, 0], [0, 1, 1]]),
    "tern2": (3, [[1, 1]], [[0, 0]]),
    "tern3": (3, [[1, 1, 1]], [[1, 2, 0]]),
}
BIASES = {"none": None, "x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "xz": (1, 0, 3), "mix": (1, 2, 5)}


def gauge_and_stabilizers(f, gx, gz):
    """Stabilizers (of both types) of the gauge group."""

    def commuting(rows, others):
        # elements of span(rows) orthogonal to all others
        basis = f.rref(rows)[0]
        if not basis:
            return []
        syn = [[f.dot(b, o) for b in basis] for o in others]
        return [tuple(f.matmul([list(c)], basis)[0]) for c in f.null_space(syn)]

    return commuting(gx, gz), commuting(gz, gx)


def case_css(ctx, name, budget, max_rate, worst, bias):
    q, gx, gz = CSS[name]
    f, n = gf(q), len(gx[0])
    field = galois.GF(q)
    code = codes.CSSCode(field(np.array(gx)), field(np.array(gz)))
    sx, sz = gauge_and_stabilizers(f, gx, gz)
    zero = [(0,) * n]
    log = []
    bx, bz = f.rref(gx)[0] or zero, f.rref(gz)[0] or zero
    px, pz = f.rref(sx)[0] if sx else [], f.rref(sz)[0] if sz else []
    # X-type errors are detected by Z-type stabilizers
    dec = {"X": Recorder(f, pz or zero, n, worst, log, "X"), "Z": Recorder(f, px or zero, n, worst, log, "Z")}
    space = {"X": set(f.span(bx)), "Z": set(f.span(bz))}
    harmless = lambda kind, res: res in space[kind]

    def constructor(matrix):
        rows = tup(np.asarray(matrix).tolist())
        basis = f.rref(rows)[0] if len(rows) else []
        if len(constructor.matrices) < 2:
            require(sorted(map(tuple, basis)) == sorted(map(tuple, pz)) or sorted(map(tuple, basis)) == sorted(map(tuple, px)), f"a decoder for {rows}, the stabilizers are {px}, {pz}")
        constructor.matrices.append(sorted(map(tuple, basis)))
        # the type of a decoder follows from its matrix; where both are equal it does not matter, as gx and gz are equal too
        if sorted(map(tuple, px)) == sorted(map(tuple, pz)):
            return dec["X" if len(constructor.matrices) == 1 else "Z"]
        return dec["X" if sorted(map(tuple, basis)) == sorted(map(tuple, pz)) else "Z"]

    constructor.matrices = []
    biases = BIASES[bias]

    def run():
        del log[:]
        constructor.matrices = []
        return code.get_logical_error_rate_func(budget, max_rate, biases, decoder_constructor=constructor)

    # exact probability that an error of weight k is not corrected
    bx3 = [1 / 3] * 3 if biases is None else [b / sum(biases) for b in biases]
    option = []
    for kind, pr in zip("XYZ", bx3):
        if pr:
            for a in range(1, q) if kind != "Z" else [0]:
                for b in range(1, q) if kind != "X" else [0]:
                    option.append((a, b, pr / ((q - 1) ** (2 if kind == "Y" else 1))))
    fails = {kind: {} for kind in "XZ"}
    for kind in "XZ":
        for e in itertools.product(range(q), repeat=n):
            fails[kind][e] = not harmless(kind, residual(f, dec[kind].rows, dec[kind].table, e))
    exact = [0.0]
    allocation = probe_allocation(n, budget, max_rate)
    for k in range(1, len(allocation) + 1):
        bad = 0.0
        for where in itertools.combinations(range(n), k):
            for opts in itertools.product(option, repeat=k):
                ex, ez, pr = [0] * n, [0] * n, 1.0
                for i, (a, b, w) in zip(where, opts):
                    ex[i], ez[i], pr = a, b, pr * w
                bad += pr * (fails["X"][tuple(ex)] or fails["Z"][tuple(ez)])
        exact.append(bad / math.comb(n, k))
    weights = [w for w, size in enumerate(allocation, 1) for _ in range(size)]
    total, mean = 0.0, {p: 0.0 for p in GRID if p <= max_rate}
    for func, script in rng.explore(run, max_draws=400):
        # a sample starts with each call of the first type
        samples = []
        for kind, error, out in log:
            if kind == log[0][0]:
                samples.append({})
            require(kind not in samples[-1], "an error was decoded twice")
            samples[-1][kind] = (error, fails[kind][error])
        require(len(samples) == len(weights), f"{len(samples)} samples instead of {len(weights)}")
        stats = {}
        for w, sample in zip(weights, samples):
            support = {i for error, _ in sample.values() for i, v in enumerate(error) if v}
            bad = any(b for _, b in sample.values())
            require(len(support) <= w and (len(support) == w or len(sample) == 1), f"{sample} is a sample of weight {w}")
            require(bad or len(sample) == 2, f"only one part was decoded: {sample}")
            size, fail = stats.get(w, (0, 0))
            stats[w] = (size + 1, fail + bad)
        check_function(ctx, func, n, max_rate, stats)
        total += script.prob
        for p in mean:
            mean[p] += script.prob * float(func(p)[0])
        ctx.state((name, budget, max_rate, worst, bias, tuple(log)))
    require(close(total, 1), f"total probability {total}")
    for p in mean:
        want = expected(n, p, [1 - x for x in exact], [0] * (n + 1))[0]
        require(close(mean[p], want), f"mean rate {mean[p]} at p={p} instead of the exact {want}")


CSS_ARGS = {"lookup": {"with_lookup": True, "max_weight": 4}, "ilp": {"with_ILP": True}, "guf": {"with_GUF": True}, "default": {}}


def case_css_library(ctx, name, args, budget, max_rate, bias):
    """Deterministic decoders of the library on library matrices."""
    q, gx, gz = CSS[name]
    f, n = gf(q), len(gx[0])
    field = galois.GF(q)
    code = codes.CSSCode(field(np.array(gx)), field(np.array(gz)))
    space = {"X": set(f.span(f.rref(gx)[0] or [(0,) * n])), "Z": set(f.span(f.rref(gz)[0] or [(0,) * n]))}
    fails = {}
    for kind, other in (("X", Pauli.Z), ("Z", Pauli.X)):
        matrix = code.get_stabilizer_ops(other, canonicalized=False)
        rows = tup(np.asarray(matrix).tolist())
        decoder = decoders.get_decoder(matrix, **CSS_ARGS[args])
        for e in itertools.product(range(q), repeat=n):
            s = np.array([f.dot(r, e) for r in rows])
            guess = tuple(int(v) for v in decoder.decode(s))
            fails[kind, e] = tuple(f.sub(a, b) for a, b in zip(e, guess)) not in space[kind]
    biases = BIASES[bias]
    w3 = [1 / 3] * 3 if biases is None else [b / sum(biases) for b in biases]
    option = [(a, b, pr / ((q - 1) ** (2 if kind == "Y" else 1))) for kind, pr in zip("XYZ", w3) if pr for a in (range(1, q) if kind != "Z" else [0]) for b in (range(1, q) if kind != "X" else [0])]
    allocation = probe_allocation(n, budget, max_rate)
    fid = [1.0]
    for k in range(1, len(allocation) + 1):
        bad = 0.0
        for where in itertools.combinations(range(n), k):
            for opts in itertools.product(option, repeat=k):
                ex, ez, pr = [0] * n, [0] * n, 1.0
                for i, (a, b, w) in zip(where, opts):
                    ex[i], ez[i], pr = a, b, pr * w
                bad += pr * (fails["X", tuple(ex)] or fails["Z", tuple(ez)])
        fid.append(1 - bad / math.comb(n, k))
    mean, total = {p: 0.0 for p in GRID if p <= max_rate}, 0.0
    for func, script in rng.explore(lambda: code.get_logical_error_rate_func(budget, max_rate, biases, **CSS_ARGS[args]), max_draws=400):
        total += script.prob
        for p in mean:
            rate, error = func(p)
            require(-1e-9 <= rate <= 1 + 1e-9 and error >= 0, f"rate {rate} +- {error}")
            mean[p] += script.prob * float(rate)
        ctx.trans()
    require(close(total, 1), f"total probability {total}")
    for p in mean:
        want = expected(n, p, fid, [0] * (n + 1))[0]
        require(close(mean[p], want), f"mean rate {mean[p]} at p={p} instead of the exact {want}")
    ctx.state((name, args, budget, max_rate, bias))


CASES = {
    "classical": case_classical,
    "classical_library": case_classical_library,
    "sweep": case_sweep,
    "css": case_css,
    "css_library": case_css_library,
}


# -- units --------------------------------------------------------------------------------------------------------------

PLAN = [  # (code, budget, maximum rate)
    ("rep1", 1, 0.3), ("rep1", 3, 0.3), ("rep2", 2, 0.3), ("rep2", 2, 0.7), ("rep2", 4, 1.0), ("rep3", 2, 0.1), ("rep3", 2, 0.3), ("rep3", 3, 0.2), ("rep3", 1, 1.0), ("line3", 1, 0.7), ("line3", 3, 0.2), ("free3", 2, 0.3), ("free3", 1, 1.0),
    ("full4", 2, 0.1), ("full4", 2, 0.2), ("full4", 1, 0.7), ("tern2", 2, 0.1), ("tern2", 2, 0.5), ("tern3", 2, 0.05), ("tern3", 1, 0.5), ("quat2", 2, 0.2), ("quat2", 1, 0.7), ("nokernel", 2, 0.5),
]
PLAN_CSS = [
    ("one2", 1, 0.3, ("none", "x", "y", "z", "xz", "mix")), ("one2", 2, 0.3, ("none", "xz")), ("one2", 2, 0.5, ("none", "mix")), ("flip3", 1, 0.2, ("none", "mix")), ("flip3", 2, 0.3, ("none", "x", "z", "mix")), ("phase3", 2, 0.3, ("none", "mix")),
    ("phase3", 2, 0.1, ("mix",)), ("c4", 1, 0.3, ("none", "mix")), ("c4", 2, 0.2, ("none", "x", "y", "mix")), ("sub3", 2, 0.3, ("none", "mix")), ("sub3", 2, 0.1, ("none",)), ("tern2", 1, 0.3, ("none", "mix", "y")), ("tern2", 1, 0.7, ("x", "z")), ("tern3", 1, 0.3, ("none", "mix")), ("tern3", 1, 0.5, ("x", "z")),
]
PLAN_CSS_LIBRARY = [
    ("one2", "default", 1, 0.7), ("flip3", "lookup", 2, 0.3), ("phase3", "default", 2, 0.3), ("c4", "lookup", 2, 0.2), ("c4", "default", 1, 0.3), ("bs4", "lookup", 2, 0.2), ("bs4", "default", 1, 0.3), ("sub3", "lookup", 1, 0.3), ("tern2", "ilp", 1, 0.3), ("tern3", "default", 1, 0.3), ("tern3", "guf", 1, 0.3), ("tern3", "ilp", 1, 0.3),
]


def unit_classical(ctx, index, extra=0):
    name, budget, rate = PLAN[index]
    for worst in (False, True):
        ctx.case("classical", {"name": name, "budget": budget + extra, "max_rate": rate, "worst": worst})


def unit_classical_library(ctx):
    for name, args, budget, rate in (("rep2", {"with_lookup": True, "max_weight": 4}, 2, 0.7), ("rep3", {}, 2, 0.3), ("rep3", {"with_MWPM": True}, 2, 0.3), ("rep3", {"with_ILP": True}, 1, 0.3), ("full4", {"with_GUF": True}, 2, 0.2), ("tern2", {}, 2, 0.5), ("tern3", {"with_ILP": True}, 1, 0.3), ("line3", {"with_lookup": True, "max_weight": 4}, 3, 0.2)):
        ctx.case("classical_library", {"name": name, "args": args, "budget": budget, "max_rate": rate})


def unit_css(ctx, index, bias, extra=0):
    name, budget, rate, _ = PLAN_CSS[index]
    for worst in (False, True):
        ctx.case("css", {"name": name, "budget": budget + extra, "max_rate": rate, "worst": worst, "bias": bias})


def unit_css_library(ctx, index):
    name, args, budget, rate = PLAN_CSS_LIBRARY[index]
    for bias in ("none", "mix"):
        ctx.case("css_library", {"name": name, "args": args, "budget": budget, "max_rate": rate, "bias": bias})


def unit_sweep(ctx, ns, step):
    for n in ns:
        ctx.case("sweep", {"n": n, "budgets": [b for b in range(1, 61) if b <= 20 or b % step == 0], "rates": [0.0, 0.001, 0.05, 0.2, 0.3, 0.5, 0.77, 1.0]})


UNITS = {"classical": unit_classical, "classical_library": unit_classical_library, "css": unit_css, "css_library": unit_css_library, "sweep": unit_sweep}


def units(tier):
    th = tier == "thorough"
    out = []
    for i in range(len(PLAN_CSS)):
        for bias in PLAN_CSS[i][3]:
            out.append(("css", {"index": i, "bias": bias}))
    for i in range(len(PLAN)):
        out.append(("classical", {"index": i}))
    out.append(("classical_library", {}))
    for i in range(len(PLAN_CSS_LIBRARY)):
        out.append(("css_library", {"index": i}))
    for ns in ([1, 2, 3, 4], [5, 6, 7], [8, 9, 10], [11, 12], [20], [40]):
        out.append(("sweep", {"ns": ns, "step": 1 if th else 3}))
    if th:
        for i, (name, budget, rate) in enumerate(PLAN):
            if len(CLASSICAL[name][1][0]) <= 3:
                out.append(("classical", {"index": i, "extra": 1}))
        for i, (name, budget, rate, biases) in enumerate(PLAN_CSS):
            if len(CSS[name][1][0]) <= 2 and budget == 1:
                out.append(("css", {"index": i, "bias": biases[0], "extra": 1}))
    return out
