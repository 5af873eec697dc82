"""C05: distance bounds never fall below the true distance, whatever the randomness."""

import itertools

import galois
import numpy as np
from qldpc import codes
from qldpc.objects import Pauli

from mc import qcommon, ref, rng
from mc.core import require
from mc.ref import gf, hamming, presentations, subspaces, tup, vec

PROPERTY = "C05"
ASSUMPTIONS = [
    "galois array primitives are exact",
    "all random draws of the code under test go through galois.FieldArray.Random, numpy.random or random, which the explorer replaces by enumerated choices",
    "runs that keep rejecting random draws are cut after a bounded number of draws (counted as cut, not decided)",
]
BOUNDS = {
    "quick": "bounds of several trials with every sequence of decoder answers and every cutoff: all classical codes n<=3 (q=2), n<=2 (q=3,4), CSS n<=3; every word the estimator can draw for all cyclic classical codes n<=7 and 9 named CSS codes n<=16; classical: all codes n<=3 (q=2), n<=2 (q=3,4), every vector, every random word, decoders BP+OSD / GUF / ILP / lookup / an adversarial decoder answering with every possible vector, <=2 trials, every cutoff; CSS stabilizer and subsystem: all pairs n<=3 (q=2), n=2 (q=3), n=4 by stride, same decoders; every outcome of get_random_logical_op; reduce_logical_op(s) with every decoder",
    "thorough": "classical n<=4 (q=2), n<=3 (q=3); CSS n=4 (q=2) stride 3, n=3 (q=3) by stride; deeper rejection loops",
}


class Adversary:
    """A decoder that may return any vector at all (the explorer chooses which)."""

    def __init__(self, q, n):
        self.field, self.n = galois.GF(q), n

    def decode(self, syndrome):
        return np.array(self.field.Random(self.n), dtype=int)


def warmup():
    for q in (2, 3, 4):
        c = codes.ClassicalCode([[1, 0, 1], [1, 1, 0]], q)
        c.get_distance_bound(vector=[1, 0, 0])
        codes.CSSCode([[1, 1, 0]], [[0, 0, 1]], q).get_distance_bound()


def decoder_sets(q, n):
    out = [("default", {}), ("GUF", {"with_GUF": True}), ("lookup1", {"with_lookup": True, "max_weight": 1}),
           ("lookup", {"with_lookup": True, "max_weight": n})]
    if q == 2:
        # (BP+LSD and BeliefFind are left out: the ldpc package itself hangs or aborts when no
        #  solution exists, which the rejection loops of the library can ask for)
        out += [("ILP", {"with_ILP": True})]
    return out


def refuses(run):
    """An integer program without a solution is refused by its solver; no bound is returned."""

    def wrapped():
        try:
            return run()
        except ValueError as exc:
            if "Optimal solution to integer linear program" in str(exc):
                return None
            raise

    return wrapped


def explore_bounds(ctx, run, lo, hi, what, key, **limits):
    stats = rng.Stats()
    for got, script in rng.explore(refuses(run), stats=stats, **limits):
        if got is None:
            continue
        ok = isinstance(got, (int, np.integer)) and lo <= got <= hi
        require(ok, lambda: f"{what}: bound {got}, true distance {lo}, length {hi}, choices {script.log}")
        ctx.trans()
        ctx.state((key, tuple(script.trace)))
    return stats


def case_classical(ctx, q, h, decoder, adversarial_draws):
    f = gf(q)
    h = tup(h)
    n = len(h[0])
    words = f.span(f.null_space(h, n), n) if f.null_space(h, n) else [(0,) * n]
    want = min((hamming(w) for w in words if any(w)), default=None)
    make = lambda: codes.ClassicalCode([list(r) for r in h], q)
    if decoder == "adversary":
        args, draws = {"static_decoder": Adversary(q, n)}, adversarial_draws
    else:
        args, draws = dict(decoder_sets(q, n))[decoder], 2
    key = (q, h, decoder)
    if want is None:
        code = make()
        require(np.isnan(code.get_distance_bound(**args)) and np.isnan(code.get_distance(bound=3)), "undefined")
    else:
        code = make()
        stats = explore_bounds(ctx, lambda: code.get_one_distance_bound(**args), want, n, "one bound", key, max_draws=draws)
        require(decoder != "lookup" or stats.paths > stats.cut, "no outcome of the random choices gives a bound")
        if decoder != "adversary":
            plan = [(0, None), (1, None), (2, None)] + [(2, c) for c in range(n + 1)]
            for trials, cutoff in plan if q**n < 10 else [(0, None), (1, None), (1, 1)]:
                run = lambda: code.get_distance_bound(trials, cutoff=cutoff, **args)
                explore_bounds(ctx, run, want, n, f"{trials} trials, cutoff {cutoff}", (key, trials, cutoff), max_draws=2)
            explore_bounds(ctx, lambda: code.get_distance(bound=True, **args), want, n, "get_distance", (key, 0), max_draws=draws)
            run = lambda: code.get_code_params(bound=1, **args)[2]
            explore_bounds(ctx, run, want, n, "parameters", (key, 1), max_draws=draws)
        require(code.get_distance_if_known() is None, "a bound was stored as the exact distance")
        require(code.get_distance() == want, "exact distance after bounding")
        require(code.get_distance_bound(**args) == want, "known exact distance is not used")
    code = make()
    for v in f.all_vectors(n):
        want_v = min(sum(a != b for a, b in zip(w, v)) for w in words)
        array = np.array(v)
        run = lambda: code.get_one_distance_bound(vector=array, **args)
        explore_bounds(ctx, run, want_v, n, f"vector {v}", (key, v), max_draws=3)
        run = lambda: code.get_distance(bound=1, vector=list(v), **args)
        explore_bounds(ctx, run, want_v, n, f"distance to {v}", (key, v, 1), max_draws=3)
        require(vec(array) == v, "the vector was changed")


def build(q, hx, hz):
    return codes.CSSCode(np.array(hx), np.array(hz), q)


def case_css(ctx, q, hx, hz, decoder, adversarial_draws):
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    code = build(q, hx, hz)
    if decoder == "adversary":
        args, draws = {"static_decoder": Adversary(q, n)}, adversarial_draws
    else:
        args, draws = dict(decoder_sets(q, n))[decoder], 1 if q**n > 8 else 2
    key = (q, hx, hz, decoder)
    P = {"X": Pauli.X, "Z": Pauli.Z, None: None}
    if not code.dimension:
        for p in P.values():
            require(np.isnan(code.get_distance_bound(pauli=p, **args)), "undefined distance")
        return
    want = {p: ref.css_distance(f, hx, hz, n, p) for p in "XZ"}
    want[None] = min(want.values())
    for p in P:
        run = lambda: code.get_one_distance_bound(P[p], **args)
        stats = explore_bounds(ctx, run, want[p], n, f"{p} bound", (key, p), max_draws=draws + (p is None and n > 1))
        require(decoder != "lookup" or stats.paths > stats.cut, "no outcome of the random choices gives a bound")
        if decoder != "adversary":
            for cutoff in (None, 1, n) if q == 2 and n < 4 else (1,):
                run = lambda: code.get_distance_bound(1, P[p], cutoff=cutoff, **args)
                explore_bounds(ctx, run, want[p], n, f"{p} cutoff {cutoff}", (key, p, cutoff), max_draws=1 + (p is None))
            run = lambda: code.get_distance(P[p], bound=2, **args)
            explore_bounds(ctx, run, want[p], n, f"{p} get_distance", (key, p, "d"), max_draws=2 + (p is None) * 2, max_paths=64)
    require(all(code.get_distance_if_known(p) is None for p in P.values()), "a bound was stored as exact")
    require(code.get_distance() == want[None], "exact distance after bounding")


def case_random_logical(ctx, q, hx, hz):
    """Every outcome of drawing a random logical operator."""
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    zero = (0,) * n
    code = build(q, hx, hz)
    rows = tuple(r + zero for r in hx) + tuple(zero + r for r in hz)
    G, S, k, g = qcommon.facts(q, rows, 2 * n)
    for p, mine, other in ((Pauli.X, hx, hz), (Pauli.Z, hz, hx)):
        stabs = set(f.span(ref.css_center(f, f.rref(mine)[0], f.rref(other)[0]), n))
        logical = set(f.span(f.null_space(other, n), n)) if f.null_space(other, n) else {zero}
        for nontrivial in (False, True):
            if nontrivial and not k:
                continue
            seen = set()
            stats = rng.Stats()
            run = lambda: code.get_random_logical_op(p, ensure_nontrivial=nontrivial)
            for op, script in rng.explore(run, max_draws=1, stats=stats):
                require(type(op) is galois.GF(q) and op.shape == (n,), "type of the operator")
                op = vec(op)
                require(op in logical, f"{op} does not commute with the checks")
                require(not nontrivial or op not in stabs, f"{op} is trivial")
                seen.add(op)
                ctx.trans()
            expected = logical - stabs if nontrivial else logical
            require(seen == expected, f"drew {sorted(seen)} instead of {sorted(expected)}")
        for seed in range(6):
            if k:
                one = vec(code.get_random_logical_op(p, ensure_nontrivial=True, seed=seed))
                require(one in logical and one not in stabs, f"seed {seed}: {one}")
                require(vec(code.get_random_logical_op(p, ensure_nontrivial=True, seed=seed)) == one, "seed")
                ctx.trans(2)


def case_reduce(ctx, q, hx, hz, decoder, draws):
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    zero = (0,) * n
    rows = tuple(r + zero for r in hx) + tuple(zero + r for r in hz)
    G, S, k, g = qcommon.facts(q, rows, 2 * n)
    args = {"static_decoder": Adversary(q, n)} if decoder == "adversary" else dict(decoder_sets(q, n))[decoder]
    base = tup(build(q, hx, hz).get_logical_ops())
    # start from the library's logical operators and from the heaviest equivalent ones
    span = f.span(S, 2 * n) if S else [(0,) * (2 * n)]
    css = lambda v: not any(v[:n]) or not any(v[n:])
    heavy = [max((w for s in span if css(w := f.vadd(v, s)) and any(w[:n]) == any(v[:n])), key=ref.sympl_weight) for v in base]
    for start in {base, tuple(heavy)}:
        jobs = [(p, i) for p in (Pauli.X, Pauli.Z) for i in range(k)]
        jobs += [(p, None) for p in (Pauli.X, Pauli.Z, None)] if decoder != "adversary" else []
        for p, i in jobs:
            def run():
                code = build(q, hx, hz)
                code.set_logical_ops(np.array(start).reshape(-1, 2 * n))
                if i is None:
                    code.reduce_logical_ops(p, **args)
                else:
                    code.reduce_logical_op(p, i, **args)
                return tup(code.get_logical_ops()), code.dimension
            for (after, dim), script in rng.explore(run, max_draws=draws):
                require(dim == k and len(after) == 2 * k, "dimension changed")
                for j, (old, new) in enumerate(zip(start, after)):
                    half = slice(0, n) if j < k else slice(n, 2 * n)
                    what = lambda: f"{p} {i}: operator {j} {old} -> {new}, choices {script.log}"
                    require(ref.sympl_weight(new) <= ref.sympl_weight(old), lambda: "weight raised: " + what())
                    require(f.in_span(S, f.vsub(new, old)), lambda: "class changed: " + what())
                    require(css(new), lambda: "mixed type: " + what())
                    touched = (p is None or (p is Pauli.X) == (j < k)) and (i is None or i == j % k)
                    require(touched or old == new, lambda: "other operator changed: " + what())
                    if decoder == "ILP" and touched:
                        best = min(ref.sympl_weight(w) for s in span if css(w := f.vadd(old, s)))
                        require(ref.sympl_weight(new) == best, lambda: "not of minimum weight: " + what())
                qcommon.check_logicals(f, after, G, S, k)
                ctx.trans()
                ctx.state((q, hx, hz, decoder, start, str(p), i, tuple(script.trace)))


NAMED = {
    "steane": lambda: codes.SteaneCode(),
    "surface3": lambda: codes.SurfaceCode(3),
    "surface4": lambda: codes.SurfaceCode(4, rotated=False),
    "toric4": lambda: codes.ToricCode(4, rotated=True),
    "toric2": lambda: codes.ToricCode(2, rotated=False),
    "hgp": lambda: codes.HGPCode(codes.RingCode(3), codes.RepetitionCode(3)),
    "hgp_ring": lambda: codes.HGPCode(codes.RingCode(3)),
    "shp": lambda: codes.SHPCode(codes.HammingCode(3), codes.RepetitionCode(3)),
    "shyps": lambda: codes.SHYPSCode(3),
    "bacon": lambda: codes.BaconShorCode(3),
    "iceberg": lambda: codes.IcebergCode(3),
    "hgp3": lambda: codes.HGPCode(codes.RepetitionCode(2, 3), codes.RingCode(2, 3)),
    "surface3q3": lambda: codes.SurfaceCode(2, rotated=False, field=3),
}


def case_reduce_named(ctx, name, decoder):
    """Reducing the logical operators of larger codes, repeatedly, in every order of sectors."""
    for order in ([None, None], [Pauli.X, Pauli.Z, Pauli.X], [Pauli.Z, None]):
        code = NAMED[name]()
        q, n = code.field.order, len(code)
        f = gf(q)
        args = {"default": {}, "GUF": {"with_GUF": True}, "ILP": {"with_ILP": True}}[decoder]
        S = f.rref(tup(code.get_stabilizer_ops()))[0]
        before = tup(code.get_logical_ops())
        k = len(before) // 2
        for p in order:
            code.reduce_logical_ops(p, **args)
            after = tup(code.get_logical_ops())
            require(len(after) == 2 * k == 2 * code.dimension, "number of logical operators")
            for j, (old, new) in enumerate(zip(before, after)):
                require(hamming(new) <= hamming(old), f"{name}: weight raised: {old} -> {new}")
                require(old == new or f.in_span(S, f.vsub(new, old)), f"class changed: {old} -> {new}")
            err = ref.check_symplectic_pairs(f, after)
            require(err is None, f"pairing: {err}")
            before = after
            ctx.trans()


class Listener:
    """Any solution or no solution (the explorer chooses); remembers the weights of its solutions."""

    def __init__(self, q, matrix, weights):
        self.f, self.field, self.matrix, self.weights = gf(q), galois.GF(q), tup(matrix), weights

    def decode(self, syndrome):
        want, n = vec(syndrome), len(self.matrix[0])
        good = [v for v in self.f.all_vectors(n) if tuple(self.f.dot(r, v) for r in self.matrix) == want]
        # one solution of every weight, and a wrong answer
        answers = list({hamming(v): v for v in good}.values())
        bad = next((v for v in self.f.all_vectors(n) if v not in set(good)), None)
        if bad is not None:
            answers.append(bad)
        got = answers[int(np.random.randint(len(answers)))]
        if got != bad:
            self.weights.append(hamming(got))
        return np.array(got, dtype=int)


def check_trials(got, weights, trials, cutoff, n, what):
    require(isinstance(got, (int, np.integer)), lambda: f"{what}: bound {got!r}")
    require(got == min([n, *weights]), lambda: f"{what}: bound {got}, weights found {weights}, length {n}")
    require(len(weights) <= trials, lambda: f"{what}: {len(weights)} words found in {trials} trials")
    stopped = bool(cutoff) and got <= cutoff
    require(len(weights) == trials or stopped, lambda: f"{what}: stopped after {len(weights)} of {trials} trials at {got}")


def case_trials(ctx, q, n, hx, hz=None):
    """The bound of several trials is the best of the single bounds, up to the cutoff."""
    if hz is None:
        code = codes.ClassicalCode([list(r) for r in hx], q)
    else:
        code = build(q, hx, hz)
    if not code.dimension:
        return
    sectors = (None,) if hz is None else (Pauli.X, Pauli.Z, None)
    plan = [(0, None), (1, None), (2, None), (2, 0)] + [(2, c) for c in range(1, n + 1)] + [(3, c) for c in range(1, n)]
    for (trials, cutoff), p in itertools.product(plan, sectors):
        either = hz is not None and p is None
        if either and trials > 2 or trials > 2 and q**n > 4:
            continue

        def run():
            weights = []
            make = lambda matrix: Listener(q, matrix, weights)
            args = () if hz is None else (p,)
            return code.get_distance_bound(trials, *args, cutoff=cutoff, decoder_constructor=make), weights

        for out, script in rng.explore(run, max_draws=(2 + either) * trials, max_paths=600):
            check_trials(*out, trials, cutoff, n, f"{trials} trials, cutoff {cutoff}, sector {p}, {script.log}")
            ctx.trans()
            ctx.state((q, hx, hz, trials, cutoff, str(p), tuple(script.trace)))


def case_trials_general(ctx, n, trials):
    """Codes whose class supplies the single bound: every sequence of single bounds."""

    class Scripted(codes.QuditCode):
        def get_one_distance_bound(self, **decoder_args):
            self.calls.append(next(self.script))
            return self.calls[-1]

    checks = [[0] * (2 * n)]
    checks[0][0] = 1
    for script in itertools.product(range(1, n + 1), repeat=trials):
        for cutoff in (None, 0, *range(1, n + 1)):
            code = Scripted(checks)
            code.calls, code.script = [], iter(script)
            got = code.get_distance_bound(trials, cutoff=cutoff)
            check_trials(got, code.calls, trials, cutoff, n, f"{script}, cutoff {cutoff}")
            if trials and cutoff is None:
                code = Scripted(checks)
                code.calls, code.script = [], iter(script)
                check_trials(code.get_distance(bound=trials), code.calls, trials, None, n, f"get_distance, {script}")
            ctx.trans()


def case_larger_classical(ctx, h, decoder):
    """Longer codes: every random word with a decoder of the library, and every vector to a code."""
    f = gf(2)
    h = tup(h)
    n = len(h[0])
    basis = f.null_space(h, n)
    if not basis:
        return
    words = [w for w in f.span(basis, n) if any(w)]
    want = min(map(hamming, words))
    code = codes.ClassicalCode([list(r) for r in h])
    args = dict(decoder_sets(2, n))[decoder]
    explore_bounds(ctx, lambda: code.get_one_distance_bound(**args), want, n, "one bound", (h, decoder), max_draws=1)
    for i, v in enumerate(f.all_vectors(n)):
        if i % 3 == 0:
            want_v = min([hamming(v)] + [hamming(f.vsub(v, w)) for w in words])
            got = code.get_one_distance_bound(vector=list(v), **args)
            require(want_v <= got <= n, f"vector {v}: bound {got}, true distance {want_v}")
            ctx.trans()


def case_larger_css(ctx, name, decoder):
    """Every nontrivial logical operator the estimator can draw, on larger codes."""
    code = NAMED[name]()
    q, n = code.field.order, len(code)
    f = gf(q)
    hx, hz = tup(code.matrix_x), tup(code.matrix_z)
    args = {"default": {}, "GUF": {"with_GUF": True}, "ILP": {"with_ILP": True}}[decoder]
    for p, name_p in ((Pauli.X, "X"), (Pauli.Z, "Z")):
        want = ref.css_distance(f, hx, hz, n, name_p)
        run = lambda: code.get_one_distance_bound(p, **args)
        explore_bounds(ctx, run, want, n, f"{name} {p} bound", (name, decoder, name_p), max_draws=1, max_paths=600)


CASE_TIMEOUT = 100
CASES = {"classical": case_classical, "css": case_css, "random_logical": case_random_logical, "reduce": case_reduce, "reduce_named": case_reduce_named, "trials": case_trials, "trials_general": case_trials_general, "larger_classical": case_larger_classical, "larger_css": case_larger_css}


def unit_classical(ctx, q, n, decoder, adversarial_draws, part=0, parts=1):
    f = gf(q)
    for i, basis in enumerate(subspaces(f, n)):
        if i % parts == part:
            pres = presentations(f, basis, n)
            h = pres[i % len(pres)]
            ctx.case("classical", {"q": q, "h": h, "decoder": decoder, "adversarial_draws": adversarial_draws})


def css_codes(q, n, stride=1, part=0, parts=1):
    f = gf(q)
    subs = list(subspaces(f, n))
    for i, (sx, sz) in enumerate(itertools.product(subs, repeat=2)):
        if i % stride == 0 and (i // stride) % parts == part:
            px, pz = presentations(f, sx, n), presentations(f, sz, n)
            yield px[i % len(px)], pz[(i + 1) % len(pz)]


def unit_css(ctx, q, n, decoder, adversarial_draws, stride=1, part=0, parts=1):
    for hx, hz in css_codes(q, n, stride, part, parts):
        ctx.case("css", {"q": q, "hx": hx, "hz": hz, "decoder": decoder, "adversarial_draws": adversarial_draws})


def unit_random_logical(ctx, q, n, stride=1, part=0, parts=1):
    for hx, hz in css_codes(q, n, stride, part, parts):
        ctx.case("random_logical", {"q": q, "hx": hx, "hz": hz})


def unit_reduce(ctx, q, n, decoder, draws, stride=1, part=0, parts=1):
    for hx, hz in css_codes(q, n, stride, part, parts):
        ctx.case("reduce", {"q": q, "hx": hx, "hz": hz, "decoder": decoder, "draws": draws})


def unit_reduce_named(ctx, name):
    for decoder in ("default", "GUF", "ILP"):
        if decoder == "ILP" and (NAMED[name]().field.order != 2 or len(NAMED[name]()) > 9):
            continue
        ctx.case("reduce_named", {"name": name, "decoder": decoder})


def unit_trials(ctx, q, n, part=0, parts=1):
    f = gf(q)
    for i, basis in enumerate(subspaces(f, n)):
        if i % parts == part:
            pres = presentations(f, basis, n)
            ctx.case("trials", {"q": q, "n": n, "hx": pres[i % len(pres)]})


def unit_trials_css(ctx, q, n, stride=1, part=0, parts=1):
    for hx, hz in css_codes(q, n, stride, part, parts):
        ctx.case("trials", {"q": q, "n": n, "hx": hx, "hz": hz})


def unit_trials_general(ctx, n):
    for trials in range(4):
        ctx.case("trials_general", {"n": n, "trials": trials})


def unit_larger_classical(ctx, n, part=0, parts=1):
    for i, h in enumerate(ref.cyclic_rows(2, n)):
        if i % parts == part:
            for decoder in ("default", "GUF", "lookup", "ILP"):
                if decoder != "ILP" or i % 4 == 1:
                    ctx.case("larger_classical", {"h": h, "decoder": decoder})


def unit_larger_css(ctx, name):
    for decoder in ("default", "GUF", "ILP"):
        code = NAMED[name]()
        if decoder == "ILP" and (code.field.order != 2 or len(code) > 9):
            continue
        if code.field.order**len(code) <= 2**16:
            ctx.case("larger_css", {"name": name, "decoder": decoder})


UNITS = {"trials": unit_trials, "trials_css": unit_trials_css, "trials_general": unit_trials_general, "larger_classical": unit_larger_classical, "larger_css": unit_larger_css, "reduce_named": unit_reduce_named, "classical": unit_classical, "css": unit_css, "random_logical": unit_random_logical, "reduce": unit_reduce}


def units(tier):
    deep = tier == "thorough"
    out = [("reduce_named", {"name": name}) for name in NAMED]
    out += [("larger_css", {"name": name}) for name in NAMED]
    out += [("trials_general", {"n": n}) for n in (2, 3, 4)]

    def add(name, parts, **kw):
        for part in range(parts):
            out.append((name, {**kw, "part": part, "parts": parts}))

    for q, n in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 2)):
        add("trials", 2 if n == 3 else 1, q=q, n=n)
    for q, n, stride in ((2, 2, 1), (2, 3, 1 if deep else 11), (3, 2, 1 if deep else 5)):
        add("trials_css", 4 if n == 3 else 2, q=q, n=n, stride=stride)
    for n in (4, 5, 6, 7, 8, 9) if deep else (4, 5, 6, 7):
        add("larger_classical", 2 if n < 6 else 4, n=n)
    for q, sizes in ((2, (1, 2, 3, 4) if deep else (1, 2, 3)), (3, (1, 2, 3) if deep else (1, 2)), (4, (1, 2))):
        for n in sizes:
            for name in [d for d, _ in decoder_sets(q, n)] + ["adversary"]:
                draws = 2 if q**n > 8 else 4
                add("classical", 4 if n >= 3 else 1, q=q, n=n, decoder=name, adversarial_draws=draws)
    for q, n, stride, parts in ((2, 1, 1, 1), (3, 1, 1, 1), (2, 2, 1, 1), (2, 3, 1, 2), (3, 2, 1, 1), (2, 4, 3 if deep else 41, 4), (3, 3, 7 if deep else 97, 2), (4, 2, 1 if deep else 6, 1)):
        add("random_logical", parts, q=q, n=n, stride=stride)
        for name in [d for d, _ in decoder_sets(q, n)] + ["adversary"]:
            if name == "adversary" and q**n > 9 and not deep:
                continue
            thin = {"ILP": 23, "GUF": 5, "lookup": 7, "lookup1": 5, "default": 3}.get(name, 1)
            s = stride * (thin if n > 2 and not deep else 1)
            add("css", parts, q=q, n=n, decoder=name, adversarial_draws=4 if n * q == 2 else 3 if q**n == 4 and deep else 2, stride=s)
            if name != "lookup1":
                add("reduce", parts, q=q, n=n, decoder=name, draws=2, stride=s * (3 if name == "adversary" and n > 2 and not deep else 1))
    return out
