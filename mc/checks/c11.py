"""C11: decoders return a correction that reproduces the syndrome."""

import functools
import itertools
import warnings

import cvxpy
import galois
import ldpc
import numpy as np
import pymatching
from qldpc import codes, decoders
from qldpc.math import symplectic_conjugate

from mc import ref
from mc.core import require
from mc.ref import gf, hamming, tup, vec

PROPERTY = "C11"
ASSUMPTIONS = [
    "galois array primitives, ldpc and pymatching are trusted as third-party packages, BP+LSD and belief-find only as far as being the decoder selected",
    "reference coset tables by explicit enumeration of all errors",
]
BOUNDS = {
    "quick": "every syndrome of: lookup and union-find with every maximal weight on all matrices (GF(2) up to 3x3 and 2x4, GF(3) up to 2x3 by orbits of row order, GF(4),GF(5) up to 2x2) and all symplectic matrices (GF(2) n<=2, r<=2; GF(3) n=1, r<=2; listed codes n=4,5); integer programming on GF(2) up to 2x3, GF(3) up to 2x2 and 1x4, GF(5) 1x3, GF(7) 1x2; matching on all graphs with <=4 checks and <=4 edges; all histories of 2 decode calls on listed decoders; all combinations of named decoders and options; integer programming with checks of weight up to 9 and errors up to that weight; lookup, union-find and matching on cyclic check matrices n=5..7 (q=2), n=4 (q=3), n=3 (q=4,5), symplectic n=3,4 (q=2), n=2 (q=3) by stride",
    "thorough": "larger matrices: GF(2) 3x4 and 4x3, GF(3) 2x3 integer programming, GF(5) 2x2; matching <=4 checks, 5 edges; histories of 3 calls",
}
CASE_TIMEOUT = 200


def warmup():
    for q in (2, 3, 4, 5):
        decoders.decode(galois.GF(q)([[1, 1]]), np.array([1]), with_GUF=True)
        codes.ClassicalCode(galois.GF(q)([[1, 1]])).get_distance()
        codes.QuditCode(galois.GF(q)([[1, 1, 0, 0]])).get_distance()


def syndromes(q, rows, width, symplectic):
    """{syndrome: minimum weight of an error with that syndrome}, by enumeration of all errors."""
    f = gf(q)
    n = width // 2
    best = {}
    for e in f.all_vectors(width):
        s = tuple(f.sympl(r, e) for r in rows) if symplectic else f.matvec(rows, e)
        w = ref.sympl_weight(e) if symplectic else hamming(e)
        if w < best.get(s, width + 1):
            best[s] = w
    return best


def syndrome_of(q, rows, e, symplectic):
    f = gf(q)
    return tuple(f.sympl(r, e) for r in rows) if symplectic else f.matvec(rows, e)


def checked_decode(q, rows, decoder, s, symplectic=False, arrays=(), **kwargs):
    """Decode; the correction must be a vector of field elements, and no argument may change."""
    arg = np.array(s, dtype=int)
    before = [a.copy() for a in arrays]
    out = decoder.decode(arg, **kwargs)
    require(vec(arg) == tuple(s), "the syndrome was modified")
    for a, b in zip(arrays, before):
        require(np.array_equal(a, b), "the matrix was modified")
    require(isinstance(out, np.ndarray) and out.shape == (len(rows[0]),), f"correction {out!r}")
    e = vec(out)
    require(all(0 <= x < q for x in e) and np.array_equal(e, out), f"correction {out!r}")
    return e


def matrix_of(q, rows, form):
    arr = np.array(rows, dtype=int)
    return arr if form == "plain" else galois.GF(q)(arr)


# -- cases ------------------------------------------------------------------------------------------


def case_lookup(ctx, q, rows, symplectic=False):
    rows = tup(rows)
    width = len(rows[0])
    best = syndromes(q, rows, width, symplectic)
    n = width // 2 if symplectic else width
    weight = ref.sympl_weight if symplectic else hamming
    for form in ("field", "plain") if q == 2 else ("field",):
        for max_weight in range(n + 1):
            matrix = matrix_of(q, rows, form)
            kwargs = {"symplectic": True} if symplectic else {}
            dec = decoders.get_decoder(matrix, with_lookup=True, max_weight=max_weight, **kwargs)
            require(type(dec) is decoders.LookupDecoder, "not a lookup decoder")
            for s, w in best.items():
                e = checked_decode(q, rows, dec, s, symplectic, [matrix])
                if w <= max_weight:
                    require(
                        syndrome_of(q, rows, e, symplectic) == s,
                        lambda: f"max_weight={max_weight}: {e} has another syndrome than {s}",
                    )
                    require(weight(e) == w, lambda: f"{e} for {s} does not have the minimum weight {w}")
                ctx.trans()


def case_lookup_default(ctx, q, rows, symplectic=False):
    """Without a maximum weight: exactly half of the distance of the code."""
    rows = tup(rows)
    f = gf(q)
    width = len(rows[0])
    if symplectic:
        S = f.center(rows, width)
        k = width // 2 - len(S) - (f.rank(rows) - len(S)) // 2
        distance = ref.quantum_distance(f, S, width, f.rref(rows)[0]) if k else None
    else:
        null = f.null_space(rows, width)
        distance = ref.min_weight_classical(f, null) if null else None
    radius = (distance - 1) // 2 if distance else 0
    best = syndromes(q, rows, width, symplectic)
    weight = ref.sympl_weight if symplectic else hamming
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        dec = decoders.LookupDecoder(matrix_of(q, rows, "field"), symplectic=symplectic)
    require(any("max_weight" in str(w.message) for w in caught), "no warning")
    for s, w in best.items():
        e = checked_decode(q, rows, dec, s, symplectic)
        if w <= radius:
            require(syndrome_of(q, rows, e, symplectic) == s and weight(e) == w, f"{s} is decoded to {e}")
        else:
            require(not any(e), f"{s} beyond the radius {radius} is decoded to {e}")
        ctx.trans()


def case_guf(ctx, q, rows, symplectic=False):
    rows = tup(rows)
    width = len(rows[0])
    best = syndromes(q, rows, width, symplectic)
    n = width // 2 if symplectic else width
    weight = ref.sympl_weight if symplectic else hamming
    for form in ("field", "plain") if q == 2 else ("field",):
        matrix = matrix_of(q, rows, form)
        kwargs = {"symplectic": True} if symplectic else {}
        dec = decoders.get_decoder(matrix, with_GUF=True, **kwargs)
        require(type(dec) is decoders.GUFDecoder, "not a union-find decoder")
        for s, w in best.items():
            free = checked_decode(q, rows, dec, s, symplectic, [matrix])
            require(syndrome_of(q, rows, free, symplectic) == s, lambda: f"{free} has another syndrome than {s}")
            require(any(free) or not any(s), "no correction")
            require(any(s) or not any(free), "correction of a trivial syndrome")
            for max_weight in range(n + 1):
                e = checked_decode(q, rows, dec, s, symplectic, [matrix], max_weight=max_weight)
                require(syndrome_of(q, rows, e, symplectic) == s, lambda: f"max_weight={max_weight}: {e} for {s}")
                if weight(free) <= max_weight:
                    require(weight(e) <= max_weight, "a light error was replaced by a heavy one")
                require(weight(e) <= weight(free), "asking for a light error gave a heavier one")
                if form == "field":
                    bound = decoders.get_decoder(matrix, with_GUF=True, max_weight=max_weight, **kwargs)
                    require(checked_decode(q, rows, bound, s, symplectic) == e, "default maximum weight")
                ctx.trans()


def case_ilp(ctx, q, rows):
    rows = tup(rows)
    width = len(rows[0])
    best = syndromes(q, rows, width, False)
    for form in ("field", "plain") if q == 2 else ("field",):
        matrix = matrix_of(q, rows, form)
        dec = decoders.get_decoder(matrix, with_ILP=True)
        require(type(dec) is decoders.ILPDecoder, "not an integer-programming decoder")
        for s in itertools.product(range(q), repeat=len(rows)):
            if s in best:
                e = checked_decode(q, rows, dec, s, False, [matrix])
                require(gf(q).matvec(rows, e) == s, lambda: f"{e} has another syndrome than {s}")
                require(hamming(e) == best[s], lambda: f"{e} for {s} does not have the minimum weight {best[s]}")
            else:
                try:
                    out = dec.decode(np.array(s))
                except ValueError:
                    pass
                else:
                    require(False, f"impossible syndrome {s} is decoded to {out}")
            ctx.trans()


def case_matching(ctx, rows):
    rows = tup(rows)
    best = syndromes(2, rows, len(rows[0]), False)
    for form in ("plain", "field"):
        matrix = matrix_of(2, rows, form)
        dec = decoders.get_decoder(matrix, with_MWPM=True)
        require(isinstance(dec, pymatching.Matching), "not a matching decoder")
        for s, w in best.items():
            e = checked_decode(2, rows, dec, s, False, [matrix])
            require(gf(2).matvec(rows, e) == s, lambda: f"{e} has another syndrome than {s}")
            require(hamming(e) == w, lambda: f"{e} for {s} does not have the minimum weight {w}")
            require(vec(decoders.decode(matrix, np.array(s), with_MWPM=True)) == e, "decode in one call")
            ctx.trans()


def case_default(ctx, q, rows):
    rows = tup(rows)
    best = syndromes(q, rows, len(rows[0]), False)
    for form in ("plain", "field") if q == 2 else ("field",):
        matrix = matrix_of(q, rows, form)
        dec = decoders.get_decoder(matrix)
        require(type(dec) is (ldpc.BpOsdDecoder if q == 2 else decoders.GUFDecoder), "default decoder")
        for s in best:
            e = checked_decode(q, rows, dec, s, False, [matrix])
            require(gf(q).matvec(rows, e) == s, lambda: f"{e} has another syndrome than {s}")
            ctx.trans()


def make_decoder(q, rows, kind, form="field"):
    matrix = matrix_of(q, rows, form)
    extra = {
        "lookup": {"with_lookup": True, "max_weight": 2},
        "guf": {"with_GUF": True},
        "guf2": {"with_GUF": True, "max_weight": 1},
        "ilp": {"with_ILP": True},
        "mwpm": {"with_MWPM": True},
        "default": {},
        "lookup_s": {"with_lookup": True, "max_weight": 2, "symplectic": True},
        "guf_s": {"with_GUF": True, "symplectic": True},
    }[kind]
    return decoders.get_decoder(matrix, **extra)


@functools.lru_cache(None)
def fresh_decode(q, rows, kind, s):
    """The answer of a decoder that was never used before."""
    return vec(make_decoder(q, rows, kind).decode(np.array(s, dtype=int)))


def case_history(ctx, q, rows, kind, sequence, spoil):
    """The outcome of a decode call does not depend on earlier calls (or on what became of their results)."""
    rows = tup(rows)
    dec = make_decoder(q, rows, kind)
    for s in sequence:
        arg = np.array(s, dtype=int)
        out = dec.decode(arg)
        fresh = fresh_decode(q, rows, kind, tuple(s))
        require(vec(out) == fresh, f"after {sequence}: {vec(out)} instead of {fresh} for {s}")
        require(vec(arg) == tuple(s), "syndrome modified")
        if spoil:
            out += 1
            arg += 1
        ctx.trans()


def case_block(ctx, q, rows, kind, blocks):
    rows = tup(rows)
    dec = make_decoder(q, rows, kind)
    s = np.array([x for b in blocks for x in b], dtype=int)
    block = decoders.BlockDecoder(len(rows), dec)
    got = vec(block.decode(s))
    want = tuple(x for b in blocks for x in fresh_decode(q, rows, kind, tuple(b)))
    require(got == want, f"{got} instead of {want}")
    require(vec(s) == tuple(x for b in blocks for x in b), "syndrome modified")
    nested = decoders.BlockDecoder(len(rows) * len(blocks), block)
    require(vec(nested.decode(np.concatenate([s, s]))) == want + want, "nested blocks")
    ctx.trans(2)


def case_direct(ctx, q, rows, kind, form):
    """Words within the correction radius are mapped to the code word, all words to some code word."""
    rows = tup(rows)
    f = gf(q)
    n = len(rows[0])
    null = f.null_space(rows, n)
    words = f.span(null, n) if null else {(0,) * n}
    d = min((hamming(w) for w in words if any(w)), default=n + 1)
    matrix = matrix_of(q, rows, form)
    if kind == "lookup_all":
        dec = decoders.LookupDecoder(matrix, max_weight=n)
    else:
        dec = make_decoder(q, rows, kind, form)
    direct = decoders.DirectDecoder.from_indirect(dec, matrix)
    for v in f.all_vectors(n):
        near = min(words, key=lambda w: hamming(f.vsub(v, w)))
        dist = hamming(f.vsub(v, near))
        for as_field in (False, True) if form == "field" else (False,):
            arg = galois.GF(q)(list(v)) if as_field else np.array(v, dtype=int)
            out = direct.decode(arg)
            require(vec(arg) == v, "word modified")
            got = vec(out)
            if kind in ("lookup", "lookup_all", "ilp", "mwpm") and 2 * dist < d and (kind != "lookup" or dist <= 2):
                require(got == near, lambda: f"{v} is decoded to {got} instead of {near}")
            if kind != "lookup" or dist <= 2:
                require(got in words, lambda: f"{v} is decoded to {got}, no code word")
            ctx.trans()


class Recorder:
    """A custom decoder that records how it is built and called."""

    made = []

    def __init__(self, matrix, **kwargs):
        self.matrix, self.kwargs = matrix, kwargs
        Recorder.made.append(self)

    def decode(self, syndrome):
        self.syndrome = syndrome
        return np.arange(self.matrix.shape[1])


def case_selection(ctx, flags, form):
    """The first of the documented selectors that is set decides; others must not change that."""
    q = 2
    rows = ((1, 1, 0), (0, 1, 1))
    matrix = matrix_of(q, rows, form)
    order = {
        "with_lookup": decoders.LookupDecoder,
        "with_GUF": decoders.GUFDecoder,
        "with_ILP": decoders.ILPDecoder,
        "with_MWPM": pymatching.Matching,
        "with_BF": ldpc.BeliefFindDecoder,
        "with_BP_LSD": ldpc.bplsd_decoder.BpLsdDecoder,
        "with_BP_OSD": ldpc.BpOsdDecoder,
    }
    args = dict(flags)
    on = [name for name, value in args.items() if value]
    want = order[on[0]] if on else ldpc.BpOsdDecoder
    if want is decoders.LookupDecoder:
        args["max_weight"] = 1
    dec = decoders.get_decoder(matrix, **args)
    require(isinstance(dec, want), f"{flags} gives {type(dec)}")
    if want in (ldpc.BeliefFindDecoder, ldpc.bplsd_decoder.BpLsdDecoder, ldpc.BpOsdDecoder):
        require(np.allclose(dec.error_channel, 1e-3), "default error rate")
    ctx.trans()


def case_options(ctx, which):
    rows = ((1, 1, 0), (0, 1, 1))
    matrix = matrix_of(2, rows, "plain")
    H = decoders.get_decoder
    if which == "constructor":
        Recorder.made.clear()
        dec = H(matrix, decoder_constructor=Recorder, a=1, with_ILP=True)
        require(type(dec) is Recorder and dec.matrix is matrix and dec.kwargs == {"a": 1, "with_ILP": True}, "constructor")
        s = np.array([1, 0])
        out = decoders.decode(matrix, s, decoder_constructor=Recorder, b=2)
        require(vec(out) == (0, 1, 2) and Recorder.made[-1].syndrome is s, "decode with constructor")
        require(Recorder.made[-1].kwargs == {"b": 2} and len(Recorder.made) == 2, "arguments")
    elif which == "static":
        rec = Recorder(matrix)
        require(H(matrix, static_decoder=rec) is rec, "static decoder")
        require(vec(decoders.decode(matrix, np.array([1, 1]), static_decoder=rec)) == (0, 1, 2), "static decode")
        require(vec(rec.syndrome) == (1, 1), "syndrome")
    elif which == "function":
        func = lambda m, **kw: Recorder(m, wrapped=True, **kw)
        require(H(matrix, decoder_constructor=func, c=3).kwargs == {"wrapped": True, "c": 3}, "function")
    elif which.startswith("ldpc"):
        name = which.split(":")[1]
        for kwargs, channel in (
            ({"error_rate": 0.25}, [0.25] * 3),
            ({"error_channel": [0.1, 0.2, 0.3]}, [0.1, 0.2, 0.3]),
            ({}, [1e-3] * 3),
        ):
            dec = H(matrix, **{name: True}, max_iter=7, **kwargs)
            require(np.allclose(dec.error_channel, channel), f"{kwargs}: {dec.error_channel}")
            require(dec.max_iter == 7, "max_iter")
            ctx.trans()
        if name == "with_BP_OSD":
            dec = H(matrix, error_rate=0.1, osd_method="OSD_E", osd_order=1)
            require(dec.osd_order == 1 and str(dec.osd_method).upper() in ("OSD_E", "OSD-E", "EXHAUSTIVE"), f"{dec.osd_method}")
    elif which == "mwpm":
        dec = H(np.array([[1, 1]]), with_MWPM=True, weights=[5.0, 1.0])
        require(vec(dec.decode(np.array([1]))) == (0, 1), "weights")
        dec = H(np.array([[1, 1]]), with_MWPM=True, weights=[1.0, 5.0])
        require(vec(dec.decode(np.array([1]))) == (1, 0), "weights")
    elif which == "ilp":
        seen = []
        original = cvxpy.Problem.solve

        def solve(self, *args, **kwargs):
            seen.append((args, dict(kwargs)))
            return original(self)

        cvxpy.Problem.solve = solve
        try:
            e = decoders.decode(matrix, np.array([1, 0]), with_ILP=True, solver="X", verbose=False)
        finally:
            cvxpy.Problem.solve = original
        require(vec(e) == (1, 0, 0) and seen == [((), {"solver": "X", "verbose": False})], f"{seen}")
        for q in (4, 8, 9):
            try:
                H(galois.GF(q)([[1, 1]]), with_ILP=True)
            except ValueError:
                continue
            require(False, "integer programming over an extension field")
    elif which == "nonbinary":
        for q in (3, 4, 5):
            m = galois.GF(q)([[1, 1, 0], [0, 1, 1]])
            require(type(H(m)) is decoders.GUFDecoder, "default over other fields")
            require(type(H(m, with_GUF=False)) is decoders.GUFDecoder, "default over other fields")
            require(H(m, max_weight=2).default_max_weight == 2, "options of the default decoder")
            require(type(H(m, with_lookup=True, max_weight=1)) is decoders.LookupDecoder, "lookup")
        require(type(H(galois.GF(3)([[1, 1]]), with_ILP=True)) is decoders.ILPDecoder, "ILP")
    ctx.trans()


CASES = {
    "lookup": case_lookup,
    "lookup_default": case_lookup_default,
    "guf": case_guf,
    "ilp": case_ilp,
    "matching": case_matching,
    "default": case_default,
    "history": case_history,
    "block": case_block,
    "direct": case_direct,
    "selection": case_selection,
    "options": case_options,
}


def unit_matrices(ctx, cases, q, m, n, part, parts, symplectic=False, lo=0):
    for i, rows in enumerate(gf(q).all_matrices(m, n)):
        if i % parts != part:
            continue
        for name in cases:
            params = {"q": q, "rows": rows}
            if symplectic:
                params["symplectic"] = True
            ctx.case(name, params)


NAMED = {
    "five": (2, lambda: codes.FiveQubitCode().matrix),
    "c4": (2, lambda: codes.C4Code().matrix),
    "bacon": (2, lambda: codes.BaconShorCode(2).matrix),
    "qutrit": (3, lambda: codes.SurfaceCode(2, rotated=True, field=3).matrix[:, :]),
    "subsystem": (2, lambda: galois.GF(2)([[1, 1, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1]])),
    "three": (3, lambda: galois.GF(3)([[1, 0, 0, 0, 1, 2], [0, 1, 1, 2, 0, 0]])),
}


def unit_named(ctx, name, cases):
    q, make = NAMED[name]
    rows = tup(make())
    for case in cases:
        ctx.case(case, {"q": q, "rows": rows, "symplectic": True})


def columns(m):
    cols = [tuple(int(i in c) for i in range(m)) for w in (1, 2) for c in itertools.combinations(range(m), w)]
    return cols


def unit_cyclic(ctx, q, n, cases, part, parts, stride=1, symplectic=False):
    """Longer codes: all cyclic shifts of a seed, or a part of them."""
    for i, rows in enumerate(ref.cyclic_checks(q, n) if symplectic else ref.cyclic_rows(q, n)):
        if i % stride == 0 and (i // stride) % parts == part:
            rows = rows[: max(1, n - (i // stride) % 3)]
            for name in cases:
                if name == "matching":
                    if max(map(sum, zip(*rows))) > 2:
                        continue
                    ctx.case("matching", {"rows": rows})
                else:
                    ctx.case(name, {"q": q, "rows": rows, **({"symplectic": True} if symplectic else {})})


def unit_heavy(ctx, q, n):
    """A check that involves many bits, with heavy errors enforced by other checks."""
    rows = [tuple(int(i == j) for j in range(n)) for i in range(n)]
    if n < 7:
        ctx.case("ilp", {"q": q, "rows": [*rows, (q - 1,) * n]})
    ctx.case("ilp", {"q": q, "rows": [(1,) * n, *rows[::-1][: n - 1]]})


def unit_matching(ctx, m, n):
    for cols in itertools.product(columns(m), repeat=n):
        rows = tuple(zip(*cols))
        ctx.case("matching", {"rows": rows})


HISTORIES = [
    (2, ((1, 1, 0, 0), (0, 1, 1, 0), (0, 0, 1, 1)), ("lookup", "guf", "guf2", "ilp", "mwpm", "default")),
    (2, ((1, 1, 0, 1), (0, 0, 0, 0)), ("lookup", "guf", "guf2", "ilp", "default")),
    (3, ((1, 2, 0), (0, 1, 1)), ("lookup", "guf", "guf2", "ilp", "default")),
    (4, ((1, 2, 0), (0, 3, 1)), ("lookup", "guf", "guf2")),
    (2, ((1, 0, 0, 1), (0, 1, 1, 1)), ("lookup_s", "guf_s")),
    (3, ((1, 0, 0, 1),), ("lookup_s", "guf_s")),
]


def unit_histories(ctx, index, kind, depth):
    q, rows, _ = HISTORIES[index]
    possible = sorted(syndromes(q, rows, len(rows[0]), kind.endswith("_s")))
    for sequence in itertools.product(possible, repeat=depth):
        for spoil in (False, True):
            ctx.case("history", {"q": q, "rows": rows, "kind": kind, "sequence": sequence, "spoil": spoil})
    if not kind.endswith("_s"):
        for count in (1, 2, 3):
            for blocks in itertools.product(possible[:5], repeat=count):
                if count < 3 or kind != "ilp":
                    ctx.case("block", {"q": q, "rows": rows, "kind": kind, "blocks": blocks})


DIRECT = [
    (2, ((1, 1, 0), (0, 1, 1))),
    (2, ((1, 1, 0, 0, 0), (0, 1, 1, 0, 0), (0, 0, 1, 1, 0), (0, 0, 0, 1, 1))),
    (2, ((1, 0, 1, 0, 1, 0, 1), (0, 1, 1, 0, 0, 1, 1), (0, 0, 0, 1, 1, 1, 1))),
    (2, ((1, 1, 1, 1),)),
    (2, ((1, 0), (0, 1), (1, 1))),
    (3, ((1, 2, 0), (0, 1, 2))),
    (3, ((1, 1, 1, 0), (0, 1, 2, 1))),
    (4, ((1, 1, 0), (0, 1, 2))),
    (5, ((1, 1, 1),)),
]


def unit_direct(ctx, index):
    q, rows = DIRECT[index]
    for kind in ("lookup", "lookup_all", "guf", "ilp", "mwpm", "default"):
        if kind == "ilp" and (q == 4 or q ** len(rows[0]) > 90):
            continue
        if kind == "mwpm" and (q > 2 or any(sum(c) > 2 for c in zip(*rows))):
            continue
        for form in ("field", "plain") if q == 2 else ("field",):
            ctx.case("direct", {"q": q, "rows": rows, "kind": kind, "form": form})


def unit_selection(ctx):
    names = ["with_lookup", "with_GUF", "with_ILP", "with_MWPM", "with_BF", "with_BP_LSD", "with_BP_OSD"]
    for form in ("plain", "field"):
        for i, name in enumerate(names):
            ctx.case("selection", {"flags": {name: True}, "form": form})
            for j in range(i):  # selectors that come earlier may be switched off explicitly
                ctx.case("selection", {"flags": {names[j]: False, name: True}, "form": form})
            ctx.case("selection", {"flags": {name: False}, "form": form})
        ctx.case("selection", {"flags": {}, "form": form})
    for which in ("constructor", "static", "function", "ldpc:with_BP_OSD", "ldpc:with_BP_LSD", "ldpc:with_BF", "mwpm", "ilp", "nonbinary"):
        ctx.case("options", {"which": which})


UNITS = {
    "cyclic": unit_cyclic,
    "heavy": unit_heavy,
    "matrices": unit_matrices,
    "named": unit_named,
    "matching": unit_matching,
    "histories": unit_histories,
    "direct": unit_direct,
    "selection": unit_selection,
}


def units(tier):
    deep = tier == "thorough"
    out = [("selection", {})]

    def add(cases, q, m, n, parts=1, symplectic=False):
        for p in range(parts):
            out.append(("matrices", {"cases": cases, "q": q, "m": m, "n": n, "part": p, "parts": parts, "symplectic": symplectic}))

    table = ["lookup", "lookup_default", "guf", "default"]
    small = [(2, 1, 1), (2, 1, 2), (2, 1, 3), (2, 1, 4), (2, 2, 1), (2, 2, 2), (2, 2, 3), (2, 3, 2)]
    small += [(3, 1, 1), (3, 1, 2), (3, 1, 3), (3, 2, 2), (4, 1, 2), (4, 1, 3), (5, 1, 2), (4, 2, 1), (5, 2, 1)]
    for q, m, n in small:
        add(table, q, m, n)
    for q, m, n, parts in ((2, 3, 3, 8), (2, 2, 4, 4), (3, 2, 3, 24), (4, 2, 2, 8), (5, 2, 2, 24)):
        if deep or q < 5:
            add(table, q, m, n, parts)
    if deep:
        add(table, 2, 3, 4, 64)
        add(table, 2, 4, 3, 64)
        add(table, 7, 1, 3, 8)
    for q, m, n in ((2, 1, 1), (2, 1, 2), (2, 1, 3), (2, 2, 2), (3, 1, 1), (3, 1, 2), (3, 1, 3), (5, 1, 2), (7, 1, 2)):
        add(["ilp"], q, m, n)
    add(["ilp"], 2, 2, 3, 4)
    add(["ilp"], 3, 2, 2, 8)
    add(["ilp"], 3, 1, 4, 4)
    add(["ilp"], 5, 1, 3, 8)
    if deep:
        add(["ilp"], 3, 2, 3, 48)
        add(["ilp"], 2, 3, 3, 32)
        add(["ilp"], 2, 1, 5, 4)
        add(["ilp"], 5, 2, 2, 48)
    sym = ["lookup", "lookup_default", "guf"]
    add(sym, 2, 1, 2, 1, True)
    add(sym, 2, 2, 2, 1, True)
    add(sym, 2, 1, 4, 1, True)
    add(sym, 2, 2, 4, 8, True)
    add(sym, 3, 1, 2, 1, True)
    add(sym, 3, 2, 2, 2, True)
    add(sym, 4, 1, 2, 1, True)
    if deep:
        add(sym, 3, 1, 4, 8, True)
        add(sym, 2, 3, 4, 48, True)
        add(sym, 2, 1, 6, 8, True)
    for name in NAMED:
        for case in sym:
            out.append(("named", {"name": name, "cases": [case]}))
    for m, n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3)) + (((4, 4), (3, 5)) if deep else ()):
        out.append(("matching", {"m": m, "n": n}))
    for i, (q, rows, kinds) in enumerate(HISTORIES):
        for kind in kinds:
            out.append(("histories", {"index": i, "kind": kind, "depth": 3 if deep and kind != "ilp" else 2}))
    for i in range(len(DIRECT)):
        out.append(("direct", {"index": i}))
    cyc = [(2, 5, 1, 2), (2, 6, 1, 4), (2, 7, 2, 8), (3, 4, 3, 4), (4, 3, 5, 2), (5, 3, 13, 2)]
    for q, n, stride, parts in cyc:
        for p in range(parts):
            out.append(("cyclic", {"q": q, "n": n, "cases": table[:3] + ["matching"] * (q == 2), "part": p, "parts": parts, "stride": 1 if deep else stride}))
    for q, n, stride, parts in ((2, 3, 5, 4), (2, 4, 17, 4), (3, 2, 7, 4)):
        for p in range(parts):
            out.append(("cyclic", {"q": q, "n": n, "cases": sym, "part": p, "parts": parts, "stride": 1 if deep else stride, "symplectic": True}))
    for q, n in ((2, 4), (2, 5), (2, 6), (2, 9), (3, 3), (3, 4), (5, 2), (7, 2)):
        out.append(("heavy", {"q": q, "n": n}))
    return out
