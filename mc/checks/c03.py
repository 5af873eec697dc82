"""C03: the exact distance of a classical code is the true minimum."""

import itertools

import galois
import numpy as np
from qldpc import codes
from qldpc.codes import distance as distance_module

from mc import ref
from mc.core import require
from mc.ref import gf, hamming, presentations, subspaces, tup

PROPERTY = "C03"
ASSUMPTIONS = ["galois array primitives are exact", "word sets are enumerated explicitly by mc/ref.py"]
BOUNDS = {
    "quick": "all codes (every subspace of words, 3 presentations of its checks) n<=5 (q=2), n<=4 (q=3), n<=3 (q=4,5), with every vector of the space; long binary codes n in {62..66,126..130,191..193,255..258,320,511..514,1023..1025} with every assignment of k<=2 (k=3: every third) generator columns to word-aligned segments, block sizes 1,2,4,15",
    "thorough": "n<=6 (q=2), n<=4 (q=3), n<=3 (q=4,5,7,8,9) with every vector",
}


def warmup():
    for q in (2, 3, 4, 5):
        c = codes.ClassicalCode([[1, 0, 1], [1, 1, 0]], q)
        c.get_distance(), c.get_distance(vector=[1, 0, 0])


def words_of(f, h):
    n = len(h[0])
    null = f.null_space(h, n)
    return f.span(null, n) if null else [(0,) * n]


def same(got, want):
    if want is None:
        return isinstance(got, float) and np.isnan(got)
    return not (isinstance(got, float) and np.isnan(got)) and got == want


def case_code(ctx, q, h, vectors):
    """Distance of one code, and its distance to every vector of the space."""
    f = gf(q)
    h = tup(h)
    n = len(h[0])
    words = words_of(f, h)
    want = min((hamming(w) for w in words if any(w)), default=None)
    code = codes.ClassicalCode([list(r) for r in h], q)
    known = code.get_distance_if_known()
    require(known is None or same(known, want), f"known distance {known}, true {want}")
    got = code.get_distance()
    require(same(got, want), f"distance {got}, true {want}")
    require(same(code.get_distance(), want), "distance changed when asked again")
    require(same(code.get_distance_exact(), want) and same(code.get_distance(bound=False), want), "exact")
    require(same(code.get_distance_if_known(), want), "known distance after computing it")
    nn, k, d = code.get_code_params()
    require(nn == n and q**k == len(words) and same(d, want), f"parameters {nn, k, d}")
    gen = f.null_space(h, n)
    if gen:
        other = codes.ClassicalCode.from_generator([list(r) for r in gen], q)
        require(same(other.get_distance_exact(), want), "distance of the code given by generators")
        if q == 2:
            for bs in (1, 2, 3, 15):
                got = distance_module.get_distance_classical(np.array(gen), block_size=bs)
                require(got == want, f"block size {bs}: {got}, true {want}")
                ctx.trans()
    ctx.trans(4)
    if not vectors:
        return
    fresh = codes.ClassicalCode([list(r) for r in h], q)
    for v in f.all_vectors(n):
        want_v = min(sum(a != b for a, b in zip(w, v)) for w in words)
        got = fresh.get_distance(vector=list(v))
        require(got == want_v, lambda: f"distance to {v}: {got}, true {want_v}")
        ctx.trans()
    array = galois.GF(q)(np.array(v))
    require(fresh.get_distance_exact(vector=array) == want_v, "field array as vector")
    require(fresh.get_distance_exact(vector=np.array(v)) == want_v, "array as vector")
    require(same(fresh.get_distance(), want), "distance after asking about vectors")


def segment_lengths(n, k):
    """Cut points at and next to machine-word boundaries."""
    last = 64 * ((n - 1) // 64)
    cuts = {0, n}
    for b in ((1, last, 64, n - 1, 63, 65, 128) if k < 3 else (last, 1, n - 1)):
        if 0 < b < n and len(cuts) < (8, 6, 5)[k - 1]:
            cuts.add(b)
    cuts = sorted(cuts)
    return [b - a for a, b in zip(cuts, cuts[1:])]


def case_long(ctx, n, k, types, whole):
    """Generator whose column in segment i is the i-th given column type."""
    lengths = segment_lengths(n, k)
    gen = np.zeros((k, n), dtype=int)
    at = 0
    for t, m in zip(types, lengths):
        for r in range(k):
            if t >> r & 1:
                gen[r, at : at + m] = 1
        at += m
    weights = []
    for combo in range(1, 2**k):
        weights.append(
            sum(m for t, m in zip(types, lengths) if bin(t & combo).count("1") % 2)
        )
    if min(weights) == 0:
        return  # dependent rows: not a generator of k-dimensional code
    want = min(weights)
    for bs in (1, 2, 4, 15) if not whole else (15,):
        got = distance_module.get_distance_classical(gen, block_size=bs)
        require(got == want, lambda: f"block size {bs}: {got}, true {want}")
        ctx.trans()
    got = distance_module.get_distance_classical(gen[::-1].copy())
    require(got == want, f"reversed generators: {got}, true {want}")
    if whole:
        code = codes.ClassicalCode.from_generator(gen)
        require(code.get_distance_exact() == want, "from_generator")
        same_code = codes.ClassicalCode(code.matrix)
        got = same_code.get_distance_exact()
        require(got == want, f"from checks: {got}, true {want}")
        require(same_code.dimension == k and len(same_code) == n, "parameters")
        v = np.zeros(n, dtype=int)
        v[0] = v[-1] = 1
        best = 2
        for combo in range(1, 2**k):
            w = np.zeros(n, dtype=int)
            for r in range(k):
                if combo >> r & 1:
                    w ^= gen[r]
            best = min(best, int((w != v).sum()))
        require(same_code.get_distance(vector=v) == best, "distance to a vector")
        ctx.trans(3)


def case_seeded(ctx, n, k, mult):
    """Dense generators: row r has bit i set iff bit r of (mult * (i + 1)) >> 3 ... (fixed pattern)."""
    gen = np.zeros((k, n), dtype=int)
    for r in range(k):
        for i in range(n):
            gen[r, i] = ((mult * (r + 1) * (i + 3) * (i + r + 1)) >> 2) & 1
        gen[r, r] ^= 1
    rows = [int("".join(map(str, row)), 2) for row in gen.tolist()]
    basis = ref.int_rref(rows)
    if len(basis) < k:
        return
    want = min(bin(v).count("1") for v in ref.int_span(basis) if v)
    for bs in (1, 2, 4, 8, 15, 20):
        got = distance_module.get_distance_classical(gen, block_size=bs)
        require(got == want, lambda: f"block size {bs}: {got}, true {want}")
        ctx.trans()
    code = codes.ClassicalCode.from_generator(gen)
    require(code.get_distance() == want, "from_generator")


CASES = {"code": case_code, "long": case_long, "dense": case_seeded}


def unit_codes(ctx, q, n, vectors, part, parts, pres):
    f = gf(q)
    for i, basis in enumerate(subspaces(f, n)):
        if i % parts == part:
            for j, rows in enumerate(presentations(f, basis, n)[:pres]):
                ctx.case("code", {"q": q, "h": rows, "vectors": bool(vectors and j == pres - 1 or vectors and not basis)})


def unit_long(ctx, n, k, whole, stride=1):
    m = len(segment_lengths(n, k))
    for i, types in enumerate(itertools.product(range(2**k), repeat=m)):
        if i % stride == 0:
            # generators must span k dimensions
            ctx.case("long", {"n": n, "k": k, "types": types, "whole": whole})


def unit_dense(ctx, n):
    for k in range(1, 9):
        for mult in (1, 3, 5, 7):
            ctx.case("dense", {"n": n, "k": k, "mult": mult})


UNITS = {"codes": unit_codes, "long": unit_long, "dense": unit_dense}


def units(tier):
    out = []
    deep = tier == "thorough"
    plan = [(2, 1, 1, 1), (2, 2, 1, 1), (2, 3, 1, 1), (2, 4, 1, 2), (2, 5, True, 6), (3, 1, 1, 1), (3, 2, 1, 1),
            (3, 3, 1, 2), (3, 4, True, 8), (4, 1, 1, 1), (4, 2, 1, 1), (4, 3, True, 4), (5, 1, 1, 1), (5, 2, 1, 1), (5, 3, True, 4)]
    if deep:
        plan += [(2, 6, True, 24), (7, 2, True, 2), (8, 2, True, 2), (9, 2, True, 2)]
    for q, n, vectors, parts in plan:
        for part in range(parts):
            out.append(("codes", {"q": q, "n": n, "vectors": bool(vectors), "part": part, "parts": parts,
                                  "pres": 3 if n < 5 or deep else 1}))
    lengths = [62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 258, 320, 511, 512, 513, 514]
    lengths += [1023, 1024, 1025, 2047, 2049]
    for n in lengths:
        for k in (1, 2):
            out.append(("long", {"n": n, "k": k, "whole": False}))
        out.append(("long", {"n": n, "k": 3, "whole": False, "stride": 1 if deep else 3}))
    for n in (63, 64, 65, 127, 128, 129):
        out.append(("long", {"n": n, "k": 1, "whole": True}))
    for n in (255, 256, 257):
        out.append(("long", {"n": n, "k": 1, "whole": True, "stride": 21}))
    out += [("dense", {"n": n}) for n in (9, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200)]
    return out
