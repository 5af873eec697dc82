"""C16: named classical codes have their advertised length, dimension and distance."""

import itertools
import math

import galois
import numpy as np
from qldpc import codes

from mc import ref
from mc.checks.c15 import min_weight
from mc.core import require
from mc.ref import gf, hamming, tup

PROPERTY = "C16"
ASSUMPTIONS = [
    "lengths 2^m - 1 >= 3 are the admissible lengths of Reed-Solomon codes (galois default), q^m - 1 with q prime and m >= 2 those of BCH codes; for these the roots of the generator polynomial are taken from galois",
    "distances of codes with more than 70000 words are established by enumerating supports up to the advertised distance",
]
BOUNDS = {
    "quick": "repetition and ring: 1..8 bits over GF(2,3,4,5,7,8,9); Hamming: rank 1..4 over GF(2), 1..3 over GF(3,4,5), 1..2 over GF(7,8,9); extended Hamming rank 1..4; Reed-Muller: all 0<=r<=m<=4 over GF(2), m<=3 over GF(3,4,5), all (r,m) in -2..5 for rejection; Reed-Solomon n=3,7,15 all k; BCH n<=31 over GF(2), 8,26 over GF(3), 24 over GF(5), 120 over GF(11), all lengths up to 130 for rejection over GF(2,3,5,11); simplex 2..7 and rejection 0..12",
    "thorough": "repetition and ring up to 16 bits; Hamming rank 5 over GF(2); Reed-Muller m<=5; BCH n=63",
}
CASE_TIMEOUT = 300

SMALL = 70000


def check(ctx, code, q, n, k, d, *, exact=True):
    """The promise [n, k, d], the numbers the code reports and the ones of its checks agree."""
    f, F = gf(q) if q <= 11 else None, galois.GF(q)
    require(code.field is F and type(code.matrix) is F, f"field {code.field}")
    require(code.matrix.ndim == 2 and code.matrix.shape[1] == n, f"checks of shape {code.matrix.shape}")
    require(len(code) == n and code.num_bits == n, f"{len(code)} bits, promised {n}")
    require(code.dimension == k, f"reported dimension {code.dimension}, promised {k}")
    require(code.rank == n - k, f"rank {code.rank}")
    h = tup(code.matrix)
    gen = tup(code.generator)
    if f is not None:
        require(f.rank(h) == n - k, f"rank of the checks is {f.rank(h)}, promised {n - k}")
        kernel = f.null_space(h, n)
        require((f.rref(gen)[0] if gen else ()) == kernel, "generator")
    else:
        require(int(np.linalg.matrix_rank(code.matrix)) == n - k if len(h) else k == n, "rank of the checks")
    if k == 0:
        require(math.isnan(code.get_distance()), "distance of a code without words")
        return h
    require(code.get_code_params() == (n, k, d), f"parameters {code.get_code_params()}")
    if exact and f is not None:
        if q**k <= SMALL:
            real = ref.min_weight_classical(f, kernel)
        else:
            real = min_weight(f, h, (), n, d)
        require(real == d, f"distance is {real}, promised {d}")
    ctx.trans(5)
    return h


def case_cycle(ctx, kind, bits, q):
    f = gf(q)
    cls = codes.RepetitionCode if kind == "repetition" else codes.RingCode
    code = cls(bits, q)
    h = check(ctx, code, q, bits, 1, bits)
    require(len(h) == (bits - 1 if kind == "repetition" else bits), f"{len(h)} checks")
    for i, row in enumerate(h):
        want = [0] * bits
        want[i] = f.add[want[i]][1]
        want[(i + 1) % bits] = f.add[want[(i + 1) % bits]][f.neg[1]]
        require(row == tuple(want), f"check {i}: {row}")
    if q == 2:
        require(tup(cls(bits).matrix) == h, "default field")


def case_hamming(ctx, rank, q):
    f = gf(q)
    code = codes.HammingCode(rank, q)
    n = (q**rank - 1) // (q - 1)
    h = check(ctx, code, q, n, n - rank, 3)
    require(len(h) == rank, "number of checks")
    points = {tuple(f.vscale(f.inv[next(x for x in c if x)], c)) for c in zip(*h) if any(c)}
    require(len(points) == n, "columns are not one per projective point")
    if q == 2:
        require(tup(codes.HammingCode(rank).matrix) == h, "default field")


def case_extended(ctx, rank):
    code = codes.ExtendedHammingCode(rank)
    n = 2**rank
    h = check(ctx, code, 2, n, n - rank - 1, 4)
    require(all(f == 0 for r in h for f in [sum(r) % 2]) or rank == 1, "checks of odd weight")
    f = gf(2)
    inner = f.null_space(tup(codes.HammingCode(rank, 2).matrix), n - 1)
    words = f.rref([(sum(w) % 2,) + tuple(w) for w in inner])[0] if inner else ()
    require(f.null_space(h, n) == words, "not the Hamming code with a parity bit")
    if rank >= 2:
        rm = codes.ReedMullerCode(rank - 2, rank)
        require(f.null_space(tup(rm.matrix), n) == f.null_space(h, n), "not the Reed-Muller code")


def case_muller(ctx, order, size, q):
    try:
        code = codes.ReedMullerCode(order, size, q)
    except ValueError:
        require(not (size >= 0 and 0 <= order <= size), "admissible parameters rejected")
        try:
            codes.ReedMullerCode.get_generator(order, size)
        except ValueError:
            ctx.trans(2)
            return
        require(False, "inadmissible parameters accepted by get_generator")
    require(size >= 0 and 0 <= order <= size, "inadmissible parameters accepted")
    n = 2**size
    k = sum(math.comb(size, i) for i in range(order + 1))
    f = gf(q)
    h = check(ctx, code, q, n, k, 2 ** (size - order))
    # evaluations of all monomials of degree at most the order (the Plotkin order of the points)
    pts = list(itertools.product((0, 1), repeat=size))
    rows = []
    for deg in range(order + 1):
        for mono in itertools.combinations(range(size), deg):
            rows.append(tuple(int(all(p[i] for i in mono)) for p in pts))
    words = f.rref(rows)[0]
    require(f.null_space(h, n) == words, "not the evaluations of the monomials of bounded degree")
    gen = codes.ReedMullerCode.get_generator(order, size)
    require(gen.shape == (k, n), f"generator of shape {gen.shape}")
    require(f.rref(tup(np.asarray(gen) % f.p))[0] == words, "get_generator")
    if q == 2:
        require(tup(codes.ReedMullerCode(order, size).matrix) == h, "default field")


def cyclic(f, h, n):
    space = f.null_space(h, n)
    shifted = [w[-1:] + w[:-1] for w in space]
    return not shifted or f.rref(shifted)[0] == space


def case_solomon(ctx, n, k):
    try:
        code = codes.ReedSolomonCode(n, k)
    except ValueError:
        require(n not in (3, 7, 15) or not 1 <= k <= n, "admissible parameters rejected")
        return
    q = n + 1
    F = galois.GF(q)
    require(code.field is F, "field")
    require(len(code) == n and code.dimension == k and code.rank == n - k, "length or dimension")
    h = np.array(code.matrix).reshape(-1, n)
    a = F.primitive_element
    points = [a**j for j in range(n)]
    # parity checks of the code with roots a^1 .. a^(n-k)
    want = F([[x ** (i + 1) for x in points] for i in range(n - k)]) if n > k else F.Zeros((0, n))
    for roots in (want, F([[x ** (n - i - 1) for x in points] for i in range(n - k)]) if n > k else want):
        both = np.vstack([np.array(roots).reshape(-1, n), h]).view(np.ndarray)
        if n == k or int(np.linalg.matrix_rank(F(both))) == n - k:
            break
    else:
        require(False, "checks are not those of a Reed-Solomon code")
    require(code.matrix.shape == (n - k, n), "number of checks")
    # every n-k columns are independent: the code is maximum distance separable
    if math.comb(n, n - k) <= 40:
        for cols in itertools.combinations(range(n), n - k):
            if n > k:
                require(int(np.linalg.matrix_rank(code.matrix[:, list(cols)])) == n - k, "distance below n-k+1")
        if q**k <= 600:
            require(code.get_distance() == n - k + 1, "reported distance")
            require(code.get_code_params() == (n, k, n - k + 1), "parameters")
    ctx.trans(3)


BCH2 = {
    (3, 1): 3, (7, 4): 3, (7, 1): 7, (15, 11): 3, (15, 7): 5, (15, 5): 7, (15, 1): 15,
    (31, 26): 3, (31, 21): 5, (31, 16): 7, (31, 11): 11, (31, 6): 15, (31, 1): 31,
}  # fmt: skip


def case_bch(ctx, n, k, q):
    F = galois.GF(q)
    m, power = 0, 1
    while power < n + 1:
        power *= q
        m += 1
    length = power == n + 1 and m >= 1
    try:
        code = codes.BCHCode(n, k, q) if q != 2 else codes.BCHCode(n, k)
    except ValueError as exc:
        if length and m >= 2:
            try:
                galois.BCH(n, k, field=F)
            except ValueError:
                ctx.trans()
                return
        require(not (length and m >= 2), f"admissible block length rejected: {exc}")
        ctx.trans()
        return
    require(length, "inadmissible block length accepted")
    require(code.field is F and len(code) == n and code.dimension == k, "length or dimension")
    require(code.matrix.shape == (n - k, n) and code.rank == n - k, "checks")
    f = gf(q) if q <= 5 else None
    if f is not None:
        h = tup(code.matrix)
        require(f.rank(h) == n - k, "rank of the checks") if h else None
        require(cyclic(f, h, n), "not a cyclic code")
        if q == 2 and (n, k) in BCH2:
            d = BCH2[n, k]
            real = min_weight(f, h, (), n, min(d, 7))
            require(real == d if d <= 7 else real is None, f"distance {real}, expected {d}")
            if 2**k <= 3000 or d <= 3:
                require(code.get_distance() == d, f"reported distance {code.get_distance()}, expected {d}")
        elif q**k <= 3000 and k < n:
            d = ref.min_weight_classical(f, f.null_space(h, n))
            require(d >= galois.BCH(n, k, field=F).d, "distance below the designed distance")
            require(code.get_distance() == d, "reported distance")
    ctx.trans(3)


def case_simplex(ctx, dim):
    try:
        code = codes.SimplexCode(dim)
    except ValueError:
        require(not 2 <= dim <= 7, "admissible dimension rejected")
        return
    require(2 <= dim <= 7, "inadmissible dimension accepted")
    n = 2**dim - 1
    h = check(ctx, code, 2, n, dim, 2 ** (dim - 1))
    f = gf(2)
    words = [w for w in ref.int_span([ref.bits_of(r) for r in f.null_space(h, n)]) if w]
    require(len(words) == n and {bin(w).count("1") for w in words} == {2 ** (dim - 1)}, "words of unequal weight")
    exps = codes.SimplexCode.get_polynomial_exponents(dim)
    require(len(exps) == 3 and exps[0] == 0 and exps[2] == dim, f"exponents {exps}")
    for i, row in enumerate(h):
        require({j for j, v in enumerate(row) if v} == {(i + e) % n for e in exps}, f"check {i}")
    cols = set(zip(*f.null_space(h, n)))
    require(len(cols) == n and (0,) * dim not in cols, "generator columns are not all nonzero strings")


CASES = {
    "cycle": case_cycle,
    "hamming": case_hamming,
    "extended": case_extended,
    "muller": case_muller,
    "solomon": case_solomon,
    "bch": case_bch,
    "simplex": case_simplex,
}


def unit_cycle(ctx, kind, q, top):
    for bits in range(1, top + 1):
        ctx.case("cycle", {"kind": kind, "bits": bits, "q": q})


def unit_hamming(ctx, q, ranks):
    for r in ranks:
        ctx.case("hamming", {"rank": r, "q": q})


def unit_extended(ctx, top):
    for r in range(1, top + 1):
        ctx.case("extended", {"rank": r})


def unit_muller(ctx, q, top, reject):
    for m in range(0, top + 1):
        for r in range(0, m + 1):
            ctx.case("muller", {"order": r, "size": m, "q": q})
    if reject:
        for m in range(-2, 6):
            for r in range(-2, 7):
                if not 0 <= r <= m:
                    ctx.case("muller", {"order": r, "size": m, "q": q})


def unit_solomon(ctx, lengths):
    for n in lengths:
        for k in range(1, n + 1):
            ctx.case("solomon", {"n": n, "k": k})


def unit_bch(ctx, q, lengths, dims=None):
    for n in lengths:
        for k in dims or range(1, n + 1):
            if k <= n:
                ctx.case("bch", {"n": n, "k": k, "q": q})


def unit_bch_lengths(ctx, q, top):
    """Every length that is not of the form q^m - 1 is refused."""
    good = {q**m - 1 for m in range(1, 12)}
    for n in range(2, top + 1):
        if n not in good:
            ctx.case("bch", {"n": n, "k": n, "q": q})


def unit_simplex(ctx):
    for d in range(0, 13):
        ctx.case("simplex", {"dim": d})


UNITS = {
    "cycle": unit_cycle,
    "hamming": unit_hamming,
    "extended": unit_extended,
    "muller": unit_muller,
    "solomon": unit_solomon,
    "bch": unit_bch,
    "bch_lengths": unit_bch_lengths,
    "simplex": unit_simplex,
}


def units(tier):
    th = tier == "thorough"
    out = [("simplex", {}), ("extended", {"top": 5 if th else 4})]
    for q in (2, 3, 4, 5, 7, 8, 9):
        for kind in ("repetition", "ring"):
            out.append(("cycle", {"kind": kind, "q": q, "top": 16 if th and q < 4 else 8}))
        ranks = (1, 2, 3, 4) if q == 2 else (1, 2, 3) if q in (3, 4) else (1, 2)
        if th and q in (2, 5):
            ranks = (1, 2, 3, 4, 5) if q == 2 else (1, 2, 3)
        out.append(("hamming", {"q": q, "ranks": ranks}))
    out.append(("muller", {"q": 2, "top": 5 if th else 4, "reject": True}))
    for q in (3, 4, 5):
        out.append(("muller", {"q": q, "top": 3, "reject": False}))
    out.append(("solomon", {"lengths": [3, 7, 15]}))
    out.append(("bch", {"q": 2, "lengths": [3, 7, 15]}))
    out.append(("bch", {"q": 2, "lengths": [31], "dims": [1, 6, 11, 16, 21, 26, 27, 31]}))
    out.append(("bch", {"q": 3, "lengths": [8, 26], "dims": [1, 2, 3, 4, 6, 7, 8, 11, 14, 17, 20, 23, 26]}))
    out.append(("bch", {"q": 5, "lengths": [24], "dims": [1, 3, 4, 6, 8, 9, 11, 20, 22, 24]}))
    out.append(("bch", {"q": 11, "lengths": [120], "dims": [118, 120]}))
    if th:
        out.append(("bch", {"q": 2, "lengths": [63]}))
    for q in (2, 3, 5, 11):
        out.append(("bch_lengths", {"q": q, "top": 130}))
    return out
