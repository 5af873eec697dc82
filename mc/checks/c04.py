"""C04: the exact distance of a quantum code is the true minimum."""

import itertools

import galois
import numpy as np
from qldpc import codes
from qldpc.codes import distance as distance_module
from qldpc.objects import Pauli

from mc import qcommon, ref
from mc.core import require
from mc.ref import gf, isotropic_subspaces, presentations, subspaces, tup

PROPERTY = "C04"
ASSUMPTIONS = ["galois array primitives are exact", "reference symplectic algebra and operator enumeration in mc/ref.py"]
BOUNDS = {
    "quick": "all stabilizer groups n<=3 (q=2), n<=2 (q=3), n=1 (q=4,5), n=4 (q=2) and n=2 (q=4) by stride; all gauge groups n<=2 (q=2), n=1 (q=3,4,5), n=3 (q=2) and n=2 (q=3) by stride; all CSS pairs, stabilizer or subsystem, n<=3 (q=2), n=2 (q=3,4), n=4 (q=2) by stride; word-boundary families of 31..130 qubits over all segment assignments and block sizes; cyclic codes of one seed operator, stabilizer or subsystem: n=4,5 (q=2), n=6 (q=2), n=3 (q=3), n=2 (q=4,5) by stride; pairs of cyclic codes as CSS codes n=5,6 (q=2), n=7 (q=2), n=3,4 (q=3)",
    "thorough": "all stabilizer groups n=4 (q=2), all gauge groups n=3 (q=2), all CSS pairs n=4 (q=2), n=3 (q=3)",
}


def warmup():
    for q in (2, 3, 4, 5):
        codes.QuditCode(np.array([[1, 0, 0, 0], [0, 0, 0, 1]]), q).get_distance()
        codes.CSSCode([[1, 0, 0]], [[0, 1, 0]], q).get_distance()


def same(got, want):
    isnan = isinstance(got, float) and np.isnan(got)
    return isnan if want is None else (not isnan and got == want)


def case_general(ctx, q, rows):
    f = gf(q)
    rows = tup(rows)
    twon = len(rows[0])
    n = twon // 2
    G, S, k, g = qcommon.facts(q, rows, twon)
    want = ref.quantum_distance(f, S, twon, G) if k else None
    code = codes.QuditCode(np.array(rows), q)
    known = code.get_distance_if_known()
    require(known is None or same(known, want), f"known distance {known}, true {want}")
    got = code.get_distance()
    require(same(got, want), f"distance {got}, true {want}")
    require(same(code.get_distance(), want) and same(code.get_distance_exact(), want), "asked again")
    require(same(code.get_distance_if_known(), want), "known distance after computing it")
    require(same(codes.QuditCode(np.array(rows), q).get_distance(bound=0), want), "bound=0")
    nn, kk, d = codes.QuditCode(np.array(rows), q).get_code_params()
    require((nn, kk) == (n, k) and same(d, want), f"parameters {nn, kk, d}")
    ctx.trans(4)
    if q == 2 and k:
        L, ops = code.get_logical_ops(), [list(r) for r in G]
        for bs in (1, 2, 3, 4, 6, 15):
            got = distance_module.get_distance_quantum(np.array(L), np.array(ops).reshape(-1, twon), block_size=bs)
            require(got == want, f"block size {bs}: {got}, true {want}")
            ctx.trans()


def case_css(ctx, q, hx, hz, orders):
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    zero = (0,) * n
    rows = tuple(r + zero for r in hx) + tuple(zero + r for r in hz)
    G, S, k, g = qcommon.facts(q, rows, 2 * n)
    want = {p: (ref.css_distance(f, hx, hz, n, p) if k else None) for p in "XZ"}
    want[None] = min(want["X"], want["Z"]) if k else None
    general = ref.quantum_distance(f, S, 2 * n, G) if k else None
    require(want[None] == general, f"reference models disagree: {want} {general}")
    P = {"X": Pauli.X, "Z": Pauli.Z, None: None}
    # every order in which the three distances may be asked for
    for order in itertools.permutations(["X", "Z", None]) if orders else [["X", None, "Z"]]:
        code = codes.CSSCode(np.array(hx), np.array(hz), q)
        for p in order:
            known = code.get_distance_if_known(P[p])
            require(known is None or same(known, want[p]), f"known {p} distance {known}: {want}")
            got = code.get_distance(P[p])
            require(same(got, want[p]), f"{p} distance {got}, true {want}, order {order}")
            got = code.get_distance_if_known(P[p])
            require(same(got, want[p]), f"{p} distance not kept: {got} {want}, order {order}")
            ctx.trans()
    require(same(code.get_code_params()[2], want[None]), "parameters")
    full = codes.QuditCode(code.matrix, q)
    require(same(full.get_distance(), want[None]), "distance of the general form")
    if q == 2 and k:
        for p, group in (("X", hx), ("Z", hz)):
            L = np.array(code.get_logical_ops(P[p]))
            ops = np.array(f.rref(group)[0]).reshape(-1, n)
            for bs in (1, 2, 3, 15):
                got = distance_module.get_distance_quantum(L, ops, block_size=bs, homogeneous=True)
                require(got == want[p], f"block size {bs}: {got}, true {want[p]}")
                ctx.trans()


def segments(n, m):
    """Cut points (in qudits) next to 64-bit word boundaries (32 qubits, or 64 for one sector)."""
    cuts = {0, n}
    for b in (32 * ((n - 1) // 32), 1, n - 1, 31, 33, 64):
        if 0 < b < n and len(cuts) < m + 1:
            cuts.add(b)
    cuts = sorted(cuts)
    return [b - a for a, b in zip(cuts, cuts[1:])]


def case_words(ctx, n, k, m, homogeneous, part, parts, nseg):
    """Every assignment of column types to word-aligned segments, k logical and m stabilizer rows."""
    lengths = segments(n, nseg)
    rows = k + m
    types = 2 ** (rows if homogeneous else 2 * rows)
    space = itertools.product(range(types), repeat=len(lengths))
    combos = [c for c in range(1, 2**rows) if c & (2**k - 1)]
    scombos = [c for c in range(1, 2**rows)]
    parity = [bin(i).count("1") & 1 for i in range(types)]
    for index, assign in enumerate(space):
        if index % parts != part:
            continue
        def weight(c):
            if homogeneous:
                return sum(w for t, w in zip(assign, lengths) if parity[t & c])
            return sum(w for t, w in zip(assign, lengths) if parity[t & c] or parity[t >> rows & c])
        if any(weight(c) == 0 for c in scombos):
            continue
        want = min(map(weight, combos))
        blocks = []
        for shift in (0,) if homogeneous else (0, rows):
            cols = [[t >> (shift + r) & 1 for r in range(rows)] for t in assign]
            blocks.append(np.repeat(np.array(cols), lengths, axis=0).T)
        mat = np.hstack(blocks)
        for bs in (1, 2, 3, 15):
            got = distance_module.get_distance_quantum(mat[:k], mat[k:], block_size=bs, homogeneous=homogeneous)
            require(got == want, lambda: f"{assign} block size {bs}: {got}, true {want}")
            ctx.trans()
        ctx.state((n, k, m, homogeneous, assign))


def case_long_css(ctx, n, k, m, assign):
    """A CSS code with n qubits whose X-type logical and stabilizer operators are given by segments."""
    lengths = segments(n, 3)
    rows = k + m
    cols = [[t >> r & 1 for r in range(rows)] for t in assign]
    mat = np.repeat(np.array(cols), lengths, axis=0).T
    weight = lambda c: sum(w for t, w in zip(assign, lengths) if bin(t & c).count("1") & 1)
    if any(weight(c) == 0 for c in range(1, 2**rows)):
        return
    want = min(weight(c) for c in range(1, 2**rows) if c & (2**k - 1))
    hz = codes.ClassicalCode.from_generator(mat).matrix
    code = codes.CSSCode(mat[k:], hz)
    require(code.dimension == k and len(code) == n, "parameters")
    got = code.get_distance(Pauli.X)
    require(got == want, f"X distance {got}, true {want}")
    swapped = codes.CSSCode(hz, mat[k:])
    got = swapped.get_distance(Pauli.Z)
    require(got == want, f"Z distance {got}, true {want}")
    ctx.trans(2)


CASES = {"general": case_general, "css": case_css, "words": case_words, "long_css": case_long_css}


def unit_stabilizer(ctx, q, n, part, parts, stride=1):
    f = gf(q)
    for i, basis in enumerate(isotropic_subspaces(q, n)):
        if i % stride == 0 and (i // stride) % parts == part:
            pres = presentations(f, basis, 2 * n)
            ctx.case("general", {"q": q, "rows": pres[-1 if i % 2 else 0]})


def unit_gauge(ctx, q, n, part, parts, stride=1):
    f = gf(q)
    for i, basis in enumerate(subspaces(f, 2 * n)):
        if i % stride == 0 and (i // stride) % parts == part:
            pres = presentations(f, basis, 2 * n)
            ctx.case("general", {"q": q, "rows": pres[-1 if i % 2 else 0]})


def unit_css(ctx, q, n, part, parts, stride=1):
    f = gf(q)
    subs = list(subspaces(f, n))
    for i, (sx, sz) in enumerate(itertools.product(subs, repeat=2)):
        if i % stride == 0 and (i // stride) % parts == part:
            px, pz = presentations(f, sx, n), presentations(f, sz, n)
            ctx.case("css", {"q": q, "hx": px[i % len(px)], "hz": pz[(i + 1) % len(pz)], "orders": n < 4})


def unit_words(ctx, n, k, m, homogeneous, nseg, parts=1):
    for part in range(parts):
        ctx.case("words", {"n": n, "k": k, "m": m, "homogeneous": homogeneous, "part": part, "parts": parts, "nseg": nseg})


def unit_long_css(ctx, n, k, m, stride):
    for i, assign in enumerate(itertools.product(range(2 ** (k + m)), repeat=3)):
        if i % stride == 0:
            ctx.case("long_css", {"n": n, "k": k, "m": m, "assign": assign})


def unit_cyclic(ctx, q, n, part, parts, stride=1):
    for i, rows in enumerate(ref.cyclic_checks(q, n)):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("general", {"q": q, "rows": rows[: max(1, n - (i // stride) % 3)]})


def unit_cyclic_css(ctx, q, n, part, parts, stride=1):
    seeds = list(ref.cyclic_rows(q, n))
    for i, (hx, hz) in enumerate(itertools.product(seeds, seeds)):
        if i % stride == 0 and (i // stride) % parts == part:
            cut = (i // stride) % 3
            ctx.case("css", {"q": q, "hx": hx[: n - cut], "hz": hz[: n - (cut + 1) % 2], "orders": False})


UNITS = {"cyclic": unit_cyclic, "cyclic_css": unit_cyclic_css, "stabilizer": unit_stabilizer, "gauge": unit_gauge, "css": unit_css, "words": unit_words, "long_css": unit_long_css}


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(name, parts, **kw):
        for part in range(parts):
            out.append((name, {**kw, "part": part, "parts": parts}))

    add("stabilizer", 1, q=2, n=1)
    add("stabilizer", 1, q=2, n=2)
    add("stabilizer", 4, q=2, n=3)
    add("stabilizer", 32 if deep else 8, q=2, n=4, stride=1 if deep else 8)
    add("stabilizer", 1, q=3, n=1)
    add("stabilizer", 4, q=3, n=2)
    add("stabilizer", 1, q=4, n=1)
    add("stabilizer", 1, q=5, n=1)
    add("stabilizer", 8, q=4, n=2, stride=1 if deep else 6)
    add("gauge", 1, q=2, n=1)
    add("gauge", 1, q=2, n=2)
    add("gauge", 8, q=2, n=3, stride=1 if deep else 3)
    add("gauge", 1, q=3, n=1)
    add("gauge", 4, q=3, n=2, stride=1 if deep else 2)
    add("gauge", 1, q=4, n=1)
    add("gauge", 1, q=5, n=1)
    add("css", 1, q=2, n=1)
    add("css", 1, q=2, n=2)
    add("css", 4, q=2, n=3)
    add("css", 8, q=2, n=4, stride=1 if deep else 5)
    add("css", 1, q=3, n=2)
    add("css", 1, q=4, n=2)
    add("css", 16 if deep else 4, q=3, n=3, stride=1 if deep else 5)
    for q, n, parts, stride in ((2, 4, 1, 1), (2, 5, 4, 1), (2, 6, 8, 3), (3, 3, 4, 2), (4, 2, 1, 2), (5, 2, 2, 3)):
        add("cyclic", parts, q=q, n=n, stride=1 if deep else stride)
    for q, n, parts, stride in ((2, 5, 1, 1), (2, 6, 4, 1), (2, 7, 4, 3), (3, 3, 2, 1), (3, 4, 4, 5)):
        add("cyclic_css", parts, q=q, n=n, stride=1 if deep else stride)
    for n in (31, 32, 33, 63, 64, 65, 96, 97, 127, 128, 129):
        out.append(("words", {"n": n, "k": 1, "m": 1, "homogeneous": False, "nseg": 3, "parts": 1}))
        out.append(("words", {"n": n, "k": 1, "m": 1, "homogeneous": True, "nseg": 5, "parts": 1}))
        out.append(("words", {"n": n, "k": 1, "m": 2, "homogeneous": True, "nseg": 4, "parts": 1}))
        out.append(("words", {"n": n, "k": 2, "m": 1, "homogeneous": True, "nseg": 4, "parts": 1}))
        if deep:
            out.append(("words", {"n": n, "k": 2, "m": 1, "homogeneous": False, "nseg": 3, "parts": 4}))
            out.append(("words", {"n": n, "k": 2, "m": 2, "homogeneous": True, "nseg": 4, "parts": 4}))
    for n in (255, 256, 257, 511, 513):
        out.append(("words", {"n": n, "k": 1, "m": 1, "homogeneous": False, "nseg": 2, "parts": 1}))
        out.append(("words", {"n": n, "k": 1, "m": 1, "homogeneous": True, "nseg": 4, "parts": 1}))
    for n in (63, 64, 65):
        out.append(("long_css", {"n": n, "k": 1, "m": 1, "stride": 1 if deep else 7}))
        out.append(("long_css", {"n": n, "k": 2, "m": 1, "stride": 5 if deep else 61}))
    return out
