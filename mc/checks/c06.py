"""C06: logical operators of every stabilizer code form a symplectic basis."""

import itertools

import galois
import numpy as np
from qldpc import codes
from qldpc.objects import Pauli

from mc import qcommon, ref
from mc.core import require
from mc.ref import gf, isotropic_subspaces, presentations, tup

PROPERTY = "C06"
ASSUMPTIONS = ["galois array primitives are exact", "reference symplectic algebra in mc/ref.py"]
BOUNDS = {
    "quick": "all stabilizer groups: n<=3 (q=2), n<=2 (q=3,4), n=1 (q=5); all CSS pairs: n<=4 (q=2), n<=2 (q=3), n<=2 (q=4); 3 presentations each; all replacement bases for n<=2 (q=2), n=1 (q=3); all stabilizer codes generated by the cyclic shifts of one operator n=4..7 (q=2), n=3,4 (q=3), every 4th n=8 (q=2), every 2nd n=3 (q=4); CSS codes of all pairs of cyclic codes n=5..9 (q=2), n=4 (q=3)",
    "thorough": "adds n=4 (q=2, 19381 groups), n=3 (q=3), CSS n=5 (q=2), n=3 (q=3)",
}


def warmup():
    for q in (2, 3, 4, 5):
        c = codes.QuditCode(np.array([[1, 0, 0, 0], [0, 0, 0, 1]]), q)
        c.get_logical_ops()
        c = codes.CSSCode([[1, 0, 0]], [[0, 1, 0]], q)
        c.get_logical_ops()


def case_stabilizer(ctx, q, rows):
    rows = tup(rows)
    code = codes.QuditCode(np.array(rows), q)
    require(tup(code.matrix) == rows, "checks were changed")
    G, S, k, g, L, _ = qcommon.check_quantum_code(code, q, rows, ctx=ctx)
    qcommon.check_standard_form(code, q, rows, ctx)
    f = gf(q)
    again = tup(code.get_logical_ops(recompute=True))
    if k:
        qcommon.check_logicals(f, again, G, S, k, "recomputed logical operators")
    require(tup(code.get_logical_ops()) == again, "recomputed operators were not kept")
    fresh = codes.QuditCode(galois.GF(q)(np.array(rows)))
    fresh.set_logical_ops([list(r) for r in L] if k else np.zeros((0, len(rows[0])), dtype=int))
    require(tup(fresh.get_logical_ops()) == L, "own logical operators were changed when set")
    ctx.trans(3)


def case_css(ctx, q, hx, hz):
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    zero = (0,) * n
    rows = tuple(r + zero for r in hx) + tuple(zero + r for r in hz)
    code = codes.CSSCode(np.array(hx), np.array(hz), q)
    require(tup(code.matrix) == rows, "overall parity check matrix is wrong")
    require(tup(code.matrix_x) == hx and tup(code.matrix_z) == hz, "sector checks are wrong")
    require(code.num_checks == len(rows) and code.num_checks_x == len(hx), "number of checks")
    require(code.num_checks_z == len(hz), "number of checks")
    require(code.get_code(Pauli.X) == code.code_x and code.get_code(Pauli.Z) == code.code_z, "codes")
    require(tup(code.get_matrix(Pauli.X)) == hx and tup(code.get_matrix(Pauli.Z)) == hz, "matrices")
    G, S, k, g, L, _ = qcommon.check_quantum_code(code, q, rows, ctx=ctx, css=True)
    sx = tuple(r[:n] for r in S if any(r[:n]))
    sz = tuple(r[n:] for r in S if any(r[n:]))
    require(f.rref(tup(code.get_stabilizer_ops(Pauli.X)))[0] == sx, "X-type stabilizers")
    require(f.rref(tup(code.get_stabilizer_ops(Pauli.Z)))[0] == sz, "Z-type stabilizers")
    general = codes.QuditCode(code.matrix)
    require(general.dimension == k and general.rank == code.rank, "CSS and general forms disagree")
    qcommon.check_logicals(f, tup(general.get_logical_ops()), G, S, k, "general-form logicals")
    fresh = codes.CSSCode(np.array(hx), np.array(hz), q)
    if k:
        lx = [list(r[:n]) for r in L[:k]]
        lz = [list(r[n:]) for r in L[k:]]
        fresh.set_logical_ops_xz(lx, lz)
        require(tup(fresh.get_logical_ops()) == L, "own logical operators were changed when set")
    can = code.canonicalized
    require(codes.CSSCode.equiv(can, code) and tup(can.matrix_x) == f.rref(hx)[0], "canonical form")
    ctx.trans(6)


def expected_ok(f, L, G, k):
    if len(L) != 2 * k:
        return False
    if ref.check_symplectic_pairs(f, L) is not None:
        return False
    return all(f.sympl(a, b) == 0 for a in L for b in G)


def case_replace(ctx, q, rows, nrows, part, parts):
    """Every candidate set of replacement logical operators with nrows rows."""
    f = gf(q)
    rows = tup(rows)
    twon = len(rows[0])
    G, S, k, g = qcommon.facts(q, rows, twon)
    code = codes.QuditCode(np.array(rows), q)
    current = tup(code.get_logical_ops())
    vectors = list(f.all_vectors(twon))
    for i, first in enumerate(vectors):
        if i % parts != part:
            continue
        for rest in itertools.product(vectors, repeat=nrows - 1):
            L = (first, *rest)
            want = expected_ok(f, L, G, k)
            try:
                code.set_logical_ops([list(r) for r in L])
                accepted = True
            except ValueError:
                accepted = False
            require(accepted == want, lambda: f"{L} " + ("accepted" if accepted else "rejected"))
            if accepted:
                current = L
            require(tup(code.get_logical_ops()) == current, "wrong operators kept")
            require(code.dimension == k, "dimension changed")
            ctx.trans()
        ctx.state((q, rows, nrows, first))


def case_replace_css(ctx, q, hx, hz, kx, kz):
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    zero = (0,) * n
    rows = tuple(r + zero for r in hx) + tuple(zero + r for r in hz)
    G, S, k, g = qcommon.facts(q, rows, 2 * n)
    code = codes.CSSCode(np.array(hx), np.array(hz), q)
    current = tup(code.get_logical_ops())
    for lx in f.all_matrices(kx, n):
        for lz in f.all_matrices(kz, n):
            L = tuple(r + zero for r in lx) + tuple(zero + r for r in lz)
            want = kx == kz and expected_ok(f, L, G, k)
            try:
                code.set_logical_ops_xz([list(r) for r in lx], [list(r) for r in lz])
                accepted = True
            except ValueError:
                accepted = False
            require(accepted == want, lambda: f"{L} " + ("accepted" if accepted else "rejected"))
            if accepted:
                current = L
            require(tup(code.get_logical_ops()) == current, "wrong operators kept")
            ctx.trans()
        ctx.state((q, hx, hz, lx))


CASES = {
    "stabilizer": case_stabilizer,
    "css": case_css,
    "replace": case_replace,
    "replace_css": case_replace_css,
}


def unit_stabilizer(ctx, q, n, part, parts):
    f = gf(q)
    for i, basis in enumerate(isotropic_subspaces(q, n)):
        if i % parts == part:
            pres = presentations(f, basis, 2 * n)
            for rows in pres if ctx.tier == "thorough" and n < 4 or n < 4 else pres[1:2]:
                ctx.case("stabilizer", {"q": q, "rows": rows})


def css_pairs(q, n):
    f = gf(q)
    subs = list(ref.subspaces(f, n))
    for sx in subs:
        for sz in subs:
            if all(f.dot(a, b) == 0 for a in sx for b in sz):
                yield sx, sz


def unit_css(ctx, q, n, part, parts):
    f = gf(q)
    for i, (sx, sz) in enumerate(css_pairs(q, n)):
        if i % parts != part:
            continue
        px, pz = presentations(f, sx, n), presentations(f, sz, n)
        for j in range(max(len(px), len(pz))):
            ctx.case("css", {"q": q, "hx": px[j % len(px)], "hz": pz[(j + 1) % len(pz)]})


def unit_replace(ctx, q, n, nrows, part, parts, stride=1):
    for i, basis in enumerate(isotropic_subspaces(q, n)):
        k = n - len(basis)
        if k == 0 or i % stride:
            continue
        rows = basis or ((0,) * (2 * n),)
        ctx.case("replace", {"q": q, "rows": rows, "nrows": nrows, "part": part, "parts": parts})


def unit_replace_css(ctx, q, n, kx, kz):
    for sx, sz in css_pairs(q, n):
        if n - len(sx) - len(sz) in (kx, kz):
            hx = sx or ((0,) * n,)
            hz = sz or ((0,) * n,)
            ctx.case("replace_css", {"q": q, "hx": hx, "hz": hz, "kx": kx, "kz": kz})


def unit_cyclic(ctx, q, n, part, parts, stride=1):
    f = gf(q)
    seeds = [rows for rows in ref.cyclic_checks(q, n) if ref.is_isotropic(f, rows)]
    for i, rows in enumerate(seeds):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("stabilizer", {"q": q, "rows": rows[: max(1, n - i % 3)]})


def unit_cyclic_css(ctx, q, n, part, parts, stride=1):
    f = gf(q)
    seeds = list(ref.cyclic_rows(q, n))
    pairs = [(a, b) for a in seeds for b in seeds if all(f.dot(r, s) == 0 for r in a[:1] for s in b)]
    for i, (hx, hz) in enumerate(pairs):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("css", {"q": q, "hx": hx[: n - i % 3], "hz": hz[: n - i % 2]})


UNITS = {
    "cyclic": unit_cyclic,
    "cyclic_css": unit_cyclic_css,
    "stabilizer": unit_stabilizer,
    "css": unit_css,
    "replace": unit_replace,
    "replace_css": unit_replace_css,
}


def units(tier):
    out = []
    spaces = [(2, 1, 1), (2, 2, 1), (2, 3, 8), (3, 1, 1), (3, 2, 2), (4, 1, 1), (4, 2, 3), (5, 1, 1)]
    css = [(2, 1, 1), (2, 2, 1), (2, 3, 1), (2, 4, 6), (3, 1, 1), (3, 2, 1), (4, 2, 1), (5, 2, 1)]
    if tier == "thorough":
        spaces += [(2, 4, 64), (3, 3, 32), (5, 2, 8)]
        css += [(2, 5, 32), (3, 3, 8), (4, 3, 16)]
    out += [("stabilizer", dict(q=q, n=n, part=p, parts=t)) for q, n, t in spaces for p in range(t)]
    out += [("css", dict(q=q, n=n, part=p, parts=t)) for q, n, t in css for p in range(t)]
    cyc = [(2, 4, 1, 1), (2, 5, 1, 1), (2, 6, 2, 1), (2, 7, 4, 1), (2, 8, 4, 4), (3, 3, 1, 1), (3, 4, 4, 1), (4, 3, 4, 2)]
    cyc_css = [(2, 5, 1, 1), (2, 6, 1, 1), (2, 7, 1, 1), (2, 8, 4, 1), (2, 9, 2, 1), (3, 4, 1, 1)]
    if tier == "thorough":
        cyc = [(q, n, t, 1) for q, n, t, _ in cyc] + [(2, 9, 32, 1), (3, 5, 32, 1), (5, 3, 16, 1)]
        cyc_css += [(2, 10, 16, 1), (2, 12, 16, 5), (3, 5, 8, 1), (3, 6, 16, 1), (4, 4, 16, 1)]
    out += [("cyclic", dict(q=q, n=n, part=p, parts=t, stride=s)) for q, n, t, s in cyc for p in range(t)]
    out += [("cyclic_css", dict(q=q, n=n, part=p, parts=t, stride=s)) for q, n, t, s in cyc_css for p in range(t)]
    # k = 2 on two qubits: all 4-row candidates (one code); k = 1: all 2-row candidates
    rep = [(2, 1, 2, 1, 1), (2, 1, 1, 1, 1), (2, 1, 3, 1, 1), (2, 2, 2, 1, 1), (2, 2, 1, 1, 1),
           (2, 2, 3, 4, 8), (3, 1, 2, 1, 1), (4, 1, 2, 1, 1), (5, 1, 2, 1, 1)]
    for q, n, nrows, parts, stride in rep:
        out += [("replace", dict(q=q, n=n, nrows=nrows, part=p, parts=parts, stride=stride)) for p in range(parts)]
    out += [("replace", dict(q=2, n=2, nrows=4, part=p, parts=16, stride=100)) for p in range(16)]
    out += [("replace_css", dict(q=q, n=n, kx=a, kz=b)) for q, n, a, b in
            [(2, 2, 1, 1), (2, 2, 2, 2), (2, 3, 1, 1), (2, 3, 2, 1), (3, 2, 1, 1), (4, 2, 1, 1)]]
    if tier == "thorough":
        out += [("replace_css", dict(q=2, n=3, kx=2, kz=2)), ("replace_css", dict(q=2, n=4, kx=1, kz=1))]
    return out
