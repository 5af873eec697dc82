"""C07: subsystem codes decompose into stabilizers, gauge pairs and logical pairs."""

import itertools

import numpy as np
from qldpc import codes
from qldpc.objects import Pauli

from mc import qcommon, ref
from mc.core import require
from mc.ref import gf, presentations, tup

PROPERTY = "C07"
ASSUMPTIONS = ["galois array primitives are exact", "reference symplectic algebra in mc/ref.py"]
BOUNDS = {
    "quick": "all gauge groups: n<=2 (q=2,3), n=1 (q=4,5), every 2nd of the 2825 with n=3 (q=2), every 3rd of the 529 with n=2 (q=4); all CSS gauge groups n<=3 (q=2), n<=2 (q=3,4), every 4th with n=4 (q=2); subsystem codes generated by the cyclic shifts of one operator: all n=4,5 (q=2) and n=3 (q=3), every 2nd n=6, every 9th n=7 (q=2), every 5th n=4 (q=3), n=3 (q=4); pairs of cyclic codes as CSS gauge groups n=5..9 (q=2), n=4 (q=3)",
    "thorough": "adds all n=3 and every 24th n=4 (q=2), all n=2 (q=4), CSS n=4 (q=2), n=3 (q=3), sampled-by-stride CSS n=5 (q=2)",
}


def warmup():
    for q in (2, 3, 4, 5):
        c = codes.QuditCode(np.array([[1, 0, 0, 0], [0, 0, 1, 0]]), q)
        c.get_logical_ops()
        c.get_gauge_ops()
        c = codes.CSSCode([[1, 0, 0]], [[1, 1, 0]], q)
        c.get_logical_ops()
        c.get_gauge_ops()


def check_dual(code, q, L, gauges, S, rows, css):
    f = gf(q)
    twon = len(rows[0])
    n = twon // 2
    dual = code.get_dual_subsystem_code()
    k2, g2 = len(gauges) // 2, len(L) // 2
    require(len(dual) == n and dual.field is code.field, "dual subsystem code: length or field")
    require(dual.dimension == k2 and dual.gauge_dimension == g2, "dual subsystem code: dimensions")
    require(dual.is_subsystem_code == (g2 > 0), "dual subsystem code: classification")
    require(f.rref(tup(dual.get_stabilizer_ops()))[0] == S, "dual subsystem code: stabilizers")
    want = f.rref(list(S) + list(L))[0]
    require(f.rref(tup(dual.matrix))[0] == want, "dual subsystem code: gauge group")
    DL = tup(dual.get_logical_ops())
    qcommon.check_logicals(f, DL, want, S, k2, "logical operators of the dual subsystem code")


def case_gauge_group(ctx, q, rows):
    rows = tup(rows)
    code = codes.QuditCode(np.array(rows), q)
    G, S, k, g, L, gauges = qcommon.check_quantum_code(code, q, rows, ctx=ctx)
    check_dual(code, q, L, gauges, S, rows, False)
    f = gf(q)
    n = len(code)
    if qcommon.has_standard_form(f, G, S, n):
        qcommon.check_standard_form(codes.QuditCode(np.array(rows), q), q, rows, ctx)
    require(f.rref(tup(code.canonicalized.matrix))[0] == G and len(code.canonicalized.matrix) == len(G),
            "canonical form has another gauge group")
    require(code.canonicalized.is_subsystem_code == (g > 0), "canonical form: classification")
    # other orders of asking
    fresh = codes.QuditCode(np.array(rows), q)
    require(len(fresh.get_gauge_ops()) == 2 * g and fresh.dimension == k, "order of queries matters")
    fresh = codes.QuditCode(np.array(rows), q)
    require(f.rref(tup(fresh.get_stabilizer_ops(recompute=True)))[0] == S, "recomputed stabilizers")
    forced = codes.QuditCode(np.array(rows), q, is_subsystem_code=True)
    require(forced.dimension == k and forced.gauge_dimension == g, "explicitly declared subsystem code")
    require(f.rref(tup(forced.get_stabilizer_ops()))[0] == S, "explicitly declared: stabilizers")
    if g:
        qcommon.check_logicals(f, tup(forced.get_logical_ops()), G, S, k, "declared logicals")
    # a stabilizer-only request split by type covers all stabilizers
    parts = [tup(fresh.get_stabilizer_ops(p)) for p in (Pauli.X, Pauli.Z)]
    require(f.rref([r for part in parts for r in part])[0] == S, "X and Z stabilizers do not cover S")
    require(not any(any(r[:n]) for r in parts[1]), "Z-type stabilizer acts with X")
    ctx.trans(8)


def case_css_gauge_group(ctx, q, hx, hz):
    f = gf(q)
    hx, hz = tup(hx), tup(hz)
    n = len(hx[0])
    zero = (0,) * n
    rows = tuple(r + zero for r in hx) + tuple(zero + r for r in hz)
    code = codes.CSSCode(np.array(hx), np.array(hz), q)
    G, S, k, g, L, gauges = qcommon.check_quantum_code(code, q, rows, ctx=ctx, css=True)
    check_dual(code, q, L, gauges, S, rows, True)
    # standard form of the two sectors: row spaces and identity blocks
    mx, mz, locs, rsec, csec = codes.CSSCode(np.array(hx), np.array(hz), q).get_standard_form_data_xz()
    inv = np.argsort(locs)
    mx, mz = np.asarray(mx), np.asarray(mz)
    require(f.rref(tup(mx[:, inv]))[0] == f.rref(hx)[0], "standard form of the X sector")
    require(f.rref(tup(mz[:, inv]))[0] == f.rref(hz)[0], "standard form of the Z sector")
    for mat, r, c in ((mx, 0, 0), (mx, 1, 1), (mz, 2, 3), (mz, 3, 4)):
        block = mat[qcommon.index_array(rsec[r], len(mat))][:, qcommon.index_array(csec[c], n)]
        require(np.array_equal(block, np.eye(len(block), dtype=int)), "standard form: no identity")
    for mat, r, x in ((mx, 0, True), (mz, 2, False)):
        for row in tup(mat[:, inv][qcommon.index_array(rsec[r], len(mat))]):
            full = row + zero if x else zero + row
            require(all(f.sympl(full, other) == 0 for other in G), f"row {full} in a sector of stabilizers is no stabilizer")
    if g:
        sx = tuple(r[:n] for r in S if any(r[:n]))
        sz = tuple(r[n:] for r in S if any(r[n:]))
        fresh = codes.CSSCode(np.array(hx), np.array(hz), q)
        require(f.rref(tup(fresh.get_stabilizer_ops(Pauli.X)))[0] == sx, "X-type stabilizers")
        require(f.rref(tup(fresh.get_stabilizer_ops(Pauli.Z)))[0] == sz, "Z-type stabilizers")
        recomputed = fresh.get_stabilizer_ops(recompute=True)
        require(f.rref(tup(recomputed))[0] == S, "recomputed stabilizers")
        require(f.rref(tup(fresh.get_stabilizer_ops(Pauli.X)))[0] == sx, "X-type after recomputing")
        require(f.rref(tup(fresh.get_stabilizer_ops(Pauli.Z)))[0] == sz, "Z-type after recomputing")
        qcommon.check_logicals(f, tup(fresh.get_logical_ops()), G, S, k, "logicals after recomputing")
        general = codes.QuditCode(code.matrix)
        require(general.is_subsystem_code and general.dimension == k, "general form disagrees")
        require(f.rref(tup(general.get_stabilizer_ops()))[0] == S, "general form: stabilizers")
        qcommon.check_logicals(f, tup(general.get_logical_ops()), G, S, k, "general-form logicals")
    ctx.trans(8)


CASES = {"gauge_group": case_gauge_group, "css_gauge_group": case_css_gauge_group}


def unit_general(ctx, q, n, part, parts, stride, pres=3):
    f = gf(q)
    for i, basis in enumerate(ref.subspaces(f, 2 * n)):
        if i % stride or (i // stride) % parts != part:
            continue
        if ref.is_isotropic(f, basis):
            continue
        for j, rows in enumerate(presentations(f, basis, 2 * n)):
            if pres == 1 and j != i % 3:
                continue
            ctx.case("gauge_group", {"q": q, "rows": rows})


def unit_css(ctx, q, n, part, parts, stride):
    f = gf(q)
    subs = list(ref.subspaces(f, n))
    i = -1
    for sx in subs:
        for sz in subs:
            i += 1
            if i % stride or (i // stride) % parts != part:
                continue
            px, pz = presentations(f, sx, n), presentations(f, sz, n)
            j = (i // stride) % 3
            ctx.case("css_gauge_group", {"q": q, "hx": px[j % len(px)], "hz": pz[(j + 1) % len(pz)]})


def unit_cyclic(ctx, q, n, part, parts, stride=1):
    f = gf(q)
    seeds = [rows for rows in ref.cyclic_checks(q, n) if not ref.is_isotropic(f, rows)]
    for i, rows in enumerate(seeds):
        if i % stride == 0 and (i // stride) % parts == part:
            # all shifts, or all but the last two
            ctx.case("gauge_group", {"q": q, "rows": rows if i % 2 else rows[:-2] or rows})


def unit_cyclic_css(ctx, q, n, part, parts, stride=1):
    seeds = list(ref.cyclic_rows(q, n))
    for i, (hx, hz) in enumerate(itertools.product(seeds, seeds)):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("css_gauge_group", {"q": q, "hx": hx[: n - i % 3], "hz": hz[: n - i % 2]})


UNITS = {"general": unit_general, "css": unit_css, "cyclic": unit_cyclic, "cyclic_css": unit_cyclic_css}


def units(tier):
    if tier == "quick":
        gen = [(2, 1, 1, 1, 3), (2, 2, 1, 1, 3), (2, 3, 16, 2, 1), (3, 1, 1, 1, 3), (3, 2, 4, 1, 1),
               (4, 1, 1, 1, 3), (4, 2, 4, 3, 1), (5, 1, 1, 1, 3)]
        css = [(2, 2, 1, 1), (2, 3, 2, 1), (2, 4, 8, 4), (3, 2, 1, 1), (4, 2, 1, 1)]
        cyc = [(2, 4, 1, 1), (2, 5, 2, 1), (2, 6, 4, 2), (2, 7, 4, 9), (3, 3, 2, 1), (3, 4, 4, 5), (4, 3, 4, 5)]
        cyc_css = [(2, 5, 1, 1), (2, 6, 2, 1), (2, 7, 4, 2), (2, 8, 4, 7), (2, 9, 4, 29), (3, 4, 4, 5)]
    else:
        gen = [(2, 1, 1, 1, 3), (2, 2, 1, 1, 3), (2, 3, 16, 1, 3), (3, 1, 1, 1, 3), (3, 2, 4, 1, 3),
               (4, 1, 1, 1, 3), (4, 2, 8, 1, 3), (5, 1, 1, 1, 3), (2, 4, 64, 24, 1), (5, 2, 8, 3, 1)]
        css = [(2, 2, 1, 1), (2, 3, 2, 1), (2, 4, 8, 1), (3, 2, 1, 1), (4, 2, 1, 1), (3, 3, 8, 1), (2, 5, 32, 7)]
        cyc = [(2, 4, 1, 1), (2, 5, 2, 1), (2, 6, 4, 1), (2, 7, 16, 1), (3, 3, 2, 1), (3, 4, 16, 1), (4, 3, 16, 1), (5, 3, 16, 1)]
        cyc_css = [(2, 5, 1, 1), (2, 6, 2, 1), (2, 7, 4, 1), (2, 8, 8, 1), (2, 9, 32, 1), (3, 4, 4, 1), (3, 5, 16, 3)]
    out = [("general", dict(q=q, n=n, part=p, parts=t, stride=s, pres=pr)) for q, n, t, s, pr in gen for p in range(t)]
    out += [("css", dict(q=q, n=n, part=p, parts=t, stride=s)) for q, n, t, s in css for p in range(t)]
    out += [("cyclic", dict(q=q, n=n, part=p, parts=t, stride=s)) for q, n, t, s in cyc for p in range(t)]
    out += [("cyclic_css", dict(q=q, n=n, part=p, parts=t, stride=s)) for q, n, t, s in cyc_css for p in range(t)]
    return out
