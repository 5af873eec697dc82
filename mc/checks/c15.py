"""C15: named quantum codes are valid and have their advertised parameters."""

import itertools
import math

import galois
import numpy as np
from qldpc import codes
from qldpc.objects import Node, Pauli, QuditOperator

from mc import ref
from mc.core import require
from mc.qcommon import check_quantum_code
from mc.ref import gf, tup

PROPERTY = "C15"
ASSUMPTIONS = [
    "a surface code of rows x cols encodes one qudit with X-distance cols and Z-distance rows; a toric code two with distance min(rows, cols); the d-dimensional versions 1 (open) or d (periodic) with X-distance size^(d-1) and Z-distance size",
    "the distance of a subsystem code is its dressed distance",
]
BOUNDS = {
    "quick": "surface: sides 1..4 (rotated) / 1..3 for q=2, up to 2x3 (3x3 rotated) for q=3, 2x2 for q=4,5; toric: sides 1..4; generalized: 2D size <=3, 3D size 2; 4D size 2 parameters n, k only; Bacon-Shor sides 1..4; SHYPS (2,2),(2,3); iceberg 1..6; hypergraph products of all pairs of 60 seed matrices up to 2x3 over GF(2) and 24 over GF(3), 16 over GF(4); subsystem hypergraph products of all pairs of the same seeds; named codes",
    "thorough": "surface sides up to 5, toric up to 6, 3D size 3 (k and Z-distance), all seeds up to 2x3 over GF(2) up to row order, SHYPS (3,3)",
}
CASE_TIMEOUT = 300


# -- minimum weights by increasing support ---------------------------------------------------------------


def min_weight(f, checks, group, n, cap):
    """min { |v| : checks v = 0, v not in span(group) }, or None if it exceeds cap."""
    if f.q == 2:
        cols = [sum(1 << i for i, r in enumerate(checks) if r[j]) for j in range(n)]
        basis = ref.int_rref([ref.bits_of(r) for r in group])

        def outside(sup):
            v = sum(1 << j for j in sup)
            for b in basis:
                v = min(v, v ^ b)
            return v != 0

        for w in range(1, min(cap, n) + 1):
            for head in itertools.combinations(range(n), w - 1):
                s = 0
                for j in head:
                    s ^= cols[j]
                start = head[-1] + 1 if head else 0
                for j in range(start, n):
                    if cols[j] == s and outside(head + (j,)):
                        return w
        return None
    cols = [tuple(r[j] for r in checks) for j in range(n)]
    scaled = [[f.vscale(c, col) for c in range(f.q)] for col in cols]
    rk = len(f.rref(group)[0])

    def extend(w, start, acc, vec):
        if w == 0:
            if not any(acc) and len(f.rref(list(group) + [tuple(vec)])[0]) > rk:
                return True
            return False
        for j in range(start, n - w + 1):
            first = not any(vec)
            for c in (1,) if first else range(1, f.q):
                vec[j] = c
                if extend(w - 1, j + 1, f.vadd(acc, scaled[j][c]), vec):
                    return True
            vec[j] = 0
        return False

    for w in range(1, min(cap, n) + 1):
        if extend(w, 0, (0,) * len(checks), [0] * n):
            return w
    return None


def check_css(ctx, code, q, n, k, dx, dz, *, structure=True, subsystem=False, exact=True):
    """Compare everything the code says about itself with its checks and with the promise."""
    f, F = gf(q), galois.GF(q)
    require(isinstance(code, codes.CSSCode), "not a CSS code")
    require(code.field is F, f"field {code.field}")
    require(type(code.matrix_x) is F and type(code.matrix_z) is F, "matrices over the wrong field")
    mx, mz = tup(code.matrix_x), tup(code.matrix_z)
    require(len(code) == n and code.num_qudits == n, f"{len(code)} qudits instead of {n}")
    require(code.matrix_x.shape[1:] == (n,) and code.matrix_z.shape[1:] == (n,), "width of the checks")
    gx, gz = f.rref(mx)[0], f.rref(mz)[0]
    sx, sz = ref.css_center(f, gx, gz), ref.css_center(f, gz, gx)
    commute = len(sx) == len(gx)
    if not subsystem:
        require(commute, "X-type and Z-type checks do not commute")
    require(code.is_subsystem_code == (not commute), "stabilizer/subsystem classification")
    gauge = len(gx) - len(sx)
    real_k = n - len(sx) - len(sz) - gauge
    require(real_k == k, f"the checks encode {real_k} logical qudits, promised {k}")
    require(code.dimension == k, f"reported dimension {code.dimension}, promised {k}")
    if structure:
        rows = [r + (0,) * n for r in mx] + [(0,) * n + r for r in mz]
        if rows:
            check_quantum_code(code, q, tuple(rows), ctx=ctx, standard_form=False, css=True)
    # distances
    if k == 0:
        for p in (Pauli.X, Pauli.Z):
            require(math.isnan(code.get_distance(p)), "distance of a code without logical qudits")
        require(math.isnan(code.get_distance()), "distance of a code without logical qudits")
    elif q == 2 or getattr(code, "_distance", None) is not None or getattr(code, "_distance_x", None) is not None or q**n <= 3000:
        got = (code.get_distance(Pauli.X), code.get_distance(Pauli.Z), code.get_distance())
        if dx is not None:
            require(got == (dx, dz, min(dx, dz)), f"reported distances {got}, promised {(dx, dz)}")
            require(code.get_code_params() == (n, k, min(dx, dz)), "code parameters")
        if exact:
            real_x = min_weight(f, sz, gx, n, got[0])
            real_z = min_weight(f, sx, gz, n, got[1])
            require(real_x == got[0], f"X-distance is {real_x}, reported {got[0]}")
            require(real_z == got[1], f"Z-distance is {real_z}, reported {got[1]}")
    # a code built from the bare matrices agrees
    if n <= 16:
        bare = codes.CSSCode(
            codes.ClassicalCode(code.matrix_x), codes.ClassicalCode(code.matrix_z)
        )
        require(bare.dimension == code.dimension, "dimension computed from the checks")
        require(bare.is_subsystem_code == code.is_subsystem_code, "classification from the checks")
        if k and n <= 12 and exact:
            for p in (Pauli.X, Pauli.Z):
                require(bare.get_distance(p) == code.get_distance(p), "distance from the checks")
    ctx.trans(6)
    return mx, mz


# -- fixed codes ------------------------------------------------------------------------------------------


def case_named(ctx, name, arg=None, alt=False):
    if name == "five":
        code = codes.FiveQubitCode()
        rows = []
        for s in ("XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"):
            rows.append(tuple(int(c in "XY") for c in s) + tuple(int(c in "ZY") for c in s))
        require(gf(2).rref(tup(code.matrix))[0] == gf(2).rref(rows)[0], "stabilizers")
        check_quantum_code(code, 2, tuple(rows), ctx=ctx)
        require(code.get_code_params() == (5, 1, 3), "parameters")
        require(ref.quantum_distance(gf(2), rows, 10) == 3, "distance")
        bare = codes.QuditCode(code.matrix)
        require(bare.get_code_params() == (5, 1, 3), "parameters from the checks")
        return
    if name == "steane":
        code = codes.SteaneCode()
        mx, mz = check_css(ctx, code, 2, 7, 1, 3, 3)
        require(set(zip(*mx)) == set(zip(*mz)) == set(itertools.product((0, 1), repeat=3)) - {(0, 0, 0)}, "checks")
        require(tup(code.get_logical_ops(Pauli.X)) == ((1,) * 7,), "transversal logical X")
        require(tup(code.get_logical_ops(Pauli.Z)) == ((1,) * 7,), "transversal logical Z")
    elif name == "iceberg":
        code = codes.IcebergCode(arg, alternative_logicals=bool(alt))
        n = 2 * arg
        mx, mz = check_css(ctx, code, 2, n, n - 2, 2 if n > 2 else None, 2 if n > 2 else None)
        require(mx == mz == ((1,) * n,), "checks")
        if alt and arg == 3:
            for p in (Pauli.X, Pauli.Z):
                ops = tup(code.get_logical_ops(p))
                require(all(not any(o[3:]) for o in ops[:2]) and all(not any(o[:3]) for o in ops[2:]),
                        "alternative logical operators of the two pairs are not disjoint")
    elif name == "c4":
        code = codes.C4Code()
        mx, mz = check_css(ctx, code, 2, 4, 2, 2, 2)
        require(mx == mz == ((1,) * 4,), "checks")
    elif name == "c6":
        code = codes.C6Code()
        check_css(ctx, code, 2, 6, 2, 2, 2)


# -- lattices -----------------------------------------------------------------------------------------------


def tiles(rows, cols, periodic):
    """Supports of the X-type and Z-type tiles of the documented rotated layout."""
    out = {"X": [], "Z": []}
    rng = lambda m: range(m) if periodic else range(-1, m)
    for r in rng(rows):
        for c in rng(cols):
            kind = "X" if (r + c) % 2 == 0 else "Z"
            cells = [(r + i, c + j) for i in (0, 1) for j in (0, 1)]
            if periodic:
                cells = {(a % rows, b % cols) for a, b in cells}
            else:
                if kind == "X" and r in (-1, rows - 1):
                    continue
                if kind == "Z" and c in (-1, cols - 1):
                    continue
                cells = {(a, b) for a, b in cells if 0 <= a < rows and 0 <= b < cols}
            if len(cells) > 1:
                out[kind].append(frozenset(a * cols + b for a, b in cells))
    return out


def case_lattice(ctx, kind, rows, cols, q, rotated, exact=True):
    cls = codes.SurfaceCode if kind == "surface" else codes.ToricCode
    args = (rows,) if rows == cols else (rows, cols)
    build = lambda *a, **kw: cls(*a, **kw)
    odd = kind == "toric" and rotated and (rows % 2 or cols % 2)
    try:
        code = build(*args, field=q, rotated=rotated)
    except ValueError:
        require(odd, "admissible sizes rejected")
        ctx.trans()
        return
    require(not odd, "odd sides of a rotated toric code accepted")
    require((code.rows, code.cols) == (rows, cols), "sides")
    if kind == "surface":
        n = rows * cols if rotated else rows * cols + (rows - 1) * (cols - 1)
        k, dx, dz = 1, cols, rows
    else:
        n = rows * cols if rotated else 2 * rows * cols
        k, dx, dz = 2, min(rows, cols), min(rows, cols)
    mx, mz = check_css(ctx, code, q, n, k, dx, dz, structure=n <= 20 and q < 5, exact=exact)
    if rotated:
        want = tiles(rows, cols, kind == "toric")
        sup = lambda m: {frozenset(j for j, v in enumerate(r) if v) for r in m}
        require(sup(mx) == set(want["X"]), "X-type tiles")
        require(sup(mz) == set(want["Z"]), "Z-type tiles")
    if q == 2:
        same = build(*args, rotated=rotated)
        require(tup(same.matrix_x) == mx and tup(same.matrix_z) == mz, "default field")
        if rotated:
            default = build(*args)
            require(tup(default.matrix_x) == mx and tup(default.matrix_z) == mz, "default layout")


def case_generalized(ctx, size, dim, q, periodic, exact=True):
    try:
        code = codes.GeneralizedSurfaceCode(size, dim, q, periodic=periodic)
    except ValueError:
        require(dim < 2, "admissible dimension rejected")
        return
    require(dim >= 2, "dimension below two accepted")
    # qudits: the links of the lattice in one direction per dimension
    if periodic:
        n, k = dim * size**dim, dim
    else:
        n, k = size**dim + (dim - 1) * (size - 1) ** 2 * size ** (dim - 2), 1
    dx, dz = size ** (dim - 1), size
    check_css(ctx, code, q, n, k, dx, dz, structure=n <= 24, exact=exact)
    if not exact:
        f = gf(q)
        mx, mz = tup(code.matrix_x), tup(code.matrix_z)
        require(min_weight(f, f.rref(mx)[0], f.rref(mz)[0], n, dz) == dz, "Z-distance")


def case_bacon_shor(ctx, rows, cols, q, set_logicals):
    args = (rows,) if rows == cols else (rows, cols)
    code = codes.BaconShorCode(*args, field=q, set_logicals=set_logicals)
    n = rows * cols
    mx, mz = check_css(ctx, code, q, n, 1, cols, rows, subsystem=True)
    at = lambda r, c: r * cols + c
    want_x = {frozenset([at(r, c), at(r + 1, c)]) for r in range(rows - 1) for c in range(cols)}
    want_z = {frozenset([at(r, c), at(r, c + 1)]) for r in range(rows) for c in range(cols - 1)}
    sup = lambda m: {frozenset(j for j, v in enumerate(r) if v) for r in m}
    require(sup(mx) == want_x and sup(mz) == want_z, "two-body checks")


def case_shyps(ctx, a, b, set_logicals=True, exact=True):
    code = codes.SHYPSCode(a, set_logicals=set_logicals) if a == b else codes.SHYPSCode(a, b, set_logicals=set_logicals)
    n = (2**a - 1) * (2**b - 1)
    check_css(
        ctx, code, 2, n, a * b, 2 ** (b - 1), 2 ** (a - 1), subsystem=True, structure=n <= 24, exact=exact
    )


# -- products of classical codes ---------------------------------------------------------------------------


def facts(f, m, n):
    gen = f.null_space(m, n)
    k = len(gen)
    kt = len(m) - (n - k)
    return k, kt, gen


def case_hgp(ctx, q, a, b, same=False):
    f, F = gf(q), galois.GF(q)
    a, b = tup(np.array(a)), tup(np.array(b))
    ha, hb = F(np.array(a)), F(np.array(b))
    (m1, n1), (m2, n2) = ha.shape, hb.shape
    k1, t1, _ = facts(f, a, n1)
    k2, t2, _ = facts(f, b, n2)
    n = n1 * n2 + m1 * m2
    k = k1 * k2 + t1 * t2
    iden = lambda s: tuple(tuple(int(i == j) for j in range(s)) for i in range(s))
    hcat = lambda x, y: tuple(r + s for r, s in zip(x, y))
    neg = lambda m: tuple(tuple(f.neg[v] for v in r) for r in m)
    want_x = hcat(f.kron(a, iden(n2)), f.kron(iden(m1), f.transpose(b)))
    want_z = hcat(neg(f.kron(iden(n1), b)), f.kron(f.transpose(a), iden(m2)))
    ca, cb = codes.ClassicalCode(ha), codes.ClassicalCode(hb)
    variants = [
        ("codes", lambda s: codes.HGPCode(ca, cb, set_logicals=s)),
        ("arrays", lambda s: codes.HGPCode(ha, hb, set_logicals=s)),
        ("lists", lambda s: codes.HGPCode(ha.tolist(), hb.tolist(), field=q, set_logicals=s)),
    ]
    if same:
        variants.append(("one code", lambda s: codes.HGPCode(ca, set_logicals=s)))
    for i, (what, make) in enumerate(variants):
        for s in (True, False):
            if i and not s:
                continue
            code = make(s)
            require(tup(code.matrix_x) == want_x, f"{what}: X checks")
            require(tup(code.matrix_z) == want_z, f"{what}: Z checks")
            require(tup(code.sector_size) == ((n1 * n2, n1 * m2), (m1 * n2, m1 * m2)), f"{what}: sectors")
            if i == 0:
                check_css(ctx, code, q, n, k, None, None, exact=False, structure=s or q == 2)
    code = codes.HGPCode(ca, cb)
    # canonical logical operators
    require(getattr(code, "_logical_ops", 0) is not None, "canonical logical operators are not set")
    ops_x, ops_z = codes.HGPCode.get_canonical_logical_ops(ca, cb)
    require(tup(code.get_logical_ops(Pauli.X)) == tup(ops_x), "canonical X operators")
    require(tup(code.get_logical_ops(Pauli.Z)) == tup(ops_z), "canonical Z operators")
    # matrices via the static product and via Tanner graphs
    px, pz = codes.HGPCode.get_matrix_product(ha, hb)
    require(type(px) is F and type(pz) is F and tup(px) == want_x and tup(pz) == want_z, "matrix product")
    graph = codes.HGPCode.get_graph_product(ca.graph, cb.graph)
    check_graph(graph, code, q)
    got = codes.QuditCode.graph_to_matrix(graph)
    wantm = tuple(r + (0,) * n for r in want_x) + tuple((0,) * n + r for r in want_z)
    require(tup(got) == wantm, "the graph product does not convert back to the checks")
    require(tup(ca.matrix) == a and tup(cb.matrix) == b, "a seed code was modified")
    ctx.trans(6)


def check_graph(graph, code, q):
    want = code.graph
    require(set(graph.nodes) == set(want.nodes), "nodes of the graph product")
    value = lambda d: d[Pauli].value if Pauli in d else d[QuditOperator].value
    edges = lambda g: {(u, v): tuple(map(int, value(d))) for u, v, d in g.edges(data=True)}
    require(edges(graph) == edges(want), "edges of the graph product")
    require(graph.order == q, "field order of the graph product")


def case_shp(ctx, q, a, b, same=False):
    f, F = gf(q), galois.GF(q)
    a, b = tup(np.array(a)), tup(np.array(b))
    ha, hb = F(np.array(a)), F(np.array(b))
    n1, n2 = ha.shape[1], hb.shape[1]
    k1, _, g1 = facts(f, a, n1)
    k2, _, g2 = facts(f, b, n2)
    n, k = n1 * n2, k1 * k2
    d1, d2 = ref.min_weight_classical(f, g1), ref.min_weight_classical(f, g2)
    iden = lambda s: tuple(tuple(int(i == j) for j in range(s)) for i in range(s))
    want_x, want_z = f.kron(a, iden(n2)), f.kron(iden(n1), b)
    ca, cb = codes.ClassicalCode(ha), codes.ClassicalCode(hb)
    variants = [
        ("codes", lambda s: codes.SHPCode(ca, cb, set_logicals=s)),
        ("lists", lambda s: codes.SHPCode(ha.tolist(), hb.tolist(), field=q, set_logicals=s)),
    ]
    if same:
        variants.append(("one code", lambda s: codes.SHPCode(ca, set_logicals=s)))
    for i, (what, make) in enumerate(variants):
        for s in (True, False):
            if i and not s:
                continue
            code = make(s)
            require(tup(code.matrix_x) == want_x and tup(code.matrix_z) == want_z, f"{what}: checks")
            if i == 0:
                dx, dz = (d2, d1) if k else (None, None)
                if k == 0:
                    dx = dz = None
                check_css(ctx, code, q, n, k, dx, dz, subsystem=True, exact=q ** n <= 70000)
                stabs = [r + (0,) * n for r in f.kron(a, g2)] if g2 else []
                stabs += [(0,) * n + r for r in f.kron(g1, b)] if g1 else []
                got = f.rref(tup(code.get_stabilizer_ops()))[0]
                require(got == f.rref(stabs)[0], f"{what}: stabilizers")
    require(tup(ca.matrix) == a and tup(cb.matrix) == b, "a seed code was modified")
    ctx.trans(4)


CASES = {
    "named": case_named,
    "lattice": case_lattice,
    "generalized": case_generalized,
    "bacon_shor": case_bacon_shor,
    "shyps": case_shyps,
    "hgp": case_hgp,
    "shp": case_shp,
}


# -- units -----------------------------------------------------------------------------------------------------


def unit_named(ctx, top):
    for name in ("five", "steane", "c4", "c6"):
        ctx.case("named", {"name": name})
    for m in range(1, top + 1):
        ctx.case("named", {"name": "iceberg", "arg": m})
        ctx.case("named", {"name": "iceberg", "arg": m, "alt": True})


def unit_lattice(ctx, kind, q, rotated, shapes):
    for r, c in shapes:
        ctx.case("lattice", {"kind": kind, "rows": r, "cols": c, "q": q, "rotated": rotated})


def unit_generalized(ctx, items):
    for size, dim, q, periodic, exact in items:
        ctx.case("generalized", {"size": size, "dim": dim, "q": q, "periodic": periodic, "exact": exact})


def unit_bacon_shor(ctx, q, shapes):
    for r, c in shapes:
        for s in (True, False):
            ctx.case("bacon_shor", {"rows": r, "cols": c, "q": q, "set_logicals": s})


def unit_shyps(ctx, pairs):
    for a, b in pairs:
        for s in (True, False):
            ctx.case("shyps", {"a": a, "b": b, "set_logicals": s, "exact": s})


def seeds(q, shapes, limit=None):
    out = []
    for r, c in shapes:
        mats = []
        for flat in itertools.product(range(q), repeat=r * c):
            m = [list(flat[i * c : (i + 1) * c]) for i in range(r)]
            if m == sorted(m):
                mats.append(m)
        if limit and len(mats) > limit:
            step = len(mats) / limit
            mats = [mats[int(i * step)] for i in range(limit - 1)] + [mats[-1]]
        out += mats
    return out


def unit_product(ctx, kind, q, shapes, limit, part, parts):
    pool = seeds(q, shapes, limit)
    for i, (a, b) in enumerate(itertools.product(pool, repeat=2)):
        if i % parts == part:
            ctx.case(kind, {"q": q, "a": a, "b": b, "same": a == b})


UNITS = {
    "named": unit_named,
    "lattice": unit_lattice,
    "generalized": unit_generalized,
    "bacon_shor": unit_bacon_shor,
    "shyps": unit_shyps,
    "product": unit_product,
}


def units(tier):
    th = tier == "thorough"
    out = [("named", {"top": 8 if th else 6})]
    box = lambda m, lim: [(r, c) for r in range(1, m + 1) for c in range(1, m + 1) if r * c <= lim]
    for rot in (True, False):
        for r in range(1, (6 if th else 5)):
            shapes = [(r, c) for c in range(1, 6 if th else 5) if rot or r * c <= (16 if th else 12)]
            out.append(("lattice", {"kind": "surface", "q": 2, "rotated": rot, "shapes": shapes}))
            shapes = [(r, c) for c in range(1, 7 if th else 5) if r * c <= (24 if rot else 12)]
            out.append(("lattice", {"kind": "toric", "q": 2, "rotated": rot, "shapes": shapes}))
        out.append(("lattice", {"kind": "surface", "q": 3, "rotated": rot, "shapes": box(3, 9 if rot else 6)}))
        out.append(("lattice", {"kind": "toric", "q": 3, "rotated": rot, "shapes": box(4, 8 if rot else 4)}))
        for q in (4, 5):
            out.append(("lattice", {"kind": "surface", "q": q, "rotated": rot, "shapes": box(3, 4)}))
            out.append(("lattice", {"kind": "toric", "q": q, "rotated": rot, "shapes": box(2, 4)}))
    for periodic in (False, True):
        items = [(s, d, q, periodic, True) for q in (2, 3) for s in (1, 2) for d in (1, 2)]
        out.append(("generalized", {"items": items + [(3, 2, 2, periodic, True), (1, 3, 2, periodic, True)]}))
        out.append(("generalized", {"items": [(2, 3, 2, periodic, True)]}))
        out.append(("generalized", {"items": [(2, 4, 2, periodic, False), (2, 3, 3, periodic, False)]}))
        if th:
            out.append(("generalized", {"items": [(3, 3, 2, periodic, False)]}))
            out.append(("generalized", {"items": [(4, 2, 2, periodic, True)]}))
    out.append(("bacon_shor", {"q": 2, "shapes": box(4, 16)}))
    out.append(("bacon_shor", {"q": 3, "shapes": box(3, 6)}))
    out.append(("bacon_shor", {"q": 4, "shapes": box(2, 4)}))
    out.append(("shyps", {"pairs": [(2, 2), (2, 3), (3, 2)]}))
    if th:
        out.append(("shyps", {"pairs": [(3, 3)]}))
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)]
    plan = [(2, shapes, None if th else 12), (3, shapes[:5], 16 if th else 5), (4, shapes[:4], 12 if th else 4)]
    for kind in ("hgp", "shp"):
        for q, sh, limit in plan:
            parts = 24 if th else 12
            for p in range(parts):
                out.append(("product", {"kind": kind, "q": q, "shapes": sh, "limit": limit, "part": p, "parts": parts}))
    return out
