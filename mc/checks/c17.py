"""C17: quasi-cyclic and bivariate bicycle codes match their polynomials and layouts."""

import itertools
import math

import galois
import networkx as nx
import numpy as np
import sympy
from qldpc import codes
from qldpc.objects import Node, Pauli

from mc import ref
from mc.core import require
from mc.ref import gf, tup

PROPERTY = "C17"
ASSUMPTIONS = [
    "polynomials are sympy expressions with at least one variable and pairwise distinct monomials modulo the orders (the toric layouts); coefficients are integers naming field elements",
    "a toric layout is interpreted with orders[0], orders[1] belonging to code.symbols[0], code.symbols[1]",
]
BOUNDS = {
    "quick": "one variable: orders 1..4 all polynomial pairs over GF(2), orders 2..3 over GF(3) and 2 over GF(4); two variables: orders (2,2),(2,3),(3,2),(1,3),(3,1),(4,2): all pairs of polynomials with <= 2 terms and every third pair with <= 3 terms over GF(2); (2,2),(2,3) over GF(3) with <= 2 terms; three variables (2,2,2),(1,2,3): pairs of <= 2 terms (sampled by a fixed stride); negative and out-of-range exponents; up to 3 unused orders; bicycle layouts for orders up to (6,1),(3,3),(4,2),(2,4),(6,2) with weight-2/3 polynomial pairs; 12 larger bicycle codes up to orders (12,6) and (15,3), five of them published; two-block codes: all 2x2 pairs over GF(2,3,4), 3x3 circulant pairs, all non-square shapes",
    "thorough": "all pairs of <= 3 terms, orders up to (3,4),(4,4),(5,2),(3,5)",
}
CASE_TIMEOUT = 300


def monomials(orders):
    return list(itertools.product(*[range(o) for o in orders]))


def to_sympy(poly, symbols):
    out = sympy.Integer(0)
    for coeff, exps in poly:
        term = sympy.Integer(coeff)
        for s, e in zip(symbols, exps):
            term *= s ** sympy.Integer(e)
        out += term
    return out


def lift_ref(f, poly, orders):
    """A[r][c] = coefficient of the monomial that shifts plaquette r to plaquette c."""
    pts = monomials(orders)
    pos = {p: i for i, p in enumerate(pts)}
    n = len(pts)
    out = [[0] * n for _ in range(n)]
    for coeff, exps in poly:
        c = int(coeff) if 0 <= coeff < f.q else coeff % f.p
        for r, p in enumerate(pts):
            j = pos[tuple((a + e) % o for a, e, o in zip(p, exps, orders))]
            out[r][j] = f.add[out[r][j]][c]
    return tup(out)


def checks_ref(f, pa, pb, orders):
    a, b = lift_ref(f, pa, orders), lift_ref(f, pb, orders)
    at, bt = f.transpose(a), f.transpose(b)
    neg = lambda m: tuple(tuple(f.neg[v] for v in r) for r in m)
    hcat = lambda x, y: tuple(r + s for r, s in zip(x, y))
    return hcat(a, b), hcat(bt, neg(at))


def params(f, mx, mz, n):
    return n - f.rank(mx) - f.rank(mz)


def used(poly, nvars):
    return [i for i in range(nvars) if any(e[i] for _, e in poly)]


def case_qc(ctx, orders, a, b, q=2):
    """a, b: lists of (coefficient, exponents)."""
    f, F = gf(q), galois.GF(q)
    orders = tuple(orders)
    a = [(c, tuple(e)) for c, e in a]
    b = [(c, tuple(e)) for c, e in b]
    nv = len(orders)
    want_x, want_z = checks_ref(f, a, b, orders)
    n = 2 * math.prod(orders)
    names = [("x", "y", "z", "w")[:nv], ("aa", "b1", "b2", "c")[:nv]]
    free = set(used(a, nv)) | set(used(b, nv))
    mats = []
    for k, nm in enumerate(names):
        symbols = sympy.symbols(nm)
        pa, pb = to_sympy(a, symbols), to_sympy(b, symbols)
        forms = [("dict", dict(zip(symbols, orders)))]
        # variables in lexicographic order; unused orders go last
        if sorted(free) == list(range(len(free))):
            forms.append(("sequence", list(orders)))
            forms.append(("tuple", orders))
        if k:
            forms = forms[:1]
        for what, given in forms:
            keep = dict(given) if isinstance(given, dict) else list(given)
            code = codes.QCCode(given, pa, pb, q) if q != 2 else codes.QCCode(given, pa, pb)
            require((dict(given) if isinstance(given, dict) else list(given)) == keep, "orders modified")
            require(code.field is F and len(code) == n, f"{what}: field or length")
            require(tuple(code.orders) == orders, f"{what}: orders {code.orders}")
            require(tup(code.matrix_x) == want_x, f"{what}: X checks are not [A, B]")
            require(tup(code.matrix_z) == want_z, f"{what}: Z checks are not [B.T, -A.T]")
            require(not code.is_subsystem_code, f"{what}: subsystem code")
            mats.append(code)
            ctx.trans()
    k = params(f, want_x, want_z, n)
    code = mats[0]
    require(code.dimension == k, f"dimension {code.dimension} instead of {k}")
    # evaluation in the group algebra
    for poly, expr in ((a, code.poly_a), (b, code.poly_b)):
        el = code.eval(expr)
        m = tup(el.lift().T)
        require(m == lift_ref(f, poly, orders), "value in the group algebra")
    # canonical form
    symbols = code.symbols
    for poly in (a, b):
        for expr in (to_sympy(poly, symbols), sympy.Poly(to_sympy(poly, symbols))):
            can = code.get_canonical_form(expr)
            terms = read_terms(can, symbols)
            for exps in terms:
                require(
                    all(-o / 2 < e <= o / 2 for e, o in zip(exps, orders)),
                    f"canonical form {can} has exponents out of range",
                )
            require(
                lift_ref(f, [(c, e) for e, c in terms.items()], orders) == lift_ref(f, poly, orders)
                or q not in (2, 3, 5),
                f"canonical form {can} of {expr} is a different polynomial",
            )
    if k and n <= 12 and q == 2 or k and n <= 6:
        # the two sectors of a quasi-cyclic code are equivalent
        dx, dz = ref.css_distance(f, want_x, want_z, n, "X"), ref.css_distance(f, want_x, want_z, n, "Z")
        require(dx == dz, "reference: unequal distances")
        got = (code.get_distance(Pauli.X), code.get_distance(Pauli.Z), code.get_distance())
        require(got == (dx, dz, min(dx, dz)), f"distances {got}, expected {dx}")


def read_terms(expr, symbols):
    """{exponents: coefficient} of a Laurent polynomial."""
    out = {}
    expr = sympy.expand(sympy.sympify(expr))
    for term in sympy.Add.make_args(expr):
        if term == 0:
            continue
        coeff, mono = term.as_coeff_Mul()
        powers = mono.as_powers_dict()
        exps = tuple(int(powers.get(s, 0)) for s in symbols)
        require(set(powers) - {sympy.Integer(1)} <= set(symbols), f"unexpected symbols in {expr}")
        out[exps] = out.get(exps, 0) + int(coeff)
    return out


def case_bad_qc(ctx, which):
    x, y, z = sympy.symbols("x y z")
    table = {
        "too few orders": lambda: codes.QCCode([3], x + y, x * y),
        "bb one order": lambda: codes.BBCode([3], x + 1, x + x**2),
        "bb one symbol": lambda: codes.BBCode([3, 2], x + 1, x + x**2),
        "bb three orders": lambda: codes.BBCode([3, 2, 2], x + 1, y + x**2),
        "bb three symbols": lambda: codes.BBCode([3, 2], x + z, y + x**2),
        "bb three symbols and orders": lambda: codes.BBCode([3, 2, 2], x + z, y + x**2),
    }
    try:
        table[which]()
    except ValueError:
        ctx.trans()
        return
    require(False, f"{which}: accepted")


def case_tb(ctx, q, a, b):
    f, F = gf(q), galois.GF(q)
    ta, tb = tup(np.array(a)), tup(np.array(b))
    na, nb = (len(a), len(a[0])), (len(b), len(b[0]))
    commute = na == nb and na[0] == na[1] and f.matmul(ta, tb) == f.matmul(tb, ta)
    arrays = (F(np.array(a)), F(np.array(b)))
    for what, args in (("arrays", arrays), ("lists", (a, b, q)), ("codes", tuple(codes.ClassicalCode(m) for m in arrays))):
        try:
            code = codes.TBCode(*args)
        except ValueError:
            require(not commute, f"{what}: commuting matrices rejected")
            continue
        require(commute, f"{what}: matrices that do not commute were accepted")
        neg = tuple(tuple(f.neg[v] for v in r) for r in f.transpose(ta))
        hcat = lambda u, v: tuple(r + s for r, s in zip(u, v))
        require(code.field is F, f"{what}: field")
        require(tup(code.matrix_x) == hcat(ta, tb), f"{what}: X checks")
        require(tup(code.matrix_z) == hcat(f.transpose(tb), neg), f"{what}: Z checks")
        require(code.dimension == params(f, tup(code.matrix_x), tup(code.matrix_z), 2 * na[0]), "dimension")
    ctx.trans(3)


# -- bicycle layouts -----------------------------------------------------------------------------------------


def neighbours(pos, width, height):
    x, y = pos
    return {((x + 1) % width, y), ((x - 1) % width, y), (x, (y + 1) % height), (x, (y - 1) % height)}


def check_layout(code, a, b, f, orders):
    """Labels, positions and neighbour shifts agree with the checks for every qubit."""
    rx, ry = orders
    n = rx * ry
    grid = {(x, y) for x in range(2 * rx) for y in range(2 * ry)}
    graph = code.graph
    data = [Node(i, is_data=True) for i in range(2 * n)]
    checks = [Node(i, is_data=False) for i in range(2 * n)]
    require(set(graph.nodes) == set(data + checks), "nodes of the Tanner graph")
    label = {}
    for node in data + checks:
        want = (("L", "R") if node.is_data else ("X", "Z"))[node.index // n], node.index % n // ry, node.index % ry
        got = code.get_node_label(node)
        require(tuple(got) == want, f"label of {node}: {got}, expected {want}")
        require(tuple(type(code).get_node_label_from_orders(node, orders)) == want, "static label")
        label[node] = want
    for folded in (False, True):
        pos = {}
        for node in data + checks:
            p = tuple(code.get_qubit_pos(node, folded))
            require(p == tuple(code.get_qubit_pos(label[node], folded)), "position from a label")
            require(p == tuple(type(code).get_qubit_pos_from_orders(node, folded, orders)), "static position")
            pos[node] = p
        require(set(pos.values()) == grid and len(pos) == len(grid), "positions are not a bijection to the grid")
        if not folded:
            flat = pos
            require(all(pos[v] == tuple(code.get_qubit_pos(v)) for v in pos), "default layout")
            for node in pos:
                s, i, j = label[node]
                off = {"L": (0, 1), "X": (1, 1), "Z": (0, 0), "R": (1, 0)}[s]
                require(pos[node] == (2 * i + off[0], 2 * j + off[1]), f"position of {label[node]}")
        else:
            at = {p: v for v, p in flat.items()}
            for v, p in flat.items():
                for w in neighbours(p, 2 * rx, 2 * ry):
                    d = [abs(s - t) for s, t in zip(pos[v], pos[at[w]])]
                    require(max(d) <= 2, "nearest neighbours are not close in the folded layout")
    # neighbour shifts
    index = {label[v]: v for v in label}
    want_edges = set()
    for (i, j), coeff in coefficients(f, a, orders).items():
        for u in range(rx):
            for v in range(ry):
                want_edges.add((index["X", u, v], index["L", (u + i) % rx, (v + j) % ry]))
                want_edges.add((index["Z", u, v], index["R", (u - i) % rx, (v - j) % ry]))
    for (i, j), coeff in coefficients(f, b, orders).items():
        for u in range(rx):
            for v in range(ry):
                want_edges.add((index["X", u, v], index["R", (u + i) % rx, (v + j) % ry]))
                want_edges.add((index["Z", u, v], index["L", (u - i) % rx, (v - j) % ry]))
    require(set(graph.edges) == want_edges, "neighbour shifts disagree with the Tanner graph")
    return flat


def coefficients(f, poly, orders):
    out = {}
    for c, e in poly:
        key = tuple(x % o for x, o in zip(e, orders))
        c = c if 0 <= c < f.q else c % f.p
        out[key] = f.add[out.get(key, 0)][c]
    return {k: v for k, v in out.items() if v}


def case_bb(ctx, orders, a, b, q=2, reverse=False, exact=True):
    f = gf(q)
    orders = tuple(orders)
    a = [(c, tuple(e)) for c, e in a]
    b = [(c, tuple(e)) for c, e in b]
    x, y = sympy.symbols("x y")
    if reverse:  # symbols in the order (y, x)
        symbols = (y, x)
        given = {y: orders[0], x: orders[1]}
    else:
        symbols, given = (x, y), list(orders)
    code = codes.BBCode(given, to_sympy(a, symbols), to_sympy(b, symbols), q)
    require(code.symbols == symbols and tuple(code.orders) == orders, "symbols or orders")
    want_x, want_z = checks_ref(f, a, b, orders)
    n = 2 * math.prod(orders)
    require(tup(code.matrix_x) == want_x and tup(code.matrix_z) == want_z, "checks")
    check_layout(code, a, b, f, orders)
    text = str(code)
    require(str(code.poly_a.as_expr()) in text and str(code.poly_b.as_expr()) in text, "text")
    ctx.trans(4 * n)
    # orders and bases
    box = [range(-o, o + 1) for o in orders]
    for v in itertools.product(*box):
        k = next(k for k in itertools.count(1) if all(k * e % o == 0 for e, o in zip(v, orders)))
        require(code.get_order(v) == k, f"order of {v}: {code.get_order(v)}, expected {k}")
    # toric layouts
    ca, cb = coefficients(f, a, orders), coefficients(f, b, orders)
    connected = nx.is_weakly_connected(code.graph)
    want_any = False
    if connected:
        for (e1, e2), (g1, g2) in itertools.product(itertools.combinations(ca, 2), itertools.combinations(cb, 2)):
            if basis(sub(e2, e1), sub(g2, g1), orders):
                want_any = True
    layouts = code.get_equivalent_toric_layout_code_data()
    require(bool(layouts) == want_any, f"{len(layouts)} toric layouts reported, existence: {want_any}")
    k = params(f, want_x, want_z, n)
    dist = None
    seen = set()
    for new_orders, pa, pb in layouts:
        new_orders = tuple(int(o) for o in new_orders)
        key = (new_orders, str(pa), str(pb))
        require(key not in seen, "the same layout is reported twice")
        seen.add(key)
        require(math.prod(new_orders) == n // 2, "orders of a toric layout")
        require(new_orders[0] >= new_orders[1], "layout is taller than wide")
        ta = [(c, e) for e, c in read_terms(pa, symbols).items()]
        tb = [(c, e) for e, c in read_terms(pb, symbols).items()]
        na, nb = coefficients(f, ta, new_orders), coefficients(f, tb, new_orders)
        one, gx, gy = (0, 0), (1 % new_orders[0], 0), (0, 1 % new_orders[1])
        require(one in na and gx in na, f"A = {pa} does not contain 1 and the first generator")
        require(one in nb and gy in nb, f"B = {pb} does not contain 1 and the second generator")
        require(
            {tuple(sorted(na.values())), tuple(sorted(nb.values()))}
            == {tuple(sorted(ca.values())), tuple(sorted(cb.values()))},
            f"coefficients changed: {pa}, {pb}",
        )
        new = codes.BBCode(dict(zip(symbols, new_orders)), pa, pb, q)
        if not reverse:
            plain = codes.BBCode(new_orders, pa, pb, q)
            require(tup(plain.matrix) == tup(new.matrix), "layout without explicit symbols")
        mx, mz = tup(new.matrix_x), tup(new.matrix_z)
        require((mx, mz) == checks_ref(f, ta, tb, new_orders), "checks of the toric layout")
        require(params(f, mx, mz, n) == k and len(new) == n, "the toric layout encodes a different number of qudits")
        flat = check_layout(new, ta, tb, f, new_orders)
        at = {p: v for v, p in flat.items()}
        for node in new.graph.nodes:
            if not node.is_data:
                for p in neighbours(flat[node], 2 * new_orders[0], 2 * new_orders[1]):
                    require(new.graph.has_edge(node, at[p]), "a chosen neighbour is not a nearest neighbour")
        if exact and k and n <= 18 and q == 2:
            if dist is None:
                dist = ref.css_distance(f, want_x, want_z, n, "X"), ref.css_distance(f, want_x, want_z, n, "Z")
            got = ref.css_distance(f, mx, mz, n, "X"), ref.css_distance(f, mx, mz, n, "Z")
            require(got == dist, f"distances {got} of a toric layout, originally {dist}")
        ctx.trans()


def sub(u, v):
    return tuple(a - b for a, b in zip(u, v))


def basis(u, v, orders):
    order = lambda w: next(k for k in itertools.count(1) if all(k * e % o == 0 for e, o in zip(w, orders)))
    ou, ov = order(u), order(v)
    if ou * ov != math.prod(orders):
        return False
    pts = {tuple((i * a + j * b) % o for a, b, o in zip(u, v, orders)) for i in range(ou) for j in range(ov)}
    return len(pts) == math.prod(orders)


def case_basis(ctx, orders):
    """Every change of basis of the plaquettes, on all monomials and a full polynomial."""
    orders = tuple(orders)
    x, y = symbols = sympy.symbols("x y")
    code = codes.BBCode(list(orders), 1 + x, 1 + y)
    vecs = list(itertools.product(*[range(-(o // 2), o) for o in orders]))
    poly = monomials(orders)
    for u, v in itertools.product(vecs, repeat=2):
        ok = basis(u, v, orders)
        require(code.is_valid_basis(u, v) == ok, f"is_valid_basis({u}, {v})")
        if not ok:
            continue
        order = lambda w: next(k for k in itertools.count(1) if all(k * e % o == 0 for e, o in zip(w, orders)))
        ou, ov = order(u), order(v)
        for t in monomials(orders):
            i, j = code.modular_inverse((u, v), *t)
            got = tuple((i * a + j * b) % o for a, b, o in zip(u, v, orders))
            require(got == t, f"modular_inverse: {i}*{u} + {j}*{v} = {got}, not {t}")
        gx, gy = to_sympy([(1, u)], symbols), to_sympy([(1, v)], symbols)
        if not (any(u) and any(v)):
            continue
        require(tuple(code.as_exponent_vector(gx)) == u and tuple(code.as_exponent_vector(gy)) == v, "exponents")
        for p in ([(2, poly[-1])], [(1, poly[0]), (3, poly[-1])], [(2, poly[1]), (1, poly[-1]), (4, poly[len(poly) // 2])]):
            if len({e for _, e in p}) < len(p):
                continue
            (new,) = code.change_poly_basis(gx, gy, to_sympy(p, symbols))
            back = {}
            for (i, j), c in read_terms(new, symbols).items():
                e = tuple((i * a + j * b) % o for a, b, o in zip(u, v, orders))
                back[e] = back.get(e, 0) + c
            want = {e: c for c, e in p}
            require(back == want, f"change of basis to {u}, {v}: {p} -> {new} which is {back}")
        ctx.trans()


CASES = {
    "qc": case_qc,
    "bad_qc": case_bad_qc,
    "tb": case_tb,
    "bb": case_bb,
    "basis": case_basis,
}


# -- units -------------------------------------------------------------------------------------------------------


def polys(orders, q, terms):
    """All polynomials with 1..terms distinct monomials that use at least one variable."""
    mons = monomials(orders)
    out = []
    for k in range(1, terms + 1):
        for sup in itertools.combinations(mons, k):
            if not any(any(e) for e in sup):
                continue
            for cs in itertools.product(range(1, q), repeat=k):
                out.append(list(zip(cs, sup)))
    return out


def unit_qc(ctx, orders, q, terms, stride=1, part=0, parts=1):
    pool = polys(orders, q, terms)
    for i, (a, b) in enumerate(itertools.product(pool, repeat=2)):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("qc", {"orders": orders, "a": a, "b": b, "q": q})


def unit_exponents(ctx):
    """Negative and out-of-range exponents, coefficients, unused orders, unit orders."""
    for orders in ((3,), (2, 3), (4, 2)):
        for shift in itertools.product((-2, -1, 1, 2), repeat=len(orders)):
            a = [(1, tuple(0 for _ in orders)), (1, shift)]
            b = [(1, tuple(s * o for s, o in zip(shift, orders))), (1, tuple(1 + s * o for s, o in zip(shift, orders)))]
            for q in (2, 3):
                ctx.case("qc", {"orders": orders, "a": a, "b": b, "q": q})
                ctx.case("qc", {"orders": orders, "a": b, "b": a, "q": q})
    for q in (3, 5):
        for c, d in itertools.product(range(1, q), repeat=2):
            ctx.case("qc", {"orders": [3], "a": [(c, (1,)), (1, (0,))], "b": [(d, (1,)), (1, (2,))], "q": q})
            ctx.case("qc", {"orders": [2, 2], "a": [(c, (1, 1)), (1, (0, 1))], "b": [(d, (1, 1)), (1, (1, 0))], "q": q})
    for extra in ((2,), (1,), (2, 2), (2, 1), (1, 2, 2)):
        orders = (2,) + extra
        zero = tuple(0 for _ in extra)
        ctx.case("qc", {"orders": orders, "a": [(1, (0,) + zero), (1, (1,) + zero)], "b": [(1, (1,) + zero)]})
    for which in (
        "too few orders", "bb one order", "bb one symbol", "bb three orders", "bb three symbols", "bb three symbols and orders",
    ):  # fmt: skip
        ctx.case("bad_qc", {"which": which})


def unit_tb(ctx, q, part=0, parts=1):
    i = 0
    for flat in itertools.product(range(q), repeat=8):
        i += 1
        if i % parts == part:
            ctx.case("tb", {"q": q, "a": [list(flat[:2]), list(flat[2:4])], "b": [list(flat[4:6]), list(flat[6:])]})


def unit_tb_shapes(ctx):
    for q in (2, 3):
        for s in itertools.product((1, 2, 3), repeat=4):
            for fill in (0, 1):
                a = [[fill] * s[1] for _ in range(s[0])]
                b = [[1] * s[3] for _ in range(s[2])]
                ctx.case("tb", {"q": q, "a": a, "b": b})
        circ = lambda c: [[c[(j - i) % 3] for j in range(3)] for i in range(3)]
        for c, d in itertools.product(itertools.product(range(q), repeat=3), repeat=2):
            ctx.case("tb", {"q": q, "a": circ(c), "b": circ(d)})


def unit_bb(ctx, orders, q, ka, kb, limit, part=0, parts=1, reverse=False):
    pa = [p for p in polys(orders, q, ka) if len(p) == ka]
    pb = [p for p in polys(orders, q, kb) if len(p) == kb]
    pairs = [
        (a, b)
        for a, b in itertools.product(pa, pb)
        if {i for _, e in a + b for i in (0, 1) if e[i]} == {0, 1}
    ]
    stride = max(1, len(pairs) // limit)
    for i, (a, b) in enumerate(pairs[::stride]):
        if i % parts == part:
            ctx.case("bb", {"orders": orders, "a": a, "b": b, "q": q, "reverse": reverse})


def unit_basis(ctx, orders):
    for o in orders:
        ctx.case("basis", {"orders": o})


# published bivariate bicycle codes (arXiv:2308.07915) and relatives of them
PUBLISHED = [
    ((6, 6), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    ((15, 3), [(9, 0), (0, 1), (0, 2)], [(0, 0), (2, 0), (7, 0)]),
    ((9, 6), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    ((12, 6), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    ((4, 4), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    ((5, 5), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    ((3, 6), [(1, 0), (0, 1), (0, 5)], [(0, 3), (1, 0), (2, 0)]),
    ((6, 3), [(3, 0), (0, 1), (0, 2)], [(0, 0), (1, 0), (2, 1)]),
    ((4, 6), [(2, 0), (0, 1), (1, 5)], [(0, 3), (1, 0), (3, 1)]),
    ((7, 3), [(6, 0), (0, 1), (0, 2)], [(0, 0), (2, 1), (5, 0)]),
    ((8, 2), [(3, 0), (0, 1), (1, 1)], [(0, 0), (1, 0), (6, 1)]),
    ((10, 2), [(3, 0), (0, 1), (0, 0)], [(0, 1), (1, 0), (7, 1)]),
]


def unit_published(ctx, index):
    orders, a, b = PUBLISHED[index]
    ctx.case("bb", {"orders": orders, "a": [(1, e) for e in a], "b": [(1, e) for e in b], "q": 2, "reverse": index % 4 == 3})


UNITS = {
    "published": unit_published,
    "qc": unit_qc,
    "exponents": unit_exponents,
    "tb": unit_tb,
    "tb_shapes": unit_tb_shapes,
    "bb": unit_bb,
    "basis": unit_basis,
}


def units(tier):
    th = tier == "thorough"
    out = [("exponents", {}), ("tb_shapes", {}), ("tb", {"q": 2})]
    for p in range(4):
        out.append(("tb", {"q": 3, "part": p, "parts": 4 if th else 40}))
    if th:
        for p in range(8):
            out.append(("tb", {"q": 4, "part": p, "parts": 64}))
    else:
        out.append(("tb", {"q": 4, "part": 1, "parts": 300}))
    for o in (1, 2, 3):
        out.append(("qc", {"orders": [o], "q": 2, "terms": o}))
    out.append(("qc", {"orders": [4], "q": 2, "terms": 4}))
    out.append(("qc", {"orders": [2], "q": 3, "terms": 2}))
    out.append(("qc", {"orders": [3], "q": 3, "terms": 2}))
    out.append(("qc", {"orders": [2], "q": 4, "terms": 2}))
    shapes = [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (4, 2)]
    for s in shapes + ([(3, 3), (2, 4)] if th else []):
        for p in range(4):
            out.append(("qc", {"orders": s, "q": 2, "terms": 2, "part": p, "parts": 4, "stride": 1 if th else 2 if math.prod(s) < 8 else 7}))
            out.append(("qc", {"orders": s, "q": 2, "terms": 3, "part": p, "parts": 4, "stride": 5 if th else 11 if math.prod(s) < 6 else 97 if math.prod(s) < 8 else 301}))
    for s in ((2, 2), (2, 3)):
        out.append(("qc", {"orders": s, "q": 3, "terms": 2, "stride": 13 if th else 61}))
    for s in ((2, 2, 2), (1, 2, 3)):
        out.append(("qc", {"orders": s, "q": 2, "terms": 2, "stride": 2 if th else 11}))
    lim = 400 if th else 60
    for s in [(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (5, 1), (1, 4)] + ([(3, 4), (5, 2), (4, 4), (3, 5)] if th else []):
        for ka, kb in ((2, 2), (2, 3), (3, 3), (1, 2), (2, 1), (1, 1)):
            if min(s) == 1 and max(ka, kb) > 2:
                continue
            big = math.prod(s) > 8
            out.append(("bb", {"orders": s, "q": 2, "ka": ka, "kb": kb, "limit": lim // (2 if big else 1)}))
    out.append(("bb", {"orders": (6, 2), "q": 2, "ka": 3, "kb": 3, "limit": 6}))
    for s in ((2, 3), (3, 2), (3, 3)):
        out.append(("bb", {"orders": s, "q": 2, "ka": 2, "kb": 3, "limit": lim // 3, "reverse": True}))
        out.append(("bb", {"orders": s, "q": 3, "ka": 2, "kb": 2, "limit": lim // 2}))
        out.append(("bb", {"orders": s, "q": 3, "ka": 3, "kb": 2, "limit": lim // 3}))
    for o in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (3, 4)) + (((4, 4), (5, 3), (6, 2)) if th else ()):
        out.append(("basis", {"orders": [o]}))
    out = [("published", {"index": i}) for i in range(len(PUBLISHED))] + out
    return out
