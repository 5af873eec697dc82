"""C10: alternative representations of codes and Paulis convert back without loss."""

import itertools

import galois
import networkx as nx
import numpy as np
import stim
from qldpc import codes
from qldpc import math as qmath
from qldpc.objects import Node, Pauli, QuditOperator

from mc import ref
from mc.core import require
from mc.ref import gf, tup, vec

PROPERTY = "C10"
ASSUMPTIONS = ["galois array primitives are exact", "text forms are those written down in this file from the documentation"]
BOUNDS = {
    "quick": "all matrices over GF(2) up to 3x3, GF(3) up to 2x3, GF(4),GF(5) up to 2x2, GF(7,8,9) up to 1x2 as classical codes; all symplectic matrices r x 2n with q^(2rn) <= 4100 over GF(2,3,4,5,7,9) as quantum codes, each with original, reversed and plain-integer forms; all pairs of vectors for the symplectic conjugate with q^(4n) <= 70000; equivalence of all pairs of codes with at most 2 checks on n <= 2 qubits or one qudit (GF(3), GF(4)), as plain and as CSS codes; ill-fitting parts over 7 fields; cyclic codes on 4..6, 11..13 and 101 qubits, 3, 4, 12 qutrits, and over GF(4,5,7,8,9) by stride",
    "thorough": "the same with q^(size) up to 300000 (matrices) and 2000000 (pairs)",
}
CASE_TIMEOUT = 200
PRIME = (2, 3, 5, 7)


def text_of(q, x, z):
    if q == 2:
        return {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[x, z]
    if not x and not z:
        return "I"
    if x == z:
        return f"Y({x})"
    return "*".join(([f"X({x})"] if x else []) + ([f"Z({z})"] if z else []))


def pauli_matrix(p):
    return {
        "I": np.eye(2),
        "X": np.array([[0, 1], [1, 0]]),
        "Z": np.diag([1, -1]),
        "Y": np.array([[0, -1j], [1j, 0]]),
    }[p]


def same_up_to_phase(a, b):
    return any(np.allclose(a, ph * b) for ph in (1, -1, 1j, -1j))


def permuted(graph, order):
    """The same graph with nodes and edges inserted in another order."""
    new = type(graph)()
    nodes, edges = list(graph.nodes(data=True)), list(graph.edges(data=True))
    if order == "reversed":
        nodes, edges = nodes[::-1], edges[::-1]
    else:
        nodes, edges = nodes[1::2] + nodes[::2], edges[1::2] + edges[::2]
    if order != "edges_first":
        new.add_nodes_from(nodes)
    new.add_edges_from(edges)
    new.add_nodes_from(nodes)
    if "order" in vars(graph):
        new.order = graph.order
    return new


# -- cases ------------------------------------------------------------------------------------------


def case_pauli(ctx, a, b):
    p, r = Pauli.from_string(a), Pauli.from_string(b)
    require(str(p) == a and Pauli.from_string(str(p)) is p, "text round trip")
    require(same_up_to_phase(pauli_matrix(a) @ pauli_matrix(b), pauli_matrix(str(p * r))), "product")
    h = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    require(same_up_to_phase(h @ pauli_matrix(a) @ h, pauli_matrix(str(~p))), "Hadamard transform")
    require((p * p) is Pauli.I, "a Pauli operator is its own inverse")
    commute = np.allclose(pauli_matrix(a) @ pauli_matrix(b), pauli_matrix(b) @ pauli_matrix(a))
    sym = qmath.symplectic_conjugate(np.array(p.value)) @ np.array(r.value)
    require((sym % 2 == 0) == commute, "commutation rule")
    if a in "XZ":
        require(p.index == "XZ".index(a) and [10, 20][p] == [10, 20]["XZ".index(a)], "index")
    else:
        try:
            p.index
        except AttributeError:
            pass
        else:
            require(False, f"{a} has an index")
    ctx.trans(6)


def case_pauli_text(ctx, text):
    try:
        p = Pauli.from_string(text)
    except ValueError:
        require(text not in ("I", "X", "Y", "Z"), "valid text rejected")
    else:
        require(str(p) == text, "invalid text accepted")
    ctx.trans()


def case_qudit_operator(ctx, x, z, field):
    value = (x, z)
    if field:
        F = galois.GF(field)
        value = tuple(F([x, z]))
    op = QuditOperator(value)
    text = str(op)
    require(text == text_of(0, x, z), f"text is {text}")
    back = QuditOperator.from_string(text)
    require(back == op and op == back, f"{text} is read back as {back.value}")
    require(tuple(map(int, (~op).value)) == (z, x), "Fourier transform")
    require(~~op == op, "Fourier transform is not an involution")
    if not field:
        require((-op).value == (-x, -z) and -(-op) == op, "negation")
        require(QuditOperator.from_string(str(-op)) == -op, f"{-op} is not read back")
    require((QuditOperator((x, z)) == QuditOperator((z, x))) == (x == z), "equality")
    require(op != value, "an operator equals a tuple")
    ctx.trans(6)


def case_classical(ctx, q, rows, width):
    F = galois.GF(q)
    matrix = F(np.array(rows, dtype=int).reshape(len(rows), width))
    code = codes.ClassicalCode(matrix)
    graph = code.graph
    want = {(i, j): v for i, row in enumerate(rows) for j, v in enumerate(row) if v}
    got = {}
    for a, b, data in graph.edges(data=True):
        require(not a.is_data and b.is_data, "edge orientation")
        got[a.index, b.index] = int(data["val"])
    require(got == want, f"edges {got}")
    for g in (graph, permuted(graph, "reversed"), permuted(graph, "halves"), permuted(graph, "edges_first")):
        back = codes.ClassicalCode.graph_to_matrix(g)
        require(type(back) is F and tup(back) == tup(rows) and back.shape == matrix.shape, f"read back as {back}")
        ctx.trans()
    require(codes.ClassicalCode(back) == code, "code differs")
    if q == 2 and len(rows):
        g = codes.ClassicalCode.matrix_to_graph([list(r) for r in rows])
        require(tup(codes.ClassicalCode.graph_to_matrix(g)) == tup(rows), "plain matrix")
    require(tup(matrix) == tup(rows), "matrix modified")


def case_quantum(ctx, q, rows, width):
    F = galois.GF(q)
    n = width // 2
    arr = np.array(rows, dtype=int).reshape(len(rows), width)
    code = codes.QuditCode(F(arr))
    graph = code.graph
    want = {}
    for i, row in enumerate(rows):
        for j in range(n):
            if row[j] or row[n + j]:
                want[i, j] = (row[j], row[n + j])
    got = {}
    for a, b, data in graph.edges(data=True):
        require(not a.is_data and b.is_data, "edge orientation")
        op = data[Pauli] if q == 2 else data[QuditOperator]
        got[a.index, b.index] = tuple(map(int, op.value))
    require(got == want, f"edges {got}")
    for g in (graph, permuted(graph, "reversed"), permuted(graph, "halves"), permuted(graph, "edges_first")):
        back = codes.QuditCode.graph_to_matrix(g)
        require(type(back) is F and back.shape == arr.shape and tup(back) == tup(rows), f"read back as {back}")
        ctx.trans()
    if q == 2 and rows:
        g = codes.QuditCode.matrix_to_graph([list(r) for r in rows])
        require(tup(codes.QuditCode.graph_to_matrix(g)) == tup(rows), "plain matrix")
    strings = code.get_strings()
    expect = [" ".join(text_of(q, r[j], r[n + j]) for j in range(n)) for r in rows]
    require(strings == expect, f"strings {strings}")
    if rows:
        back = codes.QuditCode.from_strings(*strings, field=q)
        require(back.field is F and tup(back.matrix) == tup(rows), f"{strings} are read back as {back.matrix}")
        require(back == code and back.get_strings() == strings, "strings round trip")
        back = codes.QuditCode.from_strings(*("  " + s.replace(" ", "\t ") for s in strings), field=q)
        require(back == code, "white space matters")
        ctx.trans(3)
        if len(rows) > 1 and n > 1:
            try:
                codes.QuditCode.from_strings(strings[0], *[s.rsplit(" ", 1)[0] for s in strings[1:]], field=q)
            except ValueError:
                pass
            else:
                require(False, "checks of different lengths accepted")
    require(tup(code.matrix) == tup(rows), "matrix modified")


def case_css(ctx, q, hx, hz, n):
    F = galois.GF(q)
    shaped = lambda rows: F(np.array(rows, dtype=int).reshape(len(rows), n))
    code = codes.CSSCode(shaped(hx), shaped(hz))
    zero = (0,) * n
    rows = tuple(tuple(r) + zero for r in hx) + tuple(zero + tuple(r) for r in hz)
    require(tup(code.matrix) == rows, "matrix")
    require(tup(codes.CSSCode.graph_to_matrix(code.graph)) == rows, "graph round trip")
    general = codes.QuditCode(F(np.array(rows)))
    require(code.get_strings() == general.get_strings(), "strings")
    require(codes.QuditCode.from_strings(*code.get_strings(), field=q) == general, "strings round trip")
    require(tup(code.code_x.matrix) == tup(hx) and tup(code.code_z.matrix) == tup(hz), "sectors")
    require(codes.QuditCode(code) == general, "copy as a general code")
    for part, hp in ((code.code_x, hx), (code.code_z, hz)):
        require(tup(codes.ClassicalCode.graph_to_matrix(part.graph)) == tup(hp), "classical graph")
    ctx.trans(5)


def case_conjugate(ctx, q, p):
    f, F = gf(q), galois.GF(q)
    twon = len(p)
    arr = F(list(p))
    before = vec(arr)
    one = qmath.symplectic_conjugate(arr)
    require(type(one) is F and one.shape == arr.shape, "type or shape")
    require(vec(arr) == before, "argument modified")
    conj = vec(one)
    for r in f.all_vectors(twon):
        require(f.dot(conj, r) == f.sympl(tuple(p), r), lambda: f"conjugate {conj} with {r}")
    two = qmath.symplectic_conjugate(F([list(p), list(p)[::-1]]))
    require(vec(two[0]) == conj and two.shape == (2, twon), "rows are not conjugated one by one")
    require(vec(two[1]) == vec(qmath.symplectic_conjugate(F(list(p)[::-1]))), "second row")
    back = qmath.symplectic_conjugate(one)
    require(vec(back) == vec(-arr), "conjugating twice is not a sign")
    if q in PRIME:
        plain = qmath.symplectic_conjugate(np.array(p, dtype=int))
        require(tuple(int(x) % q for x in plain) == conj, "plain integers")
    if q == 2:
        s = qmath.op_to_string(np.array(p, dtype=int))
        n = twon // 2
        require(isinstance(s, stim.PauliString), "type of Pauli string")
        require(str(s) == "+" + "".join("_ZXY"[2 * p[j] + p[n + j]] for j in range(n)), f"Pauli string {s}")
        xs, zs = s.to_numpy()
        require((*map(int, xs), *map(int, zs)) == tuple(p), "Pauli string round trip")
        require(qmath.op_to_string(F(list(p))) == s, "Pauli string of field elements")
    ctx.trans(q**twon)


def case_nodes(ctx, i, j, a, b):
    x, y = Node(i, a), Node(j, b)
    require((x == y) == ((i, a) == (j, b)), "equality of nodes")
    if x == y:
        require(hash(x) == hash(y), "hash")
    require((str(x) == str(y)) == (x == y), "text of nodes")
    require(not (x < y and y < x) and (x == y or x < y or y < x), "order of nodes")
    ctx.trans(3)


def case_first(ctx, q, rows, width):
    m = galois.GF(q)(np.array(rows, dtype=int).reshape(len(rows), width))
    got = vec(qmath.first_nonzero_cols(m))
    want = tuple(next((j for j, x in enumerate(r) if x), 0) for r in rows)
    require(got == want, f"{got}")
    ctx.trans()


def build_code(q, desc):
    """A quantum code from its checks, given as one matrix or as an X part and a Z part."""
    if desc[0] == "css":
        _, n, hx, hz = desc
        return codes.CSSCode(np.array(hx, dtype=int).reshape(-1, n), np.array(hz, dtype=int).reshape(-1, n), field=q)
    return codes.QuditCode(np.array(desc[2], dtype=int).reshape(-1, 2 * desc[1]), field=q)


def span_of(f, desc):
    n = desc[1]
    if desc[0] == "css":
        rows = [tuple(r) + (0,) * n for r in desc[2]] + [(0,) * n + tuple(r) for r in desc[3]]
    else:
        rows = [tuple(r) for r in desc[2]]
    return n, (tuple(f.rref(rows)[0]) if rows else ())


_BUILT = {}


def built(q, desc):
    key = repr((q, desc))
    if key not in _BUILT:
        _BUILT[key] = build_code(q, desc), span_of(gf(q), desc)
    return _BUILT[key]


def case_equiv(ctx, q, a, others):
    """Equivalence of two codes is equality of the spaces spanned by their checks."""
    code, span = built(q, a)
    for b in others:
        other, span_b = built(q, b)
        for cls in {codes.QuditCode, type(code), type(other)}:
            require(cls.equiv(code, other) == (span == span_b), f"{cls.__name__}.equiv of {a} and {b} over GF({q}): {cls.equiv(code, other)}")
        if type(code) is type(other):
            require((code == other) == (a == b), f"equality of {a} and {b}")
        ctx.trans()
    for p in {2, 3, 4} - {q}:
        other = build_code(p, [a[0], a[1]] + [[] for _ in a[2:]])
        require(not type(code).equiv(code, other) and code != other, "codes over different fields are equivalent")


def case_unfit(ctx, q, n):
    """Parts that do not fit together, and fields that contradict each other, are rejected."""
    other = 3 if q == 2 else 2
    ones = np.ones((1, n), dtype=int)
    code = codes.ClassicalCode(ones, field=q)
    css = codes.CSSCode(ones, np.zeros((0, n), dtype=int), field=q)
    for what, make in [
        ("a classical code and another field", lambda: codes.ClassicalCode(code, field=other)),
        ("a quantum code and another field", lambda: codes.QuditCode(css, field=other)),
        ("X and Z checks of different lengths", lambda: codes.CSSCode(ones, np.ones((1, n + 1), dtype=int), field=q)),
        ("X and Z codes over different fields", lambda: codes.CSSCode(code, codes.ClassicalCode(ones, field=other))),
        ("X and Z codes and another field", lambda: codes.CSSCode(code, code, field=other)),
    ] + ([] if q == 2 else [("the number of qubits of a code for larger qudits", lambda: css.num_qubits)]):
        try:
            make()
        except Exception:  # noqa: BLE001
            continue
        require(False, f"accepted: {what}")
    if q == 2:
        require(css.num_qubits == n, "number of qubits")
    for same in (codes.ClassicalCode(code, field=q), codes.ClassicalCode(code)):
        require(same == code and same.field is code.field, "copy of a classical code")
    require(css.num_qudits == len(css) == n, "number of qudits")
    ctx.trans(8)


CASES = {
    "equiv": case_equiv,
    "unfit": case_unfit,
    "pauli": case_pauli,
    "pauli_text": case_pauli_text,
    "qudit_operator": case_qudit_operator,
    "classical": case_classical,
    "quantum": case_quantum,
    "css": case_css,
    "conjugate": case_conjugate,
    "nodes": case_nodes,
    "first": case_first,
}


def unit_paulis(ctx):
    for a, b in itertools.product("IXYZ", repeat=2):
        ctx.case("pauli", {"a": a, "b": b})
    for size in range(3):
        for t in itertools.product("IXYZixyz+-_ 1", repeat=size):
            ctx.case("pauli_text", {"text": "".join(t)})
    for x, z in itertools.product(range(0, 13), repeat=2):
        ctx.case("qudit_operator", {"x": x, "z": z, "field": 0})
    for q in (2, 3, 4, 5, 7, 8, 9, 11, 25):
        for x, z in itertools.product(range(q), repeat=2):
            ctx.case("qudit_operator", {"x": x, "z": z, "field": q})
    for i, j, a, b in itertools.product(range(3), range(3), (True, False), (True, False)):
        ctx.case("nodes", {"i": i, "j": j, "a": a, "b": b})


def unit_classical(ctx, q, m, n, part, parts):
    for i, rows in enumerate(gf(q).all_matrices(m, n)):
        if i % parts == part:
            ctx.case("classical", {"q": q, "rows": rows, "width": n})
            if m:
                ctx.case("first", {"q": q, "rows": rows, "width": n})


def unit_quantum(ctx, q, m, n, part, parts):
    for i, rows in enumerate(gf(q).all_matrices(m, 2 * n)):
        if i % parts == part:
            ctx.case("quantum", {"q": q, "rows": rows, "width": 2 * n})


def unit_css(ctx, q, mx, mz, n):
    f = gf(q)
    for hx in f.all_matrices(mx, n):
        for hz in f.all_matrices(mz, n):
            ctx.case("css", {"q": q, "hx": hx, "hz": hz, "n": n})


def unit_conjugate(ctx, q, n):
    for p in gf(q).all_vectors(2 * n):
        ctx.case("conjugate", {"q": q, "p": p})


def unit_larger(ctx, q, n, part, parts, stride):
    """More qudits (so that labels have several digits): cyclic checks, with the columns of the second half reversed."""
    j = 0
    for i, rows in enumerate(ref.cyclic_checks(q, n) if n <= 6 else sparse_checks(q, n)):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("quantum", {"q": q, "rows": rows[: n - i % 3], "width": 2 * n})
            j += 1
    for i, rows in enumerate(ref.cyclic_rows(q, n) if q**n < 5000 else ()):
        if i % stride == 0 and (i // stride) % parts == part:
            rows = [r[::-1] for r in rows[: max(1, n - i % 4)]]
            ctx.case("classical", {"q": q, "rows": rows, "width": n})
            ctx.case("first", {"q": q, "rows": rows, "width": n})
            if n < 13:
                ctx.case("css", {"q": q, "hx": rows[:2], "hz": rows[-1:], "n": n})


def sparse_checks(q, n):
    """The checks with one operator of weight at most two, and all their shifts."""
    for d in range(n):
        for x, z in itertools.product(range(q), repeat=2):
            for x2, z2 in ((1, 0), (0, q - 1)):
                seed = [(0, 0)] * n
                seed[0] = (x, z)
                seed[d] = (x2, z2)
                yield tuple(
                    tuple(seed[(i - s) % n][0] for i in range(n)) + tuple(seed[(i - s) % n][1] for i in range(n))
                    for s in range(n)
                )


def unit_equiv(ctx, q, n, part, parts):
    f = gf(q)
    descs = [["plain", n, [list(r) for r in rows]] for m in range(3) for rows in f.all_matrices(m, 2 * n) if m < 2 or q ** (4 * n) <= 256]
    if q ** (2 * n) <= 16:
        descs += [["css", n, [list(r) for r in hx], [list(r) for r in hz]] for mx in range(3) for mz in range(3) for hx in f.all_matrices(mx, n) for hz in f.all_matrices(mz, n) if q ** (n * (mx + mz)) <= 81]
    others = descs if len(descs) <= 700 else descs[:: len(descs) // 700 + 1]
    for i, a in enumerate(descs):
        if i % parts == part:
            ctx.case("equiv", {"q": q, "a": a, "others": others})


def unit_unfit(ctx):
    for q in (2, 3, 4, 5, 7, 8, 9):
        for n in (1, 2, 3):
            ctx.case("unfit", {"q": q, "n": n})


UNITS = {
    "larger": unit_larger,
    "equiv": unit_equiv,
    "unfit": unit_unfit,
    "paulis": unit_paulis,
    "classical": unit_classical,
    "quantum": unit_quantum,
    "css": unit_css,
    "conjugate": unit_conjugate,
}


def units(tier):
    limit = 300000 if tier == "thorough" else 4100
    pairs = 2000000 if tier == "thorough" else 70000
    out = [("paulis", {}), ("unfit", {})]
    for q, n in ((2, 1), (2, 2), (3, 1), (4, 1)) + (((5, 1), (2, 3)) if tier == "thorough" else ()):
        parts = 8 if q ** n == 4 else 2
        out += [("equiv", {"q": q, "n": n, "part": p, "parts": parts}) for p in range(parts)]
    for q in (2, 3, 4, 5, 7, 8, 9):
        for m, n in itertools.product(range(0, 5), range(1, 5)):
            size = q ** (m * n)
            if size <= min(limit, 20000):
                parts = max(1, size // 1000)
                out += [("classical", {"q": q, "m": m, "n": n, "part": p, "parts": parts}) for p in range(parts)]
            size = q ** (2 * m * n)
            if size <= limit:
                parts = max(1, size // 500)
                out += [("quantum", {"q": q, "m": m, "n": n, "part": p, "parts": parts}) for p in range(parts)]
        for n in range(1, 5):
            if q ** (4 * n) <= pairs:
                out.append(("conjugate", {"q": q, "n": n}))
    for q, mx, mz, n in ((2, 1, 1, 3), (2, 2, 1, 3), (2, 1, 2, 3), (2, 2, 2, 2), (3, 1, 1, 2), (3, 2, 1, 2), (4, 1, 1, 2), (5, 1, 1, 2)):
        out.append(("css", {"q": q, "mx": mx, "mz": mz, "n": n}))
    for q, n, stride, parts in ((2, 4, 1, 1), (2, 5, 1, 2), (2, 6, 3, 2), (2, 11, 1, 2), (2, 12, 1, 2), (2, 13, 7, 1), (2, 101, 97, 2),
                                (3, 3, 2, 1), (3, 4, 13, 1), (3, 12, 7, 1), (4, 3, 11, 1), (5, 3, 41, 1), (7, 2, 11, 1), (8, 2, 13, 1),
                                (9, 2, 17, 1), (9, 11, 61, 2)):
        stride = max(1, stride // 6) if tier == "thorough" else stride
        out += [("larger", {"q": q, "n": n, "part": p, "parts": parts, "stride": stride}) for p in range(parts)]
    return out
