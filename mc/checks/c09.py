"""C09: answers about a code do not depend on what was asked or derived before."""

import copy
import itertools

import galois
import networkx as nx
import numpy as np
from qldpc import circuits, codes
from qldpc.objects import Pauli, QuditOperator

from mc import qcommon, ref
from mc.core import require
from mc.ref import gf, hamming, tup, vec

PROPERTY = "C09"
ASSUMPTIONS = ["galois array primitives are exact", "reference models in mc/ref.py", "histories are sequences of the operations listed in this file"]
BOUNDS = {
    "quick": "every sequence of <=2 operations out of 39 on 16 quantum codes (every 7th pair on 5 larger ones) and out of 26 on 10 classical codes; every sequence of 3 operations out of 9 on 4 quantum and 2 classical codes; a full audit of the code, of all derived codes and of all arrays and graphs passed in after each sequence",
    "thorough": "in addition every pair on all codes, every 5th sequence of 3 operations out of 39 on 4 codes, every sequence of 4 operations out of 9 on 1 code and of 3 operations out of 26 on 1 classical code",
}
CASE_TIMEOUT = 200


def warmup():
    for q in (2, 3, 4):
        c = codes.QuditCode(np.array([[1, 0, 0, 0], [0, 0, 0, 1]]), q)
        c.get_logical_ops(), c.get_gauge_ops(), c.get_distance()
        c = codes.CSSCode([[1, 1, 0]], [[0, 0, 1]], q)
        c.get_logical_ops(), c.get_gauge_ops(), c.get_distance(bound=1)


def snap_array(a):
    return (type(a), a.shape, np.array(a).tobytes())


def snap_data(d):
    """Node or edge data; operators are compared by value."""
    plain = lambda x: tuple(map(int, x.value)) if isinstance(x, (QuditOperator, Pauli)) else str(x)
    return sorted((getattr(k, "__name__", str(k)), plain(v)) for k, v in d.items())


def snap_graph(g):
    return (
        sorted(str((str(x), snap_data(d))) for x, d in g.nodes(data=True)),
        sorted(str((str(x), str(y), snap_data(d))) for x, y, d in g.edges(data=True)),
    )


def snap_code(code):
    out = [type(code), tup(code.matrix)]
    if isinstance(code, codes.QuditCode):
        out.append(None if getattr(code, "_logical_ops", None) is None else tup(code._logical_ops))
        out.append(len(code))
    else:
        out.append(None if getattr(code, "_generator", None) is None else tup(code._generator))
    return out


class World:
    """The main code, everything derived from it, and everything a caller passed in."""

    def __init__(self, code, inputs):
        self.main = code
        self.first = tup(code.matrix)
        self.inputs = [(a, snap_array(a) if isinstance(a, np.ndarray) else snap_graph(a)) for a in inputs]
        self.others = []  # (code object, snapshot, what)
        self.answers = {}

    def give(self, array):
        """An array handed to the library by the caller."""
        self.inputs.append((array, snap_array(array)))
        return array

    def keep(self, other, what):
        """A code object that later operations on other codes must not change."""
        self.others.append([other, snap_code(other), what])
        return other

    def repeat(self, key, answer):
        if key in self.answers:
            require(self.answers[key] == answer, lambda: f"{key}: {answer} instead of {self.answers[key]} before")
        self.answers[key] = answer

    def check_others(self):
        require(tup(self.main.matrix) == self.first, "the checks of the code were changed")
        for entry in self.others:
            code, before, what = entry
            now = snap_code(code)
            # lazily computed operators may appear, but never change
            ok = all(a == b or b is None for a, b in zip(now, before))
            require(ok, lambda: f"{what} was changed: {before} -> {now}")
            entry[1] = now
        for a, before in self.inputs:
            now = snap_array(a) if isinstance(a, np.ndarray) else snap_graph(a)
            require(now == before, "an object passed in by the caller was changed")


def nanless(x):
    return None if isinstance(x, float) and np.isnan(x) else x


# -- quantum codes ---------------------------------------------------------------------------------


def q_reduce(w):
    if isinstance(w.main, codes.CSSCode) and w.main.dimension:
        w.main.reduce_logical_ops()


def q_set_logical(w):
    c = w.main
    L = w.give(np.array(c.get_logical_ops(), dtype=int))
    c.set_logical_ops(L)


def q_set_new(w):
    """Replace logical operators by an equivalent set (each X multiplied by a stabilizer)."""
    c = w.main
    f = gf(c.field.order)
    L = list(tup(c.get_logical_ops()))
    n = len(c)
    S = [s for s in f.rref(tup(c.get_stabilizer_ops()))[0] if any(s[:n]) or not isinstance(c, codes.CSSCode)]
    S = [s for s in S if not isinstance(c, codes.CSSCode) or not any(s[n:])]
    if L and S:
        L[0] = f.vadd(L[0], S[0])
        c.set_logical_ops(w.give(c.field(np.array(L))))


def q_share(w):
    """Another code takes over the logical operators that this code returned."""
    c = w.main
    other = w.keep(copy.copy(c), "a code sharing the logical operators")
    if c.dimension:
        other.set_logical_ops(c.get_logical_ops())
    w.others[-1][1] = snap_code(other)


def q_copy(w):
    other = w.keep(codes.QuditCode(w.main), "a copy of the code")
    require(np.array_equal(other.matrix, w.main.matrix), "copy has other checks")
    require(other.dimension == w.main.dimension, "copy has another dimension")


def q_shallow(w):
    w.keep(copy.copy(w.main), "a shallow copy")


def q_swap_copy(w):
    """Go on with a copy; the original must stay as it is."""
    old = w.main
    w.main = copy.copy(old) if isinstance(old, codes.CSSCode) else codes.QuditCode(old)
    w.keep(old, "the original of the copy")


def q_dual(w):
    d = w.main.get_dual_subsystem_code()
    if d.dimension or d.gauge_dimension:
        w.keep(d, "the dual subsystem code")


def q_conj(w):
    d = w.keep(w.main.conjugated([0]), "the conjugated code")
    d.get_logical_ops()


def q_conj_default(w):
    w.keep(w.main.conjugated(), "the conjugated code")


def q_deform(w):
    if w.main.field.order == 2:
        w.keep(w.main.deformed("H 0"), "the deformed code")
        try:
            w.keep(w.main.deformed("S 0", preserve_logicals=True), "the deformed code")
        except ValueError:
            pass


def q_stack(w):
    cls = codes.CSSCode if isinstance(w.main, codes.CSSCode) else codes.QuditCode
    if len(w.main) < 6:
        w.keep(cls.stack(w.main, w.main), "the stacked code")
        w.keep(cls.stack(w.main, w.main, inherit_logicals=False), "the stacked code")


def q_concat(w):
    c = w.main
    k = c.dimension
    if not k or len(c) > 7:
        return
    q = c.field.order
    outer = codes.CSSCode([[1] * k], [[0] * k], q)
    cls = codes.CSSCode if isinstance(c, codes.CSSCode) else codes.QuditCode
    perm = list(range(k))[::-1]
    w.keep(outer, "the outer code")
    w.keep(cls.concatenate(c, outer, perm), "the concatenated code")


def q_concat_outer(w):
    c = w.main
    n = len(c)
    if n > 4:
        return
    inner = codes.CSSCode([[0] * n], [[0] * n], c.field.order)
    inner.get_logical_ops()
    w.keep(inner, "the inner code")
    cls = codes.CSSCode if isinstance(c, codes.CSSCode) else codes.QuditCode
    w.keep(cls.concatenate(inner, c, {i: (i + 1) % n for i in range(n)}), "the concatenated code")


def q_encode(w):
    if w.main.field.order == 2:
        w.repeat("encoding circuit", len(circuits.get_encoding_circuit(w.main)) >= 0)


def q_bound(w):
    if isinstance(w.main, codes.CSSCode):
        w.main.get_distance_bound(1)
        w.main.get_distance(Pauli.Z, bound=1)


def q_random(w):
    if isinstance(w.main, codes.CSSCode) and w.main.dimension:
        w.main.get_random_logical_op(Pauli.X, seed=3, ensure_nontrivial=True)


def q_standard(w):
    c = w.main
    if isinstance(c, codes.CSSCode):
        c.get_standard_form_data_xz()
    try:
        c.get_standard_form_data()
    except ValueError:  # some subsystem codes have none
        pass


def q_rate(w):
    c = w.main
    if isinstance(c, codes.CSSCode) and c.field.order == 2 and c.dimension and not c.is_subsystem_code:
        rate, _ = c.get_logical_error_rate_func(4, 0.2)(0.1)
        require(0 <= rate <= 1, "logical error rate")


Q_OPS = {
    "dimension": lambda w: w.repeat("dimension", w.main.dimension),
    "gauge_dimension": lambda w: w.repeat("gauge dimension", w.main.gauge_dimension),
    "rank": lambda w: w.repeat("rank", w.main.rank),
    "graph": lambda w: w.repeat("graph", snap_graph(w.main.graph)),
    "canonical": lambda w: w.repeat("canonicalized", tup(w.main.canonicalized.matrix)),
    "strings": lambda w: w.repeat("strings", w.main.get_strings()),
    "weight": lambda w: w.repeat("weight", (w.main.get_weight(), str(w.main), len(w.main), w.main.num_checks)),
    "params": lambda w: w.repeat("params", tuple(map(nanless, w.main.get_code_params()))),
    "L": lambda w: w.main.get_logical_ops(),
    "LZ": lambda w: w.main.get_logical_ops(Pauli.Z),
    "L_general": lambda w: codes.QuditCode.get_logical_ops(w.main, Pauli.X),
    "recompute": lambda w: w.main.get_logical_ops(recompute=True),
    "S": lambda w: w.main.get_stabilizer_ops(),
    "SX": lambda w: w.main.get_stabilizer_ops(Pauli.X),
    "S_canonical": lambda w: w.main.get_stabilizer_ops(canonicalized=True),
    "S_recompute": lambda w: w.main.get_stabilizer_ops(recompute=True),
    "G": lambda w: w.main.get_gauge_ops(),
    "GZ": lambda w: w.main.get_gauge_ops(Pauli.Z),
    "distance": lambda w: w.repeat("distance", nanless(w.main.get_distance())),
    "distance_x": lambda w: w.repeat("X distance", nanless(w.main.get_distance(Pauli.X))) if isinstance(w.main, codes.CSSCode) else None,
    "known": lambda w: w.main.get_distance_if_known(),
    "bound": q_bound,
    "standard_form": q_standard,
    "random": q_random,
    "reduce": q_reduce,
    "set": q_set_logical,
    "set_new": q_set_new,
    "share": q_share,
    "copy": q_copy,
    "shallow": q_shallow,
    "swap_copy": q_swap_copy,
    "dual": q_dual,
    "conjugate": q_conj,
    "conjugate_default": q_conj_default,
    "deform": q_deform,
    "stack": q_stack,
    "concat": q_concat,
    "concat_outer": q_concat_outer,
    "encode": q_encode,
    "rate": q_rate,
}
Q_SHORT = ["L", "recompute", "S_recompute", "G", "distance", "reduce", "set_new", "share", "swap_copy"]


def q_array(rows, q, css=False, n=None, as_field=False):
    if css:
        arrays = [np.array(r) for r in rows]
        if as_field:
            arrays = [galois.GF(q)(a) for a in arrays]
        return lambda: World(codes.CSSCode(*arrays, field=None if as_field else q), arrays)
    array = np.array(rows)
    if as_field:
        array = galois.GF(q)(array)
    return lambda: World(codes.QuditCode(array, field=None if as_field else q), [array])


def q_named(make):
    return lambda: World(make(), [])


def q_from_classical():
    a, b = codes.ClassicalCode([[1, 1, 0, 0], [0, 0, 1, 1]]), codes.ClassicalCode([[1, 1, 1, 1]])
    w = World(codes.CSSCode(a, b), [a.matrix, b.matrix])
    w.keep(a, "the classical X code"), w.keep(b, "the classical Z code")
    return w


def q_hgp():
    a, b = codes.RepetitionCode(2), codes.ClassicalCode([[1, 1], [1, 1]])
    w = World(codes.HGPCode(a, b), [a.matrix, b.matrix])
    w.keep(a, "the seed code"), w.keep(b, "the seed code")
    return w


QUANTUM = {
    "general": q_array([[1, 0, 0, 1, 1, 0], [0, 1, 1, 0, 0, 1]], 2),
    "general_field": q_array([[1, 1, 0, 0], [1, 1, 0, 0]], 2, as_field=True),
    "subsystem": q_array([[1, 1, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1]], 2),
    "nonstandard": q_array([[1, 0, 0, 1], [0, 1, 1, 1], [1, 1, 0, 0]], 2),
    "no_logical": q_array([[1, 1, 0, 0], [0, 0, 1, 1]], 2),
    "css": q_array([[[1, 1, 0, 0]], [[1, 1, 1, 1]]], 2, css=True),
    "css_field": q_array([[[1, 1, 1, 1], [1, 1, 1, 1]], [[1, 1, 1, 1]]], 2, css=True, as_field=True),
    "css_subsystem": q_array([[[1, 1, 0], [0, 1, 1]], [[1, 0, 0]]], 2, css=True),
    "qutrit": q_array([[1, 0, 0, 1], [0, 0, 0, 0]], 3),
    "qutrit_css": q_array([[[1, 2, 0]], [[1, 1, 1]]], 3, css=True),
    "qutrit_subsystem": q_array([[[1, 1]], [[1, 0]]], 3, css=True),
    "ququart": q_array([[[1, 2]], [[2, 1]]], 4, css=True),
    "from_classical": q_from_classical,
    "hgp": q_hgp,
    "five": q_named(codes.FiveQubitCode),
    "steane": q_named(codes.SteaneCode),
    "c4": q_named(codes.C4Code),
    "c6": q_named(codes.C6Code),
    "bacon": q_named(lambda: codes.BaconShorCode(2)),
    "surface": q_named(lambda: codes.SurfaceCode(2)),
    "shp": q_named(lambda: codes.SHPCode(codes.RepetitionCode(2))),
    "surface3": q_named(lambda: codes.SurfaceCode(2, rotated=False, field=3)),
}


def audit_quantum(ctx, name, w):
    code = w.main
    css = isinstance(code, codes.CSSCode)
    q = code.field.order
    rows = w.first
    twon = len(rows[0])
    n = twon // 2
    f = gf(q)
    G, S, k, g, L, gauges = qcommon.check_quantum_code(code, q, rows, css=css)
    if q ** (2 * n - len(S)) * q ** len(G) <= 300000 and q**twon <= 20000:
        want = ref.quantum_distance(f, S, twon, G) if k else None
        for known in (code.get_distance_if_known(), code.get_distance(), code.get_distance_if_known()):
            require(known is None or nanless(known) == want, f"distance {known} instead of {want}")
        if css:
            for p, s in ((Pauli.X, "X"), (Pauli.Z, "Z")):
                hx, hz = tup(code.matrix_x), tup(code.matrix_z)
                want = ref.css_distance(f, hx, hz, n, s) if k else None
                require(nanless(code.get_distance(p)) == want, f"{s} distance is not {want}")
    fresh = QUANTUM[name]().main
    require(code == fresh or not isinstance(code, type(fresh)), "no longer equal to a fresh code")
    require(code.get_strings() == fresh.get_strings(), "strings")
    require(snap_graph(code.graph) == snap_graph(fresh.graph), "Tanner graph")
    require(tup(code.canonicalized.matrix) == tup(fresh.canonicalized.matrix), "canonical form")
    require(code.get_weight() == fresh.get_weight() and code.num_checks == fresh.num_checks, "weight")
    w.check_others()
    for other, _, what in list(w.others):
        if len(other) <= 4 and isinstance(other, codes.QuditCode):
            qcommon.check_quantum_code(other, q, tup(other.matrix), css=isinstance(other, codes.CSSCode))
    w.check_others()


# -- classical codes -------------------------------------------------------------------------------


def c_words(w):
    w.repeat("words", sorted(vec(x) for x in w.main.iter_words()))


def c_set_generator(w):
    c = w.main
    f = gf(c.field.order)
    G = f.rref(tup(c.generator))[0]
    if len(G) > 1:
        G = (f.vadd(G[0], G[1]), *G[1:])
    if G:
        c.set_generator(w.give(np.array(G)))


def c_copy(w):
    w.keep(codes.ClassicalCode(w.main), "a copy")


def c_swap(w):
    old = w.main
    w.main = codes.ClassicalCode(old)
    w.keep(old, "the original of the copy")


def c_puncture(w):
    if len(w.main) > 1:
        w.keep(w.main.puncture(0), "the punctured code")


def c_shorten(w):
    if len(w.main) > 1:
        w.keep(w.main.shorten(len(w.main) - 1), "the shortened code")


def c_tanner(w):
    c = w.main
    n = len(c)
    graph = nx.DiGraph() if False else nx.star_graph(n)
    graph = nx.relabel_nodes(graph, {i: str(i) for i in graph})
    w.inputs.append((graph, snap_graph(graph)))
    if c.field.order == 2 and n > 1:
        digraph = nx.DiGraph()
        for i in range(n):
            digraph.add_edge("c", f"b{i}", sort=i)
        w.inputs.append((digraph, snap_graph(digraph)))
        t = codes.TannerCode(digraph, c)
        w.keep(t, "the Tanner code")


def c_css(w):
    c = w.main
    css = w.keep(codes.CSSCode(c, c), "the CSS code")
    css.get_logical_ops()
    if len(c) < 4:
        hgp = w.keep(codes.HGPCode(c), "the hypergraph product")
        if hgp.field.order == 2:
            hgp.dimension


def c_graph(w):
    g = w.main.graph
    w.repeat("graph", snap_graph(g))
    w.repeat("graph round trip", tup(codes.ClassicalCode.graph_to_matrix(g)))


def c_vector(w):
    v = w.give(np.ones(len(w.main), dtype=int))
    w.repeat("vector distance", w.main.get_distance(vector=v))
    w.main.get_distance_bound(1, vector=v)


C_OPS = {
    "words": c_words,
    "dimension": lambda w: w.repeat("dimension", w.main.dimension),
    "rank": lambda w: w.repeat("rank", w.main.rank),
    "generator": lambda w: w.main.generator,
    "set_generator": c_set_generator,
    "canonical": lambda w: w.repeat("canonicalized", tup(w.main.canonicalized.matrix)),
    "dual": lambda w: w.keep(w.main.dual(), "the dual") and None,
    "double_dual": lambda w: w.keep(~(~w.main), "the double dual") and None,
    "distance": lambda w: w.repeat("distance", nanless(w.main.get_distance())),
    "known": lambda w: w.main.get_distance_if_known(),
    "bound": lambda w: w.main.get_distance(bound=1),
    "vector": c_vector,
    "params": lambda w: w.repeat("params", tuple(map(nanless, w.main.get_code_params()))),
    "weight": lambda w: w.repeat("weight", (w.main.get_weight(), str(w.main), len(w.main), w.main.num_checks)),
    "contains": lambda w: w.repeat("contains", w.give(np.ones(len(w.main), dtype=int)) in w.main),
    "random": lambda w: w.repeat("word", vec(w.main.get_random_word(seed=4))) if False else w.main.get_random_word(seed=4),
    "copy": c_copy,
    "swap_copy": c_swap,
    "stack": lambda w: w.keep(codes.ClassicalCode.stack(w.main, w.main), "the stacked code") and None,
    "tensor": lambda w: w.keep(codes.ClassicalCode.tensor_product(w.main, w.main), "the product code") and None,
    "puncture": c_puncture,
    "shorten": c_shorten,
    "from_generator": lambda w: w.keep(codes.ClassicalCode.from_generator(w.main.generator), "code from the generator") and None,
    "tanner": c_tanner,
    "css": c_css,
    "graph": c_graph,
    "rate": lambda w: w.main.get_logical_error_rate_func(3, 0.2)(0.1),
}
C_SHORT = ["generator", "set_generator", "swap_copy", "dual", "stack", "tensor", "puncture", "shorten", "distance"]


def c_array(rows, q, as_field=False):
    array = np.array(rows)
    if as_field:
        array = galois.GF(q)(array)
    return lambda: World(codes.ClassicalCode(array, None if as_field else q), [array])


CLASSICAL = {
    "small": c_array([[1, 1, 0]], 2),
    "dependent": c_array([[1, 1, 0, 1], [0, 0, 0, 0], [1, 1, 0, 1]], 2, True),
    "full": c_array([[0, 0, 0]], 2),
    "trivial": c_array([[1, 0], [0, 1], [1, 1]], 2),
    "rep": lambda: World(codes.RepetitionCode(3), []),
    "hamming": lambda: World(codes.HammingCode(2), []),
    "ring": lambda: World(codes.RingCode(3), []),
    "ternary": c_array([[1, 2, 1]], 3),
    "quaternary": c_array([[1, 2, 0], [0, 3, 1]], 4, True),
    "reed_muller": lambda: World(codes.ReedMullerCode(1, 2), []),
}


def audit_classical(ctx, name, w):
    code = w.main
    q = code.field.order
    f = gf(q)
    rows = w.first
    n = len(rows[0])
    null = f.null_space(rows, n)
    words = sorted(f.span(null, n)) if null else [(0,) * n]
    require(len(code) == n and code.dimension == len(null) and code.rank == n - len(null), "parameters")
    require(sorted(vec(x) for x in code.iter_words()) == words, "words")
    require(f.rref(tup(code.generator))[0] == null, "generator")
    want = min((hamming(x) for x in words if any(x)), default=None)
    for d in (code.get_distance_if_known(), code.get_distance(), code.get_distance_if_known()):
        require(d is None or nanless(d) == want, f"distance {d} instead of {want}")
    require(f.rref(tup(code.canonicalized.matrix))[0] == f.rref(rows)[0], "canonical form")
    dual = code.dual()
    require(f.rref(tup(dual.matrix))[0] == null, "dual code")
    fresh = CLASSICAL[name]().main
    require(snap_graph(code.graph) == snap_graph(fresh.graph), "Tanner graph")
    require(code.get_weight() == fresh.get_weight() and code == fresh, "weight or equality")
    w.check_others()
    for other, _, what in list(w.others):
        if isinstance(other, codes.ClassicalCode) and q ** len(other) <= 300:
            m = tup(other.matrix)
            nul = f.null_space(m, len(other))
            require(f.rref(tup(other.generator))[0] == nul, f"{what}: generator")
            require(other.dimension == len(nul), f"{what}: dimension")
    w.check_others()


# -- exploring histories ---------------------------------------------------------------------------


def run(ctx, table, ops, audit, name, sequence):
    w = table[name]()
    for op in sequence:
        ops[op](w)
        ctx.trans()
        w.check_others()
    audit(ctx, name, w)


def case_quantum(ctx, name, sequence):
    run(ctx, QUANTUM, Q_OPS, audit_quantum, name, sequence)


def case_classical(ctx, name, sequence):
    run(ctx, CLASSICAL, C_OPS, audit_classical, name, sequence)


CASES = {"quantum": case_quantum, "classical": case_classical}


def unit_histories(ctx, kind, name, depth, short, part, parts, stride=1):
    ops = (Q_SHORT if short else list(Q_OPS)) if kind == "quantum" else (C_SHORT if short else list(C_OPS))
    for i, sequence in enumerate(itertools.product(ops, repeat=depth)):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case(kind, {"name": name, "sequence": sequence})


UNITS = {"histories": unit_histories}


def units(tier):
    deep = tier == "thorough"
    out = []

    def add(kind, name, depth, short, parts, stride=1):
        for part in range(parts):
            out.append(("histories", {"kind": kind, "name": name, "depth": depth, "short": short, "part": part, "parts": parts, "stride": stride}))

    heavy = {"five", "steane", "shp", "surface3", "hgp"}
    for name in QUANTUM:
        add("quantum", name, 1, False, 1)
        add("quantum", name, 2, False, 4, stride=1 if deep or name not in heavy else 7)
    for name in CLASSICAL:
        add("classical", name, 1, False, 1)
        add("classical", name, 2, False, 2)
    for name in ("subsystem", "css_subsystem", "css", "qutrit_css"):
        add("quantum", name, 3, True, 4)
    for name in ("small", "dependent"):
        add("classical", name, 3, True, 2)
    if deep:
        for name in ("subsystem", "css_subsystem", "css", "bacon"):
            add("quantum", name, 3, False, 32, stride=5)
        add("quantum", "css_subsystem", 4, True, 32)
        add("classical", "dependent", 3, False, 16)
    return out
