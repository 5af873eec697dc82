"""C02: operations that derive classical codes have exactly their defining word set."""

import itertools

import galois
import networkx as nx
import numpy as np
from qldpc import codes

from mc import ref
from mc.core import require
from mc.ref import gf, tup, vec

PROPERTY = "C02"
ASSUMPTIONS = ["galois array primitives are exact", "word sets are enumerated explicitly by mc/ref.py"]
BOUNDS = {
    "quick": "all operand codes (subspace x presentation) with n<=4 (q=2), n<=3 (q=3), n<=2 (q=4,5); all pairs for stack/tensor with n<=3 (q=2), n<=2 (q=3,4); all bit subsets; Tanner codes on all graphs with <=2 check nodes and <=4 bits; operation sequences of depth 3; cyclic check matrices n=5,6 and every third n=7 (q=2), n=4 (q=3), n=3 (q=4,5), n=2 (q=7,8,9) for shortening, puncturing, generators and pairs",
    "thorough": "n<=5 (q=2), n<=3 (q=4,5); triples; sequences of depth 4",
}


def warmup():
    for q in (2, 3, 4, 5):
        c = codes.ClassicalCode([[1, 0, 1], [1, 1, 0]], q)
        c.generator, c.puncture(0).generator, c.shorten(1).generator
        codes.ClassicalCode.tensor_product(c, c).generator


def make(q, h):
    return codes.ClassicalCode([list(r) for r in h], q)


def span_set(f, rows, n):
    return set(f.span(f.rref(rows)[0], n)) if len(rows) else {(0,) * n}


def kernel_set(f, h):
    n = len(h[0])
    return span_set(f, f.null_space(h, n), n)


def check_words(ctx, code, q, words, n, what):
    f = gf(q)
    require(code.field is galois.GF(q), f"{what}: wrong field")
    require(len(code) == n, f"{what}: block length {len(code)} instead of {n}")
    H = tup(code.matrix)
    got = span_set(f, f.null_space(H, n), n)
    require(got == words, lambda: f"{what}: words are {sorted(got)} instead of {sorted(words)}")
    require(q**code.dimension == len(words), f"{what}: dimension {code.dimension}")
    listed = sorted(vec(w) for w in code.iter_words())
    require(listed == sorted(words), f"{what}: enumerated words are wrong")
    require(codes.ClassicalCode(code.matrix).dimension == code.dimension, f"{what}: stored dimension")
    ctx.trans()


def restrict(words, keep):
    return {tuple(w[i] for i in keep) for w in words}


def case_bits(ctx, q, h):
    f = gf(q)
    h = tup(h)
    n = len(h[0])
    words = kernel_set(f, h)
    code = make(q, h)
    gen0 = tup(code.generator)
    for r in range(0, n):
        for bits in itertools.combinations(range(n), r):
            for order in {bits, bits[::-1]}:
                keep = [i for i in range(n) if i not in bits]
                punctured = restrict(words, keep)
                shortened = restrict({w for w in words if not any(w[b] for b in bits)}, keep)
                check_words(ctx, code.puncture(*order), q, punctured, n - r, f"puncture{order}")
                check_words(ctx, code.shorten(*order), q, shortened, n - r, f"shorten{order}")
    require(tup(code.matrix) == h and tup(code.generator) == gen0, "operand was changed")


def case_generator(ctx, q, g):
    f = gf(q)
    g = tup(g)
    n = len(g[0])
    words = span_set(f, g, n)
    F = galois.GF(q)
    array = F(np.array(g))
    variants = [
        codes.ClassicalCode.from_generator([list(r) for r in g], q),
        codes.ClassicalCode.from_generator(np.array(g), q),
        codes.ClassicalCode.from_generator(array),
        codes.ClassicalCode.from_generator(array, q),
    ]
    if q == 2:
        variants.append(codes.ClassicalCode.from_generator(np.array(g)))
    for code in variants:
        check_words(ctx, code, q, words, n, "from_generator")
    require(tup(array) == g, "argument was changed")


def case_pair(ctx, q, ha, hb):
    f = gf(q)
    ha, hb = tup(ha), tup(hb)
    na, nb = len(ha[0]), len(hb[0])
    wa, wb = kernel_set(f, ha), kernel_set(f, hb)
    a, b = make(q, ha), make(q, hb)
    check_words(ctx, codes.ClassicalCode.stack(a, b), q, {x + y for x in wa for y in wb}, na + nb, "stack")
    ga, gb = f.null_space(ha, na), f.null_space(hb, nb)
    product = span_set(f, f.kron(ga, gb), na * nb) if ga and gb else {(0,) * (na * nb)}
    check_words(ctx, codes.ClassicalCode.tensor_product(a, b), q, product, na * nb, "tensor product")
    require(tup(a.matrix) == ha and tup(b.matrix) == hb, "operand was changed")
    require(f.rref(tup(a.generator))[0] == ga and f.rref(tup(b.generator))[0] == gb, "generator changed")
    check_words(ctx, codes.ClassicalCode.stack(a), q, wa, na, "stack of one code")


def case_triple(ctx, q, ha, hb, hc):
    f = gf(q)
    hs = [tup(x) for x in (ha, hb, hc)]
    ws = [kernel_set(f, h) for h in hs]
    cs = [make(q, h) for h in hs]
    want = {x + y + z for x in ws[0] for y in ws[1] for z in ws[2]}
    check_words(ctx, codes.ClassicalCode.stack(*cs), q, want, sum(len(h[0]) for h in hs), "stack")


def case_mixed_fields(ctx, qa, qb):
    a, b = make(qa, [[1, 1]]), make(qb, [[1, 1]])
    for op in (codes.ClassicalCode.stack, codes.ClassicalCode.tensor_product):
        try:
            op(a, b)
        except ValueError:
            ctx.trans()
            continue
        require(False, f"{op} combined codes over GF({qa}) and GF({qb})")


def local_ok(f, sub, values):
    return not any(f.matvec(sub, values))


def case_tanner(ctx, q, sub, incidence, num_bits, mode):
    """incidence[v] = ordered bits seen by check node v."""
    f = gf(q)
    sub = tup(sub)
    n_nodes = len(incidence)
    want = {
        w
        for w in f.all_vectors(num_bits)
        if all(local_ok(f, sub, [w[b] for b in bits]) for bits in incidence)
    }
    subcode = make(q, sub)
    graph = nx.DiGraph()
    # insertion order is reversed on purpose: it must not matter
    for v in reversed(range(n_nodes)):
        for pos, b in sorted(enumerate(incidence[v]), reverse=True):
            if mode == "sorted":
                graph.add_edge(("v", v), ("w", b))
            else:
                graph.add_edge(("v", v), ("w", b), sort=pos)
    edges0 = sorted((a, b, dict(d).get("sort")) for a, b, d in graph.edges(data=True))
    code = codes.TannerCode(graph, subcode)
    check_words(ctx, code, q, want, num_bits, "Tanner code")
    require(code.num_checks == n_nodes * len(sub), "Tanner code: number of checks")
    require(tup(subcode.matrix) == sub, "subcode was changed")
    require(sorted((a, b, dict(d).get("sort")) for a, b, d in graph.edges(data=True)) == edges0, "graph changed")


def case_tanner_undirected(ctx, q, sub, edges, nodes):
    """Bits on the edges of a regular graph; the local order is given by a "sort" attribute."""
    f = gf(q)
    sub = tup(sub)
    graph = nx.Graph()
    local = {v: [] for v in range(nodes)}
    for e, (a, b) in enumerate(edges):
        local[a].append(e)
        local[b].append(e)
    for e, (a, b) in enumerate(edges):
        # the local order is the reverse of the edge order on odd nodes
        sort = {}
        for v in (a, b):
            rank = local[v].index(e)
            sort[v] = rank if v % 2 == 0 else -rank
        graph.add_edge(a, b, sort=sort)
    order = {v: (es if v % 2 == 0 else es[::-1]) for v, es in local.items()}
    before = {frozenset((a, b)): dict(d) for a, b, d in graph.edges(data=True)}
    subcode = make(q, sub)
    code = codes.TannerCode(graph, subcode)
    # the library may order the bits (edges) as it likes: compare up to a relabeling it reports
    sinks = sorted(s for s in code.subgraph if code.subgraph.out_degree(s) == 0)
    index = {frozenset(e): i for i, e in enumerate(map(frozenset, edges))}
    perm = [index[frozenset(s)] for s in sinks]
    require(sorted(perm) == list(range(len(edges))), "bits are not the edges of the graph")
    want = {
        tuple(w[i] for i in perm)
        for w in f.all_vectors(len(edges))
        if all(local_ok(f, sub, [w[e] for e in order[v]]) for v in range(nodes))
    }
    check_words(ctx, code, q, want, len(edges), "Tanner code on a graph")
    again = codes.TannerCode(code.subgraph, subcode)
    require(again == code, "Tanner code rebuilt from its own subgraph differs")
    after = {frozenset((a, b)): dict(d) for a, b, d in graph.edges(data=True)}
    require(before == after, "Tanner code construction changed the caller's graph")
    require(codes.TannerCode(graph, subcode) == code, "second construction from the same graph differs")


def apply(op, code, words, n, q, base, base_words):
    kind = op[0]
    f = gf(q)
    if kind == "dual":
        basis = f.rref(sorted(words))[0]
        return ~code, span_set(f, f.null_space(basis, n), n) if basis else set(f.all_vectors(n)), n
    if kind == "puncture":
        keep = [i for i in range(n) if i != op[1]]
        return code.puncture(op[1]), restrict(words, keep), n - 1
    if kind == "shorten":
        keep = [i for i in range(n) if i != op[1]]
        return code.shorten(op[1]), restrict({w for w in words if not w[op[1]]}, keep), n - 1
    if kind == "stack":
        nb = len(next(iter(base_words)))
        return codes.ClassicalCode.stack(code, base), {a + b for a in words for b in base_words}, n + nb
    if kind == "generator":
        return codes.ClassicalCode.from_generator(code.generator), words, n
    if kind == "canonical":
        return code.canonicalized, words, n
    if kind == "copy":
        return codes.ClassicalCode(code), words, n
    raise AssertionError(kind)


def alphabet(n, nmax):
    ops = [("dual",), ("generator",), ("canonical",), ("copy",)]
    if n >= 2:
        ops += [(k, i) for k in ("puncture", "shorten") for i in range(n)]
    if n + 2 <= nmax:
        ops.append(("stack",))
    return ops


def case_history(ctx, q, h, ops):
    """One sequence of derivations, each step compared with the word-set model."""
    f = gf(q)
    h = tup(h)
    code, words, n = make(q, h), kernel_set(f, h), len(h[0])
    base = make(q, [[1, q - 1]])
    base_words = kernel_set(f, ((1, q - 1),))
    trail = [(code, words, n)]
    for op in ops:
        code, words, n = apply(tuple(op), code, words, n, q, base, base_words)
        trail.append((code, words, n))
        check_words(ctx, code, q, words, n, f"after {op}")
        ctx.state((q, tuple(sorted(words)), tup(code.matrix)))
    for code, words, n in trail:  # nothing that came later changed an earlier code
        check_words(ctx, code, q, words, n, "earlier code after the sequence")


CASES = {
    "bits": case_bits,
    "generator": case_generator,
    "pair": case_pair,
    "triple": case_triple,
    "mixed_fields": case_mixed_fields,
    "tanner": case_tanner,
    "tanner_undirected": case_tanner_undirected,
    "history": case_history,
}


def operand_codes(q, n):
    """Check matrices: every subspace of F_q^n with its three presentations."""
    f = gf(q)
    for basis in ref.subspaces(f, n):
        yield from (tup(p) for p in ref.presentations(f, basis, n))


def unit_bits(ctx, q, n, part, parts):
    for i, h in enumerate(operand_codes(q, n)):
        if i % parts == part:
            ctx.case("bits", {"q": q, "h": h})


def unit_generator(ctx, q, m, n):
    for g in gf(q).all_matrices(m, n):
        ctx.case("generator", {"q": q, "g": g})


def unit_pair(ctx, q, na, nb, part, parts):
    i = 0
    for ha in operand_codes(q, na):
        for hb in operand_codes(q, nb):
            i += 1
            if i % parts == part:
                ctx.case("pair", {"q": q, "ha": ha, "hb": hb})


def unit_triple(ctx, q, n):
    ops = list(operand_codes(q, n))[::3]
    for ha, hb, hc in itertools.product(ops, repeat=3):
        ctx.case("triple", {"q": q, "ha": ha, "hb": hb, "hc": hc})


def unit_fields(ctx):
    for a, b in itertools.permutations((2, 3, 4, 5), 2):
        ctx.case("mixed_fields", {"qa": a, "qb": b})


def unit_tanner(ctx, q, deg, num_bits, nodes, part, parts):
    f = gf(q)
    subs = [s for s in ref.subspaces(f, deg) if s]
    if q == 2:
        subs += [tup(ref.presentations(f, s, deg)[-1]) for s in list(ref.subspaces(f, deg))[1:3]]
    i = 0
    for mode in ("sorted", "attribute"):
        choices = list(
            itertools.combinations(range(num_bits), deg)
            if mode == "sorted"
            else itertools.permutations(range(num_bits), deg)
        )
        for incidence in itertools.product(choices, repeat=nodes):
            if len({b for bits in incidence for b in bits}) < num_bits:
                continue
            i += 1
            if i % parts != part:
                continue
            sub = subs[i // parts % len(subs)] if mode == "attribute" and nodes > 1 else None
            for s in [sub] if sub else subs:
                params = dict(q=q, sub=s, incidence=incidence, num_bits=num_bits, mode=mode)
                ctx.case("tanner", params)


GRAPHS = {
    "cycle3": (3, [(0, 1), (1, 2), (0, 2)]),
    "cycle4": (4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
    "cycle5": (5, [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)]),
    "K4": (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]),
    "K33": (6, [(a, b) for a in range(3) for b in range(3, 6)]),
}


def unit_tanner_undirected(ctx, q, name):
    nodes, edges = GRAPHS[name]
    deg = 2 * len(edges) // nodes
    for sub in ref.subspaces(gf(q), deg):
        if sub:
            ctx.case("tanner_undirected", dict(q=q, sub=sub, edges=edges, nodes=nodes))


def unit_history(ctx, q, h, depth, nmax):
    def walk(n, ops):
        if len(ops) == depth:
            ctx.case("history", {"q": q, "h": h, "ops": ops})
            return
        for op in alphabet(n, nmax):
            m = n - 1 if op[0] in ("puncture", "shorten") else n + 2 if op[0] == "stack" else n
            walk(m, [*ops, op])

    walk(len(h[0]), [])


def unit_cyclic(ctx, q, n, part, parts, stride=1):
    """Longer words: cyclic shifts of a seed, shortened, punctured, and combined with each other."""
    seeds = [rows[: max(1, n - i % 3)] for i, rows in enumerate(ref.cyclic_rows(q, n))]
    for i, h in enumerate(seeds):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("bits", {"q": q, "h": h})
            ctx.case("generator", {"q": q, "g": h})
            other = seeds[(3 * i + 1) % len(seeds)]
            if len(gf(q).rref(h)[0]) + len(gf(q).rref(other)[0]) > 2:
                other = other[:2]
                ctx.case("pair", {"q": q, "ha": h, "hb": [r[:3] for r in other]})
                ctx.case("pair", {"q": q, "ha": [r[-2:] for r in other], "hb": h})


UNITS = {
    "cyclic": unit_cyclic,
    "bits": unit_bits,
    "generator": unit_generator,
    "pair": unit_pair,
    "triple": unit_triple,
    "fields": unit_fields,
    "tanner": unit_tanner,
    "tanner_undirected": unit_tanner_undirected,
    "history": unit_history,
}


def units(tier):
    thorough = tier == "thorough"
    out = []
    bits = [(2, 1, 1), (2, 2, 1), (2, 3, 1), (2, 4, 6), (3, 2, 1), (3, 3, 3), (4, 2, 1), (5, 2, 1)]
    pair = [(2, 1, 2, 1), (2, 2, 2, 1), (2, 2, 3, 2), (2, 3, 3, 4), (3, 2, 2, 1), (4, 2, 2, 1), (5, 1, 2, 1)]
    gen = [(2, 1, 3), (2, 2, 3), (2, 3, 3), (2, 2, 4), (3, 1, 3), (3, 2, 2), (3, 2, 3), (4, 1, 2), (4, 2, 2), (5, 1, 2), (8, 1, 2), (9, 1, 2)]
    if thorough:
        bits += [(2, 5, 32), (4, 3, 8), (5, 3, 8), (3, 4, 16)]
        pair += [(3, 2, 3, 4), (4, 2, 3, 8), (2, 3, 4, 8)]
        gen += [(2, 3, 4), (4, 2, 3), (9, 2, 2)]
    out += [("bits", dict(q=q, n=n, part=p, parts=t)) for q, n, t in bits for p in range(t)]
    out += [("pair", dict(q=q, na=a, nb=b, part=p, parts=t)) for q, a, b, t in pair for p in range(t)]
    out += [("generator", dict(q=q, m=m, n=n)) for q, m, n in gen]
    out += [("fields", {}), ("triple", dict(q=2, n=2))]
    tanner = [(2, 2, 3, 2, 1), (2, 2, 4, 2, 1), (2, 3, 4, 2, 2), (3, 2, 3, 2, 1), (2, 2, 2, 1, 1), (4, 2, 3, 2, 1), (2, 3, 3, 1, 1)]
    if thorough:
        tanner += [(2, 2, 4, 3, 4), (2, 3, 4, 3, 16), (3, 3, 4, 2, 4)]
    out += [("tanner", dict(q=q, deg=d, num_bits=b, nodes=v, part=p, parts=t)) for q, d, b, v, t in tanner for p in range(t)]
    out += [("tanner_undirected", dict(q=q, name=g)) for q, g in
            [(2, "cycle3"), (2, "cycle4"), (2, "cycle5"), (2, "K4"), (3, "cycle3"), (3, "cycle4"), (4, "cycle4")]]
    if thorough:
        out += [("tanner_undirected", dict(q=2, name="K33")), ("tanner_undirected", dict(q=3, name="K4"))]
    starts = [(2, ((1, 1, 0), (0, 1, 1))), (2, ((1, 1, 1),)), (2, ((0, 1, 0), (0, 1, 0))), (2, ((1, 0), (0, 1))),
              (3, ((1, 2, 0),)), (3, ((1, 1),)), (4, ((1, 2),))]
    depth = 4 if thorough else 3
    out += [("history", dict(q=q, h=h, depth=depth if q == 2 else 3, nmax=5 if q == 2 else 4)) for q, h in starts]
    cyc = [(2, 5, 1, 1), (2, 6, 2, 1), (2, 7, 4, 3), (3, 4, 2, 2), (4, 3, 2, 1), (5, 3, 2, 4), (7, 2, 1, 2), (8, 2, 1, 2), (9, 2, 1, 2)]
    out += [("cyclic", dict(q=q, n=n, part=p, parts=t, stride=1 if thorough else s)) for q, n, t, s in cyc for p in range(t)]
    return out
