"""C14: chain complexes and Cayley complexes satisfy their defining relations."""

import itertools

import galois
import networkx as nx
import numpy as np
from qldpc import abstract
from qldpc.abstract import GroupMember, RingArray
from qldpc.codes import QTCode
from qldpc.objects import CayleyComplex, ChainComplex

from mc.checks.c12 import build
from mc.checks.c13 import alg
from mc.core import Skip, require
from mc.ref import gf, perm_inv, perm_mul, tup

PROPERTY = "C14"
ASSUMPTIONS = [
    "numpy matrix products of the reference are done entry by entry with the arithmetic tables of mc.ref",
    "a tensor product of complexes over a non-Abelian group algebra need not be a complex; it must then be refused",
]
BOUNDS = {
    "quick": "all pairs (d1,d2) of matrices with module dimensions up to 2x2x2 (2x3x2 with d1 up to row order) over GF(2), 2x2x1, 1x2x2 over GF(3), 1x2x2 over GF(4), incl. zero-dimensional modules; all three-link sequences 1x2x2x1 over GF(2); all ordered pairs of 40-60 representative complexes with one to three links per field; group algebras of C2, C3, C2xC2, S3: all products of 13 one- and two-link complexes; Cayley complexes: all pairs of nonempty symmetric subsets of sizes up to 3 of C2..C6, C2xC2, S3 and size up to 2 of D4, Q8, both covers; all non-symmetric subsets of size up to 3",
    "thorough": "2x3x2 and 2x2x3 unrestricted, GF(4) 2x2x1, GF(5) 1x2x2; subsets of sizes up to 4, D4, Q8 (size 3), C7, A4 (size 2); 90 representatives",
}
CASE_TIMEOUT = 300


# -- reference matrices ---------------------------------------------------------------------------


class FieldOps:
    """Matrices over GF(q) as (rows, cols, tuple of rows)."""

    def __init__(self, q):
        self.q, self.f = q, gf(q)
        self.zero, self.one = 0, 1

    def add(self, a, b):
        return self.f.add[a][b]

    def mul(self, a, b):
        return self.f.mul[a][b]

    def neg(self, a):
        return self.f.neg[a]


class RingOps:
    def __init__(self, A):
        self.A = A
        self.zero, self.one = A.zero, A.one
        self.add, self.mul, self.neg = A.add, A.mul, A.neg


def mm(R, x, y, rows, mid, cols):
    out = [[R.zero] * cols for _ in range(rows)]
    for i in range(rows):
        for k in range(mid):
            if x[i][k] != R.zero:
                for j in range(cols):
                    if y[k][j] != R.zero:
                        out[i][j] = R.add(out[i][j], R.mul(x[i][k], y[k][j]))
    return out


def is_zero(R, m):
    return all(v == R.zero for r in m for v in r)


def rank(f, m, cols):
    return len(f.rref([list(r) for r in m])[0]) if m and cols else 0


def dims_of(shapes):
    return [shapes[0][0]] + [s[1] for s in shapes]


def is_complex(R, shapes, ops):
    for (sa, a), (sb, b) in zip(zip(shapes, ops), zip(shapes[1:], ops[1:])):
        if sa[1] != sb[0] or not is_zero(R, mm(R, a, b, sa[0], sa[1], sb[1])):
            return False
    return True


def homology(f, shapes, ops):
    """Dimensions of H_0 .. H_n."""
    dims = dims_of(shapes)
    ranks = [0] + [rank(f, m, s[1]) for s, m in zip(shapes, ops)] + [0]
    return [dims[k] - ranks[k] - ranks[k + 1] for k in range(len(dims))]


def tensor(R, sa, a, sb, b):
    """Boundary operators of the tensor product straight from [2] of the docstring, basis by basis."""
    da, db = dims_of(sa), dims_of(sb)
    n = len(a) + len(b)

    def basis(k):
        out = []
        for i in range(min(len(a), k), -1, -1):
            j = k - i
            if j <= len(b):
                out += [(i, j, u, v) for u in range(da[i]) for v in range(db[j])]
        return out

    ops, shapes = [], []
    for k in range(1, n + 1):
        rows, cols = basis(k - 1), basis(k)
        pos = {x: t for t, x in enumerate(rows)}
        mat = [[R.zero] * len(cols) for _ in rows]
        for c, (i, j, u, v) in enumerate(cols):
            if i:
                for u2 in range(da[i - 1]):
                    r = pos[i - 1, j, u2, v]
                    mat[r][c] = R.add(mat[r][c], a[i - 1][u2][u])
            if j:
                for v2 in range(db[j - 1]):
                    r = pos[i, j - 1, u, v2]
                    x = b[j - 1][v2][v]
                    mat[r][c] = R.add(mat[r][c], R.neg(x) if i % 2 else x)
        ops.append(mat)
        shapes.append((len(rows), len(cols)))
    return shapes, ops


# -- complexes over a field --------------------------------------------------------------------------


def arr(F, shape, m):
    return F(np.array(m, dtype=int).reshape(shape)) if 0 not in shape else F.Zeros(shape)


def same_ops(F, cc, shapes, ops, what):
    require(cc.num_links == len(ops), f"{what}: {cc.num_links} links")
    require(cc.field is F and cc.group is None, f"{what}: field")
    for k, (s, m) in enumerate(zip(shapes, ops)):
        got = cc.op(k + 1)
        require(type(got) is F, f"{what}: boundary operator {k + 1} is not over the field")
        require(got.shape == tuple(s), f"{what}: shape of operator {k + 1} is {got.shape}, not {s}")
        require(tup(got) == tup(np.array(m, dtype=int).reshape(s)), f"{what}: operator {k + 1}")
    dims = dims_of(shapes)
    for k, d in enumerate(dims):
        require(cc.dim(k) == d, f"{what}: dim({k}) = {cc.dim(k)}, not {d}")
    lo, hi = cc.op(0), cc.op(len(ops) + 1)
    require(lo.shape == (0, dims[0]) and hi.shape == (dims[-1], 0), f"{what}: formal operators")
    require(cc.dim(len(ops) + 1) == 0, f"{what}: dimension beyond the end")


def case_chain(ctx, q, shapes, ops):
    R, F = FieldOps(q), galois.GF(q)
    good = is_complex(R, shapes, ops)
    arrays = [arr(F, tuple(s), m) for s, m in zip(shapes, ops)]
    plain = [np.array(a, dtype=int) for a in arrays]
    keep = [a.copy() for a in arrays]
    variants = [("galois", arrays, {}), ("galois+field", arrays, {"field": q}), ("plain+field", plain, {"field": q})]
    if q == 2:
        variants.append(("plain", plain, {}))
    for what, given, kw in variants:
        try:
            cc = ChainComplex(*given, **kw)
        except ValueError:
            require(not good, f"{what}: valid chain complex rejected")
            continue
        require(good, f"{what}: operators that do not compose to zero were accepted")
        same_ops(F, cc, shapes, ops, what)
        dual = cc.T
        dshapes = [(s[1], s[0]) for s in reversed(shapes)]
        dops = [[[m[i][j] for i in range(s[0])] for j in range(s[1])] for s, m in zip(reversed(shapes), reversed(ops))]
        same_ops(F, dual, dshapes, dops, what + " dual")
        same_ops(F, dual.T, shapes, ops, what + " double dual")
        h = homology(R.f, shapes, ops)
        require(all(x >= 0 for x in h), "reference homology")
        real = [cc.dim(k) - _rank(cc.op(k)) - _rank(cc.op(k + 1)) for k in range(len(h))]
        require(real == h, f"{what}: homology {real}, expected {h}")
    for a, k in zip(arrays, keep):
        require(a.shape == k.shape and bool(np.array_equal(a, k)), "an argument was modified")
    ctx.trans(len(variants))


def _rank(m):
    return int(np.linalg.matrix_rank(m)) if 0 not in m.shape else 0


def case_product(ctx, q, sa, a, sb, b):
    R, F = FieldOps(q), galois.GF(q)
    xa = [arr(F, tuple(s), m) for s, m in zip(sa, a)]
    xb = [arr(F, tuple(s), m) for s, m in zip(sb, b)]
    keep = [x.copy() for x in xa + xb]
    shapes, ops = tensor(R, sa, a, sb, b)
    require(is_complex(R, shapes, ops), "reference product")
    ca, cb = ChainComplex(*xa), ChainComplex(*xb)
    pairs = [("complexes", ca, cb, {})]
    pa = ChainComplex(*[np.array(x, dtype=int) for x in xa], field=q)
    pb = ChainComplex(*[np.array(x, dtype=int) for x in xb], field=q)
    pairs.append(("plain-integer complexes", pa, pb, {}))
    if len(a) == 1:
        pairs.append(("matrix and complex", xa[0], cb, {}))
        if len(b) == 1:
            pairs.append(("matrices", xa[0], xb[0], {}))
            pairs.append(
                ("plain matrices", np.array(xa[0], dtype=int), np.array(xb[0], dtype=int), {"field": q})
            )
    want_h = [0] * (len(a) + len(b) + 1)
    for i, x in enumerate(homology(R.f, sa, a)):
        for j, y in enumerate(homology(R.f, sb, b)):
            want_h[i + j] += x * y
    for what, u, v, kw in pairs:
        cc = ChainComplex.tensor_product(u, v, **kw)
        same_ops(F, cc, shapes, ops, what)
        for k in range(1, cc.num_links):
            require(not np.any(cc.op(k) @ cc.op(k + 1)), f"{what}: d{k} d{k + 1} is not zero")
        real = [cc.dim(k) - _rank(cc.op(k)) - _rank(cc.op(k + 1)) for k in range(cc.num_links + 1)]
        require(real == want_h, f"{what}: homology {real}, Kuenneth gives {want_h}")
    for x, k in zip(xa + xb, keep):
        require(bool(np.array_equal(x, k)) and x.shape == k.shape, "an argument was modified")
    ctx.trans(len(pairs))


def case_mixed(ctx, which):
    F2, F3, F4 = galois.GF(2), galois.GF(3), galois.GF(4)
    ring2 = RingArray.build([[1, 0]], abstract.GroupRing(abstract.CyclicGroup(2), 2))
    ring3 = RingArray.build([[1, 0]], abstract.GroupRing(abstract.CyclicGroup(3), 2))
    ring2q3 = RingArray.build([[1, 0]], abstract.GroupRing(abstract.CyclicGroup(2), 3))
    col = lambda F: F([[0], [0]])
    one = lambda F: F([[0, 0]])
    table = {
        "fields 2 3": lambda: ChainComplex(one(F2), col(F3)),
        "fields 4 2": lambda: ChainComplex(one(F4), col(F2)),
        "field argument": lambda: ChainComplex(one(F4), col(F4), field=2),
        "ring and field": lambda: ChainComplex(ring2, col(F2)),
        "field and ring": lambda: ChainComplex(one(F2), ring2.T),
        "groups": lambda: ChainComplex(ring2, ring3.T * 0),
        "ring field argument": lambda: ChainComplex(ring2, field=3),
        "product fields": lambda: ChainComplex.tensor_product(one(F2), one(F4)),
        "product groups": lambda: ChainComplex.tensor_product(ring2, ring3),
        "product ring fields": lambda: ChainComplex.tensor_product(ring2, ring2q3),
        "product ring and field": lambda: ChainComplex.tensor_product(ring2, one(F2)),
    }
    try:
        table[which]()
    except ValueError:
        ctx.trans()
        return
    require(False, f"{which}: inconsistent operators accepted")


# -- complexes over a group algebra ----------------------------------------------------------------------


def ring_array(A, m):
    return RingArray([[A.real(tuple(x)) for x in r] for r in m], A.ring)


def ring_tuple(A, arr_):
    return tuple(tuple(A.back(x) for x in r) for r in np.asarray(arr_, dtype=object))


def case_ring_chain(ctx, desc, q, ops):
    A = alg(desc, q)
    R = RingOps(A)
    ops = [[[tuple(x) for x in r] for r in m] for m in ops]
    shapes = [(len(m), len(m[0])) for m in ops]
    good = is_complex(R, shapes, ops)
    arrays = [ring_array(A, m) for m in ops]
    try:
        cc = ChainComplex(*arrays)
    except ValueError:
        require(not good, "valid chain complex rejected")
        return
    require(good, "operators that do not compose to zero were accepted")
    ring_same(A, cc, shapes, ops, "complex")
    dual = cc.T
    dshapes = [(s[1], s[0]) for s in reversed(shapes)]
    dops = [[[A.T(m[i][j]) for i in range(s[0])] for j in range(s[1])] for s, m in zip(reversed(shapes), reversed(ops))]
    ring_same(A, dual, dshapes, dops, "dual")
    ring_same(A, dual.T, shapes, ops, "double dual")
    ctx.trans(3)


def ring_same(A, cc, shapes, ops, what):
    require(cc.num_links == len(ops), f"{what}: links")
    require(cc.field is A.F and cc.group == A.group, f"{what}: field or group")
    for k, (s, m) in enumerate(zip(shapes, ops)):
        got = cc.op(k + 1)
        require(isinstance(got, RingArray), f"{what}: operator {k + 1} is no RingArray")
        require(got.shape == tuple(s), f"{what}: shape of operator {k + 1}")
        require(ring_tuple(A, got) == tuple(tuple(r) for r in m), f"{what}: operator {k + 1}")
        require(got.lift().shape == tuple(x * A.group.lift_dim for x in s), f"{what}: lift")
    for k, d in enumerate(dims_of(shapes)):
        require(cc.dim(k) == d, f"{what}: dimension {k}")


def case_ring_product(ctx, desc, q, a, b):
    A = alg(desc, q)
    R = RingOps(A)
    a, b = ([[[tuple(x) for x in r] for r in m] for m in c] for c in (a, b))
    sa = [(len(m), len(m[0])) for m in a]
    sb = [(len(m), len(m[0])) for m in b]
    shapes, ops = tensor(R, sa, a, sb, b)
    good = is_complex(R, shapes, ops)
    xa = [ring_array(A, m) for m in a]
    xb = [ring_array(A, m) for m in b]
    pairs = [("complexes", ChainComplex(*xa), ChainComplex(*xb))]
    if len(a) == len(b) == 1:
        pairs.append(("matrices", xa[0], xb[0]))
    for what, u, v in pairs:
        try:
            cc = ChainComplex.tensor_product(u, v)
        except ValueError:
            require(not good, f"{what}: tensor product refused")
            continue
        require(good, f"{what}: the tensor product is not a chain complex but was returned")
        ring_same(A, cc, shapes, ops, what)
        for k in range(1, cc.num_links):
            require(not np.any(cc.op(k) @ cc.op(k + 1)), f"{what}: d{k} d{k + 1} is not zero")
    ctx.trans(len(pairs))


# -- Cayley complexes --------------------------------------------------------------------------------------


def cover_ref(forms_a, forms_b, bipartite):
    """Vertices of the identity component as (g, i, j), its edges and its faces."""
    deg = len(forms_a[0])
    ident = (tuple(range(deg)), 0, 0)

    def left(a, v):
        return (perm_mul(a, v[0]), 1 - v[1], v[2])

    def right(v, b):
        if bipartite:
            return (perm_mul(v[0], b), 1 - v[1], v[2])
        return (perm_mul(v[0], b), v[1], 1 - v[2])

    verts, todo = {ident}, [ident]
    while todo:
        v = todo.pop()
        for w in [left(a, v) for a in forms_a] + [right(v, b) for b in forms_b]:
            if w not in verts:
                verts.add(w)
                todo.append(w)
    edges = {}
    for v in verts:
        for a in forms_a:
            edges.setdefault(frozenset([v, left(a, v)]), set()).add("L")
        for b in forms_b:
            edges.setdefault(frozenset([v, right(v, b)]), set()).add("R")
    faces = {}
    for v in verts:
        for a in forms_a:
            for b in forms_b:
                face = frozenset([v, left(a, v), right(v, b), right(left(a, v), b)])
                faces.setdefault(face, {})[v] = (a, b)
    return ident, verts, edges, faces


def decode(form, deg, bipartite):
    form = tuple(form)
    require(len(form) == deg + (2 if bipartite else 4), "vertex of the wrong degree")
    g = form[:deg]
    i = form[deg] != deg
    j = (not bipartite) and form[deg + 2] != deg + 2
    return (g, int(i), int(j))


def tnc(forms, fa, fb):
    return all(perm_mul(a, g) != perm_mul(g, b) for g in forms for a in fa for b in fb)


def case_cayley(ctx, desc, aa, bb, same=False):
    group = build(tuple(desc))[0]
    members = list(group.generate())
    forms = [tuple(m.array_form) for m in members]
    sub_a, sub_b = [members[i] for i in aa], [members[i] for i in bb]
    fa, fb = [forms[i] for i in aa], [forms[i] for i in bb]
    deg = len(forms[0])
    # the conjugacy condition, over the group generated by the two subsets
    closure, todo = {tuple(range(deg))}, [tuple(range(deg))]
    while todo:
        v = todo.pop()
        for a in fa + fb:
            w = perm_mul(a, v)
            if w not in closure:
                closure.add(w)
                todo.append(w)
    ok = tnc(closure, fa, fb)
    require(CayleyComplex.satisfies_total_no_conjugacy(sub_a, sub_b) == ok, "Total No Conjugacy")
    for bipartite in (False, True):
        for form in (list, set, tuple):
            args = (form(sub_a),) if same else (form(sub_a), form(sub_b))
            try:
                cc = CayleyComplex(*args, bipartite=bipartite)
            except ValueError:
                require(bipartite and not ok, "admissible complex rejected")
                continue
            require(ok or not bipartite, "bipartite complex accepted although a g = g b has solutions")
            require(cc.bipartite == bipartite, "flag")
            require(cc.subset_a == set(sub_a) and cc.subset_b == set(sub_b), "subsets")
            if form is list:
                check_complex(cc, deg, fa, fb, bipartite)
            ctx.trans()


def check_complex(cc, deg, fa, fb, bipartite):
    ident, verts, edges, faces = cover_ref(fa, fb, bipartite)
    dec = lambda m: decode(m.array_form, deg, bipartite)
    require({dec(m) for m in cc.cover_subset_a} == {(a, 1, 0) for a in fa}, "cover of A")
    bmark = (1, 0) if bipartite else (0, 1)
    require({dec(m) for m in cc.cover_subset_b} == {(b, *bmark) for b in fb}, "cover of B")
    # vertices and edges
    graph = cc.graph
    names = {node: dec(node) for node in graph.nodes}
    require(len(set(names.values())) == len(names), "a vertex occurs twice")
    require(set(names.values()) == verts, f"{len(names)} vertices, expected {len(verts)}")
    got = {}
    for u, v, data in graph.edges(data=True):
        got[frozenset([names[u], names[v]])] = {data["type"]}
    require(got == edges, "edges")
    require(nx.is_connected(graph), "not connected")
    require(nx.is_bipartite(graph), "not bipartite")
    # faces
    for face, corners in faces.items():
        require(len(face) == 4, "degenerate face in the reference")
        require(set(corners) == set(face), "reference")
    gx, gz = QTCode.get_subgraphs(cc)
    even = {v for v in verts if (v[1] + v[2]) % 2 == 0}
    want_x, want_z = {}, {}
    for face, corners in faces.items():
        for v, label in corners.items():
            (want_x if v in even else want_z)[v, face] = label
    require(all(sum(v in f for f in faces) == len(fa) * len(fb) for v in verts), "reference: faces per vertex")
    name = {}
    for what, sub, want in (("x", gx, want_x), ("z", gz, want_z)):
        seen = {}
        for node in sub.nodes:
            if isinstance(node, frozenset):
                key = frozenset(dec(m) for m in node)
                require(len(node) == 4, f"subgraph_{what}: face with {len(node)} vertices")
                require(key in faces, f"subgraph_{what}: not a face")
                require(sub.out_degree(node) == 0 and sub.in_degree(node) == 2, f"subgraph_{what}: diagonal")
            else:
                require(sub.in_degree(node) == 0, f"subgraph_{what}: vertex as a sink")
                require(sub.out_degree(node) == len(fa) * len(fb), f"subgraph_{what}: faces per vertex")
        for u, v, data in sub.edges(data=True):
            a, b = data["sort"]
            key = (dec(u), frozenset(dec(m) for m in v))
            require(key not in seen, f"subgraph_{what}: repeated edge")
            da, db = dec(a), dec(b)
            require(da[1:] == (1, 0) and db[1:] == bmark, f"subgraph_{what}: label outside the cover subsets")
            seen[key] = (da[0], db[0])
        require(set(seen) == set(want), f"subgraph_{what}: {len(seen)} edges, expected {len(want)}")
        require(seen == want, f"subgraph_{what}: labels")


def case_asymmetric(ctx, desc, aa):
    """Subsets that lack an inverse are rejected in either position."""
    group = build(tuple(desc))[0]
    members = list(group.generate())
    forms = [tuple(m.array_form) for m in members]
    sub = [members[i] for i in aa]
    fs = {forms[i] for i in aa}
    sym = all(perm_inv(f) in fs for f in fs)
    fine = [members[forms.index(tuple(range(len(forms[0]))))]]
    for args in ((sub,), (sub, fine), (fine, sub), (set(sub), set(fine))):
        for bip in (False, True):
            try:
                CayleyComplex(*args, bipartite=bip)
            except ValueError:
                require(not sym or bip, "symmetric subsets rejected")
            else:
                require(sym, "non-symmetric subset accepted")
    ctx.trans(8)


CASES = {
    "chain": case_chain,
    "product": case_product,
    "mixed": case_mixed,
    "ring_chain": case_ring_chain,
    "ring_product": case_ring_product,
    "cayley": case_cayley,
    "asymmetric": case_asymmetric,
}


# -- units ---------------------------------------------------------------------------------------------------


def all_mats(q, r, c):
    for flat in itertools.product(range(q), repeat=r * c):
        yield [list(flat[i * c : (i + 1) * c]) for i in range(r)]


def unit_chains(ctx, q, shapes, part=0, parts=1, ordered=False):
    shapes = [tuple(s) for s in shapes]
    for i, ops in enumerate(itertools.product(*[list(all_mats(q, *s)) for s in shapes])):
        if i % parts != part:
            continue
        if ordered and list(ops[0]) != sorted(ops[0]):
            continue
        ctx.case("chain", {"q": q, "shapes": shapes, "ops": list(ops)})


def unit_bad_shapes(ctx):
    for q in (2, 3):
        for s1 in itertools.product(range(3), repeat=2):
            for s2 in itertools.product(range(3), repeat=2):
                for fill in (0, 1):
                    ops = [[[fill] * s1[1] for _ in range(s1[0])], [[0] * s2[1] for _ in range(s2[0])]]
                    ctx.case("chain", {"q": q, "shapes": [s1, s2], "ops": ops})
    for which in (
        "fields 2 3", "fields 4 2", "field argument", "ring and field", "field and ring", "groups",
        "ring field argument", "product fields", "product groups", "product ring fields", "product ring and field",
    ):  # fmt: skip
        ctx.case("mixed", {"which": which})


def representatives(q, limit):
    """Valid complexes with one to three links, spread over shapes."""
    R = FieldOps(q)
    out = []
    shape_lists = [
        [(1, 1)], [(1, 2)], [(2, 1)], [(2, 2)], [(2, 3)], [(0, 1)], [(1, 0)], [(2, 0)],
        [(1, 2), (2, 1)], [(1, 2), (2, 2)], [(2, 2), (2, 1)], [(1, 1), (1, 1)], [(1, 3), (3, 2)],
        [(1, 2), (2, 0)], [(1, 2), (2, 2), (2, 1)], [(1, 1), (1, 2), (2, 1)],
    ]  # fmt: skip
    per = max(2, limit // len(shape_lists))
    for shapes in shape_lists:
        found = []
        pools = []
        for s in shapes:
            pool = list(all_mats(q, *s))
            if len(pool) > 16 and len(shapes) > 1:
                pool = pool[:: max(1, len(pool) // 16)] + [pool[-1]]
            pools.append(pool)
        for ops in itertools.product(*pools):
            if is_complex(R, shapes, ops):
                found.append((shapes, list(ops)))
        # the most nontrivial ones first, plus the zero complex
        found.sort(key=lambda c: (-sum(v != 0 for m in c[1] for r in m for v in r), str(c)))
        step = max(1, len(found) // per)
        out += found[::step][:per]
    return out


def unit_products(ctx, q, limit, part, parts):
    reps = representatives(q, limit)
    for i, (x, y) in enumerate(itertools.product(reps, repeat=2)):
        if i % parts == part:
            ctx.case("product", {"q": q, "sa": x[0], "a": x[1], "sb": y[0], "b": y[1]})


def ring_reps(desc, q):
    A = alg(desc, q)
    mono = [tuple(int(i == j) for j in range(A.n)) for i in range(A.n)]
    last, mid = mono[-1], mono[A.n // 2]
    els = [A.zero, A.one, last, A.add(A.one, last), tuple(1 for _ in range(A.n)), A.add(mid, A.neg(last))]
    ops = []
    for x in els[1:]:
        ops.append([[[x]]])
    ops.append([[[A.one, last]]])
    ops.append([[[A.one], [A.add(A.one, mid)]]])
    ops.append([[[mid, last], [A.zero, A.add(A.one, last)]]])
    R = RingOps(A)
    # two-link complexes: [x, y] [[y],[-x]] style products that vanish
    for x in els:
        for y in els:
            two = [[[x]], [[y]]]
            if is_complex(R, [(1, 1), (1, 1)], two) and len(ops) < 12:
                ops.append(two)
    ops.append([[[A.one, last]], [[A.neg(last)], [A.one]]])
    return [o for o in ops if is_complex(R, [(len(m), len(m[0])) for m in o], o)]


def unit_ring(ctx, desc, q):
    A = alg(desc, q)
    reps = ring_reps(desc, q)
    for x in reps:
        ctx.case("ring_chain", {"desc": desc, "q": q, "ops": x})
    vals = [A.zero, A.one, tuple(int(i == A.n - 1) for i in range(A.n)), tuple(1 for _ in range(A.n))]
    for x, y in itertools.product(vals, repeat=2):
        ctx.case("ring_chain", {"desc": desc, "q": q, "ops": [[[x]], [[y]]]})
        for z, w in itertools.product(vals, repeat=2):
            ctx.case("ring_chain", {"desc": desc, "q": q, "ops": [[[x, y]], [[z], [w]]]})
    for x, y in itertools.product(reps, repeat=2):
        ctx.case("ring_product", {"desc": desc, "q": q, "a": x, "b": y})


def symmetric_subsets(desc, size):
    members = list(build(tuple(desc))[0].generate())
    forms = [tuple(m.array_form) for m in members]
    out = []
    for k in range(1, size + 1):
        for comb in itertools.combinations(range(len(forms)), k):
            fs = {forms[i] for i in comb}
            if all(perm_inv(f) in fs for f in fs):
                out.append(list(comb))
    return out


def unit_cayley(ctx, desc, size, part=0, parts=1):
    subs = symmetric_subsets(desc, size)
    for i, (a, b) in enumerate(itertools.product(subs, repeat=2)):
        if i % parts == part:
            ctx.case("cayley", {"desc": desc, "aa": a, "bb": b})
    if part == 0:
        for a in subs:
            ctx.case("cayley", {"desc": desc, "aa": a, "bb": a, "same": True})


def unit_asymmetric(ctx, desc):
    n = len(list(build(tuple(desc))[0].generate()))
    for k in (1, 2, 3):
        for comb in itertools.combinations(range(n), k):
            ctx.case("asymmetric", {"desc": desc, "aa": list(comb)})


UNITS = {
    "chains": unit_chains,
    "bad_shapes": unit_bad_shapes,
    "products": unit_products,
    "ring": unit_ring,
    "cayley": unit_cayley,
    "asymmetric": unit_asymmetric,
}


def units(tier):
    thorough = tier == "thorough"
    out = [("bad_shapes", {})]
    plan = [
        (2, [(1, 1), (1, 1)], 1), (2, [(1, 2), (2, 1)], 1), (2, [(1, 2), (2, 2)], 1), (2, [(2, 2), (2, 2)], 1),
        (2, [(2, 2), (2, 1)], 1), (2, [(2, 1), (1, 2)], 1), (2, [(1, 2), (2, 2), (2, 1)], 1), (2, [(1, 3), (3, 2)], 2),
        (3, [(1, 2), (2, 1)], 1), (3, [(2, 2), (2, 1)], 2), (3, [(1, 2), (2, 2)], 2), (4, [(1, 2), (2, 1)], 1),
        (4, [(1, 2), (2, 2)], 6),
    ]  # fmt: skip
    for q, shapes, parts in plan:
        for p in range(parts):
            out.append(("chains", {"q": q, "shapes": shapes, "part": p, "parts": parts}))
    for p in range(6):
        out.append(("chains", {"q": 2, "shapes": [(2, 3), (3, 2)], "part": p, "parts": 6, "ordered": not thorough}))
    if thorough:
        for p in range(16):
            out.append(("chains", {"q": 2, "shapes": [(2, 2), (2, 3)], "part": p, "parts": 16}))
            out.append(("chains", {"q": 4, "shapes": [(2, 2), (2, 1)], "part": p, "parts": 16}))
            out.append(("chains", {"q": 5, "shapes": [(1, 2), (2, 2)], "part": p, "parts": 16}))
    for q in (2, 3, 4, 5) if thorough else (2, 3, 4):
        parts = 16 if thorough else 4
        for p in range(parts):
            out.append(("products", {"q": q, "limit": 90 if thorough else 44, "part": p, "parts": parts}))
    for desc, q in (("cyclic", 2), 2), (("cyclic", 3), 2), (("cyclic", 2), 3), (("cyclic", 3), 4), (("abelian", 2, 2), 2), (("symmetric", 3), 2), (("symmetric", 3), 3):
        out.append(("ring", {"desc": list(desc), "q": q}))
    groups = [(("cyclic", 2), 2), (("cyclic", 3), 3), (("cyclic", 4), 3), (("cyclic", 5), 3), (("cyclic", 6), 3), (("abelian", 2, 2), 3), (("symmetric", 3), 3)]
    groups += [(("dihedral", 4), 2), (("quaternion",), 2)]
    if thorough:
        groups += [(("cyclic", 6), 4), (("symmetric", 3), 4), (("abelian", 2, 2), 4), (("dihedral", 4), 3), (("quaternion",), 3), (("cyclic", 7), 4), (("alternating", 4), 2)]
    for desc, size in groups:
        parts = 1 if desc[0] == "cyclic" and desc[1] < 5 else 3 if not thorough else 8
        for p in range(parts):
            out.append(("cayley", {"desc": list(desc), "size": size, "part": p, "parts": parts}))
    for desc in (("cyclic", 3), ("cyclic", 4), ("cyclic", 5), ("symmetric", 3), ("quaternion",)):
        out.append(("asymmetric", {"desc": list(desc)}))
    return out
