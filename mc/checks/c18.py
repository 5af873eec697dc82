"""C18: lifted-product and quantum Tanner codes are valid and survive save and load."""

import itertools
import json
import os
import subprocess
import sys
import tempfile

import galois
import networkx as nx
import numpy as np
from qldpc import abstract, codes
from qldpc.objects import Pauli

from mc import ref
from mc.checks.c12 import build
from mc.checks.c13 import alg
from mc.checks.c14 import cover_ref, symmetric_subsets, tnc
from mc.core import require
from mc.ref import gf, tup
from mc.qcommon import check_quantum_code

PROPERTY = "C18"
ASSUMPTIONS = [
    "lifts are the (orthogonal) default lifts of the groups; both seed arrays are over the same group algebra",
    "the group is ordered as GroupMember orders it (lexicographically), which fixes how seed-code bits are attached to the members of a subset; the order of the qudits (faces) and of the vertices is not prescribed",
    "saved files are written and read by the same version of the library; headers are arbitrary text",
]
BOUNDS = {
    "quick": "lifted products: all 1x1 pairs over GF(2) algebras of C1..C4, C2xC2, S3 (every third pair), all 1x1 pairs over GF(3) C1, C2; elements of one or two terms over C5, C6, C7, D4, D5, Q8, A4 and others by stride; representative 1x2, 2x1, 2x2 arrays over C2, C3, S3, all shapes up to 2x2 over the trivial group (GF(2) all pairs up to 2x2 with stride, GF(3), GF(4) representatives); subsystem lifted products the same; quantum Tanner codes: all pairs of nonempty symmetric subsets of size <= 2 of C1..C4, C2xC2 (every third), S3 (every sixth) and size 3 of C3, C4, C2xC2 (every second), both covers, with all seed matrices from a list of 4-6 per block length (incl. redundant, zero and empty matrices) over GF(2), 2-3 per block length over GF(3) and GF(4); save and load of each of them with 6 kinds of headers; equality of all pairs of 60 codes; three processes with different hash seeds",
    "thorough": "all 1x1 pairs for S3, Q8 representatives, GF(3) C3, GF(4) C2; subsets of size <= 3 of all groups up to order 8, size 4 of C4, C2xC2; equality of 200 codes",
}
CASE_TIMEOUT = 300


def iden(s, zero=0, one=1):
    return tuple(tuple(one if i == j else zero for j in range(s)) for i in range(s))


def lift_blocks(A, m, rows, cols):
    """Block matrix of the lifted entries of m (rows x cols entries)."""
    d = len(A.lifts[0])
    out = []
    for r in range(rows):
        blocks = [A.lift(m[r][c]) for c in range(cols)]
        for i in range(d):
            out.append(tuple(v for b in blocks for v in b[i]))
    return tuple(out)


def kron_id_right(A, m, s):
    """m (x) I_s with entries in the algebra."""
    return tuple(
        tuple(m[i][j] if u == v else A.zero for j in range(len(m[0])) for v in range(s))
        for i in range(len(m))
        for u in range(s)
    )


def kron_id_left(A, m, s):
    return tuple(
        tuple(m[i][j] if u == v else A.zero for u in range(s) for j in range(len(m[0])))
        for v in range(s)
        for i in range(len(m))
    )


def dagger(A, m):
    return tuple(tuple(A.T(m[i][j]) for i in range(len(m))) for j in range(len(m[0])))


def ring_mat(A, m):
    return abstract.RingArray([[A.real(x) for x in r] for r in m])


def case_lp(ctx, desc, q, a, b, same=False):
    A, f, F = alg(desc, q), gf(q), galois.GF(q)
    a = tuple(tuple(tuple(x) for x in r) for r in a)
    b = tuple(tuple(tuple(x) for x in r) for r in b)
    (m1, n1), (m2, n2) = (len(a), len(a[0])), (len(b), len(b[0]))
    d = len(A.lifts[0])
    hcat = lambda x, y: tuple(r + s for r, s in zip(x, y))
    neg = lambda m: tuple(tuple(A.neg(v) for v in r) for r in m)
    ra, rb = ring_mat(A, a), ring_mat(A, b)
    entries_commute = all(
        A.mul(x, A.T(y)) == A.mul(A.T(y), x) for r in a for x in r for s in b for y in s
    )
    # lifted product
    rx = hcat(kron_id_right(A, a, n2), kron_id_left(A, dagger(A, b), m1))
    rz = hcat(neg(kron_id_left(A, b, n1)), kron_id_right(A, dagger(A, a), m2))
    want_x = lift_blocks(A, rx, m1 * n2, n1 * n2 + m1 * m2)
    want_z = lift_blocks(A, rz, n1 * m2, n1 * n2 + m1 * m2)
    n = d * (n1 * n2 + m1 * m2)
    decide(ctx, f, F, q, "LP", want_x, want_z, n, entries_commute, lp_variants(A, a, b, ra, rb, same, codes.LPCode))
    code = codes.LPCode(ra, rb)
    require(
        tup(code.sector_size) == ((d * n1 * n2, d * n1 * m2), (d * m1 * n2, d * m1 * m2)), "LP: sector sizes"
    )
    # subsystem lifted product
    want_x = lift_blocks(A, kron_id_right(A, a, n2), m1 * n2, n1 * n2)
    want_z = lift_blocks(A, kron_id_left(A, b, n1), n1 * m2, n1 * n2)
    decide(ctx, f, F, q, "SLP", want_x, want_z, d * n1 * n2, None, lp_variants(A, a, b, ra, rb, same, codes.SLPCode))
    require(tup_ring(A, ra) == a and tup_ring(A, rb) == b, "a seed array was modified")
    if (m1, n1, m2, n2) == (1, 1, 1, 1):
        la, lb = F(np.array(A.lift(a[0][0]))), F(np.array(A.lift(b[0][0])).T)
        two = codes.LPCode(ra, rb)
        if entries_commute and f.matmul(tup(la), tup(lb)) == f.matmul(tup(lb), tup(la)):
            tb = codes.TBCode(la, lb)
            require(tup(tb.matrix_x) == tup(two.matrix_x), "X checks of the two-block code")
            swap = lambda m: f.rref(m)[0]
            negz = tuple(tuple(f.neg[v] for v in r) for r in tup(two.matrix_z))
            require(swap(tup(tb.matrix_z)) == swap(negz), "Z checks of the two-block code")


def tup_ring(A, m):
    return tuple(tuple(A.back(x) for x in r) for r in np.asarray(m))


def lp_variants(A, a, b, ra, rb, same, cls):
    out = [("arrays", lambda: cls(ra, rb))]
    out.append(("nested lists", lambda: cls([[A.real(x) for x in r] for r in a], [[A.real(x) for x in r] for r in b])))
    if same:
        out.append(("one array", lambda: cls(ra)))
    return out


def decide(ctx, f, F, q, kind, want_x, want_z, n, must_commute, variants):
    comm = all(v == 0 for r in f.matmul(want_x, f.transpose(want_z)) for v in r)
    if must_commute:
        require(comm, "reference: entries commute but the checks do not")
    for what, make in variants:
        code = make()
        require(len(code) == n and code.field is F, f"{kind} from {what}: length or field")
        require(tup(code.matrix_x) == want_x, f"{kind} from {what}: X checks")
        require(tup(code.matrix_z) == want_z, f"{kind} from {what}: Z checks")
        require(
            code.is_subsystem_code == (not comm),
            f"{kind} from {what}: is_subsystem_code={code.is_subsystem_code}, but the checks "
            + ("commute" if comm else "do not commute"),
        )
        ctx.trans()
    code = variants[0][1]()
    rows = tuple(r + (0,) * n for r in want_x) + tuple((0,) * n + r for r in want_z)
    if n <= 8:
        check_quantum_code(code, q, rows, css=True)
    elif comm:
        k = n - f.rank(want_x) - f.rank(want_z)
        require(code.dimension == k, f"{kind}: dimension {code.dimension}, expected {k}")
    ctx.trans()


def case_trivial(ctx, q, a, b):
    """Over the trivial group, lifted products are hypergraph products."""
    F = galois.GF(q)
    ha, hb = F(np.array(a)), F(np.array(b))
    to_ring = lambda m: abstract.TrivialGroup.to_ring_array(m)
    A = alg(("trivial",), q)
    wrap = lambda m: [[A.real((int(x),)) for x in r] for r in m]
    for what, ra, rb in (
        ("to_ring_array", to_ring(ha), to_ring(hb)),
        ("ring members", abstract.RingArray(wrap(ha)), abstract.RingArray(wrap(hb))),
    ):
        lp, hgp = codes.LPCode(ra, rb), codes.HGPCode(ha, hb)
        require(lp.field is hgp.field, f"{what}: field")
        require(tup(lp.matrix) == tup(hgp.matrix), f"{what}: checks")
        require(tup(lp.sector_size) == tup(hgp.sector_size), f"{what}: sectors")
        require(tup(lp.conjugated().matrix) == tup(hgp.conjugated().matrix), f"{what}: default conjugation")
        require(lp.is_subsystem_code == hgp.is_subsystem_code, f"{what}: subsystem")
        slp, shp = codes.SLPCode(ra, rb), codes.SHPCode(ha, hb)
        require(slp.field is shp.field and tup(slp.matrix) == tup(shp.matrix), f"{what}: subsystem lifted product")
        require(slp.is_subsystem_code == shp.is_subsystem_code, f"{what}: subsystem product")
        ctx.trans(2)


# -- quantum Tanner codes ------------------------------------------------------------------------------------


def dual(f, m, n):
    """A generator matrix of the code with checks m."""
    return f.null_space(m, n) if m else iden(n)


def tanner_rows(f, names, local, blocks, columns):
    """Rows of the checks on every vertex: `local` acts on the faces at the vertex in label order."""
    pos = {c: i for i, c in enumerate(columns)}
    out = []
    for v in names:
        labelled = sorted((label, face) for face, label in blocks[v].items())
        idx = [pos[face] for _, face in labelled]
        for r in local:
            row = [0] * len(columns)
            for i, x in zip(idx, r):
                row[i] = f.add[row[i]][x]
            out.append(tuple(row))
    return out


def qt_reference(f, fa, fb, ca, cb, bipartite):
    """(faces, X rows, Z rows) with faces as frozensets of vertices (g, i, j)."""
    na, nb = len(fa), len(fb)
    _, verts, _, faces = cover_ref(fa, fb, bipartite)
    even = {v for v in verts if (v[1] + v[2]) % 2 == 0}
    blocks = {}
    for face, corners in faces.items():
        for v, label in corners.items():
            blocks.setdefault(v, {})[face] = label
    columns = sorted(faces, key=lambda c: sorted(c))
    gen_a, gen_b = dual(f, ca, na), dual(f, cb, nb)
    # X checks: code words of C_A (x) C_B; Z checks: code words of the product of the dual codes
    local_x = f.kron(gen_a, gen_b) if gen_a and gen_b else ()
    chk_a, chk_b = f.rref(ca)[0] if ca else (), f.rref(cb)[0] if cb else ()
    local_z = f.kron(chk_a, chk_b) if chk_a and chk_b else ()
    mx = tanner_rows(f, sorted(even), local_x, blocks, columns)
    mz = tanner_rows(f, sorted(verts - even), local_z, blocks, columns)
    return columns, mx, mz


def decode(member, deg, bipartite):
    form = tuple(member.array_form)
    return (form[:deg], int(form[deg] != deg), int(not bipartite and form[deg + 2] != deg + 2))


def same_up_to_columns(f, code, columns, mx, mz, deg, bipartite):
    """Do the checks of the code generate the same groups, for some order of the qudits?"""
    n = len(columns)
    hx, hz = tup(code.matrix_x), tup(code.matrix_z)
    rx, rz = f.rref(mx)[0] if mx else (), f.rref(mz)[0] if mz else ()

    def fits(order):
        perm = lambda m: tuple(tuple(r[order[c]] for c in columns) for r in m)
        ex = f.rref(perm(hx))[0] if len(hx) else ()
        ez = f.rref(perm(hz))[0] if len(hz) else ()
        return ex == rx and ez == rz

    if len(code) != n:
        return False
    gx, _ = codes.QTCode.get_subgraphs(code.complex)
    named = [
        frozenset(decode(m, deg, bipartite) for m in node) for node in gx.nodes if isinstance(node, frozenset)
    ]
    for guess in (named, sorted(named, key=lambda c: sorted(c)), columns):
        if fits({c: i for i, c in enumerate(guess)}):
            return True
    # any other order: an isomorphism of the check matrices
    def graph(mx, mz):
        g = nx.Graph()
        for c in range(n):
            g.add_node(("q", c), kind="q")
        for s, m in (("x", mx), ("z", mz)):
            for i, r in enumerate(m):
                g.add_node((s, i), kind=s)
                for c, v in enumerate(r):
                    if v:
                        g.add_edge((s, i), ("q", c), val=v)
        return g

    nonzero = lambda m: [r for r in m if any(r)]
    ga, gb = graph(nonzero(mx), nonzero(mz)), graph(nonzero(hx), nonzero(hz))
    if len(ga) != len(gb) or ga.number_of_edges() != gb.number_of_edges():
        return False
    match = nx.algorithms.isomorphism.GraphMatcher(
        ga, gb, lambda a, b: a["kind"] == b["kind"], lambda a, b: a["val"] == b["val"]
    )
    return match.is_isomorphic()


def seed_array(F, m, n):
    return F(np.array(m, dtype=int).reshape(len(m), n))


HEADERS = [(), ("one line",), ("two\nlines", "three"), ("",), ("# bipartite: True", "base field: 7", "1 2 3"), ("\n\n", "x: y")]


def make_qt(desc, q, aa, bb, ca, cb, bipartite, form=set, default_b=False):
    members = list(build(tuple(desc))[0].generate())
    F = galois.GF(q)
    sub_a, sub_b = form(members[i] for i in aa), form(members[i] for i in bb)
    code_a = codes.ClassicalCode(seed_array(F, ca, len(aa)))
    if default_b:
        return codes.QTCode(sub_a, sub_b, code_a, bipartite=bipartite)
    return codes.QTCode(sub_a, sub_b, code_a, codes.ClassicalCode(seed_array(F, cb, len(bb))), bipartite=bipartite)


def case_qt(ctx, desc, q, aa, bb, ca, cb, header=0):
    f, F = gf(q), galois.GF(q)
    members = list(build(tuple(desc))[0].generate())
    forms = [tuple(m.array_form) for m in members]
    deg = len(forms[0])
    sub_a, sub_b = [members[i] for i in aa], [members[i] for i in bb]
    fa, fb = [forms[i] for i in aa], [forms[i] for i in bb]
    na, nb = len(aa), len(bb)
    arr_a, arr_b = seed_array(F, ca, na), seed_array(F, cb, nb)
    ta, tb = tup(arr_a), tup(arr_b)
    for bipartite in (False, True):
        ok = not bipartite or tnc(forms, fa, fb)
        variants = [
            ("codes", lambda: codes.QTCode(sub_a, sub_b, codes.ClassicalCode(arr_a), codes.ClassicalCode(arr_b), bipartite=bipartite)),
            ("arrays", lambda: codes.QTCode(set(sub_a), set(sub_b), arr_a, arr_b, bipartite=bipartite)),
            ("reversed", lambda: codes.QTCode(sub_a[::-1], tuple(sub_b), arr_a, arr_b, bipartite=bipartite)),
        ]
        if len(ca) and len(cb):
            variants.append(
                ("lists", lambda: codes.QTCode(tuple(sub_a), sub_b[::-1], arr_a.tolist(), arr_b.tolist(), q, bipartite=bipartite))
            )
        made = []
        for what, make in variants:
            try:
                made.append((what, make()))
            except ValueError:
                if ok:
                    raise
        if not ok:
            # TNC over the whole group is stronger than over the generated subgroup: only a refusal is fine
            if made and not tnc(closure(fa + fb), fa, fb):
                require(False, "bipartite code accepted although a g = g b has solutions")
            if not made:
                continue
        columns, mx, mz = qt_reference(f, fa, fb, ta, tb, bipartite)
        require(all(len(c) == 4 for c in columns), "reference: degenerate face")
        n = len(columns)
        first = made[0][1]
        for what, code in made:
            require(code.field is F and not code.is_subsystem_code, f"{what}: field or subsystem")
            require(len(code) == n, f"{what}: {len(code)} qudits on {n} faces")
            hx, hz = tup(code.matrix_x), tup(code.matrix_z)
            if len(hx) and len(hz):
                require(
                    all(v == 0 for r in f.matmul(hx, f.transpose(hz)) for v in r), f"{what}: X and Z checks do not commute"
                )
            require(same_up_to_columns(f, code, columns, mx, mz, deg, bipartite), f"{what}: checks differ from the definition")
            require(tup(code.matrix_x) == tup(first.matrix_x) and tup(code.matrix_z) == tup(first.matrix_z), f"{what}: checks depend on the order in which subsets are given")
            require(code == first and first == code, f"{what}: codes with equal data are not equal")
            require(tup(code.code_a.matrix) == ta and tup(code.code_b.matrix) == tb, f"{what}: seed codes")
            ctx.trans()
        k = n - (f.rank(mx) if mx else 0) - (f.rank(mz) if mz else 0)
        require(first.dimension == k, f"dimension {first.dimension} instead of {k}")
        for h in {0, header % len(HEADERS)}:
            check_reload(first, HEADERS[h], q)
            ctx.trans()


def closure(gens):
    ident = tuple(range(len(gens[0])))
    out, todo = {ident}, [ident]
    while todo:
        v = todo.pop()
        for a in gens:
            w = tuple(v[i] for i in a)
            if w not in out:
                out.add(w)
                todo.append(w)
    return out


def check_reload(code, header, q):
    with tempfile.TemporaryDirectory() as tmp:
        for path in (os.path.join(tmp, "code.txt"), os.path.join(tmp, "new", "dir", "code.txt")):
            code.save(path, *header)
            back = codes.QTCode.load(path)
            require(isinstance(back, codes.QTCode) and back == code and code == back, "the code read back is not equal")
            require(back.field is code.field, "field of the code read back")
            require(back.complex.bipartite is code.complex.bipartite, "cover of the code read back")
            require(back.complex.subset_a == code.complex.subset_a, "first subset of the code read back")
            require(back.complex.subset_b == code.complex.subset_b, "second subset of the code read back")
            for s in ("code_a", "code_b"):
                x, y = getattr(back, s), getattr(code, s)
                require(x.matrix.shape == y.matrix.shape and tup(x.matrix) == tup(y.matrix), f"{s} of the code read back")
            require(tup(back.matrix_x) == tup(code.matrix_x), "X checks of the code read back")
            require(tup(back.matrix_z) == tup(code.matrix_z), "Z checks of the code read back")
        # overwriting an existing file
        back.save(path)
        require(codes.QTCode.load(path) == code, "file written twice")
        try:
            codes.QTCode.load(os.path.join(tmp, "missing.txt"))
        except ValueError:
            pass
        else:
            require(False, "a missing file was loaded")


def case_default_b(ctx, desc, q, aa, bb, ca):
    """Without a second seed code, its dual is used (only for subsets of the same size)."""
    f, F = gf(q), galois.GF(q)
    members = list(build(tuple(desc))[0].generate())
    sub_a, sub_b = {members[i] for i in aa}, {members[i] for i in bb}
    arr = seed_array(F, ca, len(aa))
    try:
        code = codes.QTCode(sub_a, sub_b, arr)
    except ValueError:
        require(len(aa) != len(bb), "dual seed code refused")
        return
    require(len(aa) == len(bb), "a seed code is missing")
    other = galois.GF(3 if q == 2 else 2)
    for parts in ((seed_array(other, np.zeros((1, len(aa)), dtype=int), len(aa)), arr), (arr, seed_array(other, np.zeros((1, len(bb)), dtype=int), len(bb)))):
        try:
            codes.QTCode(sub_a, sub_b, *map(codes.ClassicalCode, parts))
        except Exception:  # noqa: BLE001
            continue
        require(False, "seed codes over different fields were accepted")
    want = dual(f, tup(arr), len(aa))
    got = tup(code.code_b.matrix)
    require((f.rref(got)[0] if got else ()) == (f.rref(want)[0] if want else ()), "second seed code is not the dual")
    again = codes.QTCode(sub_a, sub_b, arr, ~codes.ClassicalCode(arr))
    require(code == again and tup(code.matrix) == tup(again.matrix), "explicit dual")
    check_reload(code, (), q)
    ctx.trans(3)


def case_equality(ctx, items):
    """All ordered pairs of codes with different or equal defining data."""
    made = []
    for it in items:
        code = make_qt(it["desc"], it["q"], it["aa"], it["bb"], it["ca"], it["cb"], it["bip"])
        members = list(build(tuple(it["desc"]))[0].generate())
        frm = lambda idx: frozenset(tuple(members[i].array_form) for i in idx)
        data = (frm(it["aa"]), frm(it["bb"]), it["q"], tup(np.array(it["ca"])), tup(np.array(it["cb"])), it["bip"])
        made.append((data, code))
    for (da, a), (db, b) in itertools.product(made, repeat=2):
        require((a == b) == (da == db), f"equality is {a == b} for {da} and {db}")
        require((a != b) == (da != db), f"inequality is {a != b} for {da} and {db}")
        ctx.trans()
    a = made[0][1]
    require(a != 1 and not a == "x" and a != codes.CSSCode(a.matrix_x, a.matrix_z), "equal to another object")


DRIVER = """
import json, sys
sys.path[:0] = json.loads(sys.argv[1])
from mc.checks import c18
from qldpc import codes
out = []
for i, it in enumerate(json.load(open(sys.argv[2]))):
    path = sys.argv[3] + "/%d.txt" % i
    if sys.argv[4] == "save":
        code = c18.make_qt(it["desc"], it["q"], it["aa"], it["bb"], it["ca"], it["cb"], it["bip"])
        code.save(path)
    else:
        code = codes.QTCode.load(path)
    out.append([code.matrix_x.tolist(), code.matrix_z.tolist()])
print("RESULT" + json.dumps(out))
"""


def case_processes(ctx, items):
    """Write in one process, read in others (each process hashes group members differently)."""
    import qldpc

    paths = [os.path.dirname(os.path.dirname(os.path.abspath(qldpc.__file__))), os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]
    with tempfile.TemporaryDirectory() as tmp:
        spec = os.path.join(tmp, "items.json")
        with open(spec, "w") as fh:
            json.dump(items, fh)
        results = []
        for seed, what in (("1", "save"), ("2", "load"), ("3", "load")):
            env = dict(os.environ, PYTHONHASHSEED=seed)
            run = subprocess.run(
                [sys.executable, "-c", DRIVER, json.dumps(paths), spec, tmp, what], env=env, capture_output=True, text=True, timeout=250
            )
            require(run.returncode == 0, f"process {what} failed: {run.stderr[-500:]}")
            line = [x for x in run.stdout.splitlines() if x.startswith("RESULT")][-1]
            results.append(json.loads(line[len("RESULT") :]))
        for it, a, b, c in zip(items, *results):
            require(a == b == c, f"checks of {it} change when the code is read back in another process")
            ctx.trans(2)


CASES = {
    "lp": case_lp,
    "trivial": case_trivial,
    "qt": case_qt,
    "default_b": case_default_b,
    "equality": case_equality,
    "processes": case_processes,
}


# -- units ---------------------------------------------------------------------------------------------------------


def unit_lp_pairs(ctx, desc, q, stride=1, part=0, parts=1):
    A = alg(tuple(desc), q)
    pool = list(itertools.product(range(q), repeat=A.n))
    for i, (x, y) in enumerate(itertools.product(pool, repeat=2)):
        if i % stride == 0 and (i // stride) % parts == part:
            ctx.case("lp", {"desc": desc, "q": q, "a": [[x]], "b": [[y]], "same": x == y})


def unit_lp_sparse(ctx, desc, q, stride, part=0, parts=1):
    """Larger groups: all pairs of elements with one or two terms (coefficients 1 and q-1)."""
    A = alg(tuple(desc), q)
    pool = []
    for size in (1, 2):
        for idx in itertools.combinations(range(A.n), size):
            for cs in itertools.product(sorted({1, q - 1}), repeat=size):
                x = [0] * A.n
                for i, c in zip(idx, cs):
                    x[i] = c
                pool.append(tuple(x))
    for i, (x, y) in enumerate(itertools.product(pool, repeat=2)):
        if i % stride == 0 and (i // stride) % parts == part:
            a, b = [[x]], [[y]]
            if (i // stride) % 3 == 1:
                a = [[x, y]]
            if (i // stride) % 3 == 2:
                b = [[y], [x]]
            ctx.case("lp", {"desc": desc, "q": q, "a": a, "b": b, "same": a == b})


def ring_reps(A):
    """A few matrices per shape with entries 0, 1, g, 1+g, g+h, ..."""
    n, q = A.n, A.q
    e = lambda *idx: tuple((i % 2 + 1) % q or 1 if i in idx else 0 for i in range(n))
    z, one = A.zero, A.one
    g, h = e(1 % n), e(n - 1)
    s = A.add(one, g)
    t = A.add(g, h) if n > 2 else one
    return {
        (1, 1): [[[s]], [[t]]],
        (1, 2): [[[one, g]], [[s, h]], [[z, t]]],
        (2, 1): [[[one], [g]], [[s], [z]]],
        (2, 2): [[[one, g], [h, one]], [[s, z], [t, one]], [[g, h], [h, g]]],
        (1, 3): [[[one, g, s]]],
    }


def unit_lp_arrays(ctx, desc, q, part=0, parts=1, limit=10):
    A = alg(tuple(desc), q)
    reps = ring_reps(A)
    pool = [(s, m) for s in reps for m in reps[s]]
    i = 0
    for (s, a), (t, b) in itertools.product(pool, repeat=2):
        if A.n * (s[1] * t[1] + s[0] * t[0]) > limit * A.n:
            continue
        i += 1
        if i % parts == part:
            ctx.case("lp", {"desc": desc, "q": q, "a": a, "b": b, "same": a == b})


def unit_trivial(ctx, q, stride):
    pool = []
    for s in ((1, 1), (1, 2), (2, 1), (2, 2)):
        pool += [np.array(v).reshape(s).tolist() for v in itertools.product(range(q), repeat=s[0] * s[1])]
    for i, (a, b) in enumerate(itertools.product(pool, repeat=2)):
        if i % stride == 0:
            ctx.case("trivial", {"q": q, "a": a, "b": b})


def seeds(q, n, small=False):
    out = {
        1: [[], [[1]], [[0]]],
        2: [[[1, 1]], [[1, 0]], [[1, 0], [0, 1]], [], [[0, 0], [1, 1]], [[0, 1]]],
        3: [[[1, 1, 0], [0, 1, 1]], [[1, 1, 1]], [[1, 0, 1], [1, 0, 1]], [[0, 1, 0]]],
        4: [[[1, 1, 1, 1]], [[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1]]],
    }[n]
    if q > 2:
        out = {
            1: [[[1]], [[q - 1]], []],
            2: [[[1, 2]], [[1, 1]], [[q - 1, 0]]],
            3: [[[1, 2, 1]], [[1, 1, 0], [0, 1, 2]]],
            4: [[[1, 2, 1, q - 1]]],
        }[n]
    return out[:2] if small else out


def unit_qt(ctx, desc, q, size, exact=False, small=False, part=0, parts=1):
    subs = symmetric_subsets(tuple(desc), size)
    i = 0
    for aa, bb in itertools.product(subs, repeat=2):
        if exact and max(len(aa), len(bb)) != size:
            continue
        for ca, cb in itertools.product(seeds(q, len(aa), small), seeds(q, len(bb), small)):
            i += 1
            if i % parts == part:
                ctx.case("qt", {"desc": desc, "q": q, "aa": aa, "bb": bb, "ca": ca, "cb": cb, "header": i // parts})


def unit_default_b(ctx, descs):
    for desc in descs:
        subs = symmetric_subsets(tuple(desc), 3)
        for aa, bb in itertools.product(subs[::2], subs[::3]):
            for q in (2, 3):
                for ca in seeds(q, len(aa)):
                    ctx.case("default_b", {"desc": desc, "q": q, "aa": aa, "bb": bb, "ca": ca})


def items(limit):
    out = []
    for desc, q, bip in itertools.product((("cyclic", 4), ("cyclic", 3), ("abelian", 2, 2)), (2, 3), (False, True)):
        subs = symmetric_subsets(desc, 2)
        for aa, bb in itertools.product(subs, repeat=2):
            members = list(build(desc)[0].generate())
            forms = [tuple(m.array_form) for m in members]
            if bip and not tnc(forms, [forms[i] for i in aa], [forms[i] for i in bb]):
                continue
            for ca, cb in itertools.product(seeds(q, len(aa)), seeds(q, len(bb))):
                if ca and cb:
                    out.append({"desc": desc, "q": q, "aa": aa, "bb": bb, "ca": ca, "cb": cb, "bip": bip})
    step = max(1, len(out) // limit)
    # neighbours in the list differ in one ingredient only; repeat a few for equal pairs
    block = out[:4] + out[::step][: limit - 12]
    return block + block[-8:]


def unit_equality(ctx, limit):
    ctx.case("equality", {"items": items(limit)})
    full = items(10**6)
    for lo in range(0, len(full), max(1, len(full) // 6)):
        ctx.case("equality", {"items": full[lo : lo + 14] + full[lo : lo + 2]})


def unit_processes(ctx, limit):
    chosen = []
    for desc, q, sizes in ((("cyclic", 4), 2, 3), (("symmetric", 3), 2, 3), (("dihedral", 4), 2, 2), (("cyclic", 5), 3, 3)):
        subs = [s for s in symmetric_subsets(desc, sizes) if len(s) > 1]
        for aa, bb in list(itertools.product(subs[::2], subs[::3]))[:limit]:
            chosen.append({"desc": desc, "q": q, "aa": aa, "bb": bb, "ca": seeds(q, len(aa))[0], "cb": seeds(q, len(bb))[1], "bip": False})
    ctx.case("processes", {"items": chosen})


UNITS = {
    "lp_pairs": unit_lp_pairs,
    "lp_sparse": unit_lp_sparse,
    "lp_arrays": unit_lp_arrays,
    "trivial": unit_trivial,
    "qt": unit_qt,
    "default_b": unit_default_b,
    "equality": unit_equality,
    "processes": unit_processes,
}


def units(tier):
    th = tier == "thorough"
    out = [("processes", {"limit": 12 if th else 5}), ("equality", {"limit": 200 if th else 60})]
    C = lambda n: ("cyclic", n)
    out.append(("default_b", {"descs": [C(3), C(4), ("symmetric", 3)]}))
    for q, stride in ((2, 3), (3, 61), (4, 1501)):
        out.append(("trivial", {"q": q, "stride": 1 if q == 2 and th else max(1, stride // (8 if th else 1))}))
    for desc, q, stride, parts in (
        (("trivial",), 2, 1, 1), (C(2), 2, 1, 1), (C(3), 2, 1, 1), (C(4), 2, 1, 4), (("abelian", 2, 2), 2, 1, 4),
        (("symmetric", 3), 2, 1 if th else 13, 8), (("trivial",), 3, 1, 1), (C(2), 3, 1, 2), (("trivial",), 4, 1, 1),
    ):  # fmt: skip
        for p in range(parts):
            out.append(("lp_pairs", {"desc": desc, "q": q, "stride": stride, "part": p, "parts": parts}))
    if th:
        for p in range(8):
            out.append(("lp_pairs", {"desc": C(3), "q": 3, "part": p, "parts": 8}))
            out.append(("lp_pairs", {"desc": C(2), "q": 4, "part": p, "parts": 8}))
            out.append(("lp_pairs", {"desc": ("dihedral", 4), "q": 2, "stride": 101, "part": p, "parts": 8}))
            out.append(("lp_pairs", {"desc": ("quaternion",), "q": 3, "stride": 50003, "part": p, "parts": 8}))
    for desc, q, stride, parts in (
        (C(5), 2, 3, 2), (C(6), 2, 7, 2), (C(7), 2, 13, 2), (("dihedral", 4), 2, 17, 4), (("quaternion",), 3, 101, 4), (("abelian", 2, 3), 2, 7, 2),
        (("symmetric", 3), 3, 59, 4), (("dihedral", 5), 2, 61, 4), (C(4), 3, 17, 2), (("alternating", 4), 2, 151, 4),
    ):  # fmt: skip
        for p in range(parts):
            out.append(("lp_sparse", {"desc": desc, "q": q, "stride": max(1, stride // 5) if th else stride, "part": p, "parts": parts}))
    for desc, q in ((C(2), 2), (C(3), 2), (C(2), 3), (("symmetric", 3), 2), (C(3), 4)):
        parts = 4 if desc[0] == "symmetric" else 2
        for p in range(parts):
            out.append(("lp_arrays", {"desc": desc, "q": q, "limit": 10 if th else 6, "part": p, "parts": parts if th or desc[0] != "symmetric" else 8}))
    for desc, size, parts in (
        (("trivial",), 1, 1), (C(2), 2, 1), (C(3), 2, 1), (C(4), 2, 4), (("abelian", 2, 2), 2, 4), (("symmetric", 3), 2, 8),
    ):  # fmt: skip
        div = 1 if th else {"symmetric": 6, "abelian": 3}.get(desc[0], 1)
        for p in range(parts):
            out.append(("qt", {"desc": desc, "q": 2, "size": size, "part": p, "parts": parts * div}))
    for desc, parts in ((C(3), 2), (C(4), 8), (("abelian", 2, 2), 8)):
        for p in range(min(parts, 4)):
            out.append(("qt", {"desc": desc, "q": 2, "size": 3, "exact": True, "small": not th, "part": p, "parts": parts * (1 if th else 2)}))
    for desc, q, parts in ((C(2), 3, 1), (C(3), 3, 4), (C(2), 4, 1), (C(3), 4, 4), (("symmetric", 3), 3, 16)):
        for p in range(min(parts, 2) if not th else parts):
            out.append(("qt", {"desc": desc, "q": q, "size": 2, "part": p, "parts": parts}))
    if th:
        for desc in (C(5), C(6), ("dihedral", 4), ("quaternion",), ("symmetric", 3)):
            for p in range(8):
                out.append(("qt", {"desc": desc, "q": 2, "size": 3, "exact": True, "small": True, "part": p, "parts": 32}))
        for desc in (C(4), ("abelian", 2, 2)):
            for p in range(4):
                out.append(("qt", {"desc": desc, "q": 2, "size": 4, "exact": True, "small": True, "part": p, "parts": 4}))
    return out
