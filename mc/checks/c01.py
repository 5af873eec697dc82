"""C01: a classical code is exactly the kernel of its parity check matrix."""

import itertools

import galois
import numpy as np
from qldpc import codes

from mc import ref, rng
from mc.core import require
from mc.ref import gf, tup, vec

PROPERTY = "C01"
ASSUMPTIONS = ["galois and numpy array primitives are exact", "reference GF(q) tables in mc/ref.py"]
BOUNDS = {
    "quick": "all H: GF2 m*n<=12 (m<=4,n<=5), GF3 m*n<=6, GF4 m*n<=4, GF5 m*n<=3 (+2x2), GF8 m*n<=2, GF9 m*n<=2; cyclic check matrices (all shifts of a seed, all or part of the rows) of all seeds n=6..9 (q=2), n=10,12 by stride, n=4..6 (q=3), n=3,4 (q=4,5), n=2,3 (q=8,9), n=3 (q=7)",
    "thorough": "all H: GF2 m*n<=15, GF3 m*n<=8, GF4 m*n<=6, GF5 m*n<=4, GF8/GF9 m*n<=4",
}


def warmup():
    for q in (2, 3, 4, 5, 8, 9):
        code = codes.ClassicalCode([[1, 0, 1], [1, 1, 0]], q)
        code.generator, code.canonicalized, code.dimension, list(code.iter_words())
        np.linalg.matrix_rank(code.matrix)


def case_kernel(ctx, q, h):
    f = gf(q)
    H = tup(h)
    m, n = len(H), len(H[0])
    kernel = f.null_space(H, n)
    words = set(f.span(kernel, n)) if kernel else {(0,) * n}
    rows = f.rref(H)[0]
    F = galois.GF(q)

    code = codes.ClassicalCode([list(r) for r in H], q)
    for other in (codes.ClassicalCode(np.array(H), q), codes.ClassicalCode(F(np.array(H)))):
        require(tup(other.matrix) == H and other.field is F, "constructor changed the checks")
        require(other == code, "same checks, different codes")
        ctx.trans()
    copy = codes.ClassicalCode(code)
    require(copy == code and tup(copy.matrix) == H, "copy differs")
    require(code.field is F and code.field.order == q, "wrong field")
    require(tup(code.matrix) == H, "matrix differs from the one given")
    require(len(code) == n and code.num_bits == n and code.num_checks == m, "wrong shape")
    require(code.rank == len(rows), f"rank {code.rank} != {len(rows)}")
    require(code.dimension == len(kernel), f"dimension {code.dimension} != {len(kernel)}")
    require(code.get_weight() == max(ref.hamming(r) for r in H), "wrong check weight")
    can = codes.ClassicalCode([list(r) for r in H], q).canonicalized
    require(tup(can.matrix) == rows and can.matrix.shape[1] == n, f"canonical form {can.matrix}")
    require(can.field is F and can.dimension == len(kernel), "canonical form has wrong field/dim")
    require(codes.ClassicalCode.equiv(code, can), "not equivalent to its canonical form")
    ctx.trans(8)

    gen = code.generator
    require(gen.shape[1] == n and type(gen) is F, "generator has wrong shape or field")
    require(gen.shape[0] == len(kernel), f"generator has {gen.shape[0]} rows")
    require(f.rref(tup(gen))[0] == kernel, "generator does not span the kernel")
    listed = [vec(w) for w in code.iter_words()]
    require(len(listed) == q ** len(kernel), f"{len(listed)} words enumerated")
    require(len(set(listed)) == len(listed), "a word is enumerated twice")
    require(set(listed) == words, "enumerated words are not the kernel")
    nonzero = [vec(w) for w in code.iter_words(skip_zero=True)]
    require(sorted(nonzero) == sorted(w for w in words if any(w)), "skip_zero enumeration is wrong")
    ctx.trans(3)
    outside = []
    if q**n <= 256:
        candidates = f.all_vectors(n)
    else:  # all words of the code, all vectors of weight <= 1 and all sums of the two
        light = {vec(v) for v in [(0,) * n] + [
            tuple(c if i == j else 0 for j in range(n)) for i in range(n) for c in (1, q - 1)]}
        candidates = sorted(light | {f.vadd(w, v) for w in sorted(words)[:40] for v in light})
    for v in candidates:
        require((list(v) in code) == (v in words), f"membership of {v} is wrong")
        require((np.array(v) in code) == (v in words), f"membership of {v} is wrong (array)")
        if v not in words and len(outside) < 3:
            outside.append(v)
        ctx.trans(2)
    require([list(w) for w in sorted(words)] in code, "set of all words rejected")
    for v in outside:
        mixed = [list(w) for w in sorted(words)[:3]] + [list(v)]
        require(mixed not in code and mixed[::-1] not in code, f"mixed set with {v} accepted")
        ctx.trans(2)

    dual = ~codes.ClassicalCode([list(r) for r in H], q)
    require(dual.field is F and len(dual) == n, "dual has wrong field or length")
    require(dual.dimension == len(rows), "dual has wrong dimension")
    require(f.null_space(tup(dual.matrix), n) == rows, "dual code is not the orthogonal complement")
    require({vec(w) for w in dual.iter_words()} == set(f.span(rows, n)), "words of the dual")
    again = dual.dual()
    require(codes.ClassicalCode.equiv(again, code), "double dual is not equivalent")
    require({vec(w) for w in again.iter_words()} == words, "double dual has other words")
    ctx.trans(5)
    # asking in another order gives the same answers (dimension before rank, generator first)
    fresh = codes.ClassicalCode([list(r) for r in H], q)
    require(fresh.generator.shape[0] == fresh.dimension == len(kernel), "order of queries matters")
    require(fresh.rank == len(rows), "order of queries matters (rank)")
    require(str(n) in str(code), "description lacks the block length")
    ctx.trans(2)


def case_random_word(ctx, q, h):
    f = gf(q)
    H = tup(h)
    n = len(H[0])
    kernel = f.null_space(H, n)
    words = set(f.span(kernel, n)) if kernel else {(0,) * n}
    code = codes.ClassicalCode([list(r) for r in H], q)
    code.generator
    got = set()
    stats = rng.Stats()
    for word, script in rng.explore(lambda: vec(code.get_random_word()), stats=stats):
        require(word in words, f"random word {word} is not a code word")
        got.add(word)
        ctx.trans()
    if stats.paths > 1:
        require(got == words, "some code words can never be drawn")
    for seed in range(4):
        a, b = vec(code.get_random_word(seed=seed)), vec(code.get_random_word(seed=seed))
        require(a == b and a in words, f"seeded random word {a}, {b}")
        ctx.trans()


def case_set_generator(ctx, q, h, rows):
    """Every candidate generator with the given number of rows."""
    f = gf(q)
    H = tup(h)
    n = len(H[0])
    kernel = f.null_space(H, n)
    words = set(f.span(kernel, n)) if kernel else {(0,) * n}
    for G in f.all_matrices(rows, n):
        code = codes.ClassicalCode([list(r) for r in H], q)
        good = all(r in words for r in G) and f.rank(G) == len(kernel)
        try:
            code.set_generator([list(r) for r in G])
            accepted = True
        except ValueError:
            accepted = False
        require(accepted == good, f"generator {G} " + ("accepted" if accepted else "rejected"))
        if accepted:
            require(tup(code.generator) == G and type(code.generator) is galois.GF(q), "not stored")
            if rows == len(kernel):
                require(sorted(vec(w) for w in code.iter_words()) == sorted(words), "words changed")
        else:
            require(f.rref(tup(code.generator))[0] == kernel, "rejected generator was kept")
        require(code.dimension == len(kernel), "dimension changed")
        ctx.trans(2)
        ctx.state((q, H, G))


def case_equality(ctx, q, m1, n, m2, first):
    """equality / equivalence of one code with every code of another shape."""
    f = gf(q)
    H = tup(first)
    a = codes.ClassicalCode([list(r) for r in H], q)
    ra = f.rref(H)[0]
    for G in f.all_matrices(m2, n):
        b = codes.ClassicalCode([list(r) for r in G], q)
        require((a == b) == (H == G), f"equality of {H} and {G}")
        require(codes.ClassicalCode.equiv(a, b) == (ra == f.rref(G)[0]), f"equiv of {H} and {G}")
        ctx.trans(2)
        ctx.state((q, H, G))
    q2 = 3 if q == 2 else 2
    if max(max(r) for r in H) < 2:
        b = codes.ClassicalCode([list(r) for r in H], q2)
        require(a != b and not codes.ClassicalCode.equiv(a, b), "codes over different fields equal")


CASES = {
    "kernel": case_kernel,
    "random_word": case_random_word,
    "set_generator": case_set_generator,
    "equality": case_equality,
}


def unit_kernel(ctx, q, m, n, part, parts):
    for i, h in enumerate(gf(q).all_matrices(m, n)):
        if i % parts == part:
            ctx.case("kernel", {"q": q, "h": h})


def unit_random(ctx, q, m, n):
    for h in gf(q).all_matrices(m, n):
        ctx.case("random_word", {"q": q, "h": h})


def unit_set_generator(ctx, q, m, n, rows):
    for h in gf(q).all_matrices(m, n):
        ctx.case("set_generator", {"q": q, "h": h, "rows": rows})


def unit_equality(ctx, q, m1, n, m2):
    for h in gf(q).all_matrices(m1, n):
        ctx.case("equality", {"q": q, "m1": m1, "n": n, "m2": m2, "first": h})


def unit_cyclic(ctx, q, n, part, parts, stride=1):
    """Longer words: all cyclic shifts of a seed, or a part of them in another order."""
    for i, rows in enumerate(ref.cyclic_rows(q, n)):
        if i % stride == 0 and (i // stride) % parts == part:
            rows = [rows, rows[: n - 2] or rows, rows[::-2]][(i // stride) % 3]
            ctx.case("kernel", {"q": q, "h": rows})


UNITS = {
    "cyclic": unit_cyclic,
    "kernel": unit_kernel,
    "random": unit_random,
    "set_generator": unit_set_generator,
    "equality": unit_equality,
}


def units(tier):
    out = []
    if tier == "quick":
        cap = {2: 12, 3: 6, 4: 4, 5: 3, 8: 2, 9: 2}
    else:
        cap = {2: 15, 3: 8, 4: 7, 5: 5, 8: 4, 9: 4}
    for q, mx in cap.items():
        for m, n in itertools.product(range(1, 6), range(1, 6)):
            if m * n > mx and (q, m, n) != (5, 2, 2):
                continue
            total = q ** (m * n)
            parts = max(1, total // 250)
            out += [("kernel", dict(q=q, m=m, n=n, part=p, parts=parts)) for p in range(parts)]
    for q, m, n in [(2, 1, 3), (2, 2, 3), (3, 1, 2), (3, 1, 3), (4, 1, 2), (4, 1, 3), (5, 1, 2)]:
        out.append(("random", dict(q=q, m=m, n=n)))
    sg = [(2, 1, 2, 1), (2, 2, 3, 1), (2, 2, 3, 2), (2, 1, 3, 2), (2, 1, 3, 3), (3, 1, 2, 1),
          (3, 1, 2, 2), (4, 1, 2, 1), (3, 2, 2, 1)]
    if tier == "thorough":
        sg += [(3, 1, 3, 2), (4, 1, 2, 2), (4, 1, 3, 1), (2, 1, 4, 3), (2, 3, 3, 2)]
    out += [("set_generator", dict(q=q, m=m, n=n, rows=r)) for q, m, n, r in sg]
    eq = [(2, 1, 3, 1), (2, 2, 2, 2), (2, 2, 2, 1), (2, 2, 3, 1), (3, 1, 2, 1), (3, 1, 2, 2), (4, 1, 2, 1)]
    if tier == "thorough":
        eq += [(2, 2, 3, 2), (3, 2, 2, 2), (2, 3, 2, 3)]
    out += [("equality", dict(q=q, m1=a, n=n, m2=b)) for q, a, n, b in eq]
    cyc = [(2, 6, 1, 1), (2, 7, 1, 1), (2, 8, 1, 1), (2, 9, 2, 1), (2, 10, 2, 2), (2, 12, 4, 7), (3, 4, 1, 1), (3, 5, 2, 1), (3, 6, 2, 3),
           (4, 3, 1, 1), (4, 4, 2, 2), (5, 3, 1, 1), (5, 4, 2, 5), (7, 3, 2, 3), (8, 2, 1, 1), (8, 3, 2, 7), (9, 2, 1, 1), (9, 3, 2, 11)]
    out += [("cyclic", dict(q=q, n=n, part=p, parts=t, stride=s if tier == "quick" else 1)) for q, n, t, s in cyc for p in range(t)]
    return out
