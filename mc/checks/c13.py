"""C13: group-algebra arithmetic and matrices over group algebras are exact."""

import itertools

import galois
import numpy as np
from qldpc import abstract
from qldpc.abstract import GroupMember, GroupRing, RingArray, RingMember

from mc.checks.c12 import build
from mc.core import require
from mc.ref import gf, perm_inv, perm_mul, tup

PROPERTY = "C13"
ASSUMPTIONS = [
    "galois linear algebra (rank, matrix products) over finite fields is exact",
    "integer multiples of ring members are repeated additions",
]
BOUNDS = {
    "quick": "all pairs of elements of GF(q)[G] for q^|G| <= 64; all elements (paired with 14 representatives incl. all monomials) for q^|G| <= 729 (every third one if q|G| > 16), G in {1, C1..C4, C2xC2, S3}; elements of weight <= 2 for Q8 over GF(3), D4 over GF(2), C6 over GF(5); matrices over GF(q)[G]: all up to 2x2 for C2 over GF(2), all 3x2 for C2, 1x2 / 2x1 for C3, C2 over GF(3,4), S3 and C2xC2 over GF(2) up to left multiples and row order; 2x2 with entries among 5 representatives",
    "thorough": "all pairs for q^|G| <= 729 (and S3 over GF(2)), 2x2 and 2x3 matrices with entries among 8 representatives, D4/Q8 column pairs",
}
CASE_TIMEOUT = 300


class Alg:
    """GF(q)[G] with elements as coefficient tuples in the order of group.generate()."""

    def __init__(self, desc, q):
        self.desc, self.q = desc, q
        self.group = build(desc)[0]
        self.ring = GroupRing(self.group, q)
        self.F = galois.GF(q)
        self.f = gf(q)
        self.members = list(self.group.generate())
        self.forms = [tuple(m.array_form) for m in self.members]
        pos = {f: i for i, f in enumerate(self.forms)}
        n = self.n = len(self.forms)
        self.table = [[pos[perm_mul(a, b)] for b in self.forms] for a in self.forms]
        self.inv = [pos[perm_inv(a)] for a in self.forms]
        self.e = pos[tuple(range(len(self.forms[0])))]
        self.zero = (0,) * n
        self.one = tuple(int(i == self.e) for i in range(n))
        self.lifts = [tup(self.group.lift(m)) for m in self.members]

    def add(self, x, y):
        return tuple(self.f.add[a][b] for a, b in zip(x, y))

    def neg(self, x):
        return tuple(self.f.neg[a] for a in x)

    def times(self, k, x):
        out = self.zero
        for _ in range(k % self.f.p):
            out = self.add(out, x)
        return out

    def mul(self, x, y):
        f, out = self.f, [0] * self.n
        for i, a in enumerate(x):
            if a:
                row = self.table[i]
                for j, b in enumerate(y):
                    if b:
                        k = row[j]
                        out[k] = f.add[out[k]][f.mul[a][b]]
        return tuple(out)

    def T(self, x):
        out = [0] * self.n
        for i, a in enumerate(x):
            out[self.inv[i]] = a
        return tuple(out)

    def lift(self, x):
        d = len(self.lifts[0])
        out = [[0] * d for _ in range(d)]
        for a, mat in zip(x, self.lifts):
            if a:
                for i in range(d):
                    for j in range(d):
                        v = mat[i][j]
                        term = self.f.mul[a][v] if v >= 0 else self.f.neg[self.f.mul[a][-v]]
                        out[i][j] = self.f.add[out[i][j]][term]
        return tup(out)

    def regular(self, x):
        out = [[0] * self.n for _ in range(self.n)]
        for m, a in enumerate(x):
            if a:
                for j in range(self.n):
                    out[self.table[m][j]][j] = self.f.add[out[self.table[m][j]][j]][a]
        return tup(out)

    def real(self, x):
        return RingMember(self.ring, *[(int(a), g) for a, g in zip(x, self.members) if a])

    def back(self, r):
        """Coefficients of a RingMember, read directly from its terms."""
        out = [0] * self.n
        pos = {f: i for i, f in enumerate(self.forms)}
        for val, g in r:
            i = pos[tuple(g.array_form)]
            out[i] = self.f.add[out[i]][int(val)]
        return tuple(out)

    def unit(self, x):
        """The two-sided inverse of x by exhaustive linear algebra over the field (or None)."""
        mat = self.F(np.array(self.regular(x)))
        if int(np.linalg.matrix_rank(mat)) < self.n:
            return None
        rhs = self.F(np.array(self.one))
        return tuple(int(v) for v in np.linalg.solve(mat, rhs))


_ALG = {}


def alg(desc, q):
    key = (str(desc), q)
    if key not in _ALG:
        _ALG[key] = Alg(tuple(desc) if isinstance(desc, list) else desc, q)
    return _ALG[key]


def same(A, real, want, what):
    require(isinstance(real, RingMember), f"{what}: not a ring member")
    got = A.back(real)
    require(got == tuple(want), f"{what}: {got}, expected {tuple(want)}")


# -- single elements --------------------------------------------------------------------------------


def case_element(ctx, desc, q, x):
    A = alg(desc, q)
    x = tuple(x)
    r = A.real(x)
    same(A, r, x, "construction")
    require(bool(r) == any(x), "truth value")
    require(tup([r.to_vector()])[0] == x and type(r.to_vector()) is A.F, "to_vector")
    for v in (np.array(x), A.F(np.array(x)), np.array(x, dtype=np.uint8)):
        same(A, RingMember.from_vector(A.ring, v), x, "from_vector")
    require(RingMember.from_vector(A.ring, r.to_vector()) == r, "vector round trip")
    same(A, -r, A.neg(x), "negation")
    same(A, r.T, A.T(x), "transpose")
    require(r.T.T == r, "double transpose")
    for k in range(-4, 5):
        want = A.times(k, x)
        same(A, r * k, want, f"times {k}")
        same(A, k * r, want, f"{k} times")
        same(A, r + k, A.add(x, A.times(k, A.one)), f"plus {k}")
        same(A, k + r, A.add(x, A.times(k, A.one)), f"{k} plus")
        same(A, r - k, A.add(x, A.neg(A.times(k, A.one))), f"minus {k}")
    for i, g in enumerate(A.members):
        e = tuple(int(i == j) for j in range(A.n))
        same(A, r * g, A.mul(x, e), "right multiple")
        same(A, g * r, A.mul(e, x), "left multiple")
        same(A, r + g, A.add(x, e), "plus member")
        same(A, g + r, A.add(x, e), "member plus")
        same(A, r - g, A.add(x, A.neg(e)), "minus member")
    power = A.one
    for k in range(4):
        same(A, r**k, power, f"power {k}")
        power = A.mul(power, x)
    inv = A.unit(x)
    real_inv = r.inverse()
    if inv is None:
        require(real_inv is None, "inverse of a non-unit")
        try:
            got = r**-1
        except Exception:  # noqa: BLE001
            pass
        else:
            require(False, f"the inverse power of a non-unit is {got}")
    else:
        require(real_inv is not None, "no inverse for a unit")
        same(A, real_inv, inv, "inverse")
        same(A, r * real_inv, A.one, "x x^-1")
        same(A, real_inv * r, A.one, "x^-1 x")
        same(A, r**-2, A.mul(inv, inv), "power -2")
    lifted = r.lift()
    require(type(lifted) is A.F and tup(lifted) == A.lift(x), "lift")
    reg = r.regular_lift()
    require(type(reg) is A.F and tup(reg) == A.regular(x), "regular lift")
    if getattr(A.group, "_lift", None) is None or desc[0] not in ("SL", "PSL"):
        require(tup(r.T.lift()) == tuple(zip(*tup(lifted))), "lift of the transpose")
    require(tup(r.T.regular_lift()) == tuple(zip(*tup(reg))), "regular lift of the transpose")
    c = r.copy()
    require(c == r and c is not r, "copy")
    c._vec[A.members[0]] += A.F(1)
    same(A, r, x, "operand changed")
    require(r != c, "equality with a changed copy")
    same(A, r + A.ring.zero, x, "zero")
    same(A, r * A.ring.one, x, "one")
    same(A, A.ring.one * r, x, "one")
    require(r.ring == A.ring and r.group == A.group and r.field is A.F, "ring")
    ctx.trans(70)


def case_terms(ctx, desc, q, terms):
    """Construction from lists of terms with repetitions and zero coefficients."""
    A = alg(desc, q)
    want = A.zero
    args = []
    for kind, c, i in terms:
        e = tuple(A.f.mul[c if kind else 1][int(i == j)] for j in range(A.n))
        want = A.add(want, e)
        value = A.F(c) if kind == 2 else c
        args.append((value, A.members[i]) if kind else A.members[i])
    r = RingMember(A.ring, *args)
    same(A, r, want, "sum of terms")
    require(r == A.real(want) and A.real(want) == r, "equality ignores how an element is written")
    require(bool(r) == any(want), "truth value")
    require(tup([r.to_vector()])[0] == want, "vector")
    require(tup(r.lift()) == A.lift(want), "lift")
    ctx.trans(4)


def case_pair(ctx, desc, q, x, ys):
    A = alg(desc, q)
    x = tuple(x)
    r = A.real(x)
    lx, rx = r.lift(), r.regular_lift()
    for y in ys:
        y = tuple(y)
        s = A.real(y)
        same(A, r + s, A.add(x, y), "sum")
        same(A, r - s, A.add(x, A.neg(y)), "difference")
        xy = A.mul(x, y)
        rs = r * s
        same(A, rs, xy, "product")
        require((r == s) == (x == y), "equality")
        require(rs.T == s.T * r.T, "transpose of a product")
        require(tup(rs.lift()) == tup(lx @ s.lift()), "lift of a product")
        require(tup((r + s).lift()) == tup(lx + s.lift()), "lift of a sum")
        require(tup(rs.regular_lift()) == tup(rx @ s.regular_lift()), "regular lift of a product")
        same(A, r, x, "operand changed")
        same(A, s, y, "operand changed")
        ctx.trans(9)
    if any(A.table[i][j] != A.table[j][i] for i in range(A.n) for j in range(A.n)):
        require(not A.ring.is_abelian, "is_abelian")
    else:
        require(A.ring.is_abelian, "is_abelian")
    require(A.ring.is_semisimple == (A.n % A.f.p != 0), "is_semisimple")


# -- matrices ---------------------------------------------------------------------------------------


def rank(F, rows):
    return int(np.linalg.matrix_rank(F(np.array(rows)))) if len(rows) else 0


def left_span(A, rows):
    """Field vectors g * row for all group members g: a spanning set of the left module."""
    out = []
    for row in rows:
        for i in range(A.n):
            e = tuple(int(i == j) for j in range(A.n))
            out.append(sum((A.mul(e, x) for x in row), ()))
    return out


def coefs(A, arr):
    return tuple(tuple(A.back(v) for v in row) for row in arr)


def make(A, rows):
    return RingArray.from_field_array(A.ring, np.array(rows, dtype=int).reshape(len(rows), -1, A.n))


def mat_mul(A, a, b):
    out = []
    for row in a:
        new = []
        for j in range(len(b[0])):
            acc = A.zero
            for k, x in enumerate(row):
                acc = A.add(acc, A.mul(x, b[k][j]))
            new.append(acc)
        out.append(tuple(new))
    return tuple(out)


def block(A, rows, lift):
    blocks = [[lift(x) for x in row] for row in rows]
    out = []
    for brow in blocks:
        for i in range(len(brow[0])):
            out.append(sum((b[i] for b in brow), ()))
    return tuple(out)


def case_matrix(ctx, desc, q, rows):
    A = alg(desc, q)
    rows = tuple(tuple(tuple(x) for x in r) for r in rows)
    M = make(A, rows)
    width = len(rows[0])
    require(coefs(A, M) == rows and M.shape == (len(rows), width), "construction from coefficients")
    back = M.to_field_array()
    require(type(back) is A.F and back.tolist() == [[list(x) for x in r] for r in rows], "conversion to coefficients")
    require(M.ring == A.ring and M.group == A.group and M.field is A.F, "ring")
    flat = M[0].to_field_vector()
    require(tuple(int(v) for v in flat) == sum(rows[0], ()), "to_field_vector")
    again = RingArray.from_field_vector(A.ring, flat)
    require(tuple(A.back(v) for v in again) == rows[0], "from_field_vector")
    require(tup(M.lift()) == block(A, rows, A.lift) and type(M.lift()) is A.F, "lift")
    require(tup(M.regular_lift()) == block(A, rows, A.regular), "regular lift")
    tr = tuple(tuple(A.T(rows[i][j]) for i in range(len(rows))) for j in range(width))
    require(coefs(A, M.T) == tr and isinstance(M.T, RingArray), "transpose")
    require(coefs(A, ~M) == tuple(tuple(A.T(x) for x in r) for r in rows), "entrywise transpose")
    require(coefs(A, M @ M.T) == mat_mul(A, rows, tr), "matrix product")
    require(tup((M @ M.T).lift()) == tup(M.lift() @ M.T.lift()), "lift of a matrix product")
    require(coefs(A, M + M) == tuple(tuple(A.add(x, x) for x in r) for r in rows), "sum")
    require(not any(map(any, coefs(A, (M - M).reshape(1, -1))[0])), "difference")
    # row reduction
    R = M.row_reduce()
    require(isinstance(R, RingArray) and R.shape[1] == width and R.ring == A.ring, "type of the row-reduced matrix")
    rr = coefs(A, R)
    before, after = left_span(A, rows), left_span(A, rr)
    dim = rank(A.F, before)
    require(rank(A.F, after) == dim and rank(A.F, before + after) == dim, f"row reduction changes the row space: {rr}")
    for i, row in enumerate(rr):
        require(any(map(any, row)), "zero row after row reduction")
        if any(A.unit(x) is not None for x in row):
            ok = any(x == A.one and not any(any(r[j]) for k, r in enumerate(rr) if k != i) for j, x in enumerate(row))
            require(ok, f"row {i} of {rr} has an invertible entry but no pivot")
        rest = left_span(A, [r for k, r in enumerate(rr) if k != i])
        require(rank(A.F, rest + [sum(row, ())]) > rank(A.F, rest), f"row {i} of {rr} depends on the others")
    # null space
    N = M.null_space()
    require(isinstance(N, RingArray) and N.ndim == 2 and N.shape[1] == width, f"null space has shape {N.shape}")
    nn = coefs(A, N)
    if nn:
        ntr = tuple(tuple(A.T(nn[i][j]) for i in range(len(nn))) for j in range(width))
        require(not any(any(x) for r in mat_mul(A, rows, ntr) for x in r), "null vectors are not annihilated")
    nullity = width * A.n - rank(A.F, [list(r) for r in block(A, rows, A.regular)])
    require(rank(A.F, left_span(A, nn)) == nullity, f"null space of dimension {rank(A.F, left_span(A, nn))}, expected {nullity}")
    require(coefs(A, M) == rows, "matrix modified")
    ctx.trans(16)


def case_build(ctx, desc, q, entries):
    """Arrays of ring members, group members and integers; arithmetic with equal and different rings."""
    A = alg(desc, q)
    data, want = [], []
    for kind, i in entries:
        e = tuple(int(i % A.n == j) for j in range(A.n))
        if kind == "int":
            data.append(i % A.q)
            want.append(tuple(A.f.mul[i % A.q][v] for v in A.one))
        elif kind == "member":
            data.append(A.members[i % A.n])
            want.append(e)
        else:
            x = A.add(e, A.one)
            data.append(A.real(x))
            want.append(x)
    M = RingArray.build([data], A.ring)
    require(coefs(A, M) == (tuple(want),), "build")
    C = RingArray.build([[d] for d in data], A.ring)
    require(coefs(A, C) == tuple((w,) for w in want), "build a column")
    # an equal ring, built independently
    B = Alg(desc, q)
    require(B.ring == A.ring, "equal rings")
    M2 = RingArray.build([[B.real(w) for w in want]], B.ring)
    require(coefs(A, M + M2) == (tuple(A.add(w, w) for w in want),), "sum over equal rings")
    require(coefs(A, M @ M2.T) == mat_mul(A, (tuple(want),), tuple((A.T(w),) for w in want)), "product over equal rings")
    require(coefs(A, np.vstack([M, M2])) == (tuple(want), tuple(want)), "stacking")
    for other in (GroupRing(abstract.CyclicGroup(7), q), GroupRing(A.group, 5 if q != 5 else 3)):
        bad = RingArray.build([[1] * len(want)], other)
        for op in (lambda: M + bad, lambda: np.vstack([M, bad]), lambda: RingArray(list(M.ravel()) + list(bad.ravel()))):
            try:
                op()
            except ValueError:
                pass
            else:
                require(False, "operation on arrays over different rings")
    # arrays made directly from members of the ring, naming the ring or not
    mine = [A.real(w) for w in want]
    for args in ((mine,), (mine, A.ring), (mine, A.group), (mine, B.ring)):
        if args[1:] == (A.group,) and GroupRing(A.group) != A.ring:
            continue
        R = RingArray(*args)
        require(R.shape == (len(want),) and R.ring == A.ring and coefs(A, RingArray([args[0]], *args[1:])) == (tuple(want),), "array of ring members")
    for other in (GroupRing(abstract.CyclicGroup(7), q), GroupRing(A.group, 5 if q != 5 else 3)):
        for args in ((mine, other), ([*mine, other.one],), ([other.zero, *mine],), ([*mine, other.one], A.ring), ([*mine, other.one], other)):
            try:
                RingArray(*args)
            except ValueError:
                continue
            require(False, "an array with members of different rings was accepted")
    try:
        RingArray(np.zeros((0, 2), dtype=object))
    except ValueError:
        pass
    else:
        require(False, "an empty array without a ring was accepted")
    require(RingArray(np.zeros((0, 2), dtype=object), A.ring).ring == A.ring, "empty array over a given ring")
    for junk in ([1, 2], [A.members[0]]):
        try:
            RingArray(junk)
        except ValueError:
            pass
        else:
            require(False, "an array of something else was accepted")
    ctx.trans(10)


def case_trivial(ctx, q, rows):
    F = galois.GF(q)
    for data in (F(np.array(rows)),) + ((rows, np.array(rows)) if q == 2 else ()):
        M = abstract.TrivialGroup.to_ring_array(data)
        require(M.field is F, f"field {M.field}")
        require(tup(M.lift()) == tup(rows) and tup(M.regular_lift()) == tup(rows), "lift of an array over the trivial group")
        require(M.to_field_array()[..., 0].tolist() == [list(r) for r in rows], "coefficients")
        ctx.trans()


CASES = {f.__name__[5:]: f for f in (case_element, case_terms, case_pair, case_matrix, case_build, case_trivial)}

# -- units ------------------------------------------------------------------------------------------

GROUPS = [("trivial",), ("cyclic", 1), ("cyclic", 2), ("cyclic", 3), ("cyclic", 4), ("abelian", 2, 2), ("symmetric", 3), ("times", ("cyclic", 2), ("cyclic", 2))]


def elements(A, limit=None):
    els = itertools.product(range(A.q), repeat=A.n)
    if limit is None:
        return list(els)
    return [e for e in els if sum(map(bool, e)) <= limit]


def reps(A, count):
    """Representatives: zero, one, all monomials, then evenly spread elements."""
    out = [A.zero, A.one] + [tuple(int(i == j) for j in range(A.n)) for i in range(A.n)]
    els = list(itertools.product(range(A.q), repeat=A.n)) if A.q**A.n <= 100000 else elements(A, 2)
    step = max(1, len(els) // count)
    out += els[step // 2 :: step]
    return list(dict.fromkeys(out))[:count]


def unit_elements(ctx, desc, q, part, of):
    A = alg(desc, q)
    th = ctx.tier == "thorough"
    els = elements(A) if q**A.n <= 729 else elements(A, 2)
    if not th and A.n * q > 16:
        els = els[::3] if len(els) > 100 else els
    full = q**A.n <= (729 if th else 64)
    ys = els if full else reps(A, 40 if th else 14)
    for i, x in enumerate(els):
        if i % of == part:
            ctx.case("element", {"desc": desc, "q": q, "x": x})
            ctx.case("pair", {"desc": desc, "q": q, "x": x, "ys": ys}, state=("pair", str(desc), q, x))
            for y in ys:
                ctx.state((str(desc), q, x, y))


def unit_terms(ctx):
    for desc, q in ((("cyclic", 2), 2), (("cyclic", 2), 3), (("cyclic", 2), 4), (("cyclic", 3), 2)):
        A = alg(desc, q)
        atoms = [(0, 1, i) for i in range(A.n)] + [(1 + (c % 2), c, i) for c in range(q) for i in range(A.n)]
        for k in range(4 if ctx.tier == "thorough" else 3):
            for terms in itertools.product(atoms, repeat=k):
                ctx.case("terms", {"desc": desc, "q": q, "terms": terms})


def canonical_rows(A, els):
    """One element of each orbit under left multiplication by group members and nonzero scalars."""
    seen, out = set(), []
    for x in els:
        if x in seen:
            continue
        out.append(x)
        for i in range(A.n):
            e = tuple(int(i == j) for j in range(A.n))
            y = A.mul(e, x)
            for c in range(1, A.q):
                seen.add(tuple(A.f.mul[c][v] for v in y))
    return out


def matrices(desc, q, shape, mode, count=5):
    A = alg(desc, q)
    m, n = shape
    if mode == "all":
        els = elements(A)
        for flat in itertools.product(els, repeat=m * n):
            yield tuple(flat[i * n : (i + 1) * n] for i in range(m))
    elif mode == "left":
        # the first entry of each row up to left multiples of the row
        els = elements(A)
        first = canonical_rows(A, els)
        for flat in itertools.product(*[first if i % n == 0 else els for i in range(m * n)]):
            rows = tuple(flat[i * n : (i + 1) * n] for i in range(m))
            if list(rows) == sorted(rows):
                yield rows
    else:
        pool = reps(A, 4 * count)
        units = [x for x in pool if A.unit(x) is not None]
        non = [x for x in pool if A.unit(x) is None and any(x)]
        pool = [A.zero] + units[:1] + units[-1:] + non[: (count - 2)]
        pool = list(dict.fromkeys(pool))
        for flat in itertools.product(pool, repeat=m * n):
            rows = tuple(flat[i * n : (i + 1) * n] for i in range(m))
            if list(rows) == sorted(rows):
                yield rows


def unit_matrices(ctx, desc, q, shape, mode, part, of, count=5, stride=1):
    for i, rows in enumerate(matrices(desc, q, shape, mode, count)):
        if i % stride == 0 and (i // stride) % of == part:
            ctx.case("matrix", {"desc": desc, "q": q, "rows": rows})


def unit_build(ctx):
    kinds = [("int", 0), ("int", 1), ("int", 2), ("member", 1), ("ring", 1)]
    for desc, q in ((("cyclic", 3), 2), (("cyclic", 2), 3), (("symmetric", 3), 4), (("trivial",), 4), (("abelian", 2, 2), 9)):
        for k in (1, 2):
            for entries in itertools.product(kinds, repeat=k):
                ctx.case("build", {"desc": desc, "q": q, "entries": entries})
    for q in (2, 3, 4, 5):
        for flat in itertools.product(range(q), repeat=4 if q < 4 else 2):
            ctx.case("trivial", {"q": q, "rows": [flat[:2], flat[2:]] if len(flat) == 4 else [flat]})


UNITS = {"elements": unit_elements, "terms": unit_terms, "matrices": unit_matrices, "build": unit_build}


def units(tier):
    th = tier == "thorough"
    out = [("terms", {}), ("build", {})]
    jobs = []
    for desc in GROUPS:
        for q in (2, 3, 4, 5):
            A_n = {"trivial": 1, "cyclic": desc[-1] if desc[0] == "cyclic" else 0, "abelian": 4, "symmetric": 6, "times": 4}[desc[0]]
            size = q**A_n
            if size <= (4096 if th else 729):
                of = max(1, size // 40)
                jobs += [("elements", {"desc": desc, "q": q, "part": i, "of": of}) for i in range(of)]
    for desc, q in ((("quaternion",), 3), (("dihedral", 4), 2), (("cyclic", 6), 5), (("SL", 2, 2, 1), 2), (("PSL", 2, 2, 1), 2), (("abelian", 1, 2), 3)):
        jobs += [("elements", {"desc": desc, "q": q, "part": i, "of": 4}) for i in range(4)]
    for desc, q, shape, mode, of, kw in (
        (("cyclic", 2), 2, (1, 1), "all", 1, {}),
        (("cyclic", 2), 2, (1, 2), "all", 1, {}),
        (("cyclic", 2), 2, (2, 1), "all", 1, {}),
        (("cyclic", 2), 2, (2, 2), "all", 8, {}),
        (("cyclic", 2), 2, (3, 2), "left", 10, {}),
        (("cyclic", 2), 3, (2, 1), "left", 2, {}),
        (("cyclic", 2), 3, (1, 2), "left", 2, {}),
        (("cyclic", 2), 4, (2, 1), "left", 2, {}),
        (("cyclic", 3), 2, (2, 1), "left", 2, {}),
        (("cyclic", 3), 2, (1, 2), "left", 2, {}),
        (("cyclic", 3), 4, (1, 2), "pool", 2, {"count": 6}),
        (("symmetric", 3), 2, (1, 1), "all", 2, {}),
        (("symmetric", 3), 2, (2, 1), "left", 4, {}),
        (("symmetric", 3), 2, (1, 2), "left", 16, {}),
        (("symmetric", 3), 2, (2, 2), "pool", 12, {"count": 5}),
        (("symmetric", 3), 3, (2, 1), "pool", 2, {"count": 8}),
        (("cyclic", 3), 2, (2, 2), "pool", 8, {"count": 5}),
        (("cyclic", 3), 2, (3, 1), "left", 2, {}),
        (("cyclic", 2), 3, (2, 2), "pool", 8, {"count": 5}),
        (("dihedral", 4), 2, (2, 1), "pool", 4, {"count": 14}),
        (("quaternion",), 3, (2, 1), "pool", 4, {"count": 6}),
        (("trivial",), 2, (2, 3), "all", 2, {}),
        (("trivial",), 3, (2, 2), "all", 2, {}),
        (("abelian", 2, 2), 2, (2, 1), "left", 3, {}),
    ) + (
        (
            (("symmetric", 3), 2, (2, 2), "pool", 40, {"count": 8}),
            (("symmetric", 3), 2, (2, 3), "pool", 40, {"count": 4}),
            (("cyclic", 3), 2, (2, 3), "pool", 40, {"count": 5}),
            (("cyclic", 4), 2, (2, 2), "pool", 20, {"count": 8}),
            (("dihedral", 4), 2, (2, 1), "left", 60, {}),
            (("quaternion",), 3, (2, 1), "pool", 20, {"count": 30}),
            (("cyclic", 2), 2, (2, 3), "left", 20, {}),
            (("cyclic", 3), 2, (2, 2), "left", 40, {}),
        )
        if th
        else ()
    ):
        jobs += [("matrices", {"desc": desc, "q": q, "shape": shape, "mode": mode, "part": i, "of": of, **kw}) for i in range(of)]
    return out + jobs
