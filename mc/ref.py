"""Boring reference model: finite fields, linear algebra, codes, Pauli groups -- plain Python.

Nothing here imports numpy, galois or qldpc.  Vectors are tuples of ints, matrices are tuples (or
lists) of such tuples, subspaces are frozensets of all of their vectors (explicit enumeration).
"""

from __future__ import annotations

import functools
import itertools

_POLY = {4: (2, (1, 1, 1)), 8: (2, (1, 1, 0, 1)), 9: (3, (2, 2, 1)), 16: (2, (1, 1, 0, 0, 1)), 25: (5, (2, 4, 1)), 64: (2, (1, 1, 0, 1, 1, 0, 1)), 81: (3, (2, 0, 0, 2, 1))}
_PRIMES = (2, 3, 5, 7, 11, 13)


class Field:
    """GF(q) by lookup tables; elements are the integers used by galois (base-p digit strings)."""

    def __init__(self, q):
        self.q = q
        if q in _PRIMES:
            self.p, self.deg = q, 1
            self.add = [[(a + b) % q for b in range(q)] for a in range(q)]
            self.mul = [[(a * b) % q for b in range(q)] for a in range(q)]
        else:
            p, poly = _POLY[q]
            deg = len(poly) - 1
            self.p, self.deg = p, deg

            def digits(a):
                out = []
                for _ in range(deg):
                    out.append(a % p)
                    a //= p
                return out

            def undigits(ds):
                return sum(d * p**i for i, d in enumerate(ds))

            def mul(a, b):
                da, db = digits(a), digits(b)
                prod = [0] * (2 * deg - 1)
                for i, x in enumerate(da):
                    for j, y in enumerate(db):
                        prod[i + j] = (prod[i + j] + x * y) % p
                for i in range(len(prod) - 1, deg - 1, -1):
                    c = prod[i]
                    if c:
                        for j in range(deg + 1):
                            prod[i - deg + j] = (prod[i - deg + j] - c * poly[j]) % p
                return undigits(prod[:deg])

            self.add = [
                [undigits([(x + y) % p for x, y in zip(digits(a), digits(b))]) for b in range(q)]
                for a in range(q)
            ]
            self.mul = [[mul(a, b) for b in range(q)] for a in range(q)]
        self.neg = [next(b for b in range(q) if self.add[a][b] == 0) for a in range(q)]
        self.inv = [None] + [
            next(b for b in range(1, q) if self.mul[a][b] == 1) for a in range(1, q)
        ]

    def sub(self, a, b):
        return self.add[a][self.neg[b]]

    # -- vectors -----------------------------------------------------------------------------
    def vadd(self, u, v):
        add = self.add
        return tuple(add[a][b] for a, b in zip(u, v))

    def vsub(self, u, v):
        return tuple(self.add[a][self.neg[b]] for a, b in zip(u, v))

    def vscale(self, c, v):
        m = self.mul[c]
        return tuple(m[a] for a in v)

    def dot(self, u, v):
        out = 0
        add, mul = self.add, self.mul
        for a, b in zip(u, v):
            out = add[out][mul[a][b]]
        return out

    def matvec(self, mat, v):
        return tuple(self.dot(row, v) for row in mat)

    def vecmat(self, v, mat, ncols=None):
        ncols = len(mat[0]) if mat else (ncols or 0)
        out = (0,) * ncols
        for c, row in zip(v, mat):
            if c:
                out = self.vadd(out, self.vscale(c, row))
        return out

    def matmul(self, a, b):
        bt = list(zip(*b))
        return tuple(tuple(self.dot(r, c) for c in bt) for r in a)

    def matadd(self, a, b):
        return tuple(self.vadd(r, s) for r, s in zip(a, b))

    def kron(self, a, b):
        mul = self.mul
        return tuple(
            tuple(mul[x][y] for x in ra for y in rb) for ra in a for rb in b
        )

    # -- matrices ----------------------------------------------------------------------------
    def rref(self, mat):
        """Reduced row echelon form with zero rows removed, and the pivot columns."""
        rows = [tuple(int(x) for x in r) for r in mat]
        if not rows:
            return (), ()
        ncols = len(rows[0])
        piv, r = [], 0
        for c in range(ncols):
            k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
            if k is None:
                continue
            rows[r], rows[k] = rows[k], rows[r]
            rows[r] = self.vscale(self.inv[rows[r][c]], rows[r])
            for i in range(len(rows)):
                if i != r and rows[i][c]:
                    rows[i] = self.vsub(rows[i], self.vscale(rows[i][c], rows[r]))
            piv.append(c)
            r += 1
            if r == len(rows):
                break
        return tuple(rows[:r]), tuple(piv)

    def rank(self, mat):
        return len(self.rref(mat)[0])

    def null_space(self, mat, ncols=None):
        """Basis of { x : mat @ x = 0 } in reduced row echelon form."""
        ncols = len(mat[0]) if len(mat) else ncols
        rows, piv = self.rref(mat)
        free = [c for c in range(ncols) if c not in piv]
        out = []
        for f in free:
            v = [0] * ncols
            v[f] = 1
            for row, p in zip(rows, piv):
                v[p] = self.neg[row[f]]
            out.append(tuple(v))
        return self.rref(out)[0]

    def span(self, mat, ncols=None):
        """All vectors in the row space."""
        ncols = len(mat[0]) if len(mat) else ncols
        basis = self.rref(mat)[0]
        vecs = [(0,) * ncols]
        for b in basis:
            multiples = [self.vscale(c, b) for c in range(self.q)]
            vecs = [self.vadd(v, m) for v in vecs for m in multiples]
        return vecs

    def same_space(self, a, b):
        return self.rref(a)[0] == self.rref(b)[0]

    def in_span(self, mat, v):
        return self.rank(list(mat) + [v]) == self.rank(mat) if len(mat) else not any(v)

    def all_vectors(self, n):
        return itertools.product(range(self.q), repeat=n)

    def all_matrices(self, m, n):
        for flat in itertools.product(range(self.q), repeat=m * n):
            yield tuple(flat[i * n : (i + 1) * n] for i in range(m))

    def transpose(self, mat, ncols=None):
        if not mat:
            return tuple(() for _ in range(ncols or 0))
        return tuple(zip(*mat))

    # -- symplectic geometry -------------------------------------------------------------------
    def sympl(self, p, r):
        """<P,R> = P_x . R_z - P_z . R_x"""
        n = len(p) // 2
        return self.sub(self.dot(p[:n], r[n:]), self.dot(p[n:], r[:n]))

    def commutant(self, mat, twon=None):
        """Basis (RREF) of all vectors that have trivial symplectic product with every row."""
        twon = len(mat[0]) if len(mat) else twon
        n = twon // 2
        conj = [tuple(self.neg[x] for x in r[n:]) + tuple(r[:n]) for r in mat]
        return self.null_space(conj, twon)

    def center(self, mat, twon=None):
        """Basis (RREF) of span(mat) intersected with its commutant."""
        twon = len(mat[0]) if len(mat) else twon
        basis = self.rref(mat)[0]
        if not basis:
            return ()
        gram = tuple(tuple(self.sympl(a, b) for b in basis) for a in basis)
        # coefficients c with  sum_i c_i <b_i, b_j> = 0  for all j
        coeffs = self.null_space(self.transpose(gram), len(basis))
        return self.rref([self.vecmat(c, basis) for c in coeffs])[0] if coeffs else ()


@functools.lru_cache(None)
def gf(q):
    return Field(q)


def tup(mat):
    """Nested tuples of ints from anything two-dimensional."""
    return tuple(tuple(int(x) for x in row) for row in mat)


def vec(v):
    return tuple(int(x) for x in v)


def hamming(v):
    return sum(1 for x in v if x)


def sympl_weight(v):
    n = len(v) // 2
    return sum(1 for a, b in zip(v[:n], v[n:]) if a or b)


# ------------------------------------------------------------------------------------------------
# binary shortcuts with integers as bit vectors (bit i of the integer = coordinate i)


def bits_of(v):
    out = 0
    for i, x in enumerate(v):
        if x:
            out |= 1 << i
    return out


def int_rref(rows):
    """Basis of the span of integer bit vectors in a canonical (fully reduced) form."""
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis = [min(b, b ^ r) for b in basis]
            basis.append(r)
            basis.sort(reverse=True)
    return tuple(basis)


def int_span(rows):
    vecs = [0]
    for b in int_rref(rows):
        vecs += [v ^ b for v in vecs]
    return vecs


def min_weight_classical(field, generator):
    """Minimum Hamming weight of the nonzero words spanned by the generator (None if there are none)."""
    if field.q == 2:
        ws = [bin(v).count("1") for v in int_span([bits_of(r) for r in generator]) if v]
    else:
        ws = [hamming(v) for v in field.span(generator) if any(v)] if len(generator) else []
    return min(ws) if ws else None


def quantum_distance(field, stabilizers, twon, gauges=()):
    """Minimum symplectic weight of  N(S) minus G  with G = <S, gauges>;  None if empty.

    ``stabilizers`` generate the stabilizer group; for stabilizer codes G = S.
    """
    n = twon // 2
    comm = field.commutant(list(stabilizers), twon)
    group = field.rref(list(stabilizers) + list(gauges))[0]
    if field.q == 2:
        gset_basis = int_rref([bits_of(r) for r in group])
        mask = (1 << n) - 1
        best = None
        gset = set(int_span(gset_basis))
        for v in int_span([bits_of(r) for r in comm]):
            if v in gset:
                continue
            w = bin((v | (v >> n)) & mask).count("1")
            if best is None or w < best:
                best = w
        return best
    gset = set(field.span(group, twon))
    best = None
    for v in field.span(comm, twon):
        if v in gset:
            continue
        w = sympl_weight(v)
        if best is None or w < best:
            best = w
    return best


def css_distance(field, matrix_x, matrix_z, n, pauli):
    """Minimum weight of a nontrivial X-type ("X") or Z-type ("Z") logical operator.

    For subsystem codes (matrix_x, matrix_z generate the gauge group) this is the *dressed*
    distance: the operator commutes with all stabilizers and is not in the gauge group.
    """
    mx = field.rref(matrix_x)[0]
    mz = field.rref(matrix_z)[0]
    sx = css_center(field, mx, mz)
    sz = css_center(field, mz, mx)
    if pauli == "X":
        group, checks = mx, sz
    else:
        group, checks = mz, sx
    kernel = field.null_space(checks, n)
    best = None
    if field.q == 2:
        gset = set(int_span([bits_of(r) for r in group]))
        for v in int_span([bits_of(r) for r in kernel]):
            if v and v not in gset:
                w = bin(v).count("1")
                best = w if best is None else min(best, w)
        return best
    gset = set(field.span(group, n))
    for v in field.span(kernel, n):
        if v not in gset:
            w = hamming(v)
            best = w if best is None else min(best, w)
    return best


def css_center(field, mine, other):
    """Rows spanned by ``mine`` that are orthogonal to every row of ``other``."""
    if not mine:
        return ()
    if not other:
        return field.rref(mine)[0]
    gram = tuple(tuple(field.dot(a, b) for b in other) for a in mine)
    coeffs = field.null_space(field.transpose(gram), len(mine))
    return field.rref([field.vecmat(c, mine) for c in coeffs])[0] if coeffs else ()


# ------------------------------------------------------------------------------------------------
# permutations


def perm_mul(p, r):
    """Apply p first, then r:  (p*r)(i) = r[p[i]]  (sympy's convention)."""
    n = max(len(p), len(r))
    p = tuple(p) + tuple(range(len(p), n))
    r = tuple(r) + tuple(range(len(r), n))
    return tuple(r[p[i]] for i in range(n))


def perm_inv(p):
    out = [0] * len(p)
    for i, x in enumerate(p):
        out[x] = i
    return tuple(out)


def perm_closure(gens, degree):
    ident = tuple(range(degree))
    seen, todo = {ident}, [ident]
    while todo:
        p = todo.pop()
        for g in gens:
            r = perm_mul(p, g)
            if r not in seen:
                seen.add(r)
                todo.append(r)
    return seen


# ------------------------------------------------------------------------------------------------
# explicit enumeration of subspaces


def subspaces(field, n, dims=None):
    """Every subspace of F_q^n as its RREF basis (tuple of rows), in a fixed order."""
    q = field.q
    for k in range(n + 1):
        if dims is not None and k not in dims:
            continue
        for piv in itertools.combinations(range(n), k):
            free = [
                (i, c)
                for i in range(k)
                for c in range(piv[i] + 1, n)
                if c not in piv
            ]
            for vals in itertools.product(range(q), repeat=len(free)):
                rows = [[0] * n for _ in range(k)]
                for i, p in enumerate(piv):
                    rows[i][p] = 1
                for (i, c), v in zip(free, vals):
                    rows[i][c] = v
                yield tuple(tuple(r) for r in rows)


def is_isotropic(field, rows):
    return all(field.sympl(a, b) == 0 for a, b in itertools.combinations(rows, 2))


@functools.lru_cache(None)
def isotropic_subspaces(q, n):
    """Every stabilizer group on n qudits (RREF bases), generated by extending smaller ones."""
    field = gf(q)
    level = {()}
    out = [()]
    if q == 2:
        mask = (1 << n) - 1
        swap = [(v >> n) | ((v & mask) << n) for v in range(4**n)]
        for _ in range(n):
            nxt = set()
            for basis in level:
                span = set(int_span(basis))
                conj = [swap[b] for b in basis]
                seen = set(span)
                for v in range(1, 4**n):
                    if v not in seen and not any((v & c).bit_count() & 1 for c in conj):
                        seen.update(v ^ u for u in span)
                        nxt.add(int_rref([*basis, v]))
            level = nxt
            to_row = lambda v: tuple(v >> i & 1 for i in range(2 * n))
            out += sorted(field.rref([to_row(v) for v in basis])[0] for basis in level)
        return tuple(out)
    for _ in range(n):
        nxt = set()
        for basis in level:
            for v in commutant_vectors(field, basis, 2 * n):
                if not field.in_span(basis, v):
                    nxt.add(field.rref(list(basis) + [v])[0])
        level = nxt
        out += sorted(level)
    return tuple(out)


def commutant_vectors(field, basis, twon):
    if not basis:
        for v in field.all_vectors(twon):
            if any(v):
                yield v
        return
    comm = field.commutant(list(basis), twon)
    for v in field.span(comm, twon):
        if any(v):
            yield v


def presentations(field, basis, width):
    """Several check matrices (rows, possibly redundant) generating the same space."""
    zero = (0,) * width
    if not basis:
        return [[zero], [zero, zero]]
    out = [list(basis)]
    if len(basis) > 1:
        mixed, acc = [], zero
        for b in reversed(basis):
            acc = field.vadd(acc, b)
            mixed.append(acc)
        out.append(mixed)
    tail = zero
    for b in basis:
        tail = field.vadd(tail, b)
    out.append([tail, zero] + [field.vscale(field.q - 1, b) for b in basis])
    return out


def gram(field, rows_a, rows_b):
    return tuple(tuple(field.sympl(a, b) for b in rows_b) for a in rows_a)


def check_symplectic_pairs(field, ops):
    """None if ops = [X_1..X_k, Z_1..Z_k] are conjugate pairs, else a description of the failure."""
    k, odd = divmod(len(ops), 2)
    if odd:
        return "odd number of operators"
    for i, a in enumerate(ops):
        for j, b in enumerate(ops):
            want = 0
            if j == i + k:
                want = 1
            elif i == j + k:
                want = field.neg[1]
            got = field.sympl(a, b)
            if got != want:
                return f"<op {i}, op {j}> = {got} instead of {want}"
    return None


def necklaces(letters, n):
    """One representative (the smallest) of every word of length n up to cyclic shifts."""
    letters = list(letters)
    for idx in itertools.product(range(len(letters)), repeat=n):
        if all(idx <= idx[s:] + idx[:s] for s in range(1, n)):
            yield tuple(letters[i] for i in idx)


def cyclic_checks(q, n):
    """All cyclic codes with one seed operator: the checks are all cyclic shifts of the seed."""
    for word in necklaces(itertools.product(range(q), repeat=2), n):
        if any(map(any, word)):
            yield tuple(
                tuple(word[(i - s) % n][0] for i in range(n)) + tuple(word[(i - s) % n][1] for i in range(n))
                for s in range(n)
            )


def cyclic_rows(q, n):
    """All nonzero classical seeds up to shifts, as the matrix of all their shifts."""
    for word in necklaces(range(q), n):
        if any(word):
            yield tuple(tuple(word[(i - s) % n] for i in range(n)) for s in range(n))
