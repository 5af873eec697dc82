"""Abstract reference groups (plain Python) and isomorphism search, independent of the library."""

from __future__ import annotations

import functools
import itertools

from mc.ref import gf


class Model:
    """A finite group given by its elements and a multiplication function."""

    def __init__(self, elements, mul, identity):
        self.elements = list(elements)
        self.mul = mul
        self.identity = identity
        self.order = len(self.elements)

    def closure(self, gens):
        seen, todo = {self.identity}, [self.identity]
        while todo:
            p = todo.pop()
            for g in gens:
                r = self.mul(p, g)
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        return seen

    def elt_order(self, x):
        k, y = 1, x
        while y != self.identity:
            y = self.mul(y, x)
            k += 1
        return k


def abelian(*orders):
    els = list(itertools.product(*[range(n) for n in orders]))
    return Model(els, lambda a, b: tuple((x + y) % n for x, y, n in zip(a, b, orders)), tuple(0 for _ in orders))


def dihedral(n):
    """r^a s^b with s r s = r^-1; for n = 1, 2 this is the group of order 2n (Z2, Z2 x Z2)."""

    def mul(x, y):
        (a, b), (c, d) = x, y
        return ((a + (c if not b else -c)) % n, b ^ d)

    return Model(itertools.product(range(n), range(2)), mul, (0, 0))


def _pmul(p, r):
    return tuple(r[i] for i in p)


def symmetric(n):
    return Model(itertools.permutations(range(n)), _pmul, tuple(range(n)))


def parity(p):
    return sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2


def alternating(n):
    return Model([p for p in itertools.permutations(range(n)) if not parity(p)], _pmul, tuple(range(n)))


def quaternion():
    """Units +-1, +-i, +-j, +-k as integer 4-vectors with Hamilton's product."""

    def mul(p, r):
        a, b, c, d = p
        e, f, g, h = r
        return (
            a * e - b * f - c * g - d * h,
            a * f + b * e + c * h - d * g,
            a * g - b * h + c * e + d * f,
            a * h + b * g - c * f + d * e,
        )

    els = [tuple(s * int(i == k) for i in range(4)) for k in range(4) for s in (1, -1)]
    return Model(els, mul, (1, 0, 0, 0))


def mat_mul(field, a, b):
    n = len(a)
    out = []
    for i in range(n):
        row = []
        for j in range(len(b[0])):
            acc = 0
            for k in range(len(b)):
                acc = field.add[acc][field.mul[a[i][k]][b[k][j]]]
            row.append(acc)
        out.append(tuple(row))
    return tuple(out)


def det(field, m):
    n = len(m)
    if n == 1:
        return m[0][0]
    acc = 0
    for j in range(n):
        if m[0][j]:
            minor = tuple(r[:j] + r[j + 1 :] for r in m[1:])
            term = field.mul[m[0][j]][det(field, minor)]
            acc = field.add[acc][term if j % 2 == 0 else field.neg[term]]
    return acc


@functools.cache
def sl(d, q):
    f = gf(q)
    mats = []
    for flat in itertools.product(range(q), repeat=d * d):
        m = tuple(flat[i * d : (i + 1) * d] for i in range(d))
        if det(f, m) == 1:
            mats.append(m)
    ident = tuple(tuple(int(i == j) for j in range(d)) for i in range(d))
    return Model(mats, lambda a, b: mat_mul(f, a, b), ident)


def scale(f, s, m):
    return tuple(tuple(f.mul[s][x] for x in r) for r in m)


def roots_of_unity(f, d):
    out = []
    for s in range(1, f.q):
        y = 1
        for _ in range(d):
            y = f.mul[y][s]
        if y == 1:
            out.append(s)
    return out


@functools.cache
def psl(d, q):
    f = gf(q)
    base = sl(d, q)
    roots = roots_of_unity(f, d)

    def rep(m):
        return min(scale(f, s, m) for s in roots)

    return Model(sorted({rep(m) for m in base.elements}), lambda a, b: rep(mat_mul(f, a, b)), rep(base.identity))


def product(*models):
    els = list(itertools.product(*[m.elements for m in models]))
    return Model(
        els,
        lambda a, b: tuple(m.mul(x, y) for m, x, y in zip(models, a, b)),
        tuple(m.identity for m in models),
    )


def from_table(table):
    n = len(table)
    ident = next(i for i in range(n) if all(table[i][j] == j for j in range(n)))
    return Model(range(n), lambda a, b: table[a][b], ident)


def table_of(model):
    idx = {e: i for i, e in enumerate(model.elements)}
    return [[idx[model.mul(a, b)] for b in model.elements] for a in model.elements]


def extend(gens, images, mul_a, ident_a, mul_b, ident_b):
    """Map words in gens to words in images; None if this is not well defined."""
    mapping = {ident_a: ident_b}
    todo = [ident_a]
    while todo:
        x = todo.pop()
        for g, h in zip(gens, images):
            y, z = mul_a(x, g), mul_b(mapping[x], h)
            if y not in mapping:
                mapping[y] = z
                todo.append(y)
            elif mapping[y] != z:
                return None
    return mapping


def few_generators(model):
    """A short generating set, found greedily by exhaustive search on 1 and 2 elements."""
    els = model.elements
    if model.order == 1:
        return []
    by_order = sorted(els, key=model.elt_order, reverse=True)
    if model.elt_order(by_order[0]) == model.order:
        return [by_order[0]]
    for a in by_order[:3]:
        for b in by_order:
            if len(model.closure([a, b])) == model.order:
                return [a, b]
    gens, span = [], {model.identity}
    while len(span) < model.order:
        best = max(els, key=lambda e: len(model.closure([*gens, e])))
        gens.append(best)
        span = model.closure(gens)
    return gens


def isomorphism(a, b):
    """Some isomorphism from model a to model b (a dict), or None."""
    if a.order != b.order:
        return None
    gens = few_generators(a)
    orders = {}
    for e in b.elements:
        orders.setdefault(b.elt_order(e), []).append(e)
    pools = [orders.get(a.elt_order(g), []) for g in gens]
    for images in itertools.product(*pools):
        m = extend(gens, images, a.mul, a.identity, b.mul, b.identity)
        if m is not None and len(m) == a.order and len(set(m.values())) == b.order:
            return m
    return None
