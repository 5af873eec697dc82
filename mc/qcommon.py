"""Shared oracles for quantum codes (decide one code object against the reference model)."""

from __future__ import annotations

import functools
import itertools

import galois
import numpy as np
from qldpc import codes
from qldpc.objects import Pauli

from mc import ref
from mc.core import require
from mc.ref import gf, tup


@functools.lru_cache(200000)
def facts(q, rows, twon):
    """Reference facts about the group generated by rows: (G, S, k, g)."""
    f = gf(q)
    G = f.rref(rows)[0]
    S = f.center(G, twon) if G else ()
    g = (len(G) - len(S)) // 2
    k = twon // 2 - len(S) - g
    return G, S, k, g


def check_logicals(f, L, G, S, k, what="logical operators"):
    """L = symplectic basis of  C(G) modulo S."""
    twon = len(L[0]) if L else 0
    require(len(L) == 2 * k, lambda: f"{len(L)} {what} instead of {2 * k}")
    err = ref.check_symplectic_pairs(f, L)
    require(err is None, lambda: f"{what}: {err}: {L}")
    for a in L:
        for b in G:
            require(f.sympl(a, b) == 0, lambda: f"{what}: {a} does not commute with {b}")
    if k:
        require(f.rank(list(L) + list(S)) == 2 * k + len(S), f"{what} are not independent")
        require(
            f.rref(list(L) + list(S))[0] == f.commutant(list(G), twon) if G else True,
            f"{what} and stabilizers do not span the commutant",
        )


def check_symplectic_conjugates(f, ops, want_pairs):
    err = ref.check_symplectic_pairs(f, ops)
    require((err is None) == want_pairs, f"pairing: {err}")


def rows_of(arr, width):
    arr = np.asarray(arr)
    require(arr.ndim == 2 and arr.shape[1] == width, f"array of shape {arr.shape}, width {width}")
    return tup(arr)


def check_quantum_code(code, q, rows, *, ctx=None, standard_form=True, css=False):
    """Full structural oracle of a code whose gauge group is generated by rows."""
    f = gf(q)
    F = galois.GF(q)
    twon = len(rows[0])
    n = twon // 2
    G, S, k, g = facts(q, tuple(rows), twon)
    require(len(code) == n and code.num_qudits == n, "wrong block length")
    require(code.field is F, "wrong field")
    require(code.is_subsystem_code == (g > 0), "stabilizer/subsystem classification is wrong")
    require(code.rank == len(G), f"rank {code.rank} != {len(G)}")
    require(code.dimension == k, f"dimension {code.dimension} != {k}")
    require(code.gauge_dimension == g, f"gauge dimension {code.gauge_dimension} != {g}")

    L = rows_of(code.get_logical_ops(), twon)
    require(type(code.get_logical_ops()) is F, "logical operators have the wrong field")
    check_logicals(f, L, G, S, k)
    stabs = rows_of(code.get_stabilizer_ops(), twon)
    require(f.rref(stabs)[0] == S, f"stabilizers {stabs} do not generate the centre {S}")
    can = rows_of(code.get_stabilizer_ops(canonicalized=True), twon)
    # canonical = a minimal, row-reduced generating set (for CSS codes: of each sector)
    require(len(can) == len(S) and f.rref(can)[0] == S, "canonical stabilizers")
    typed = []
    for p in (Pauli.X, Pauli.Z):
        args = {"symplectic": True} if css else {}
        part = rows_of(code.get_stabilizer_ops(p, canonicalized=True, **args), twon)
        typed.append(part)
        if css:
            half = slice(n) if p is Pauli.X else slice(n, twon)
            short = rows_of(code.get_stabilizer_ops(p, canonicalized=True), n)
            require(short == tuple(r[half] for r in part), f"canonical stabilizers of type {p}")
            require(all(any(r[half]) for r in part), f"canonical stabilizers of type {p}")
    require(len(typed[0]) + len(typed[1]) == len(S) and f.rref(typed[0] + typed[1])[0] == S,
            "canonical stabilizers of the two types are no minimal generating set")
    require(not any(any(r[:n]) for r in typed[1]), "Z-type stabilizer acts with X")
    if q == 2:
        require(code.num_qubits == n, "number of qubits")
    if len(rows):
        weight = max(sum(1 for i in range(n) if r[i] or r[n + i]) for r in rows)
        require(code.get_weight() == weight, f"weight {code.get_weight()} of the checks, not {weight}")
    for p, half in ((Pauli.X, 0), (Pauli.Z, 1)):
        if css:
            part = code.get_logical_ops(p, symplectic=True)
            short = rows_of(code.get_logical_ops(p), n) if k else ()
            want = tuple(r[half * n : half * n + n] for r in L[half * k : half * k + k])
            require(short == want, f"{p} logical operators disagree with the full set")
            other = tuple(r[n - half * n : twon - half * n] for r in L[half * k : half * k + k])
            require(not any(map(any, other)), f"{p}-type logical has support of the other type")
        else:
            part = code.get_logical_ops(p)
        require(rows_of(part, twon) == L[half * k : half * k + k] if k else len(part) == 0,
                f"{p} logical operators disagree with the full set")
    if ctx:
        ctx.trans(8)

    gauges = rows_of(code.get_gauge_ops(), twon)
    require(len(gauges) == 2 * g, f"{len(gauges)} gauge operators instead of {2 * g}")
    err = ref.check_symplectic_pairs(f, gauges)
    require(err is None, lambda: f"gauge operators: {err}")
    require(f.rref(list(gauges) + list(S))[0] == G, "stabilizers and gauges do not generate the group")
    for a in gauges:
        for b in L:
            require(f.sympl(a, b) == 0, "a gauge operator does not commute with a logical operator")
    for p, half in ((Pauli.X, 0), (Pauli.Z, 1)):
        part = code.get_gauge_ops(p, symplectic=True) if css else code.get_gauge_ops(p)
        require(tup(part) == gauges[half * g : half * g + g], f"{p} gauge operators disagree")
        if css and g:
            want = tuple(r[half * n : half * n + n] for r in gauges[half * g : half * g + g])
            require(rows_of(code.get_gauge_ops(p), n) == want, f"{p} gauge operators disagree")
            other = tuple(r[n - half * n : twon - half * n] for r in gauges[half * g : half * g + g])
            require(not any(map(any, other)), f"{p}-type gauge has support of the other type")
    if ctx:
        ctx.trans(4)
    return G, S, k, g, L, gauges


def has_standard_form(f, G, S, n):
    g = (len(G) - len(S)) // 2
    xr = lambda rows: f.rank([r[:n] for r in rows]) if rows else 0
    return xr(G) == xr(S) + g


def index_array(sector, n):
    return np.arange(n)[sector] if isinstance(sector, slice) else np.array(sector, dtype=int)


def check_standard_form(code, q, rows, ctx=None):
    """The documented guarantees of the standard form (row space and identity blocks)."""
    f = gf(q)
    twon = len(rows[0])
    n = twon // 2
    G, S, k, g = facts(q, tuple(rows), twon)
    matrix, locs, rsec, csec = code.get_standard_form_data()
    m3 = np.asarray(matrix).reshape(-1, 2, n)
    inv = np.argsort(locs)
    flat = tup(m3[:, :, inv].reshape(-1, twon))
    require(f.rref(flat)[0] == G, "standard form has another row space")
    require(len(flat) == len(G), "standard form has redundant rows")
    for r, sector, xz in ((0, 0, 0), (1, 1, 0), (2, 3, 1), (3, 4, 1)):
        block = m3[index_array(rsec[r], len(m3)), xz][:, index_array(csec[sector], n)]
        require(np.array_equal(block, np.eye(len(block), dtype=int)), f"block {r} is no identity")
    require(len(index_array(csec[2], n)) == k and len(index_array(csec[5], n)) == k, "L sectors")
    for r in (0, 2):
        for row in [flat[i] for i in index_array(rsec[r], len(m3))]:
            require(all(f.sympl(row, other) == 0 for other in G), f"row {row} in a sector of stabilizers is no stabilizer")
    if ctx:
        ctx.trans()
