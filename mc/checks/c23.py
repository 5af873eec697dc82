"""C23: seeded random constructions are reproducible and satisfy their contract."""

import functools
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys

import galois
import numpy as np
import sympy.core.random as sympy_random
from qldpc import abstract, codes
from qldpc.codes.common import get_random_array
from qldpc.objects import Pauli

from mc import rng
from mc.checks.c12 import build
from mc.core import Skip, require
from mc.ref import gf, tup

PROPERTY = "C23"
ASSUMPTIONS = [
    "the contract can be met: a code with the requested shape exists, a nontrivial operator exists, a symmetric subset of the requested size exists (the documented warning of random_symmetric_subset)",
    "without a seed, random numbers come from galois.FieldArray.Random, numpy's global generator, and the generators of random and sympy.core.random; these are replaced by a controlled source, all outcomes of which are enumerated",
    "random symmetric subsets are not uniform (documented); all others are",
]
BOUNDS = {
    "quick": "every outcome of at most 3 draws of arrays up to 3 entries over GF(2), GF(3), GF(4), GF(5) with 4 conditions, of random codes up to 3 x 3 over GF(2), 2 x 2 over GF(3), GF(4), of words and logical operators of 12 codes, of members of 20 groups (all of their members), of symmetric subsets of 11 groups for all sizes (up to 5 draws) and of random quantum Tanner codes (9 settings); seeds 0..24 and 3 large ones for each; all ordered triples of 8 seeded constructions and 8 other uses of the random sources; 3 fresh processes with different hash seeds",
    "thorough": "seeds 0..200, up to 7 draws",
}
CASE_TIMEOUT = 600
LARGE = (123456789, 2**31 - 1, 2**32 - 1)


def seeds(count):
    return list(range(count)) + list(LARGE)


def ints(array):
    return tuple(int(v) for v in np.asarray(array).ravel())


def globals_state():
    state = np.random.get_state()
    return (state[0], tuple(int(v) for v in state[1]), state[2], state[3], state[4]), random.getstate(), sympy_random.rng.getstate()


def disturb(k):
    np.random.seed(k)
    random.seed(k + 1)
    sympy_random.seed(k + 2)
    np.random.normal(size=k % 3)
    random.random()


def undisturbed(make, what, sympy_too):
    """Run a seeded construction; numpy's and python's global generators are as before."""
    before = globals_state()
    out = make()
    after = globals_state()
    require(before[0] == after[0], f"{what} disturbs the global state of numpy.random")
    require(before[1] == after[1], f"{what} disturbs the global state of random")
    if sympy_too:
        require(before[2] == after[2], f"{what} disturbs the global state of sympy.core.random")
    return out


def check_seeds(ctx, count, make, key, contract, what, sympy_too=True, distinct=True):
    """make(seed) -> object; key(object) -> hashable."""
    first = {}
    for s in seeds(count):
        disturb(s % 97)
        obj = undisturbed(lambda: make(s), f"{what} with seed {s}", sympy_too)
        contract(obj)
        first[s] = key(obj)
        ctx.trans()
    for i, s in enumerate(reversed(seeds(count))):
        disturb(i)
        require(key(make(s)) == first[s], f"{what} with seed {s} is {first[s]}, and another time {key(make(s))}")
    require(not distinct or len(set(first.values())) > 1, f"{what} is the same for all seeds")
    ctx.state((what, tuple(sorted(first.items()))))


def uniform(ctx, fn, key, want, max_draws, what):
    """All outcomes of fn are in want; all of want occur; equally often (given that it is done within max_draws)."""
    weight, stats = {}, rng.Stats()
    for out, script in rng.explore(fn, max_draws=max_draws, stats=stats):
        k = key(out)
        require(k in want, f"{what} gave {k}")
        weight[k] = weight.get(k, 0.0) + script.prob
        ctx.trans()
    require(not stats.capped, "a draw has too many outcomes")
    require(len(weight) == len(want), f"{what}: {len(weight)} of {len(want)} outcomes occur; missing {sorted(set(want) - set(weight))[:3]}")
    values = list(weight.values())
    require(max(values) - min(values) < 1e-9, f"{what}: outcomes are not equally likely, {dict(list(weight.items())[:8])}")
    require(stats.cut or abs(sum(values) - 1) < 1e-9, f"{what}: total probability {sum(values)}")
    ctx.state((what, tuple(sorted(weight))))


# -- arrays ------------------------------------------------------------------------------------------------------

CONDITIONS = {
    "none": None,
    "nonzero": lambda a: bool(np.any(a)),
    "first": lambda a: np.ravel(np.asarray(a))[0] == 1,
    "all": lambda a: bool(np.all(np.asarray(a) != 0)),
    "sum": lambda a: int(np.sum(np.asarray(a, dtype=int))) % 3 == 1,
}


def case_array(ctx, q, shape, condition, count):
    field = galois.GF(q)
    satisfy = CONDITIONS[condition]
    kwargs = {} if satisfy is None else {"satisfy": satisfy}
    shape = tuple(shape) if isinstance(shape, (list, tuple)) else shape
    dims = shape if isinstance(shape, tuple) else (shape,)
    size = int(np.prod(dims))
    pool = {v for v in itertools.product(range(q), repeat=size) if satisfy is None or satisfy(np.array(v).reshape(dims))}
    if not pool:
        raise Skip

    def contract(a):
        require(type(a) is field and a.shape == dims, f"{a!r} is not an array of shape {dims} over GF({q})")
        require(ints(a) in pool, f"{ints(a)} does not satisfy the condition {condition}")

    def run():
        a = get_random_array(field, shape, **kwargs)
        contract(a)
        return a

    uniform(ctx, run, ints, pool, 3 if len(pool) < q**size and q**size <= 32 else 2, f"random array {q, dims, condition}")
    check_seeds(ctx, count, lambda s: get_random_array(field, shape, seed=s, **kwargs), ints, contract, f"random array {q, dims, condition}", distinct=len(pool) > 2)


# -- codes ---------------------------------------------------------------------------------------------------------


def nontrivial(mat):
    return all(any(r) for r in mat) and all(any(c) for c in zip(*mat))


def case_code(ctx, q, bits, checks, explicit, count):
    field = galois.GF(q)
    pool = {tuple(itertools.chain(*m)) for m in itertools.product(itertools.product(range(q), repeat=bits), repeat=checks) if nontrivial(m)} if q ** (bits * checks) <= 1000 else None
    kwargs = {"field": q} if explicit or q != 2 else {}

    def contract(code):
        require(type(code) is codes.ClassicalCode and code.field is field and code.matrix.shape == (checks, bits), f"random code of shape {code.matrix.shape} over {code.field}")
        require(nontrivial(tup(code.matrix.tolist())), f"random code with a zero row or column: {code.matrix.tolist()}")

    def run():
        code = codes.ClassicalCode.random(bits, checks, **kwargs)
        contract(code)
        return code

    key = lambda code: ints(code.matrix)
    if pool is not None:
        uniform(ctx, run, key, pool, 2 if q ** (bits * checks) <= 64 else 1, f"random code {q, bits, checks}")
    check_seeds(ctx, count, lambda s: codes.ClassicalCode.random(bits, checks, seed=s, **kwargs), key, contract, f"random code {q, bits, checks}", distinct=pool is None or len(pool) > 2)


WORDS = [
    (2, [[1, 1, 0], [0, 1, 1]]), (2, [[1, 1, 1, 1]]), (2, [[0, 0, 0]]), (2, [[1, 0], [0, 1]]), (3, [[1, 2, 0]]), (3, [[1, 1, 1], [0, 1, 2]]), (4, [[1, 2, 3]]), (5, [[1, 4]]), (2, [[1, 1, 0, 0], [1, 1, 0, 0]]),
]


def case_word(ctx, index, count):
    q, rows = WORDS[index]
    f = gf(q)
    n = len(rows[0])
    pool = {v for v in itertools.product(range(q), repeat=n) if not any(f.dot(r, v) for r in rows)}
    code = codes.ClassicalCode(galois.GF(q)(np.array(rows)))

    def contract(word):
        require(type(word) is code.field and word.shape == (n,), f"word {word!r}")
        require(ints(word) in pool, f"{ints(word)} is not a code word")

    uniform(ctx, code.get_random_word, ints, pool, 3, f"random word of {rows}")
    check_seeds(ctx, count, lambda s: code.get_random_word(seed=s), ints, contract, f"random word of {rows}", distinct=len(pool) > 2)


LOGICALS = {
    "c4": (2, [[1, 1, 1, 1]], [[1, 1, 1, 1]]),
    "flip3": (2, [[0, 0, 0]], [[1, 1, 0], [0, 1, 1]]),
    "bs4": (2, [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 0, 1, 0], [0, 1, 0, 1]]),
    "tern3": (3, [[1, 1, 1]], [[1, 2, 0]]),
    "red4": (2, [[1, 1, 1, 1], [1, 1, 1, 1]], [[1, 1, 0, 0]]),
    "state2": (2, [[1, 1]], [[1, 1]]),
}


def case_logical(ctx, name, pauli, ensure, count):
    q, gx, gz = LOGICALS[name]
    f, n = gf(q), len(gx[0])
    code = codes.CSSCode(galois.GF(q)(np.array(gx)), galois.GF(q)(np.array(gz)))
    kind = Pauli.X if pauli == "X" else Pauli.Z
    own, other = (gx, gz) if pauli == "X" else (gz, gx)
    # bare logical operators commute with the gauge group of the other type; trivial ones are gauge operators
    pool = {v for v in itertools.product(range(q), repeat=n) if not any(f.dot(r, v) for r in other)}
    trivial = set(f.span(f.rref(own)[0])) if f.rank(own) else {(0,) * n}
    if ensure:
        pool -= trivial
    if not pool:
        raise Skip

    def contract(op):
        require(type(op) is code.field and op.shape == (n,), f"operator {op!r}")
        require(ints(op) in pool, f"{ints(op)} is not a {'nontrivial ' * ensure}logical {pauli} operator")

    kwargs = {"ensure_nontrivial": True} if ensure else {}
    what = f"random logical operator {name, pauli, ensure}"
    uniform(ctx, lambda: code.get_random_logical_op(kind, **kwargs), ints, pool, 2, what)
    check_seeds(ctx, count, lambda s: code.get_random_logical_op(kind, seed=s, **kwargs), ints, contract, what, distinct=len(pool) > 2)


# -- groups ------------------------------------------------------------------------------------------------------------

GROUPS = [
    ["trivial"], ["cyclic", 1], ["cyclic", 2], ["cyclic", 3], ["cyclic", 5], ["cyclic", 8], ["abelian", 2, 3], ["abelian", 2, 2], ["abelian_sum", 2, 4], ["dihedral", 1], ["dihedral", 2], ["dihedral", 3], ["dihedral", 4],
    ["alternating", 3], ["alternating", 4], ["symmetric", 1], ["symmetric", 3], ["symmetric", 4], ["quaternion"], ["SL", 2, 3, 1], ["PSL", 2, 3, 0], ["product", ["cyclic", 1], ["cyclic", 1]], ["product", ["cyclic", 2], ["symmetric", 3]], ["power", ["cyclic", 1], 2], ["alternating", 2],
]
LARGE_GROUPS = [["symmetric", 9], ["alternating", 6], ["cyclic", 30], ["product", ["symmetric", 5], ["cyclic", 4]], ["SL", 2, 5, 0]]


def form(member):
    return tuple(member.array_form)


def case_member(ctx, desc, count):
    group = build(desc)[0]
    large = desc in LARGE_GROUPS
    members = None if large else {form(g) for g in group.generate()}
    stabiliser = group.to_sympy() if large else None

    def contract(g):
        require(type(g) is abstract.GroupMember, f"{g!r} is not a group member")
        require(form(g) in members if members is not None else stabiliser.contains(g), f"{g} is not in the group {desc}")

    if not large:
        require(len(members) == group.order, "order")
        uniform(ctx, group.random, form, members, 3, f"random member of {desc}")
    check_seeds(ctx, count, lambda s: group.random(seed=s), form, contract, f"random member of {desc}", sympy_too=False, distinct=large or len(members) > 2)
    # a new group that has computed nothing yet
    for s in seeds(3):
        disturb(s % 11)
        require(form(build(desc)[0].random(seed=s)) == form(group.random(seed=s)), f"random member of a new group {desc} with seed {s}")


SUBSETS = [["trivial"], ["cyclic", 1], ["cyclic", 2], ["cyclic", 3], ["cyclic", 4], ["cyclic", 5], ["abelian", 2, 2], ["symmetric", 3], ["dihedral", 4], ["quaternion"], ["cyclic", 7], ["abelian", 2, 3]]


PATHS = {5: 700, 7: 10000}  # draws: number of paths


def feasible(members, size, exclude):
    ident = next(m for m in members if m * m == m)
    rest = [m for m in members if not (exclude and m == ident)]
    singles = sum(1 for m in rest if m * m == ident)
    return 0 < size <= len(rest) and (singles > 0 or size % 2 == 0)


def check_subset(group, members, size, exclude, subset):
    require(isinstance(subset, set) and all(type(m) is abstract.GroupMember for m in subset), f"{subset!r} is not a set of group members")
    require(len(subset) == size, f"a subset of size {len(subset)} instead of {size}")
    require(all(m in members for m in subset), "a subset that is not in the group")
    require(all(~m in subset for m in subset), "a subset that is not symmetric")
    require(not exclude or not any(m * m == m for m in subset), "a subset that contains the identity")


def case_subset(ctx, desc, draws, count):
    group = build(desc)[0]
    members = set(group.generate())
    key = lambda subset: tuple(sorted(form(m) for m in subset))
    for bad in (0, -1, len(members) + 1):
        try:
            group.random_symmetric_subset(bad)
        except ValueError:
            continue
        require(False, f"a symmetric subset of size {bad} of a group of order {len(members)}")
    for exclude in (False, True):
        for size in range(1, len(members) + 1):
            if not feasible(members, size, exclude):
                continue
            kwargs = {"exclude_identity": True} if exclude else {}
            seen, stats = set(), rng.Stats()
            # the number of draws within the budget of paths
            depth = max(d for d in range(1, draws + 1) if d == 1 or len(members) ** d <= PATHS[draws])
            for subset, script in rng.explore(lambda: group.random_symmetric_subset(size, **kwargs), max_draws=depth, stats=stats):
                check_subset(group, members, size, exclude, subset)
                seen.add(key(subset))
                ctx.trans()
            ctx.state((str(desc), size, exclude, tuple(sorted(seen))))
            check_seeds(ctx, count, lambda s: group.random_symmetric_subset(size, seed=s, **kwargs), key, lambda subset: check_subset(group, members, size, exclude, subset), f"symmetric subset of {desc}, {size}, {exclude}", sympy_too=False, distinct=False)


# -- quantum Tanner codes -------------------------------------------------------------------------------------------------

TANNER = [
    (["cyclic", 3], 2, [[1, 1]], None, {}),
    (["cyclic", 4], 2, [[1, 1]], None, {}),
    (["cyclic", 4], 2, [[1, 1, 1]], [[1, 1, 0], [0, 1, 1]], {}),
    (["abelian", 2, 2], 2, [[1]], [[1, 1, 1]], {}),
    (["symmetric", 3], 2, [[1, 1]], None, {}),
    (["cyclic", 5], 2, [[1, 1]], None, {"one_subset": True}),
    (["symmetric", 3], 2, [[1, 1, 0], [0, 1, 1]], None, {"one_subset": True}),
    (["cyclic", 4], 3, [[1, 2]], None, {"field": 3}),
    (["cyclic", 6], 2, [[1]], [[1, 1]], {"bipartite": True}),
    (["symmetric", 3], 2, [[1]], [[1, 1]], {"bipartite": True}),
]


def case_tanner(ctx, index, draws, count):
    desc, q, rows_a, rows_b, kwargs = TANNER[index]
    group = build(desc)[0]
    members = set(group.generate())
    field = galois.GF(q)
    code_a = codes.ClassicalCode(np.array(rows_a), q)
    code_b = codes.ClassicalCode(np.array(rows_b), q) if rows_b is not None else None
    dual = ~code_a
    size_a, size_b = len(rows_a[0]), len(rows_b[0]) if rows_b is not None else len(rows_a[0])

    @functools.lru_cache(maxsize=None)
    def conjugate(a, b):
        return any(a * g == g * b for g in members)

    def make(seed=None):
        args = (code_a, code_b) if code_b is not None else (code_a,)
        if "field" in kwargs:
            args = (np.array(rows_a),) + ((np.array(rows_b),) if rows_b is not None else ())
        try:
            return codes.QTCode.random(group, *args, seed=seed, **kwargs)
        except ValueError as exc:
            return str(exc)

    def key(code):
        if isinstance(code, str):
            return code
        return tuple(sorted(map(form, code.complex.subset_a))), tuple(sorted(map(form, code.complex.subset_b))), ints(code.matrix_x), ints(code.matrix_z)

    def contract(code):
        if isinstance(code, str):
            require(kwargs.get("bipartite") and "Conjugacy" in code, f"refused: {code}")
            return
        a, b = code.complex.subset_a, code.complex.subset_b
        check_subset(group, members, size_a, False, set(a))
        check_subset(group, members, size_b, False, set(b))
        require(not kwargs.get("one_subset") or a == b, "two different subsets")
        require(bool(code.complex.bipartite) == bool(kwargs.get("bipartite")), "bipartite")
        require(not code.complex.bipartite or not any(conjugate(x, y) for x in a for y in b), "conjugate members in a bipartite complex")
        require(code.field is field and np.array_equal(code.code_a.matrix, code_a.matrix), "first seed code")
        require(np.array_equal(code.code_b.matrix, (code_b or dual).matrix), "second seed code")
        again = codes.QTCode(a, b, code_a, code_b or dual, bipartite=bool(kwargs.get("bipartite")))
        require(np.array_equal(again.matrix_x, code.matrix_x) and np.array_equal(again.matrix_z, code.matrix_z), "not the code of its subsets and seed codes")

    seen = {}
    for code, script in rng.explore(make, max_draws=draws, max_paths=1500):
        k = key(code)
        if k not in seen:
            seen[k] = True
            contract(code)
        ctx.trans()
    require(seen, "no code within the bound on the number of draws")
    ctx.state((index, len(seen)))
    check_seeds(ctx, count, make, key, contract, f"random quantum Tanner code {desc}", sympy_too=False, distinct=False)


# -- histories --------------------------------------------------------------------------------------------------------------

_CODE = {}


def fixtures():
    if not _CODE:
        _CODE["css"] = codes.CSSCode(np.ones((1, 4), dtype=int), np.ones((1, 4), dtype=int))
        _CODE["classical"] = codes.ClassicalCode([[1, 1, 0, 1], [0, 1, 1, 0]], 3)
        _CODE["group"] = abstract.SymmetricGroup(4)
    return _CODE


SEEDED = {
    "array": lambda s: ints(get_random_array(galois.GF(5), 4, seed=s)),
    "code": lambda s: ints(codes.ClassicalCode.random(5, 3, seed=s).matrix),
    "word": lambda s: ints(fixtures()["classical"].get_random_word(seed=s)),
    "logical": lambda s: ints(fixtures()["css"].get_random_logical_op(Pauli.X, ensure_nontrivial=True, seed=s)),
    "member": lambda s: form(fixtures()["group"].random(seed=s)),
    "subset": lambda s: tuple(sorted(map(form, fixtures()["group"].random_symmetric_subset(5, exclude_identity=True, seed=s)))),
    "tanner": lambda s: ints(codes.QTCode.random(abstract.CyclicGroup(5), [[1, 1, 0], [0, 1, 1]], seed=s).matrix),
    "member9": lambda s: form(abstract.SymmetricGroup(9).random(seed=s)),
}
USES_SYMPY = {"member", "subset", "tanner", "member9"}
OTHER = {
    "np_seed": lambda: np.random.seed(1),
    "np_draw": lambda: np.random.randint(100, size=3),
    "py_seed": lambda: random.seed(2),
    "py_draw": lambda: random.random(),
    "sympy_seed": lambda: sympy_random.seed(3),
    "unseeded_code": lambda: codes.ClassicalCode.random(3, 2),
    "unseeded_member": lambda: fixtures()["group"].random(),
    "unseeded_subset": lambda: fixtures()["group"].random_symmetric_subset(3),
}


@functools.lru_cache(maxsize=None)
def reference(name, s):
    return SEEDED[name](s)


def case_history(ctx, first, last):
    """All histories (first, anything, last)."""
    ops = [(n, s) for n in SEEDED for s in (0, 7)] + [(n, None) for n in OTHER]

    def apply(n, s):
        if s is None:
            OTHER[n]()
            return
        out = undisturbed(lambda: SEEDED[n](s), f"{n} with seed {s}", n not in USES_SYMPY)
        require(out == reference(n, s), f"{n} with seed {s} is {out}, before it was {reference(n, s)}")

    for n in SEEDED:
        for s in (0, 7):
            reference(n, s)
    for middle in ops:
        np.random.seed(11)
        for op in (first, middle, last):
            apply(*op)
            ctx.trans()
        ctx.state((str(first), str(middle), str(last)))


# -- processes -----------------------------------------------------------------------------------------------------------------


def digest(order):
    """Results of all seeded constructions for a few seeds, made in the given order."""
    names = sorted(SEEDED)
    names = names[order:] + names[:order]
    out = {}
    for n in names:
        for s in (0, 1, 5, 2**31):
            out[f"{n}{s}"] = SEEDED[n](s)
    for s in range(6):
        code = codes.QTCode.random(abstract.SymmetricGroup(3), codes.RepetitionCode(3), seed=s)
        out[f"qt{s}"] = (ints(code.matrix_x), ints(code.matrix_z))
    return hashlib.sha256(json.dumps(out, sort_keys=True).encode()).hexdigest()


def case_process(ctx, order):
    here = digest(0)
    env = dict(os.environ, PYTHONHASHSEED=str(order + 1))
    env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
    done = subprocess.run([sys.executable, "-c", f"from mc.checks import c23; print(c23.digest({order}))"], env=env, capture_output=True, text=True, timeout=300)
    require(done.returncode == 0, f"another process failed: {done.stderr[-500:]}")
    there = done.stdout.strip().splitlines()[-1]
    require(here == there, f"seeded constructions depend on the process: {here} here and {there} in a new process")
    ctx.trans(2)
    ctx.state(here)


CASES = {
    "array": case_array,
    "code": case_code,
    "word": case_word,
    "logical": case_logical,
    "member": case_member,
    "subset": case_subset,
    "tanner": case_tanner,
    "history": case_history,
    "process": case_process,
}


# -- units ---------------------------------------------------------------------------------------------------------------------


def unit_arrays(ctx, q, count):
    for shape in (1, 2, 3, (1, 2), (2, 1), (2, 2)):
        if q ** int(np.prod(shape)) > 300:
            continue
        for condition in CONDITIONS:
            ctx.case("array", {"q": q, "shape": shape, "condition": condition, "count": count})


def unit_codes(ctx, count):
    for q, bits, checks in ((2, 1, 1), (2, 2, 1), (2, 2, 2), (2, 3, 2), (2, 1, 3), (2, 3, 3), (3, 1, 1), (3, 2, 1), (3, 2, 2), (4, 2, 1), (4, 2, 2), (5, 1, 2), (2, 8, 5), (3, 6, 6), (2, 12, 2), (9, 4, 3)):
        for explicit in (False, True):
            ctx.case("code", {"q": q, "bits": bits, "checks": checks, "explicit": explicit, "count": count})


def unit_words(ctx, count):
    for i in range(len(WORDS)):
        ctx.case("word", {"index": i, "count": count})
    for name in LOGICALS:
        for pauli in "XZ":
            for ensure in (False, True):
                ctx.case("logical", {"name": name, "pauli": pauli, "ensure": ensure, "count": count})


def unit_members(ctx, part, parts, count):
    for i, desc in enumerate(GROUPS + LARGE_GROUPS):
        if i % parts == part:
            ctx.case("member", {"desc": desc, "count": count})


def unit_subset(ctx, index, draws, count):
    ctx.case("subset", {"desc": SUBSETS[index], "draws": draws, "count": count})


def unit_tanner(ctx, index, draws, count):
    ctx.case("tanner", {"index": index, "draws": draws, "count": count})


def unit_history(ctx, first):
    ops = [[n, s] for n in SEEDED for s in (0, 7)] + [[n, None] for n in OTHER]
    for last in ops:
        if last[1] is not None:
            ctx.case("history", {"first": ops[first], "last": last})


def unit_process(ctx, order):
    ctx.case("process", {"order": order})


UNITS = {"arrays": unit_arrays, "codes": unit_codes, "words": unit_words, "members": unit_members, "subset": unit_subset, "tanner": unit_tanner, "history": unit_history, "process": unit_process}


def units(tier):
    th = tier == "thorough"
    count = 200 if th else 25
    out = [("process", {"order": i}) for i in range(3)]
    out += [("history", {"first": i}) for i in range(2 * len(SEEDED) + len(OTHER))]
    out += [("tanner", {"index": i, "draws": 6 if th else 4, "count": count}) for i in range(len(TANNER))]
    out += [("subset", {"index": i, "draws": 7 if th else 5, "count": count}) for i in range(len(SUBSETS))]
    out += [("members", {"part": p, "parts": 3, "count": count}) for p in range(3)]
    out += [("arrays", {"q": q, "count": count}) for q in (2, 3, 4, 5)]
    out += [("codes", {"count": count}), ("words", {"count": count})]
    return out
