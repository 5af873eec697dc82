"""C12: built-in groups are groups and their lifts are faithful matrix representations."""

import itertools
import math
import os
import subprocess
import sys
import unittest.mock

import galois
import numpy as np
from qldpc import abstract
from qldpc.abstract import Group, GroupMember

from mc import grp
from mc.core import require
from mc.ref import gf, perm_closure, perm_inv, perm_mul, tup

PROPERTY = "C12"
ASSUMPTIONS = [
    "sympy's permutation composition and galois arithmetic are exact",
    "GAP is not installed: small groups are built from generators supplied in its place",
]
BOUNDS = {
    "quick": "cyclic to 12, abelian: all order tuples with product <= 12 of length <= 3 (incl. order-1 factors), dihedral to 7, alternating/symmetric to 5/4, quaternion, SL/PSL(2,q<=5) and (3,2) in both representations, 20 direct products, all groups of order <= 8 from tables with all relabelings fixing 0 (<= 5 elements) or 24 relabelings, all pairs of invertible 2x2 matrices over GF(2), GF(3); all sequences of 3 observations from 8 on fresh groups; every pair of members for groups of order <= 60",
    "thorough": "cyclic to 24, abelian product <= 24, symmetric to 5, SL/PSL(2,q<=7), (3,3)-generators, all triples of observations for every group, all pairs of matrices over GF(4), all relabelings up to order 6",
}
CASE_TIMEOUT = 300


def build(desc):
    """(library group, reference model, order, has orthogonal lift, base field of the lift or None)."""
    kind, *args = desc
    if kind == "trivial":
        return abstract.TrivialGroup(), grp.abelian(1), True, None
    if kind == "cyclic":
        return abstract.CyclicGroup(*args), grp.abelian(*args), True, None
    if kind == "abelian":
        return abstract.AbelianGroup(*args), grp.abelian(*args), True, None
    if kind == "abelian_sum":
        return abstract.AbelianGroup(*args, direct_sum=True), grp.abelian(*args), True, None
    if kind == "dihedral":
        return abstract.DihedralGroup(*args), grp.dihedral(*args), True, None
    if kind == "alternating":
        return abstract.AlternatingGroup(*args), grp.alternating(*args), True, None
    if kind == "symmetric":
        return abstract.SymmetricGroup(*args), grp.symmetric(*args), True, None
    if kind == "quaternion":
        return abstract.QuaternionGroup(), grp.quaternion(), True, 3
    if kind == "SL":
        d, q, lin = args
        return abstract.SL(d, q, linear_rep=bool(lin)), grp.sl(d, q), False, q
    if kind == "PSL":
        d, q, lin = args
        return abstract.PSL(d, q, linear_rep=bool(lin)), grp.psl(d, q), False, q
    if kind == "product":
        parts = [build(a) for a in args]
        group = Group.product(*[p[0] for p in parts])
        return group, grp.product(*[p[1] for p in parts]), True, None
    if kind == "times":
        parts = [build(a) for a in args]
        group = parts[0][0]
        for p in parts[1:]:
            group = group * p[0]
        return group, grp.product(*[p[1] for p in parts]), True, None
    if kind == "power":
        part = build(args[0])
        return part[0] ** args[1], grp.product(*[part[1]] * args[1]), True, None
    if kind == "repeat":
        part = build(args[0])
        return Group.product(part[0], repeat=args[1]), grp.product(*[part[1]] * args[1]), True, None
    raise KeyError(kind)


def formula(desc):
    kind, *args = desc
    if kind == "trivial":
        return 1
    if kind in ("cyclic", "abelian", "abelian_sum"):
        return math.prod(args)
    if kind == "dihedral":
        return 2 * args[0]
    if kind == "alternating":
        return max(1, math.factorial(args[0]) // 2)
    if kind == "symmetric":
        return math.factorial(args[0])
    if kind == "quaternion":
        return 8
    if kind in ("SL", "PSL"):
        d, q, _ = args
        n = math.prod(q**d - q**j for j in range(d)) // (q - 1)
        return n // math.gcd(d, q - 1) if kind == "PSL" else n
    if kind in ("product", "times"):
        return math.prod(formula(a) for a in args)
    if kind in ("power", "repeat"):
        return formula(args[0]) ** args[1]
    raise KeyError(kind)


def as_model(group):
    """The library group as an abstract model on permutation tuples (my own composition)."""
    members = [tuple(m.array_form) for m in group.generate()]
    return grp.Model(members, perm_mul, tuple(group.identity.array_form))


def mats_mul(q, a, b):
    if q:
        return grp.mat_mul(gf(q), tup(a), tup(b))
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return tup(a @ b)


def check_lift(ctx, group, lift, pairs, q, orthogonal, what, faithful=True):
    members = list(group.generate())
    images = {tuple(m.array_form): tup(lift(m)) for m in members}
    dim = len(next(iter(images.values())))
    ident = tuple(tuple(int(i == j) for j in range(dim)) for i in range(dim))
    require(images[tuple(group.identity.array_form)] == ident, f"{what}: identity")
    if q:
        require(all(0 <= x < q for m in images.values() for r in m for x in r), f"{what}: entries not in the field")
    if faithful:
        require(len(set(images.values())) == len(members), f"{what}: not faithful")
    cache = {}
    for a, b in pairs:
        ta, tb = tuple(a.array_form), tuple(b.array_form)
        want = images[perm_mul(ta, tb)]
        key = (images[ta], images[tb])
        if key not in cache:
            cache[key] = mats_mul(q, *key)
        require(cache[key] == want, f"{what}: product of {ta} and {tb}")
        ctx.trans()
    if orthogonal:
        for ta, m in images.items():
            require(images[perm_inv(ta)] == tuple(zip(*m)), f"{what}: inverse is not the transpose")
    return dim


def pairs_of(group, limit=60):
    members = list(group.generate())
    if len(members) <= limit:
        return list(itertools.product(members, repeat=2))
    gens = list(group.generators)
    return [(a, g) for a in members for g in gens] + [(g, a) for a in members for g in gens]


# -- cases ------------------------------------------------------------------------------------------


def case_group(ctx, desc):
    group, model, orthogonal, q = build(desc)
    order = formula(desc)
    require(model.order == order, "reference model disagrees with the order formula")
    require(group.order == order, f"order {group.order}, expected {order}")
    members = list(group.generate())
    forms = [tuple(m.array_form) for m in members]
    require(len(forms) == order and len(set(forms)) == order, f"{len(forms)} members, {len(set(forms))} distinct")
    require(all(isinstance(m, GroupMember) for m in members), "member type")
    require(all(m in group for m in members), "a member is not contained in the group")
    ident = group.identity
    require(all(ident * m == m and m * ident == m for m in members), "identity")
    gens = [tuple(g.array_form) for g in group.generators]
    require(perm_closure(gens, len(forms[0])) == set(forms), "generators do not generate the members")
    require(group.hashable_generators() == tuple(gens), "hashable generators")
    for i, m in enumerate(members):
        require(group.index(m) == i, f"index of member {i}")
        require(tuple((~m).array_form) == perm_inv(forms[i]) and ~m in group, "inverse")
    abelian = all(model.mul(a, b) == model.mul(b, a) for a in model.elements[:200] for b in model.elements[:200])
    require(bool(group.is_abelian) == abelian, f"is_abelian = {group.is_abelian}")
    pairs = pairs_of(group)
    for a, b in pairs:
        require(tuple((a * b).array_form) == perm_mul(tuple(a.array_form), tuple(b.array_form)), "composition")
    if order <= 60:
        table = group.table
        pos = {f: i for i, f in enumerate(forms)}
        want = [[pos[perm_mul(a, b)] for b in forms] for a in forms]
        require(table.shape == (order, order) and table.tolist() == want, "multiplication table")
        ctx.trans(order * order)
    iso = grp.isomorphism(as_model(group), model)
    require(iso is not None, "not isomorphic to the group of this name")
    if desc[0] in ("cyclic", "abelian"):
        # the generator of each factor has the order of that factor, and members are enumerated in
        # lexicographic order of their exponents
        orders = desc[1:]
        require(len(gens) == len(orders), "one generator per factor")
        for powers, form in zip(itertools.product(*[range(n) for n in orders]), forms):
            want = tuple(range(len(form)))
            for g, p in zip(gens, powers):
                for _ in range(p):
                    want = perm_mul(want, g)
            if desc[0] == "abelian":
                require(form == want, f"member with exponents {powers} is {form}")
    outside = GroupMember(list(range(1, len(forms[0]) + 3)) + [0])
    require(outside not in group, "contains a permutation of another degree")
    try:
        group.index(outside)
    except ValueError:
        pass
    else:
        require(False, "index of a permutation outside the group")
    # lifts
    dim = check_lift(ctx, group, group.lift, pairs, q if group._lift is not None else None, orthogonal, "lift")
    require(group.lift_dim == dim, f"lift_dim {group.lift_dim}")
    if order <= 60:
        rdim = check_lift(ctx, group, group.regular_lift, pairs[:1000], None, True, "regular lift")
        require(rdim == order, "dimension of the regular lift")
        for i, m in enumerate(members):
            reg = group.regular_lift(m)
            for j, h in enumerate(members):
                require(reg[group.index(m * h), j] == 1, "regular lift does not act by left multiplication")
    if desc[0] == "cyclic":
        n = desc[1]
        g = group.generators[0]
        for p in range(n):
            shifts = [tuple(tuple(int((i + s * p) % n == j) for j in range(n)) for i in range(n)) for s in (1, -1)]
            require(tup(group.lift(g**p)) in shifts, f"shift matrix {p}")
    if desc[0] == "SL":
        d, qq, _ = desc[1:]
        mats = abstract.SL.get_generating_mats(d, qq)
        got = {tup(group.lift(g)) for g in group.generators}
        require(got == {tup(m) for m in mats}, "generators are not lifted to the generating matrices")
        require({tup(group.lift(m)) for m in members} == set(model.elements), "lift is not SL")
        listed = [tup(m) for m in abstract.SL.iter_mats(d, qq)]
        require(len(listed) == order and set(listed) == set(model.elements), "iter_mats")
        require(group.dimension == d and group.field.order == qq, "dimension and field")
    if desc[0] == "PSL":
        d, qq, _ = desc[1:]
        f = gf(qq)
        roots = grp.roots_of_unity(f, d)
        listed = [tup(m) for m in abstract.PSL.iter_mats(d, qq)]
        reps = {min(grp.scale(f, s, m) for s in roots) for m in listed}
        require(len(listed) == order and reps == set(model.elements), "iter_mats")
        require(group.dimension == d and group.field.order == qq, "dimension and field")
    # equality and conversion
    again = build(desc)[0]
    require(group == again and again == group, "a group differs from itself")
    other = Group.from_sympy(group.to_sympy())
    require(other == group and other.order == order, "conversion to and from sympy")
    ctx.state(("group", tuple(forms[:50]), order))


OBS = ("order", "generate", "table", "index", "contains", "random", "lift", "regular", "abelian")


def observe(group, what):
    if what == "order":
        return int(group.order)
    if what == "generate":
        return tuple(tuple(m.array_form) for m in group.generate())
    if what == "table":
        return tup(group.table)
    if what == "index":
        gens = list(group.generators)
        return tuple(group.index(g) for g in gens)
    if what == "contains":
        return all(g in group for g in group.generators)
    if what == "random":
        m = group.random(seed=1)
        require(m in group, "random member outside the group")
        return tuple(m.array_form)
    if what == "lift":
        return tuple(tup(group.lift(m)) for m in group.generators)
    if what == "regular":
        return tuple(tup(group.regular_lift(m)) for m in group.generators)
    if what == "abelian":
        return bool(group.is_abelian)
    raise KeyError(what)


def case_history(ctx, desc, first, length):
    """The answers of a group do not depend on what was asked before."""
    base = {o: observe(build(desc)[0], o) for o in OBS}
    for seq in itertools.product(OBS, repeat=length - 1):
        group = build(desc)[0]
        for o in (first, *seq, first):
            got = observe(group, o)
            require(got == base[o], f"{o} after {first},{seq} differs from its answer on a fresh group")
            ctx.trans()
        ctx.state(("history", str(desc), first, seq))


def case_member(ctx, p, r):
    a, b = GroupMember(list(p)), GroupMember(list(r))
    t = a @ b
    want = tuple(p) + tuple(x + len(p) for x in r)
    require(tuple(t.array_form) == want and t.size == len(want), "tensor product")
    mat = tup(a.to_matrix())
    require(mat == tuple(tuple(int(p[i] == j) for j in range(len(p))) for i in range(len(p))), "matrix")
    if len(p) == len(r):
        require(tup((a * b).to_matrix()) == tup(a.to_matrix() @ b.to_matrix()), "matrix of a product")
        perms = list(itertools.permutations(range(len(p))))
        ranks = [GroupMember(list(x)) for x in (p, r)]
        require((ranks[0] < ranks[1]) + (ranks[1] < ranks[0]) + (tuple(p) == tuple(r)) == 1, "total order")
        del perms
    # cycle notation, read back with an independent parser
    text = a.to_gap_cycles()
    back = list(range(len(p)))
    if text != "()":
        require(text.startswith("(") and text.endswith(")"), f"cycles {text}")
        for cyc in text[1:-1].split(")("):
            nums = [int(x) - 1 for x in cyc.split(",")]
            require(len(nums) >= 2, f"cycles {text}")
            for i, x in enumerate(nums):
                back[x] = nums[(i + 1) % len(nums)]
    require(tuple(back) == tuple(p), f"cycle notation {text} of {p}")
    require((a @ b).to_matrix().shape == (len(want), len(want)), "size")
    ctx.trans(5)


def case_gap(ctx, desc):
    group = build(desc)[0]
    text = group.to_gap_group()
    body = text[len("Group(") : -1]
    require(text == f"Group({','.join(g.to_gap_cycles() for g in group.generators)})" and body, f"GAP text {text}")
    # the generators in the text generate the same permutations
    gens, depth, cur = [], 0, ""
    for ch in body:
        if ch == "," and depth == 0:
            gens.append(cur)
            cur = ""
            continue
        depth += {"(": 1, ")": -1}.get(ch, 0)
        cur += ch
    gens.append(cur)
    degree = len(list(group.generate())[0].array_form)
    perms = []
    for g in gens:
        back = list(range(degree))
        for cyc in g[1:-1].split(")("):
            nums = [int(x) - 1 for x in cyc.split(",") if x]
            for i, x in enumerate(nums):
                back[x] = nums[(i + 1) % len(nums)]
        perms.append(tuple(back))
    require(perm_closure(perms, degree) == {tuple(m.array_form) for m in group.generate()}, f"GAP text {text}")
    ctx.trans()


def case_table(ctx, desc, relabel):
    """A group rebuilt from (a relabeling of) its multiplication table."""
    model = build(desc)[1]
    base = grp.table_of(model)
    n = len(base)
    inv = {x: i for i, x in enumerate(relabel)}
    table = [[relabel[base[inv[a]][inv[b]]] for b in range(n)] for a in range(n)]
    tmodel = grp.from_table(table)
    for form in (table, np.array(table), tuple(map(tuple, table))):
        group = Group.from_table(form)
        require(group.order == n, f"order {group.order}")
        require(grp.isomorphism(as_model(group), tmodel) is not None, "not the group of this table")
    if relabel == tuple(range(n)) and all(table[0][j] == j for j in range(n)):
        require(group.identity == GroupMember(list(range(n))), "identity")
    # a lift given on labels: the left-regular representation of the table
    mats = [np.array([[int(table[a][j] == i) for j in range(n)] for i in range(n)]) for a in range(n)]
    for a, b in itertools.product(range(n), repeat=2):
        assert tup(mats[a] @ mats[b]) == tup(mats[table[a][b]])
    group = Group.from_table(table, integer_lift=lambda i: mats[i])
    check_lift(ctx, group, group.lift, pairs_of(group), None, True, "lift by label")
    require({tup(group.lift(m)) for m in group.generate()} == {tup(m) for m in mats}, "labels lost")
    ctx.trans(n * n)


def invertible(d, q):
    f = gf(q)
    out = []
    for flat in itertools.product(range(q), repeat=d * d):
        m = tuple(flat[i * d : (i + 1) * d] for i in range(d))
        if grp.det(f, m):
            out.append(m)
    return out


def case_matrices(ctx, q, mats, form="field"):
    """The group generated by matrices over GF(q), or by integer (signed permutation) matrices if q = 0."""
    mats = [tuple(map(tuple, m)) for m in mats]
    if q:
        F = galois.GF(q)
        args = [F(np.array(m)) for m in mats]
    elif form == "list":
        args = [[list(r) for r in m] for m in mats]
    else:
        args = [np.array(m) for m in mats]
    group = Group.from_generating_mats(*args)

    def mul(a, b):
        return mats_mul(q, a, b)

    d = len(mats[0]) if mats else 1
    ident = tuple(tuple(int(i == j) for j in range(d)) for i in range(d))
    seen, todo = {ident}, [ident]
    while todo:
        x = todo.pop()
        for m in mats:
            y = mul(x, m)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    require(group.order == len(seen), f"order {group.order}, expected {len(seen)}")
    members = list(group.generate())
    require(len(members) == len(seen), "members")
    require({tup(group.lift(m)) for m in members} == seen, "lift does not give the generated matrices")
    check_lift(ctx, group, group.lift, pairs_of(group, 24), q, False, "matrix lift")
    gens = {tup(group.lift(g)) for g in group.generators}
    require(gens <= set(mats) | {ident} and set(mats) - {ident} <= gens, "generators are lifted to other matrices")
    require(group.lift_dim == d, "lift_dim")
    for a, m in zip(args, mats):
        require(tup(a) == m, "argument modified")
    ctx.trans(len(seen))


def case_small(ctx, desc, number):
    """Small groups with the database replaced by supplied generators."""
    source, model, *_ = build(desc)
    n = source.order
    gens = [tuple(g.array_form) for g in source.generators]
    asked = []

    def get(name):
        asked.append(name)
        return gens

    with (
        unittest.mock.patch("qldpc.external.groups.get_small_group_number", return_value=number),
        unittest.mock.patch("qldpc.external.groups.get_generators", side_effect=get),
        unittest.mock.patch("qldpc.external.groups.get_small_group_structure", side_effect=lambda o, i: f"structure {o},{i}"),
    ):
        for index in range(-1, number + 3):
            try:
                group = abstract.SmallGroup(n, index)
            except ValueError:
                require(not 1 <= index <= number, f"index {index} rejected")
                continue
            require(1 <= index <= number, f"index {index} accepted")
            require(group.order == n and grp.isomorphism(as_model(group), model) is not None, "wrong group")
            require(group.structure == f"structure {n},{index}" and group.group_index == index, "labels")
            require(n == 1 or str(group) == f"SmallGroup({n},{index})", f"name {group}")
            check_lift(ctx, group, group.lift, pairs_of(group), None, True, "lift")
            seen = {tuple(group.random(seed=s).array_form) for s in range(8 * n)}
            require(seen <= {tuple(m.array_form) for m in group.generate()}, "random member outside")
            require(n == 1 or len(seen) > 1, "random members are always the same")
            ctx.trans(3)
        groups = list(abstract.SmallGroup.generator(n))
        require([g.group_index for g in groups] == list(range(1, number + 1)), "enumeration of small groups")
        require(abstract.SmallGroup.number(n) == number, "number")
        if n > 1:
            require(set(asked) == {f"SmallGroup({n},{i})" for i in range(1, number + 1)}, f"asked for {set(asked)}")


DIGEST = """
import sys, hashlib
sys.path.insert(0, {verif!r})
sys.path.insert(0, {repo!r})
from mc.checks import c12
import json
out = {{}}
for d in c12.HASHED:
    g = c12.build(d)[0]
    text = repr([tuple(m.array_form) for m in g.generate()]) + repr([c12.tup(g.lift(m)) for m in g.generators]) + repr(g.hashable_generators())
    if d[0] in ("SL", "PSL"):
        text += repr([c12.tup(m) for m in type(g).iter_mats(*d[1:3])])
    out[repr(d)] = hashlib.sha256(text.encode()).hexdigest()
print(json.dumps(out))
"""
HASHED = [
    ("cyclic", 5), ("abelian", 2, 3), ("dihedral", 4), ("symmetric", 4), ("alternating", 4), ("quaternion",),
    ("SL", 2, 3, 1), ("SL", 2, 3, 0), ("PSL", 2, 2, 1), ("PSL", 2, 3, 1), ("PSL", 2, 4, 1), ("PSL", 2, 5, 1), ("PSL", 2, 3, 0),
    ("times", ("cyclic", 2), ("dihedral", 3)),
]


def case_processes(ctx, seeds):
    """Groups are the same in every process (independent of the interpreter's hash seed)."""
    import qldpc

    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    repo = os.path.dirname(os.path.dirname(os.path.abspath(qldpc.__file__)))
    code = DIGEST.format(verif=verif, repo=repo)
    procs = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        procs.append(subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True))
    outs = []
    for p in procs:
        out, err = p.communicate(timeout=200)
        require(p.returncode == 0, f"a fresh process failed: {err[-300:]}")
        outs.append(out.strip().splitlines()[-1])
    import json

    first = json.loads(outs[0])
    for o in outs[1:]:
        now = json.loads(o)
        bad = [k for k in first if now[k] != first[k]]
        require(not bad, f"groups differ between processes: {bad}")
    ctx.trans(len(outs) * len(HASHED))


CASES = {
    f.__name__[5:]: f
    for f in (case_group, case_history, case_member, case_gap, case_table, case_matrices, case_small, case_processes)
}

# -- units ------------------------------------------------------------------------------------------


def abelian_orders(limit, length):
    out = []
    for k in range(1, length + 1):
        for orders in itertools.product(range(1, limit + 1), repeat=k):
            if math.prod(orders) <= limit:
                out.append(orders)
    return out


def descs(tier):
    th = tier == "thorough"
    out = [("trivial",), ("quaternion",)]
    out += [("cyclic", n) for n in range(1, 25 if th else 13)]
    ab = abelian_orders(24 if th else 12, 3)
    out += [("abelian", *o) for o in ab]
    out += [("abelian_sum", *o) for o in ab if math.prod(o) <= 12]
    out += [("dihedral", n) for n in range(1, 13 if th else 8)]
    out += [("alternating", n) for n in range(1, 6)]
    out += [("symmetric", n) for n in range(1, 6 if th else 5)]
    for q in (2, 3, 4, 5) + ((7,) if th else ()):
        for lin in (1, 0):
            if q == 7 and not lin:
                continue
            out += [("SL", 2, q, lin), ("PSL", 2, q, lin)]
    out += [("SL", 3, 2, 1), ("PSL", 3, 2, 1)]
    small = [("trivial",), ("cyclic", 1), ("cyclic", 2), ("cyclic", 3), ("dihedral", 3), ("abelian", 2, 2)]
    for a, b in itertools.product(small, repeat=2):
        out.append(("times", a, b))
    out += [("product", ("cyclic", 2), ("cyclic", 3), ("cyclic", 2)), ("power", ("cyclic", 2), 3), ("power", ("cyclic", 3), 1)]
    out += [("repeat", ("symmetric", 3), 2), ("repeat", ("cyclic", 4), 2), ("times", ("quaternion",), ("cyclic", 2))]
    return out


def unit_groups(ctx, part, of):
    for i, d in enumerate(descs(ctx.tier)):
        if i % of == part:
            ctx.case("group", {"desc": d})


HIST = [
    ("trivial",), ("cyclic", 4), ("abelian", 2, 3), ("abelian", 1, 2), ("dihedral", 3), ("symmetric", 3), ("quaternion",),
    ("SL", 2, 2, 1), ("PSL", 2, 2, 1), ("times", ("cyclic", 2), ("cyclic", 3)), ("alternating", 4), ("SL", 2, 3, 1), ("SL", 2, 2, 0),
]


def unit_history(ctx, part, of):
    hist = HIST[:11] if ctx.tier == "quick" else HIST
    jobs = [(d, o) for d in hist for o in OBS]
    for i, (d, o) in enumerate(jobs):
        if i % of == part:
            ctx.case("history", {"desc": d, "first": o, "length": 3})


def unit_members(ctx):
    n = 4 if ctx.tier == "thorough" else 3
    perms = [p for k in range(n + 1) for p in itertools.permutations(range(k))]
    for p in perms:
        for r in perms:
            ctx.case("member", {"p": p, "r": r})
    for p in itertools.permutations(range(5)):
        ctx.case("member", {"p": p, "r": p[::-1]})
    for d in HIST[1:]:
        ctx.case("gap", {"desc": d})


TABLES = [
    ("trivial",), ("cyclic", 2), ("cyclic", 3), ("cyclic", 4), ("abelian", 2, 2), ("cyclic", 5), ("cyclic", 6), ("symmetric", 3),
    ("cyclic", 7), ("cyclic", 8), ("abelian", 2, 4), ("abelian", 2, 2, 2), ("dihedral", 4), ("quaternion",),
]


def unit_tables(ctx, part, of):
    jobs = []
    for d in TABLES:
        n = formula(d)
        top = 6 if ctx.tier == "thorough" else 5
        if n <= top:
            rel = list(itertools.permutations(range(n)))
        else:
            rel = list(itertools.permutations(range(n)))
            rel = rel[:: max(1, len(rel) // 24)]
        jobs += [(d, r) for r in rel]
    for i, (d, r) in enumerate(jobs):
        if i % of == part:
            ctx.case("table", {"desc": d, "relabel": r})


def unit_matrices(ctx, part, of):
    jobs = [(2, ())]
    for q in (2, 3):
        gl = invertible(2, q)
        jobs += [(q, (a,)) for a in gl] + [(q, (a, b)) for a in gl for b in gl if q == 2 or (a <= b)]
        if q == 2:
            jobs += [(q, (a, b, c)) for a in gl for b in gl for c in gl]
    gl4 = invertible(2, 4)
    jobs += [(4, (a,)) for a in gl4]
    if ctx.tier == "thorough":
        jobs += [(4, (a, b)) for a in gl4[::5] for b in gl4[::7]]
    jobs = [j for j in jobs if j[1]]
    if ctx.tier == "quick":
        jobs = [j for i, j in enumerate(jobs) if j[0] != 3 or len(j[1]) == 1 or i % 6 == 0]
    signed = []
    for p in itertools.permutations(range(2)):
        for s in itertools.product((1, -1), repeat=2):
            signed.append(tuple(tuple(s[i] * int(p[i] == j) for j in range(2)) for i in range(2)))
    jobs += [(0, (a,)) for a in signed] + [(0, (a, b)) for a in signed for b in signed]
    perms = [tuple(tuple(int(p[i] == j) for j in range(3)) for i in range(3)) for p in itertools.permutations(range(3))]
    jobs += [(0, (a, b)) for a in perms for b in perms]
    for i, (q, mats) in enumerate(jobs):
        if i % of == part:
            ctx.case("matrices", {"q": q, "mats": mats})
            if not q:
                ctx.case("matrices", {"q": q, "mats": mats, "form": "list"})


def unit_small(ctx):
    for d in (("trivial",), ("cyclic", 2), ("cyclic", 3), ("abelian", 2, 2), ("symmetric", 3), ("dihedral", 4)):
        for number in (1, 2, 3):
            ctx.case("small", {"desc": d, "number": 1 if d == ("trivial",) else number})


def unit_processes(ctx):
    ctx.case("processes", {"seeds": (0, 1, 2) if ctx.tier == "quick" else tuple(range(8))})


UNITS = {
    "groups": unit_groups, "history": unit_history, "members": unit_members, "tables": unit_tables,
    "matrices": unit_matrices, "small": unit_small, "processes": unit_processes,
}


def units(tier):
    out = [("processes", {})]
    out += [("groups", {"part": i, "of": 16}) for i in range(16)]
    out += [("matrices", {"part": i, "of": 8}) for i in range(8)]
    out += [("history", {"part": i, "of": 8}) for i in range(8)]
    out += [("tables", {"part": i, "of": 6}) for i in range(6)]
    out += [("members", {}), ("small", {})]
    return out
